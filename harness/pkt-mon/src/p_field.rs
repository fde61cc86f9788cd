//! P05 the tree order, P06 fields and texts of a packet
use crate::p_space::{b64, ev};
use crate::refabe;
use crate::refpkt::*;
use abe::ToABE;
use linkspace_pkt::netpkt::cmp::PktCmp;
use linkspace_pkt::netpkt::reroute::RecvPkt;
use linkspace_pkt::read::read_pkt;
use linkspace_pkt::tree_order::*;
use linkspace_pkt::*;
use std::cmp::Ordering;
use vmlib::*;

fn boxed(s: &Spec) -> Result<(NetPktBox, Parsed), Viol> {
    let b = s.bytes();
    let x = parse(&b).map_err(|e| Viol { sig: "harness".into(), msg: format!("reference refuses its own packet: {e}") })?;
    let p = no_panic("read", &|| show(&b), || read_pkt(&b, true).map(|p| p.into_owned()))?;
    match p {
        Ok(p) => Ok((p, x)),
        Err(e) => viol("read", format!("{e:?} for {}", show(&b))),
    }
}
/// the documented order: (group, domain, depth, space, pubkey, create, hash), points without those by hash after them
type Key = (bool, [u8; 32], [u8; 16], usize, Vec<u8>, [u8; 32], u64, [u8; 32]);
fn key(x: &Parsed) -> Key {
    match x.lp {
        None => (true, [0; 32], [0; 16], 0, vec![], [0; 32], 0, x.hash),
        Some((c, g, d)) => (false, g, d, x.comps.len(), sp(&x.comps), x.signed.map(|s| s.0).unwrap_or([0; 32]), c, x.hash),
    }
}
fn hashed<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn tree_one(p: &NetPktBox, x: &Parsed, r: &mut Rng) -> Res {
    let log = gen::u64b(r);
    let w = || format!("{x:?}");
    let t = no_panic("from_pkt", &w, || TreeEntry::from_pkt(log.into(), p))?;
    ensure!(t.is_some() == x.lp.is_some(), "tree-entry", "entry {} for {}", t.is_some(), w());
    let Some(t) = t else { return Ok(()) };
    let (c, g, d) = x.lp.unwrap();
    let pk = x.signed.map(|s| s.0).unwrap_or([0; 32]);
    let bytes = [&g[..], &d, &[x.comps.len() as u8], &sp(&x.comps), &pk].concat();
    let k2 = TreeKey::from_fields(B64(g), AB(d), x.comps.len() as u8, Space::from_unchecked(&sp(&x.comps)), x.signed.map(|s| B64(s.0)).as_ref());
    let k3 = TreeKey::new(bytes.clone());
    let k4 = TreeKey::from(&bytes);
    ensure!(k4.is_some(), "tree-key-refused", "{}", w());
    let k4 = k4.unwrap();
    let kr = t.btree_key();
    for (n, k) in [("from_pkt", t.btree_key.as_ref()), ("from_fields", k2.as_ref()), ("new", k3.as_ref()), ("from", k4.as_ref()), ("as_ref", kr)] {
        ensure!(k.as_bytes() == &bytes[..], "tree-key", "{n}: {} is not {} for {}", show(k.as_bytes()), show(&bytes), w());
        let f = no_panic("fields", &w, || {
            let (g, d, n, s, p) = k.fields();
            (g.0, d.0, n as usize, s.space_bytes().to_vec(), p.0)
        })?;
        ensure!(f == (g, d, x.comps.len(), sp(&x.comps), pk), "tree-key-fields", "{n}: {f:?} for {}", w());
        let f = (k.group().0, k.domain().0, k.space_segments() as usize, k.space().space_bytes().to_vec(), k.pubkey().0);
        ensure!(f == (g, d, x.comps.len(), sp(&x.comps), pk), "tree-key-fields", "{n}: {f:?} for {}", w());
        ensure!(k.pop_key().0 == &bytes[..bytes.len() - 32] && k.take() == &bytes[..], "tree-key-fields", "{n}: {}", w());
    }
    let val = t.val;
    let refd = TreeEntryRef::from_db((&bytes, &val));
    let own = refd.to_owned();
    let a = (t.local_log_ptr().get(), t.hash().0, t.create().get(), t.links_len().get() as usize, t.data_size().get() as usize);
    let want = (log, x.hash, c, x.links.len(), x.data.len());
    ensure!(a == want, "tree-value", "{a:?}, expected {want:?} for {}", w());
    let a = (refd.local_log_ptr().get(), refd.hash().0, refd.create().get(), refd.links_len().get() as usize, refd.data_size().get() as usize);
    ensure!(a == want && own == t, "tree-value", "{a:?}, expected {want:?} for {}", w());
    let txt = no_panic("entry-text", &w, || format!("{t:?} {t} {:?}", t.btree_key))?;
    ensure!(txt.contains(&b64(&x.hash)), "entry-text", "{txt}");
    Ok(())
}
pub fn order_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let n = r.range(2, 9);
    let mut v: Vec<Spec> = vec![];
    for _ in 0..n {
        if v.is_empty() || r.chance(1, 5) {
            let mut s = spec_ok(r);
            s.data.truncate(20);
            s.links.truncate(3);
            if s.kind & 2 != 0 && r.chance(1, 60) {
                // more than a byte counts
                let (n, m) = (r.range(250, 700), r.usize(30_000));
                s.links = (0..n).map(|i| ([i as u8; 16], [(i >> 4) as u8; 32])).collect();
                s.data = vec![b'x'; m];
                o.count("many links");
            }
            v.push(s);
        } else {
            // differ in a field or two from another
            let mut s = r.pick(&v).clone();
            for _ in 0..r.range(0, 2) {
                match r.below(10) {
                    0 if s.kind & 2 != 0 => {
                        let i = r.usize(32);
                        s.group[i] = s.group[i].wrapping_add(*r.pick(&[1, 255, 0x80]));
                    }
                    1 if s.kind & 2 != 0 => {
                        let i = r.usize(16);
                        s.domain[i] = s.domain[i].wrapping_add(*r.pick(&[1, 255, 0x80]));
                    }
                    2 if s.kind & 2 != 0 => s.stamp = s.stamp.wrapping_add(*r.pick(&[1, u64::MAX, 256, 1 << 63])),
                    3 if s.kind & 2 != 0 => s.comps = comps(r),
                    4 if s.comps.len() < 8 && s.kind & 2 != 0 && sp(&s.comps).len() < 200 => s.comps.push(vec![r.u8(); r.range(1, 3)]),
                    5 if !s.comps.is_empty() => {
                        let k = r.usize(s.comps.len());
                        let c = &mut s.comps[k];
                        match r.below(3) {
                            0 if c.len() > 1 => {
                                c.pop();
                            }
                            1 => {
                                let j = r.usize(c.len());
                                c[j] = c[j].wrapping_add(*r.pick(&[1, 255]))
                            }
                            _ => c.push(*r.pick(&[0, 255, 1])),
                        }
                    }
                    6 if s.kind == LINK => s.kind = KEY,
                    7 => s.key = r.usize(3),
                    8 => s.data = vmlib::gen::bytes(r, 4),
                    _ => s.hdr = hdr(r),
                }
            }
            if s.fits() && sp(&s.comps).len() <= 242 && s.comps.iter().all(|c| c.len() <= 200) {
                v.push(s)
            }
        }
    }
    let ps: Vec<(NetPktBox, Parsed)> = v.iter().map(boxed).collect::<Result<_, _>>()?;
    for (p, x) in &ps {
        o.eval();
        tree_one(p, x, r)?;
        o.count(if x.lp.is_some() { "entries" } else { "unindexed" });
    }
    for (a, xa) in &ps {
        for (b, xb) in &ps {
            o.eval();
            let (ca, cb) = (PktCmp(&**a), PktCmp(b));
            let w = || format!("{xa:?}\n and {xb:?}");
            let want = key(xa).cmp(&key(xb));
            let got = no_panic("cmp", &w, || (PktCmp(a).cmp(&PktCmp(b)), PktCmp(a).partial_cmp(&PktCmp(b))))?;
            ensure!(got == (want, Some(want)), "order", "{got:?}, expected {want:?} for {}", w());
            let eq = PktCmp(a) == PktCmp(b);
            ensure!(eq == (xa.hash == xb.hash), "equality", "{eq} for {}", w());
            if eq {
                ensure!(hashed(&ca) == hashed(&cb), "hash-of-equal", "{}", w());
            }
            if let (Some(x), Some(y)) = (TreeEntry::from_pkt(1.into(), a), TreeEntry::from_pkt(1.into(), b)) {
                let e = x.partial_cmp(&y);
                ensure!(e == Some(want), "entry-order", "{e:?}, expected {want:?} for {}", w());
                let k = x.btree_key.as_bytes().cmp(y.btree_key.as_bytes()).then(x.val.cmp(&y.val));
                ensure!(k == want, "byte-order", "the stored bytes compare {k:?}, expected {want:?} for {}", w());
                let k = x.btree_key.cmp(&y.btree_key);
                let (ka, kb) = (key(xa), key(xb));
                let wk = (ka.1, ka.2, ka.3, &ka.4, ka.5).cmp(&(kb.1, kb.2, kb.3, &kb.4, kb.5));
                ensure!(k == wk, "key-order", "{k:?}, expected {wk:?} for {}", w());
                o.count(match (want, wk) {
                    (Ordering::Equal, _) => "pairs:same",
                    (_, Ordering::Equal) => "pairs:same-key",
                    _ => "pairs:differ",
                });
            } else {
                o.count("pairs:unindexed");
            }
        }
    }
    let mut a: Vec<_> = ps.iter().map(|(p, _)| PktCmp(p)).collect();
    let mut b: Vec<_> = ps.iter().map(|(_, x)| key(x)).collect();
    a.sort();
    b.sort();
    ensure!(a.iter().map(|p| p.0.hash_ref().0).eq(b.iter().map(|k| k.7)), "sorted", "{v:?}");
    let set: std::collections::HashSet<_> = ps.iter().map(|(p, _)| PktCmp(p)).collect();
    let want: std::collections::HashSet<_> = ps.iter().map(|(_, x)| x.hash).collect();
    ensure!(set.len() == want.len(), "set", "{v:?}");
    o.distinct(ps.iter().map(|(_, x)| x.hash).collect::<Vec<_>>());
    Ok(())
}
/// the bytes of a field
fn want_bytes(f: FieldEnum, x: &Parsed) -> Vec<u8> {
    use FieldEnum::*;
    let l = x.lp.unwrap_or((0, [0; 32], [0; 16]));
    let s = x.signed.unwrap_or(([0; 32], [0; 64]));
    let c = |i: usize| x.comps.get(i).cloned().unwrap_or_default();
    match f {
        VarNetFlagsF => vec![x.hdr[3]],
        VarHopF => x.hdr[4..8].to_vec(),
        VarStampF => x.hdr[8..16].to_vec(),
        VarUBits0F => x.hdr[16..20].to_vec(),
        VarUBits1F => x.hdr[20..24].to_vec(),
        VarUBits2F => x.hdr[24..28].to_vec(),
        VarUBits3F => x.hdr[28..32].to_vec(),
        PktHashF => x.hash.to_vec(),
        PktTypeF => vec![x.kind],
        SizeF => (x.size as u16).to_be_bytes().to_vec(),
        PubKeyF => s.0.to_vec(),
        SignatureF => s.1.to_vec(),
        GroupIDF => l.1.to_vec(),
        DomainF => l.2.to_vec(),
        CreateF => l.0.to_be_bytes().to_vec(),
        DepthF => vec![x.comps.len() as u8],
        LinksLenF => (x.links.len() as u16).to_be_bytes().to_vec(),
        DataSizeF => (x.data.len() as u16).to_be_bytes().to_vec(),
        SpaceNameF => sp(&x.comps),
        RSpaceNameF => x.rspace.clone(),
        SpaceComp0F => c(0),
        SpaceComp1F => c(1),
        SpaceComp2F => c(2),
        SpaceComp3F => c(3),
        SpaceComp4F => c(4),
        SpaceComp5F => c(5),
        SpaceComp6F => c(6),
        SpaceComp7F => c(7),
        DataF => x.data.clone(),
    }
}
const NAMES: &[(&str, u8)] = &[
    ("netflags", b'f'),
    ("hop", b'j'),
    ("stamp", b's'),
    ("ubits0", b'q'),
    ("ubits1", b'Q'),
    ("ubits2", b'w'),
    ("ubits3", b'W'),
    ("hash", b'h'),
    ("type", b'y'),
    ("size", b'o'),
    ("pubkey", b'k'),
    ("signature", b'v'),
    ("group", b'g'),
    ("domain", b'd'),
    ("create", b'c'),
    ("depth", b'x'),
    ("links_len", b'l'),
    ("data_size", b'B'),
    ("spacename", b'p'),
    ("rspacename", b'P'),
    ("comp0", b'0'),
    ("comp1", b'1'),
    ("comp2", b'2'),
    ("comp3", b'3'),
    ("comp4", b'4'),
    ("comp5", b'5'),
    ("comp6", b'6'),
    ("comp7", b'7'),
    ("data", b'b'),
];
fn be(b: &[u8]) -> u128 {
    b.iter().fold(0, |a, b| a << 8 | *b as u128)
}
fn trim(b: &[u8]) -> &[u8] {
    &b[b.iter().position(|b| *b != 0).unwrap_or(b.len())..]
}
fn lpad(b: &[u8], n: usize) -> Vec<u8> {
    [&vec![0; n.saturating_sub(b.len())][..], b].concat()
}
/// does the text show the field's value?
fn text_ok(f: FieldEnum, t: &str, x: &Parsed) -> bool {
    use FieldEnum::*;
    let b = want_bytes(f, x);
    match f {
        VarNetFlagsF => t.starts_with("NetFlags(") && t.ends_with(')'),
        VarHopF | VarStampF | VarUBits0F | VarUBits1F | VarUBits2F | VarUBits3F | SizeF | CreateF | DepthF | LinksLenF | DataSizeF => t == be(&b).to_string(),
        PktHashF | PubKeyF | SignatureF | GroupIDF => t == b64(&b),
        PktTypeF => {
            t == match x.kind {
                DATA => "DataPoint",
                LINK => "LinkPoint",
                KEY => "KeyPoint",
                _ => "ErrorPoint",
            }
        }
        DomainF => t == refabe::enc(trim(&b)) || refabe::dec(t.as_bytes()).is_ok_and(|d| d == b),
        SpaceNameF | RSpaceNameF => space_str(t).is_ok_and(|s| s.space_bytes() == sp(&x.comps)),
        _ => t == refabe::enc(&b),
    }
}
/// does the expression give the field's value?
fn expr_ok(f: FieldEnum, t: &str, x: &Parsed, sc: &dyn abe::eval::Scope) -> Result<(), String> {
    use FieldEnum::*;
    let b = want_bytes(f, x);
    let g = match f {
        SpaceNameF | RSpaceNameF => return if space_str(t).is_ok_and(|s| s.space_bytes() == sp(&x.comps)) { Ok(()) } else { Err(format!("reads as {:?}", space_str(t))) },
        DomainF => ev(t, sc).map(|v| lpad(&v, 16)),
        _ => ev(t, sc),
    };
    if g.as_ref() == Ok(&b) {
        Ok(())
    } else {
        Err(format!("evaluates to {g:?}, expected {b:?}"))
    }
}
pub fn field_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec_ok(r);
    if s.data.len() > 300 {
        s.data.truncate(300)
    }
    let (p, x) = boxed(&s)?;
    let pkt: &dyn NetPkt = &p;
    let sc = (abe::scope::basic_scope(), abe::eval::EScope(SpaceFE), pkt_scope(pkt));
    let w = |f: FieldEnum| move |s: &Spec| format!("field {f} of {s:?}");
    ensure!(FieldEnum::LIST.len() == NAMES.len(), "list", "{}", FieldEnum::LIST.len());
    for (n, t) in NAMES {
        o.eval();
        let f = FieldEnum::try_from_name(n);
        ensure!(f.is_some() && FieldEnum::LIST.contains(&f.unwrap()), "unknown-field", "{n}");
        let f = f.unwrap();
        ensure!(FieldEnum::try_from_id(n.as_bytes()) == Some(f) && FieldEnum::try_from_id(&[*t]) == Some(f) && n.parse::<FieldEnum>().ok() == Some(f), "field-name", "{n}");
        let i = f.info();
        ensure!(i.name == *n && i.token == *t && f.to_string() == *n, "field-info", "{n}");
        ensure!(f as u8 == *t, "field-token", "{n}");
        let w = || w(f)(&s);
        let want = want_bytes(f, &x);
        let mut out = vec![];
        no_panic("bytes", &w, || f.bytes(pkt, &mut out))?.ok();
        ensure!(out == want, "field-bytes", "{out:?}, expected {want:?}: {}", w());
        if let Some(k) = f.fixed_size() {
            ensure!(out.len() == k, "fixed-size", "{n} {k}");
        } else {
            ensure!(matches!(*t, b'p' | b'P' | b'b' | b'0'..=b'7'), "fixed-size", "{n}");
        }
        let mut txt = vec![];
        let ok = no_panic("display", &w, || f.display(pkt, &mut txt).is_ok())?;
        let txt = String::from_utf8(txt).unwrap_or_default();
        ensure!(ok && text_ok(f, &txt, &x), "field-text", "{txt:?}: {}", w());
        let e = no_panic("into_abe", &w, || f.into_abe(pkt))?;
        if let Err(m) = expr_ok(f, &e, &x, &sc) {
            return viol("field-expr", format!("{e:?} {m}: {}", w()));
        }
        // the same through an expression
        for (arg, want) in [("", &want[..]), (":", &want[..]), (":bytes", &want[..]), (":str", txt.as_bytes()), (":abe", e.as_bytes())] {
            let t = format!("[{n}{arg}]");
            let g = no_panic("eval", &w, || ev(&t, &sc))?;
            ensure!(g.as_ref().is_ok_and(|g| g == want), "scope", "{t} gives {g:?}, expected {want:?}: {}", w());
        }
        let bad = format!("[{n}:{}]", *r.pick(&["x", "abe:str", "bytes2", "abe2"]));
        let g = no_panic("eval", &w, || ev(&bad, &sc))?;
        ensure!(g.is_err(), "scope-bad", "{bad} gives {g:?}");
        // encoding the bytes as an expression of the field
        let b = if f == FieldEnum::RSpaceNameF { sp(&x.comps) } else { want.clone() };
        let g = no_panic("try_to_abe", &w, || f.try_to_abe(abe::eval::ABList::from(&b[..])).map(|l| abe::ast::print_abe(l)))?;
        match g {
            None => return viol("try-to-abe", format!("no expression for the bytes {}: {}", show(&b), w())),
            Some(t) => {
                if let Err(m) = expr_ok(f, &t, &x, &sc) {
                    return viol("try-to-abe", format!("{t:?} {m}: {}", w()));
                }
            }
        }
        o.count("fields");
    }
    // the parts a router may write
    let mut h = p.net_header();
    for (n, at) in [("netflags", 3..4), ("hop", 4..8), ("stamp", 8..16), ("ubits0", 16..20), ("ubits1", 20..24), ("ubits2", 24..28), ("ubits3", 28..32)] {
        let f = FieldEnum::try_from_name(n).unwrap();
        let mut new = x.hdr;
        let mut val = r.bytes(at.len());
        if n == "netflags" {
            val[0] &= 0x0f
        }
        new[at.clone()].copy_from_slice(&val);
        h = NetPktHeader::cfrom(x.hdr);
        match f.mut_route(&mut h) {
            Some(m) if m.len() == at.len() => m.copy_from_slice(&val),
            m => return viol("mut-route", format!("{n}: {m:?}")),
        }
        ensure!(h.cinto() == new, "mut-route", "{n}");
    }
    for f in FieldEnum::LIST {
        ensure!(f.mut_route(&mut h).is_some() == VAR_FIELDS.contains(&f), "mut-route", "{f}");
    }
    let v = (VarHopF::get_val(&p), VarUBits2F::get_val(&p), VarStampF::get_val(&p), SizeF::get_val(&p), DomainF::get_val(&p));
    let wv = (be(&x.hdr[4..8]) as u32, be(&x.hdr[24..28]) as u32, be(&x.hdr[8..16]) as u64, x.size as u16, x.lp.map(|l| be(&l.2)).unwrap_or(0));
    ensure!(v == wv, "values", "{v:?}, expected {wv:?}");
    o.count(&format!("kind:{:#x}", x.kind));
    o.distinct(x.hash);
    o.sample(|| format!("{s:?}").chars().take(300).collect());
    Ok(())
}
fn py_slice(n: usize, a: Option<i64>, b: Option<i64>, st: i64) -> Vec<usize> {
    let n = n as i64;
    let fix = |v: i64, lo: i64, hi: i64| if v < 0 { (v + n).clamp(lo, hi) } else { v.clamp(lo, hi) };
    let (lo, hi) = if st > 0 { (0, n) } else { (-1, n - 1) };
    let mut i = a.map(|v| fix(v, lo, hi)).unwrap_or(if st > 0 { lo } else { hi });
    let e = b.map(|v| fix(v, lo, hi)).unwrap_or(if st > 0 { hi } else { lo });
    let mut out = vec![];
    while if st > 0 { i < e } else { i > e } {
        out.push(i as usize);
        i += st;
    }
    out
}
pub fn links_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec_ok(r);
    s.data.truncate(50);
    s.links.truncate(12);
    let (p, x) = boxed(&s)?;
    let recv = gen::u64b(r);
    let rp = RecvPkt { recv: recv.into(), pkt: &p };
    let pkt: &dyn NetPkt = if r.bool() { &rp } else { &p };
    let sc = (abe::scope::basic_scope(), abe::eval::EScope(SpaceFE), pkt_scope(pkt));
    let e = |t: &str| no_panic("eval", &|| format!("{t} on {s:?}"), || ev(t, &sc));
    let line = |l: &RLink| format!("{}:{}", AB(l.0), b64(&l.1));
    let all = &x.links;
    // tags read back
    for l in all {
        let t = AB(l.0).to_string();
        ensure!(refabe::dec(t.as_bytes()).is_ok_and(|d| lpad(&d, 16) == l.0) || l.0[0] == 255, "tag-text", "{t} for {:?}", l.0);
    }
    o.eval();
    let join = |ix: &[usize], d: &str| ix.iter().map(|i| line(&all[*i])).collect::<Vec<_>>().join(d).into_bytes();
    let full: Vec<usize> = (0..all.len()).collect();
    let g = e("[links]")?;
    ensure!(g == Ok(join(&full, "\n")), "links", "{g:?} for {all:?}");
    let d = *r.pick(&["", ",", " ", "--"]);
    let g = e(&format!("[links:{d}]"))?;
    ensure!(g == Ok(join(&full, d)), "links", "{g:?} for {all:?}");
    let b = |r: &mut Rng| if r.chance(1, 4) { None } else { Some(r.range(0, 2 * all.len() + 4) as i64 - all.len() as i64 - 2) };
    let (a, z, st) = (b(r), b(r), *r.pick(&[1i64, 1, 2, 3, -1, -1, -2]));
    let fm = |v: Option<i64>| v.map(|v| v.to_string()).unwrap_or_default();
    let t = format!("[links:{d}:{}:{}:{st}]", fm(a), fm(z));
    let g = e(&t)?;
    ensure!(g == Ok(join(&py_slice(all.len(), a, z, st), d)), "links-slice", "{t} gives {g:?}, expected {:?} of {all:?}", py_slice(all.len(), a, z, st));
    o.count("sliced");
    // by tag suffix
    let tag = if !all.is_empty() && r.chance(4, 5) { r.pick(all).0 } else { a16(r) };
    let k = r.range(0, 16);
    let suf = &tag[k..];
    let t = format!("[link:{}]", suf.iter().map(|b| format!("\\x{b:02x}")).collect::<String>());
    let g = e(&t)?;
    match all.iter().find(|l| l.0.ends_with(suf)) {
        Some(l) => {
            ensure!(g.as_ref().is_ok_and(|g| *g == l.1), "link", "{t} gives {g:?}, expected {l:?}");
            o.count("link:found");
        }
        None => {
            ensure!(g.is_err(), "link-missing", "{t} gives {g:?} for {all:?}");
            o.count("link:missing");
        }
    }
    let sl = SelectLink(pkt.as_point().get_links());
    ensure!(sl.first_tailmask(suf).map(|l| (l.tag.0, l.ptr.0)) == all.iter().find(|l| l.0.ends_with(suf)).copied(), "tailmask", "{suf:?} {all:?}");
    ensure!(sl.first_eq(AB(tag)).map(|l| (l.tag.0, l.ptr.0)) == all.iter().find(|l| l.0 == tag).copied(), "first-eq", "{tag:?} {all:?}");
    ensure!(sl.first_tailmask(&[0; 17]).is_none(), "tailmask", "17 bytes");
    // for each link
    let g = e("[/links:[i:str] [ptr:str] [tag:abe]|[i][tag][ptr];]")?;
    let mut want = vec![];
    let mut exprs = vec![];
    for (i, l) in all.iter().enumerate() {
        want.extend(format!("{i} {} ", b64(&l.1)).into_bytes());
        want.extend(AB(l.0).to_abe_str().into_bytes());
        exprs.push(AB(l.0).to_abe_str());
        want.push(b'|');
        want.extend((i as u16).to_be_bytes());
        want.extend(l.0);
        want.extend(l.1);
        want.push(b';');
    }
    ensure!(g.as_ref() == Ok(&want), "each-link", "{g:?}, expected {want:?}");
    for (t, l) in exprs.iter().zip(all) {
        let g = e(t)?;
        ensure!(g.as_ref().is_ok_and(|g| lpad(g, 16) == l.0), "tag-expr", "{t} {g:?} for {l:?}");
    }
    let g = e("[/links:[ptr:abe]]")?.and_then(|t| ev(&String::from_utf8(t).unwrap_or_default(), &sc));
    ensure!(g == Ok(all.iter().flat_map(|l| l.1).collect()), "ptr-expr", "{g:?} for {all:?}");
    o.add("links", all.len() as u64);
    // when it was received
    let has = pkt.recv().is_some();
    let t0 = now().get();
    let g = [e("[recv]")?, e("[recv_now]")?, e("[recv:str]")?, e("[recv_now:abe]")?.and_then(|t| ev(&String::from_utf8(t).unwrap_or_default(), &sc))];
    let rb = Ok(recv.to_be_bytes().to_vec());
    if has {
        ensure!(g == [rb.clone(), rb.clone(), Ok(recv.to_string().into_bytes()), rb], "recv", "{g:?} for {recv}");
        o.count("recv:known");
    } else {
        ensure!(g[1].is_err() && g[3].is_err(), "recv-unknown", "{g:?}");
        let t = g[0].as_ref().map(|b| be(b) as u64).unwrap_or(0);
        ensure!(t >= t0 && t <= now().get(), "recv-now", "{g:?}");
        o.count("recv:unknown");
    }
    let g = e("[netbytes]")?;
    ensure!(g == Ok([&x.hdr[..], &x.hash, &x.point].concat()), "netbytes", "{g:?}");
    o.distinct((all.clone(), d, a, z, st));
    Ok(())
}
/// split html into its texts: (name and attributes of the innermost element, text directly in it); None when malformed
fn html(t: &str) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    let mut open: Vec<String> = vec![];
    let mut s = t;
    while !s.is_empty() {
        if let Some(rest) = s.strip_prefix('<') {
            let end = rest.find('>').ok_or("unclosed tag")?;
            let tag = &rest[..end];
            s = &rest[end + 1..];
            if let Some(name) = tag.strip_prefix('/') {
                let o = open.pop().ok_or_else(|| format!("</{name}> closes nothing"))?;
                if o.split_whitespace().next() != Some(name) {
                    return Err(format!("</{name}> closes <{o}>"));
                }
            } else {
                let name = tag.split_whitespace().next().unwrap_or("");
                if !["div", "span", "ol", "li", "pre"].contains(&name) {
                    return Err(format!("unexpected element <{tag}>"));
                }
                // attributes are name='value' without markup
                let mut a = tag[name.len()..].trim();
                while !a.is_empty() {
                    let (k, rest) = a.split_once("='").ok_or_else(|| format!("attribute in <{tag}>"))?;
                    let (v, rest) = rest.split_once('\'').ok_or_else(|| format!("attribute in <{tag}>"))?;
                    if !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '-') || v.contains(['<', '>', '&']) {
                        return Err(format!("attribute {k} = {v}"));
                    }
                    a = rest.trim_start();
                }
                open.push(tag.to_string());
            }
            continue;
        }
        let end = s.find('<').unwrap_or(s.len());
        let raw = &s[..end];
        s = &s[end..];
        let mut txt = String::new();
        let mut q = raw;
        while let Some(i) = q.find('&') {
            txt += &q[..i];
            let e = q[i..].find(';').ok_or_else(|| format!("entity in {raw:?}"))?;
            txt.push(match &q[i..i + e + 1] {
                "&amp;" => '&',
                "&lt;" => '<',
                "&gt;" => '>',
                "&quot;" => '"',
                "&#39;" | "&apos;" | "&#x27;" => '\'',
                x => return Err(format!("entity {x:?}")),
            });
            q = &q[i + e + 1..];
        }
        txt += q;
        if txt.contains('>') && raw.contains('>') {
            return Err(format!("bare > in {raw:?}"));
        }
        out.push((open.last().cloned().unwrap_or_default(), txt));
    }
    if !open.is_empty() {
        return Err(format!("unclosed {open:?}"));
    }
    Ok(out)
}
pub fn text_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec_ok(r);
    s.links.truncate(6);
    s.data.truncate(2000);
    const BITS: &[&str] = &["<b>", "&amp", "&;", "</pre>", "&lt;", "<script>", "'", "\"", "\u{e9}", "\u{1F600}", "\n", "\t", "[x]", "\\", " ", "a", ">", "<", "&"];
    if r.chance(2, 3) {
        s.data = (0..r.usize(12)).flat_map(|_| r.pick(BITS).bytes()).collect();
        if r.chance(1, 4) {
            s.data.push(r.u8() | 0x80);
        }
    }
    if s.kind & 2 != 0 && r.chance(1, 2) {
        let t: Vec<u8> = (0..5).flat_map(|_| r.pick(BITS).bytes()).collect();
        let n = t.len().min(16);
        s.domain = lpad(&t[..n], 16).try_into().unwrap();
        s.comps = vec![t.clone(), vec![b'<'], t.clone()];
        if let Some(l) = s.links.first_mut() {
            l.0 = s.domain
        }
        if !s.fits() {
            s.data.clear();
        }
        if !s.fits() {
            s.links.clear();
        }
    }
    if s.kind & 2 != 0 && r.chance(1, 3) {
        s.group = *r.pick(&[[0; 32], crate::refpkt::PUBLIC, crate::refpkt::test_group()]);
    }
    let (p, x) = boxed(&s)?;
    let recv = gen::u64b(r);
    let rp = RecvPkt { recv: recv.into(), pkt: &p };
    let has = r.bool();
    let pkt: &dyn NetPkt = if has { &rp } else { &p };
    let sc = (abe::scope::basic_scope(), abe::eval::EScope(SpaceFE), pkt_scope(pkt));
    let w = || format!("{s:?}");
    let e = |t: &str| no_panic("eval", &|| format!("{t} on {s:?}"), || ev(t, &sc));
    let tagtxt = |l: &RLink| AB(l.0).as_str(true).into_owned();
    // the listing
    let add = r.bool();
    let lim = if r.bool() { usize::MAX } else { r.usize(20) };
    let mut q = String::new();
    ensure!(no_panic("to_str", &w, || PktFmt(pkt).to_str(&mut q, add, lim).is_ok())?, "to-str", "{}", w());
    let data = String::from_utf8_lossy(&x.data[..x.data.len().min(lim)]).into_owned();
    let l = x.lp.unwrap_or((0, [0; 32], [0; 16]));
    let head = |t: &str, what: &str, tail: &str| -> Result<(), Viol> {
        let mut lines = t.splitn(if add && what == "quick" { 10 } else { 9 } + x.links.len(), '\n');
        let mut want: Vec<(&str, Box<dyn Fn(&str) -> bool>)> = vec![];
        if add && what == "quick" {
            let v = if has { recv.to_string() } else { "???".into() };
            want.push(("recv", Box::new(move |t| t == v)));
        }
        let scr = &sc;
        let group = |k: [u8; 32]| {
            move |t: &str| match t {
                "[#:0]" => k == [0; 32],
                "[#:pub]" => k == crate::refpkt::PUBLIC,
                "[#:test]" => k == crate::refpkt::test_group(),
                t => ev(t, scr).is_ok_and(|v| v == k),
            }
        };
        let kind = FieldEnum::PktTypeF;
        let xx = x.clone();
        want.push(("type", Box::new(move |t| text_ok(kind, t, &xx))));
        let h = b64(&x.hash);
        want.push(("hash", Box::new(move |t| t == h)));
        want.push(("group", Box::new(group(l.1))));
        let xx = x.clone();
        want.push(("domain", Box::new(move |t| text_ok(FieldEnum::DomainF, t, &xx))));
        let xx = x.clone();
        want.push(("space", Box::new(move |t| text_ok(FieldEnum::SpaceNameF, t, &xx))));
        want.push(("pubkey", Box::new(group(x.signed.map(|s| s.0).unwrap_or([0; 32])))));
        want.push(("create", Box::new(move |t| t == l.0.to_string())));
        let n = x.links.len();
        want.push(("links", Box::new(move |t| t == n.to_string())));
        for li in &x.links {
            let v = format!("{} {}", tagtxt(li), b64(&li.1));
            want.push(("", Box::new(move |t| t == v)));
        }
        for (k, f) in want {
            let got = lines.next().unwrap_or("<missing>");
            let ok = got.split_once('\t').is_some_and(|(a, b)| a == k && f(b));
            ensure!(ok, "listing", "{what}: the line {k:?} is {got:?} in {t:?} for {}", w());
        }
        let rest = lines.collect::<Vec<_>>().join("\n");
        ensure!(rest == tail, "listing-data", "{what}: ends with {rest:?}, expected {tail:?} for {}", w());
        Ok(())
    };
    o.eval();
    head(&q, "quick", &format!("data\t{}\n{data}", x.data.len()))?;
    let arg = match (add, lim) {
        (true, usize::MAX) => ":true".into(),
        (true, n) => format!(":true:{n}"),
        (false, usize::MAX) => (*r.pick(&["", ":", ":false"])).to_string(),
        (false, n) => format!(":false:{n}"),
    };
    let g = e(&format!("[pkt-quick{arg}]"))?;
    ensure!(g.as_ref().is_ok_and(|g| g == q.as_bytes()), "pkt-quick", "{g:?} is not {q:?}");
    let all = format!("data\t{}\n{}\n", x.data.len(), String::from_utf8_lossy(&x.data));
    for n in ["pkt", "netpkt", "point"] {
        o.eval();
        let g = e(&format!("[{n}]"))?;
        let Ok(Ok(t)) = g.clone().map(String::from_utf8) else { return viol("pkt", format!("[{n}] gives {g:?} for {}", w())) };
        // each link line starts with a tab and ends with a newline, and one more newline follows them
        let t2 = t.replacen(&format!("\n\ndata\t{}\n", x.data.len()), &format!("\ndata\t{}\n", x.data.len()), 1);
        head(&t2, n, &all)?;
    }
    for t in [no_panic("pkt_fmt", &w, || pkt_fmt(pkt))?, no_panic("netpkt_fmt", &w, || netpkt_fmt(pkt))?, no_panic("point_fmt", &w, || point_fmt(pkt))?] {
        ensure!(e("[pkt]")?.is_ok_and(|g| g == t.as_bytes()), "pkt-fmt", "{t:?}");
    }
    // the web view
    let with = r.bool();
    let mut h = String::new();
    ensure!(no_panic("to_html", &w, || PktFmt(pkt).to_html(&mut h, with, None).is_ok())?, "to-html", "{}", w());
    o.eval();
    match html(&h) {
        Err(m) => return viol("html", format!("{m} in {h} for {}", w())),
        Ok(v) => {
            let of = |p: &str| v.iter().filter(|(t, _)| t.starts_with(p)).map(|(_, x)| x.clone()).collect::<String>();
            if with {
                let want = String::from_utf8_lossy(&x.data).into_owned();
                ensure!(of("pre lk-data") == want, "html-data", "shows {:?}, expected {want:?}", of("pre lk-data"));
            }
            if x.lp.is_some() {
                ensure!(of("span lk-domain") == AB(l.2).as_str(true), "html-domain", "{:?} for {:?}", of("span lk-domain"), l.2);
                for (i, c) in x.comps.iter().enumerate() {
                    let t = of(&format!("li lk-space{i}="));
                    ensure!(t == refabe::enc(c), "html-space", "{t:?} for {c:?}");
                }
                let tags: Vec<_> = v.iter().filter(|(t, _)| t.starts_with("span lk-tag")).map(|(_, x)| x.clone()).collect();
                let want: Vec<_> = x.links.iter().map(|l| tagtxt(l)).filter(|t| !t.is_empty()).collect();
                ensure!(tags == want, "html-tags", "{tags:?}, expected {want:?}");
                ensure!(of("span lk-create") == l.0.to_string(), "html-create", "{h}");
            }
            o.count("html");
        }
    }
    ensure!(h.contains(&format!("lk-point='{}'", b64(&x.hash))), "html-hash", "{h}");
    if with {
        ensure!(e("[html-quick]")?.is_ok_and(|g| g == h.as_bytes()), "html-quick", "{h}");
    }
    o.count("listed");
    o.distinct(x.hash);
    Ok(())
}
pub fn stamp_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    use std::time::Duration;
    let (a, b) = (gen::u64b(r), gen::u64b(r));
    let dur = match r.below(4) {
        0 => Duration::from_micros(gen::u64b(r)),
        1 => Duration::MAX,
        2 => Duration::new(gen::u64b(r), r.below(1_000_000_000) as u32),
        _ => Duration::from_nanos(gen::u64b(r)),
    };
    o.eval();
    let m = dur.as_micros();
    let w = || format!("{a} {b} {dur:?}");
    let s = Stamp::new(a);
    let g = no_panic("stamps", &w, || (stamp_add(s, dur).get(), checked_stamp_add(s, dur).map(|s| s.get()), stamp_sub(s, dur).get(), checked_stamp_sub(s, dur).map(|s| s.get())))?;
    let sum = a as u128 + m;
    let want = (sum.min(u64::MAX as u128) as u64, u64::try_from(sum).ok(), (a as u128).saturating_sub(m) as u64, (a as u128).checked_sub(m).map(|v| v as u64));
    // a longer duration than a stamp can hold counts as the longest one
    ensure!(g == want || m > u64::MAX as u128, "stamp-arith", "{g:?}, expected {want:?} for {}", w());
    if m > u64::MAX as u128 {
        ensure!(g.0 == u64::MAX && g.2 == 0, "stamp-arith", "{g:?} for {}", w());
    }
    let g = no_panic("stamp_sub_stamp", &w, || stamp_sub_stamp(a.into(), b.into()).map(|s| s.get()).map_err(|s| s.get()))?;
    ensure!(g == if a > b { Ok(a - b) } else { Err(b - a) }, "stamp-diff", "{g:?} for {}", w());
    ensure!(as_duration(s) == Duration::from_micros(a), "stamp-duration", "{a}");
    let t = a % (1 << 62);
    let g = no_panic("systime", &w, || from_systime(as_systime(t.into())).get())?;
    ensure!(g == t, "stamp-systime", "{t} became {g}");
    let t0 = now().get();
    let d = r.range(1_000_000, 1 << 40) as u64;
    let old = no_panic("age", &w, || stamp_age((t0 - d).into()))?;
    let fut = no_panic("age", &w, || stamp_age((t0 + d + 10_000_000_000).into()))?;
    let t1 = now().get();
    ensure!(old.is_ok_and(|x| (d..=d + (t1 - t0)).contains(&(x.as_micros() as u64))), "stamp-age", "{old:?} {d}");
    ensure!(fut.is_err_and(|x| x.as_micros() as u64 <= d + 10_000_000_000 && x.as_micros() as u64 >= d + 10_000_000_000 - (t1 - t0)), "stamp-age", "{fut:?} {d}");
    o.count("stamps");
    o.distinct((a, b, m));
    Ok(())
}
const A: &[&str] = &["built against /repo/crates/pkt with stand-ins for crates that are not installed (see DESIGN.md)"];
pub static P05: Prop = Prop {
    id: "P05",
    stages: &[Stage { name: "order", quick: 24_000, thorough: 120_000, run: order_stage }],
    rule: "distinct sets of packets compared pairwise",
    assumptions: A,
    floors: &["entries", "unindexed", "pairs:same", "pairs:same-key", "pairs:differ", "pairs:unindexed", "many links"],
    opts: OPTS,
};
pub static P06: Prop = Prop {
    id: "P06",
    stages: &[
        Stage { name: "fields", quick: 10_000, thorough: 40_000, run: field_stage },
        Stage { name: "links", quick: 30_000, thorough: 120_000, run: links_stage },
        Stage { name: "texts", quick: 30_000, thorough: 100_000, run: text_stage },
        Stage { name: "stamps", quick: 50_000, thorough: 100_000, run: stamp_stage },
    ],
    rule: "distinct packets, link selections and stamp sums",
    assumptions: A,
    floors: &["fields", "kind:0x1", "kind:0x3", "kind:0x7", "kind:0x80", "sliced", "link:found", "link:missing", "recv:known", "recv:unknown", "listed", "html", "stamps"],
    opts: OPTS,
};
