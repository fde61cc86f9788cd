//! P01 hostile bytes, P02 building, P03 authenticity, P07 representations
use crate::judge;
use crate::refpkt::*;
use linkspace_pkt::netpkt::reroute::{RecvPkt, ReroutePkt, ShareArcPkt};
use linkspace_pkt::read::read_pkt;
use linkspace_pkt::*;
use vmlib::*;

/// bytes lying against an inaccessible page
pub struct Guard {
    base: *mut u8,
    len: usize,
}
impl Guard {
    pub fn get() -> &'static Guard {
        struct S(Guard);
        unsafe impl Sync for S {}
        unsafe impl Send for S {}
        static G: std::sync::OnceLock<S> = std::sync::OnceLock::new();
        &G.get_or_init(|| unsafe {
            let len = 4096 * 40;
            let p = libc::mmap(std::ptr::null_mut(), len + 8192, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED);
            let base = p as *mut u8;
            libc::mprotect(base.cast(), 4096, libc::PROT_NONE);
            libc::mprotect(base.add(4096 + len).cast(), 4096, libc::PROT_NONE);
            S(Guard { base: base.add(4096), len })
        })
        .0
    }
    /// the bytes, `back` bytes away from the end
    pub fn put(&self, b: &[u8], back: usize) -> &[u8] {
        unsafe {
            let n = (b.len() + back).min(self.len);
            let at = self.base.add(self.len - n);
            std::ptr::copy_nonoverlapping(b.as_ptr(), at, b.len());
            for i in 0..back {
                *at.add(b.len() + i) = 0x77
            }
            std::slice::from_raw_parts(at, b.len())
        }
    }
}
/// read the bytes both ways and compare with the reference
fn read_both(b: &[u8], o: &mut Obs) -> Res {
    let want = parse(b);
    let w = || show(b);
    // flush against the page end when that is aligned, and shifted so that it is not
    let backs = [(8 - b.len() % 8) % 8, (8 - b.len() % 8) % 8 + 1 + b.len() % 7];
    for (i, back) in backs.into_iter().enumerate() {
        let at = Guard::get().put(b, back);
        for skip in [true, false] {
            let auth = match &want {
                Err(_) => false,
                Ok(x) => skip || x.hash_ok() && x.sig_ok(),
            };
            o.eval();
            let got = no_panic("read_pkt", &w, || read_pkt(at, skip))?;
            match got {
                Err(e) => {
                    ensure!(!auth, "refused-valid", "read_pkt(skip={skip}, aligned={}) refuses with {e} {}", i == 0, w());
                    o.count(&format!("refused:{}", match &want { Err(w) => w, Ok(x) if !x.hash_ok() => "hash", _ => "signature" }));
                    let more = e.clone().requires_more();
                    if let Some(n) = more {
                        ensure!(n > b.len() || b.len() < 68, "requires-more", "asks for {n} bytes of {} {}", b.len(), w());
                    } else {
                        ensure!(want != Err("missing") && want != Err("short"), "requires-more", "{e} does not say how many bytes are missing {}", w());
                    }
                }
                Ok(cow) => {
                    if !auth {
                        return match &want {
                            Err(why) => viol(format!("accepted-malformed:{why}"), format!("accepted, but the {why} is wrong: {}", w())),
                            Ok(_) => viol("accepted-forged", format!("accepted although hash or signature do not match: {}", w())),
                        };
                    }
                    let x = want.as_ref().unwrap();
                    let borrowed = matches!(cow, std::borrow::Cow::Borrowed(_));
                    ensure!(borrowed == (i == 0), "borrow", "alignment {} borrowed={borrowed}", i == 0);
                    o.count(if borrowed { "accepted:borrowed" } else { "accepted:copied" });
                    let p: &NetPktPtr = &cow;
                    no_panic("fields", &w, || judge::fields("read", p, x))??;
                    ensure!(p.as_netpkt_bytes() == &b[..x.size], "read-bytes", "{}", w());
                    if !skip {
                        let n = no_panic("texts", &w, || judge::texts(p))?;
                        o.add("text-bytes", n as u64);
                        o.count(&format!("accepted:kind{:#x}", x.kind));
                        o.distinct(("acc", x.kind, x.comps.len(), x.links.len().min(9), x.data.len().min(99), x.pad));
                    }
                }
            }
        }
    }
    Ok(())
}
/// damage the structure while keeping as much as possible of the rest valid
fn hostile(r: &mut Rng, o: &mut Obs) -> Vec<u8> {
    let mut s = spec(r);
    if r.chance(7, 8) {
        s.links.truncate(5);
        s.data.truncate(120);
    }
    let mut b = if s.usize_() < 65536 { s.bytes() } else { Spec { data: vec![], links: vec![], ..s.clone() }.bytes() };
    let (a, z) = ((b[68 % b.len()] as usize) << 8 | b[69 % b.len()] as usize, (b[70 % b.len()] as usize) << 8 | b[71 % b.len()] as usize);
    for _ in 0..1 + r.usize(2) {
        let n = b.len();
        match r.below(17) {
            0 => {}
            1 => {
                let k = r.usize(n + 1);
                b.truncate(k)
            }
            2 => {
                let k = r.range(1, 20);
                b.extend(r.bytes(k))
            }
            3 if n >= 68 => {
                // the length
                let v = match r.below(6) {
                    0 => r.below(12) as u16,
                    1 => u16::MAX - r.below(600) as u16,
                    2 => r.next() as u16,
                    3 => 64 + r.below(12) as u16,
                    4 => 150 + r.below(20) as u16,
                    _ => (((b[66] as u16) << 8) | b[67] as u16).wrapping_add(r.below(17) as u16).wrapping_sub(8),
                };
                b[66..68].copy_from_slice(&v.to_be_bytes())
            }
            4 if n >= 68 => b[65] = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 0x80, 0x81, 0x83, 0x87, 0xff]),
            5 if n >= 68 => b[64] = *r.pick(&[0, 1, 0x80]),
            6 | 7 if n >= 72 => {
                // the offsets
                let at = 68 + 2 * r.usize(2);
                let v = match r.below(6) {
                    0 => r.next() as u16,
                    1 => r.below(140) as u16,
                    2 => z as u16,
                    3 => a as u16,
                    4 => (b.len() as u16).wrapping_sub(64).wrapping_add(r.below(9) as u16).wrapping_sub(4),
                    _ => (((b[at] as u16) << 8) | b[at + 1] as u16).wrapping_add(*r.pick(&[48, 1, 65535, 65488, 8, 65528])),
                };
                b[at..at + 2].copy_from_slice(&v.to_be_bytes())
            }
            8..=11 if 64 + a < n => {
                // the space name's index and components
                let at = 64 + a + if r.bool() { r.usize(8) } else { r.usize((z.max(a) - a).max(1)) };
                if at < n {
                    b[at] = match r.below(5) {
                        0 => r.u8(),
                        1 => 0,
                        2 => b[at].wrapping_add(1),
                        3 => b[at].wrapping_sub(1),
                        _ => *r.pick(&[8, 9, 200, 201, 255, 242, 7]),
                    }
                }
            }
            12 if n >= 80 && s.kind & 2 != 0 => {
                // a whole other name in place of the present one
                let name = match r.below(3) {
                    0 => {
                        let k = r.usize(30);
                        r.bytes(k)
                    }
                    1 => {
                        let n = r.range(6, 12);
                        rspace_any(&(0..n).map(|_| vec![b'a'; r.range(0, 4)]).collect::<Vec<_>>())
                    }
                    _ => {
                        let mut v = rspace(&comps(r));
                        if !v.is_empty() {
                            v[0] = r.u8() % 10
                        }
                        v
                    }
                };
                let mut t = s.clone();
                t.comps.clear();
                t.data = [&name[..], &t.data].concat();
                b = t.bytes();
                let z = (64 + 48 * t.links.len() + name.len()) as u16;
                b[70..72].copy_from_slice(&z.to_be_bytes())
            }
            13 => gen::mutate(r, &mut b, &[0, 1, 3, 7, 8, 255]),
            14 if n > 8 => {
                let k = r.range(1, 8);
                b[n - k] = r.u8()
            }
            _ => {
                if n > 64 {
                    let i = 64 + r.usize(n - 64);
                    b[i] ^= 1 << r.below(8)
                }
            }
        }
    }
    // make hash (and signature) right again, so that only structure can be the reason
    if b.len() >= 68 && r.chance(2, 3) {
        let n = (b[66] as usize) << 8 | b[67] as usize;
        let padded = (n + 7) / 8 * 8;
        if b.len() >= 64 + padded && padded >= 4 {
            if b[65] == KEY && padded >= 100 && r.chance(3, 4) {
                let e = 64 + padded;
                let h: [u8; 32] = blake3::hash(&b[64..e - 96]).into();
                let (k, p) = &keys()[0];
                let sg = linkspace_cryptography::sign_hash(k, &h);
                b[e - 96..e - 64].copy_from_slice(p);
                b[e - 64..e].copy_from_slice(&sg);
            }
            let h: [u8; 32] = blake3::hash(&b[64..64 + padded]).into();
            b[32..64].copy_from_slice(&h);
            o.count("rehashed");
        }
    }
    b
}
fn rspace_any(comps: &[Vec<u8>]) -> Vec<u8> {
    let mut v = rspace(comps);
    if comps.len() > 8 {
        for c in &comps[8..] {
            v.push(c.len() as u8);
            v.extend(c)
        }
    }
    v
}
pub fn hostile_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let b = hostile(r, o);
    o.distinct(("hostile", &b[..b.len().min(300)]));
    o.sample(|| format!("{:?} {}", parse(&b).err(), show(&b)));
    read_both(&b, o)
}
pub fn noise_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let n = r.usize(400);
    let mut b = r.bytes(n);
    if n >= 68 {
        b[64] = 0;
        b[65] = *r.pick(&[DATA, LINK, KEY, ERR]);
        let v = r.usize(n) as u16;
        b[66..68].copy_from_slice(&v.to_be_bytes());
        if r.bool() && n > 72 {
            let v = 64 + 48 * r.usize(4) as u16;
            b[68..70].copy_from_slice(&v.to_be_bytes());
            let v = v + r.usize(60) as u16;
            b[70..72].copy_from_slice(&v.to_be_bytes());
        }
    }
    read_both(&b, o)
}
pub fn valid_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let s = spec_ok(r);
    let mut b = s.bytes();
    if r.bool() {
        let k = r.usize(30);
        b.extend(r.bytes(k));
    }
    o.max("packet-bytes", b.len() as u64);
    ensure!(parse(&b).is_ok_and(|x| x.hash_ok() && x.sig_ok()), "harness", "reference disagrees with itself");
    read_both(&b, o)
}
/// every prefix of a packet asks for more and never panics
pub fn prefix_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec_ok(r);
    s.links.truncate(3);
    s.data.truncate(60);
    let b = s.bytes();
    for n in 0..=b.len() {
        o.eval();
        let at = Guard::get().put(&b[..n], r.usize(9));
        let got = no_panic("read_pkt", &|| show(&b[..n]), || read_pkt(at, false).map(|_| ()))?;
        match got {
            Ok(()) => ensure!(n == b.len(), "prefix-accepted", "{n} of {} bytes accepted", b.len()),
            Err(e) => {
                let m = e.clone().requires_more();
                let want = if n < 68 { 68 } else { b.len() };
                ensure!(n < b.len() && m == Some(want), "prefix-need", "{n} of {} bytes: {e} asks for {m:?}", b.len());
            }
        }
    }
    o.count("prefix-sweeps");
    Ok(())
}
fn to_links(l: &[RLink]) -> Vec<Link> {
    l.iter().map(|(t, p)| Link { tag: AB(*t), ptr: B64(*p) }).collect()
}
/// call the crate's builder
fn build<'a>(s: &'a Spec, rs: &'a RootedSpace, links: &'a [Link], via: u64) -> Result<NetPktParts<'a>, Error> {
    let h = NetPktHeader::cfrom(s.hdr);
    let (g, d, st) = (B64(s.group), AB(s.domain), Stamp::new(s.stamp));
    let k = &keys()[s.key].0;
    match (s.kind, via % 2) {
        (DATA, _) => try_datapoint_ref(&s.data, h.into()),
        (ERR, _) => Ok(errorpoint(&s.data, h)),
        (LINK, 0) => try_point(g, d, rs, links, &s.data, st, None, h),
        (LINK, _) => try_linkpoint_ref(g, d, rs, links, &s.data, st, h.into()),
        (_, 0) => try_point(g, d, rs, links, &s.data, st, Some(k), h),
        _ => try_keypoint_ref(g, d, rs, links, &s.data, st, k, h.into()),
    }
}
/// P02: what was put in is what is read out; sizes up to the limit fit, beyond it they are refused
pub fn build_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec(r);
    if s.kind == ERR && !s.fits() {
        s.kind = DATA
    }
    let links = to_links(&s.links);
    let rsb = match RootedSpaceBuf::try_from_iter(&s.comps) {
        Ok(b) => b,
        Err(e) => return viol("space-refused", format!("{:?}: {e}", s.comps)),
    };
    let w = || format!("kind {} links {} comps {:?} data {} bytes", s.kind, s.links.len(), s.comps, s.data.len());
    o.eval();
    if s.kind & 2 != 0 {
        let free = calc_free_space(&rsb, &links, &s.data, s.kind == KEY);
        let want = MAX_POINT as isize - s.usize_() as isize;
        ensure!(free == want, "free-space", "calc_free_space says {free}, the room left is {want}: {}", w());
        o.count("free-space-judged");
    }
    let via = r.next();
    let got = no_panic("build", &w, || build(&s, &rsb, &links, via))?;
    let parts = match got {
        Err(e) => {
            ensure!(!s.fits(), "build-refused", "{e}: {}", w());
            o.count("build:too-large");
            return Ok(());
        }
        Ok(p) => p,
    };
    ensure!(s.fits(), "build-oversize", "a point of {} bytes was built: {}", s.usize_(), w());
    let b = parts.byte_segments().to_bytes();
    let mut x = match parse(&b) {
        Ok(x) => x,
        Err(e) => return viol(format!("built-malformed:{e}"), format!("{}\n{}", w(), show(&b))),
    };
    ensure!(x.size == b.len(), "built-length", "{} bytes, header says {}: {}", b.len(), x.size, w());
    ensure!(x.hash_ok() && x.sig_ok(), "built-not-authentic", "hash {} signature {}: {}", x.hash_ok(), x.sig_ok(), w());
    let sg = x.signed;
    ensure!(sg.map(|s| s.0) == (s.kind == KEY).then(|| keys()[s.key].1), "built-pubkey", "{}", w());
    if s.kind != KEY {
        ensure!(b[..] == s.bytes()[..], "built-layout", "{}\n got {}\n want {}", w(), show(&b), show(&s.bytes()));
    }
    no_panic("fields", &w, || judge::fields("built", &parts, &x))??;
    let same = (x.kind, x.hdr, x.links.clone(), x.comps.clone(), x.data.clone()) == (s.kind, s.hdr, s.links.clone(), s.comps.clone(), s.data.clone());
    ensure!(same, "built-fields", "{} reads back as {:?}", w(), (x.kind, x.links.len(), &x.comps, x.data.len()));
    ensure!(x.lp == (s.kind & 2 != 0).then_some((s.stamp, s.group, s.domain)), "built-fields", "{}", w());
    // same content, same identity: only the routing header may differ
    x.hdr = hdr(r);
    let again = build(&Spec { hdr: x.hdr, ..s.clone() }, &rsb, &links, via >> 1).map(|p| (p.hash().0, p.byte_segments().to_bytes()));
    ensure!(again.as_ref().is_ok_and(|(h, _)| *h == x.hash), "not-deterministic", "the same content built twice has two hashes: {}", w());
    let back = no_panic("read_pkt", &w, || read_pkt(&b, false).map(|p| p.as_ref().as_netbox()))?;
    ensure!(back.is_ok_and(|p| p.as_netpkt_bytes() == &b[..]), "built-unreadable", "{}", w());
    o.count(&format!("built:kind{:#x}", s.kind));
    o.max("built-bytes", b.len() as u64);
    o.distinct(("built", x.hash));
    o.sample(|| format!("{} -> {}", w(), show(&b)));
    Ok(())
}
/// P03: nothing but the routing header can change
pub fn forge_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec_ok(r);
    s.links.truncate(6);
    s.data.truncate(200);
    let b = s.bytes();
    let buf: Vec<u8> = b.clone();
    let accept = |x: &[u8]| read_pkt(Guard::get().put(x, (8 - x.len() % 8) % 8), false).is_ok();
    ensure!(accept(&buf), "refused-valid", "{}", show(&b));
    let sweep = r.chance(1, 20);
    let n = if sweep { b.len() * 8 } else { 24 };
    for k in 0..n {
        let bit = if sweep { k } else { r.usize(b.len() * 8) };
        let mut c = buf.clone();
        c[bit / 8] ^= 1 << (bit % 8);
        o.eval();
        let ok = no_panic("read_pkt", &|| show(&c), || accept(&c))?;
        let routing = bit / 8 < 32;
        ensure!(ok == routing, "bit-flip", "bit {} of byte {} flipped: accepted={ok} {}", bit % 8, bit / 8, show(&b));
    }
    o.count(if sweep { "full-bit-sweeps" } else { "bit-samples" });
    // the content of one with the hash or the signature of another
    let mut t = spec_ok(r);
    t.links.truncate(3);
    t.data.truncate(60);
    t.kind = KEY;
    let mut u = t.clone();
    match r.below(4) {
        0 => u.key = (t.key + 1) % 3,
        1 => u.data.push(1),
        2 => u.stamp ^= 1,
        _ => u.group[r.usize(32)] ^= 1,
    }
    let (tb, ub) = (t.bytes(), u.bytes());
    let e = tb.len();
    // signature of u on the content of t, hash recomputed
    for (from, to) in [(96, 64), (64, 0), (96, 0)] {
        let mut c = tb.clone();
        let ue = ub.len();
        c[e - from..e - to].copy_from_slice(&ub[ue - from..ue - to]);
        let h: [u8; 32] = blake3::hash(&c[64..]).into();
        c[32..64].copy_from_slice(&h);
        if c == tb {
            continue;
        }
        let want = parse(&c).is_ok_and(|x| x.sig_ok());
        // whatever was read before it
        for first in [None, Some(&ub), Some(&tb), Some(&c)] {
            if let Some(f) = first {
                ensure!(accept(f) == (f != &c || want), "after-another", "{}", show(f));
            }
            o.eval();
            let got = no_panic("read_pkt", &|| show(&c), || accept(&c))?;
            ensure!(got == want, "signature-transplant", "accepted={got}, the signature is valid={want}\n {}", show(&c));
        }
        o.count("transplants");
    }
    // read over and over among each other, in any order: genuine ones, and each with changed content under its own hash and signature
    let mut all: Vec<(Vec<u8>, bool)> = vec![(tb.clone(), true), (ub.clone(), true)];
    for g in [&tb, &ub] {
        let mut c = g.clone();
        let at = 64 + r.usize(c.len() - 64 - 96);
        c[at] ^= 1 << r.below(8);
        let h: [u8; 32] = blake3::hash(&c[64..]).into();
        let stale = c.clone();
        all.push((stale, false));
        c[32..64].copy_from_slice(&h);
        // a change of the type may make it an unsigned point
        let fine = parse(&c).is_ok_and(|x| x.sig_ok());
        all.push((c, fine));
        // the same content under another hash
        let mut c = g.clone();
        c[32 + r.usize(32)] ^= 1 << r.below(8);
        all.push((c, false));
    }
    for _ in 0..12 {
        let (b, want) = r.pick(&all).clone();
        o.eval();
        let got = no_panic("read_pkt", &|| show(&b), || accept(&b))?;
        ensure!(got == want, "order of reading", "accepted={got}, genuine={want}\n {}", show(&b));
        o.count("read among others");
    }
    let mut c = tb.clone();
    c[32..64].copy_from_slice(&ub[32..64]);
    ensure!(!accept(&c), "hash-transplant", "{}", show(&c));
    // any routing header is fine and leaves hash and point alone
    let mut c = b.clone();
    let h = r.bytes(32);
    c[..32].copy_from_slice(&h);
    let p = no_panic("read_pkt", &|| show(&c), || read_pkt(&c, false).map(|p| (p.hash().0, p.as_ref().as_netpkt_bytes().to_vec())))?;
    ensure!(p.is_ok_and(|(h, v)| h == b[32..64] && v == c), "routing", "{}", show(&c));
    o.distinct(("forge", &b[32..40]));
    Ok(())
}
struct Bytes(Vec<u8>);
macro_rules! serde_no {
    ($($f:ident $t:ty),*) => { $(fn $f(self, _: $t) -> Result<(), Self::Error> { no() })* };
}
impl serde::Serializer for &mut Bytes {
    type Ok = ();
    type Error = serde::de::value::Error;
    type SerializeSeq = serde::ser::Impossible<(), Self::Error>;
    type SerializeTuple = serde::ser::Impossible<(), Self::Error>;
    type SerializeTupleStruct = serde::ser::Impossible<(), Self::Error>;
    type SerializeTupleVariant = serde::ser::Impossible<(), Self::Error>;
    type SerializeMap = serde::ser::Impossible<(), Self::Error>;
    type SerializeStruct = serde::ser::Impossible<(), Self::Error>;
    type SerializeStructVariant = serde::ser::Impossible<(), Self::Error>;
    fn serialize_bytes(self, v: &[u8]) -> Result<(), Self::Error> {
        self.0 = v.to_vec();
        Ok(())
    }
    serde_no! { serialize_bool bool, serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16,
    serialize_u32 u32, serialize_u64 u64, serialize_f32 f32, serialize_f64 f64, serialize_char char, serialize_str &str }
    fn serialize_none(self) -> Result<(), Self::Error> {
        no()
    }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<(), Self::Error> {
        no()
    }
    fn serialize_unit(self) -> Result<(), Self::Error> {
        no()
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<(), Self::Error> {
        no()
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<(), Self::Error> {
        no()
    }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, t: &T) -> Result<(), Self::Error> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<(), Self::Error> {
        no()
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
        no()
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Self::Error> {
        no()
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Self::Error> {
        no()
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, Self::Error> {
        no()
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
        no()
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Self::Error> {
        no()
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, Self::Error> {
        no()
    }
}
fn no<T>() -> Result<T, serde::de::value::Error> {
    Err(serde::de::Error::custom("not bytes"))
}
/// P07
pub fn repr_stage(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = spec_ok(r);
    if r.chance(3, 4) {
        s.links.truncate(6);
        s.data.truncate(300);
    }
    let b = s.bytes();
    let x = parse(&b).map_err(|e| Viol { sig: "harness".into(), msg: e.into() })?;
    let w = || show(&b);
    let before = (triomphe::ALLOCATED.load(std::sync::atomic::Ordering::Relaxed), triomphe::FREED.load(std::sync::atomic::Ordering::Relaxed));
    let res = no_panic("representations", &w, || -> Res {
        let k = 8 - b.len() % 8;
        let cow = read_pkt(Guard::get().put(&b, k % 8), false).expect("valid");
        let cow2 = {
            let mut v = vec![0u8; 1];
            v.extend(&b);
            let c = read_pkt(&v[1..], false).expect("valid").into_owned();
            c
        };
        let ptr: &NetPktPtr = &cow;
        let parts = ptr.as_netparts();
        let mut list: Vec<(String, Box<dyn NetPkt + '_>)> = vec![
            ("ptr".into(), Box::new(ptr)),
            ("fat".into(), Box::new(ptr.as_sized())),
            ("box-read".into(), Box::new(cow2.clone())),
            ("parts".into(), Box::new(parts)),
            ("box".into(), Box::new(ptr.as_netbox())),
            ("arc".into(), Box::new(ptr.as_netarc())),
            ("parts-box".into(), Box::new(parts.as_netbox())),
            ("parts-arc".into(), Box::new(parts.as_netarc())),
            ("box-arc".into(), Box::new(cow2.as_netarc())),
            ("fat-arc".into(), Box::new(ptr.as_sized().as_netarc())),
            ("arc-box".into(), Box::new(ptr.as_netarc().as_netbox())),
        ];
        for (n, p) in &list {
            judge::fields(n, &**p, &x)?;
            o.eval();
        }
        // wrap one of them a few times
        for _ in 0..3 {
            let (mut name, mut p) = list.swap_remove(r.usize(list.len()));
            let mut y = x.clone();
            let mut recv = None;
            for _ in 0..r.usize(4) {
                match r.below(6) {
                    0 => {
                        y.hdr = hdr(r);
                        p = Box::new(ReroutePkt { net_header: NetPktHeader::cfrom(y.hdr), pkt: p });
                        name += "+reroute";
                    }
                    1 => {
                        let mut q = ReroutePkt::new(p);
                        if r.bool() {
                            y.hdr = hdr(r);
                            if let Some(h) = q.net_header_mut() {
                                *h = NetPktHeader::cfrom(y.hdr)
                            }
                        }
                        p = Box::new(q);
                        name += "+reroute2";
                    }
                    2 => {
                        let t = gen::u64b(r);
                        recv = Some(t);
                        p = Box::new(RecvPkt { recv: t.into(), pkt: p });
                        name += "+recv";
                    }
                    3 => {
                        let q = ShareArcPkt::new(p);
                        if r.bool() {
                            let a = q.as_netarc();
                            judge::fields(&format!("{name}+share-arc"), &a, &y)?;
                            let n = a.refcount();
                            let a2 = q.as_netarc();
                            ensure!(std::ptr::eq(a.thin_arc(), a2.thin_arc()) && a.refcount() == n + 1 && std::ptr::eq(q.borrow_arc(), a.thin_arc()), "share", "shared arc made {} references", a.refcount());
                        }
                        p = Box::new(q);
                        name += "+share";
                    }
                    4 => {
                        p = Box::new(p.as_netbox());
                        recv = None;
                        name += "+box"
                    }
                    _ => {
                        let a = p.as_netarc();
                        p = Box::new(a);
                        recv = None;
                        name += "+arc"
                    }
                }
                judge::fields(&name, &*p, &y)?;
                ensure!(p.recv().map(|s| s.get()) == recv, "recv", "{name}: recv {:?} expected {recv:?}", p.recv());
                ensure!(recv.is_none() || p.get_recv().get() == recv.unwrap(), "recv", "{name}");
                o.eval();
                o.count("wrapped");
            }
            judge::fields(&format!("{name} as box"), &p.as_netbox(), &y)?;
            judge::fields(&format!("{name} as arc"), &p.as_netarc(), &y)?;
            judge::fields(&format!("{name} as parts"), &NetPktParts::from(&*p), &y)?;
            let rb = RecvPkt::<NetPktBox>::from_dyn(&*p);
            judge::fields(&format!("{name} as recv box"), &rb, &y)?;
            ensure!(recv.is_none() || rb.recv().map(|s| s.get()) == recv, "recv", "from_dyn {:?}", rb.recv());
            o.distinct(&name);
        }
        // reference counts and raw pointers
        let arc = ptr.as_netarc();
        let c1 = arc.clone();
        ensure!(arc.refcount() == 2, "refcount", "{} after one clone", arc.refcount());
        let raw = c1.into_raw_arc();
        judge::fields("raw arc", unsafe { &*raw }, &x)?;
        let n = unsafe { &*raw }.with_arc(|a| a.clone());
        ensure!(arc.refcount() == 3, "refcount", "{} after with_arc clone", arc.refcount());
        let own = unsafe { &*raw }.to_owned();
        ensure!(arc.refcount() == 4 && std::ptr::eq(own.thin_arc(), arc.thin_arc()), "refcount", "{} after to_owned", arc.refcount());
        let back = unsafe { NetPktArc::from_raw_arc(raw) };
        judge::fields("arc from raw", &back, &x)?;
        ensure!(!format!("{arc:?} {:?}", arc.thin_arc()).is_empty(), "debug", "");
        drop((n, own, back));
        ensure!(arc.refcount() == 1, "refcount", "{} in the end", arc.refcount());
        let cmp: NetPktArc = (&arc as &dyn NetPkt).into();
        ensure!(arc.refcount() == 2, "refcount", "from dyn");
        drop(cmp);
        // boxes
        let bx: NetPktBox = (&arc as &dyn NetPkt).into();
        let raw = NetPktFatPtr::into_raw_box(bx.clone());
        judge::fields("raw box", unsafe { &*raw }, &x)?;
        let back = unsafe { NetPktFatPtr::from_raw_box(raw) };
        judge::fields("box from raw", &back, &x)?;
        let mut mine = back.clone();
        if let Some(h) = mine.net_header_mut() {
            *h = NetPktHeader::EMPTY
        }
        judge::fields("box with its header set", &mine, &Parsed { hdr: NetPktHeader::EMPTY.cinto(), ..x.clone() })?;
        judge::fields("the box it was cloned from", &back, &x)?;
        // the length-prefixed form
        for n in 0..3 {
            let mut out = Bytes(vec![]);
            let ok = match n {
                0 => serde::Serialize::serialize(ptr, &mut out),
                1 => serde::Serialize::serialize(&*back, &mut out),
                _ => serde::Serialize::serialize(&arc, &mut out),
            };
            ensure!(ok.is_ok() && out.0 == b, "serialize", "form {n}: {} bytes", out.0.len());
        }
        let de = || serde::de::value::BorrowedBytesDeserializer::<serde::de::value::Error>::new(&b);
        let d1 = <NetPktBox as serde::Deserialize>::deserialize(de());
        let d2 = <NetPktArc as serde::Deserialize>::deserialize(de());
        ensure!(d1.is_ok() && d2.is_ok(), "deserialize", "refused");
        judge::fields("deserialized box", &d1.unwrap(), &x)?;
        judge::fields("deserialized arc", &d2.unwrap(), &x)?;
        let mut bad = b.clone();
        let i = 32 + r.usize(b.len() - 32);
        bad[i] ^= 1 << r.below(8);
        let d = <NetPktBox as serde::Deserialize>::deserialize(serde::de::value::BorrowedBytesDeserializer::<serde::de::value::Error>::new(&bad));
        ensure!(d.is_err(), "deserialize", "byte {i} changed and still accepted");
        Ok(())
    })?;
    res.map_err(|mut v| {
        v.msg += &format!("\n packet {}", w());
        v
    })?;
    let after = (triomphe::ALLOCATED.load(std::sync::atomic::Ordering::Relaxed), triomphe::FREED.load(std::sync::atomic::Ordering::Relaxed));
    ensure!(after.0 - before.0 == after.1 - before.1, "arc-leak", "{} arcs made, {} freed", after.0 - before.0, after.1 - before.1);
    o.add("arcs", (after.0 - before.0) as u64);
    Ok(())
}
const A: &[&str] = &[
    "built against /repo/crates/pkt with triomphe replaced by a stand-in of the same layout",
    "x86_64, nightly-2023-11-04, debug assertions on",
];
pub static P01: Prop = Prop {
    id: "P01",
    stages: &[
        Stage { name: "hostile", quick: 150_000, thorough: 1_500_000, run: hostile_stage },
        Stage { name: "noise", quick: 60_000, thorough: 600_000, run: noise_stage },
        Stage { name: "valid", quick: 15_000, thorough: 60_000, run: valid_stage },
        Stage { name: "prefix", quick: 4_000, thorough: 15_000, run: prefix_stage },
    ],
    rule: "distinct inputs (first 300 bytes) and distinct shapes of accepted packets",
    assumptions: A,
    floors: &["accepted:borrowed", "accepted:copied", "refused:hash", "refused:signature", "refused:padding", "refused:offset", "refused:space", "refused:length", "refused:missing", "rehashed"],
    opts: OPTS,
};
pub static P02: Prop = Prop {
    id: "P02",
    stages: &[Stage { name: "build", quick: 60_000, thorough: 250_000, run: build_stage }],
    rule: "distinct packet hashes built and read back",
    assumptions: A,
    floors: &["built:kind0x1", "built:kind0x3", "built:kind0x7", "built:kind0x80", "build:too-large"],
    opts: OPTS,
};
pub static P03: Prop = Prop {
    id: "P03",
    stages: &[Stage { name: "forge", quick: 5_000, thorough: 60_000, run: forge_stage }],
    rule: "distinct packets whose every change was tried or sampled",
    assumptions: A,
    floors: &["full-bit-sweeps", "bit-samples", "transplants", "read among others"],
    opts: OPTS,
};
pub static P07: Prop = Prop {
    id: "P07",
    stages: &[Stage { name: "repr", quick: 24_000, thorough: 120_000, run: repr_stage }],
    rule: "distinct chains of representations and wrappers",
    assumptions: A,
    floors: &["wrapped", "arcs"],
    opts: OPTS,
};
