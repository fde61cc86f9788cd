//! L06: names, claims, keys
use crate::clock;
use crate::refpkt::{self, keys};
use crate::rt;
use crate::world::Store;
use linkspace::abe::*;
use linkspace::prelude::*;
use linkspace::runtime::*;
use linkspace::*;
use linkspace_common::protocols::lns::{self, claim::{vote, Claim, LiveClaim}, name::{Name, NameType}, public_claim, utils, LNS};
use linkspace_pkt::reroute::RecvPkt;
use std::collections::HashMap;
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static L06: Prop = Prop {
    id: "L06",
    stages: &[Stage { name: "names", quick: 30_000, thorough: 500_000, run: names }, Stage { name: "claims", quick: 30_000, thorough: 500_000, run: claims }, Stage { name: "local", quick: 3_600, thorough: 60_000, run: local }, Stage { name: "public", quick: 7_500, thorough: 100_000, run: public }],
    rule: "lists of components made into names and back; claims of any content, and other packets read as claims; histories of key claims, saved claims and keys opened by name on two runtimes of one store under a stopped clock, every name and key looked up after every step; trees of claims with authorities that vote, change their vote, and noise around them, walked to names of up to four components. Non-trivial: distinct names, histories and trees.",
    assumptions: &["claims whose time is over, claims voted for under another name and authorities listed twice are not judged, nothing says what they mean"],
    floors: &["name", "name refused", "local name", "name read back", "claim", "claim refused", "not a claim", "claim read", "key set", "key kept", "key replaced", "setup refused", "found", "not found", "group found", "found by key", "key of several names", "not found by key", "key opened", "key made", "wrong password", "other runtime", "live", "live at depth 3", "not live", "vote changed", "minority", "tie", "claim missing", "potential claims"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
fn esc(b: &[u8]) -> String {
    b.iter().map(|c| if c.is_ascii_alphanumeric() { (*c as char).to_string() } else { format!("\\x{c:02x}") }).collect()
}
fn text(c: &[Vec<u8>]) -> String {
    c.iter().map(|c| esc(c)).collect::<Vec<_>>().join(":")
}
/// by the documentation: 1 to 7 components, together at most 234 bytes as a space
fn name_ok(c: &[Vec<u8>]) -> bool {
    (1..=7).contains(&c.len()) && c.iter().all(|c| !c.is_empty() && c.len() <= 200) && c.iter().map(|c| c.len() + 1).sum::<usize>() <= 242 - 8
}
fn names(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut c: Vec<Vec<u8>> = (0..*r.pick(&[0, 1, 1, 2, 2, 3, 4, 6, 7, 8, 9]))
        .map(|_| match r.below(8) {
            0 => vec![b'x'; *r.pick(&[100, 114, 115, 116, 117, 199, 200, 201])],
            1 => vmlib::gen::bytes(r, 40),
            2 => b"local".to_vec(),
            3 => b"pub".to_vec(),
            _ => r.pick(&[&b"a"[..], b"bob", b"com", b"\0", b"a:b", b"a/b", b"[", b"\xff", b"me"]).to_vec(),
        })
        .collect();
    if r.chance(1, 10) && !c.is_empty() {
        // right at the limit
        let used: usize = c[1..].iter().map(|c| c.len() + 1).sum();
        if used < 233 {
            c[0] = vec![b'y'; (234 - used - 1 + r.usize(2)).min(250)]
        }
    }
    let w = || format!("{:?}", c.iter().map(|c| show(c)).collect::<Vec<_>>());
    let refs: Vec<&[u8]> = c.iter().map(|c| &c[..]).collect();
    let n = no_panic("Name::from", &w, || Name::from(&refs))?;
    let long = c.iter().any(|c| c.len() > 200);
    ensure!(n.is_ok() == name_ok(&c) || long, if n.is_ok() { "name accepted" } else { "name refused" }, "{}: {:?}", w(), n.map(|n| n.to_string()));
    let n = match n {
        Ok(n) => n,
        Err(_) => {
            o.count("name refused");
            // the same as a space
            let rev: Vec<Vec<u8>> = c.iter().rev().cloned().collect();
            if let Some(s) = Space::from_slice(&refpkt::sp(&rev)).ok().filter(|_| !long && rev.len() <= 8) {
                ensure!(Name::from_space(s).is_err(), "name accepted", "{} as a space", w());
            }
            return Ok(());
        }
    };
    o.count("name");
    let rev: Vec<Vec<u8>> = c.iter().rev().cloned().collect();
    ensure!(n.space().space_bytes() == refpkt::sp(&rev), "name space", "{}: {:?}", w(), n.space());
    let is_local = c.last().unwrap() == b"local";
    if is_local {
        o.count("local name")
    }
    ensure!((n.name_type() == NameType::Local) == is_local, "name type", "{}", w());
    ensure!(n.claim_group().0 == if is_local { [0; 32] } else { crate::refpkt::PUBLIC }, "claim group", "{}: {}", w(), n.claim_group());
    let mut cs = vec![b"claims".to_vec()];
    cs.extend(rev.clone());
    ensure!(n.claim_space().space_bytes() == refpkt::sp(&cs), "claim space", "{}: {}", w(), n.claim_space());
    match Name::from_space(n.space()) {
        Ok(m) if m == n => {}
        m => return viol("name from space", format!("{}: {:?}", w(), m.map(|m| m.to_string()))),
    }
    let t = no_panic("Name as text", &w, || n.to_string())?;
    let back = linkspace_common::prelude::parse_abe(&t, false).map_err(|e| e.to_string()).and_then(|e| linkspace_common::prelude::eval(&core_scope_(), &e).map_err(|e| e.to_string()));
    let back = back.and_then(|l| Name::try_from(l).map_err(|e| e.to_string()));
    ensure!(back.as_ref() == Ok(&n), "name text", "{} prints {t}, which reads back as {back:?}", w());
    // with a slash it is not one
    let t2 = t.replacen(':', "/", 1);
    if t2 != t && !c.iter().any(|c| c.contains(&b':') || c.contains(&b'/')) {
        let l = linkspace_common::prelude::parse_abe(&t2, false).map_err(|e| e.to_string()).and_then(|e| linkspace_common::prelude::eval(&core_scope_(), &e).map_err(|e| e.to_string()));
        if let Ok(l) = l {
            ensure!(Name::try_from(l).is_err(), "name with a slash", "{t2} is accepted");
        }
    }
    o.count("name read back");
    o.distinct(&c);
    o.sample(|| t);
    Ok(())
}
fn core_scope_() -> linkspace_core::eval::CoreScope {
    linkspace_core::eval::core_scope()
}
fn tag(b: &[u8]) -> [u8; 16] {
    let mut t = [0; 16];
    t[16 - b.len()..].copy_from_slice(b);
    t
}
fn random_name(r: &mut Rng, local: bool) -> Vec<Vec<u8>> {
    let mut c: Vec<Vec<u8>> = (0..r.range(if local { 0 } else { 1 }, 4)).map(|_| r.pick(&[&b"a"[..], b"bob", b"com", b"\0", b"x:y"]).to_vec()).collect();
    if local {
        c.push(b"local".to_vec())
    }
    c
}
fn claims(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    o.eval();
    let now = 1 + (r.next() >> *r.pick(&[8, 14, 30, 60]));
    clock::set(now);
    let local = r.bool();
    let c = random_name(r, local);
    let refs: Vec<&[u8]> = c.iter().map(|c| &c[..]).collect();
    let name = match Name::from(&refs) {
        Ok(n) => n,
        Err(e) => return viol("name refused", format!("{}: {e}", text(&c))),
    };
    let until = match r.below(4) {
        0 => u64::MAX,
        1 => now + 1 + r.below(1000),
        2 => now,
        _ => r.next(),
    };
    const T: [&[u8]; 7] = [b"pubkey@", b"group#", b"pubkey^", b"a^", b"enckey", b"^", b"x"];
    let mut l: Vec<([u8; 16], [u8; 32])> = (0..r.range(0, 5)).map(|k| (tag(*r.pick(&T)), [k as u8 + 1; 32])).collect();
    if r.chance(1, 4) {
        if let Some(l) = l.first_mut() {
            l.0[..8].copy_from_slice(&if r.bool() { until } else { until ^ 1 }.to_be_bytes())
        }
    }
    let data: Vec<u8> = match r.below(3) {
        0 => vec![],
        1 => enckeys()[0].1.as_bytes().to_vec(),
        _ => vmlib::gen::bytes(r, 30),
    };
    let w = || format!("claim of {} until {until} at {now} with {} links", text(&c), l.len());
    let mut links: Vec<Link> = l.iter().map(|(t, p)| Link { tag: AB(*t), ptr: B64(*p) }).collect();
    let made = no_panic("Claim::new", &w, || Claim::new(name.clone(), Stamp::new(until), &mut links, &data))?;
    let first = l.first().map(|l| u64::from_be_bytes(l.0[..8].try_into().unwrap()));
    let ok = first == Some(0) || first == Some(until);
    if !ok {
        o.count("claim refused");
        ensure!(made.is_err(), "claim accepted", "{}", w());
    } else if until > now {
        let m = match made {
            Ok(m) => m,
            Err(e) => return viol("claim refused", format!("{}: {e}", w())),
        };
        o.count("claim");
        let mut want = l.clone();
        want[0].0[..8].copy_from_slice(&until.to_be_bytes());
        check(&m, &c, until, &want, &data, o)?;
        // and from its packet
        let b = m.pkt.as_netbox();
        match Claim::from(b) {
            Ok(k) => check(&k, &c, until, &want, &data, o)?,
            Err(e) => return viol("claim not read", format!("{}: {e}", w())),
        }
        o.count("claim read");
    }
    // other packets
    let mut s = refpkt::Spec { kind: *r.pick(&[refpkt::LINK, refpkt::LINK, refpkt::LINK, refpkt::DATA]), hdr: [0; 32], group: if local { [0; 32] } else { crate::refpkt::PUBLIC }, domain: tag(b"lns"), stamp: 5, links: l.clone(), comps: vec![b"claims".to_vec()], data, key: 0 };
    s.hdr[..3].copy_from_slice(b"LK1");
    s.comps.extend(c.iter().rev().cloned());
    let mut valid = s.kind == refpkt::LINK && !l.is_empty();
    match r.below(6) {
        0 => {
            s.group = if local { crate::refpkt::PUBLIC } else { [0; 32] };
            valid = false
        }
        1 => {
            s.domain = tag(b"lnt");
            valid = false
        }
        2 => {
            s.comps[0] = b"claim".to_vec();
            valid = false
        }
        3 => {
            s.comps.truncate(1);
            valid = false
        }
        4 => {
            s.group = [9; 32];
            valid = false
        }
        _ => {}
    }
    if s.kind == refpkt::DATA {
        s.group = [0; 32];
        s.domain = [0; 16];
        s.stamp = 0;
        s.comps.clear();
        s.links.clear();
    }
    let b = s.bytes();
    let p = linkspace_pkt::read::read_pkt(&b, false).expect("valid packet").into_owned();
    let got = no_panic("Claim::from", &|| format!("{s:?}"), || Claim::from(p))?;
    ensure!(got.is_ok() == valid, if valid { "claim refused" } else { "claim accepted" }, "{s:?}: {:?}", got.map(|g| g.to_string()).map_err(|e| e.to_string()));
    if !valid {
        o.count("not a claim")
    }
    o.distinct((&c, until, &l));
    o.sample(w);
    Ok(())
}
fn check(m: &Claim, c: &[Vec<u8>], until: u64, l: &[([u8; 16], [u8; 32])], data: &[u8], o: &mut Obs) -> Res {
    let w = || format!("claim of {} until {until}", text(c));
    let refs: Vec<&[u8]> = c.iter().map(|c| &c[..]).collect();
    ensure!(Some(&m.name) == Name::from(&refs).ok().as_ref(), "claim name", "{}: {}", w(), m.name);
    ensure!(m.until().get() == until, "claim until", "{}: {}", w(), m.until());
    let find = |t: &[u8]| l.iter().find(|l| l.0.ends_with(t)).map(|l| l.1);
    ensure!(m.pubkey().map(|p| p.0) == find(b"pubkey@"), "claim pubkey", "{}: {:?}", w(), m.pubkey());
    ensure!(m.group().map(|p| p.0) == find(b"group#"), "claim group", "{}: {:?}", w(), m.group());
    let a: Vec<[u8; 32]> = m.authorities().map(|p| p.0).collect();
    ensure!(a == l.iter().filter(|l| l.0[15] == b'^').map(|l| l.1).collect::<Vec<_>>(), "claim authorities", "{}: {a:?}", w());
    let pk: Vec<([u8; 16], [u8; 32])> = m.pkt.get_links().iter().map(|l| (l.tag.0, l.ptr.0)).collect();
    ensure!(pk == l && m.pkt.data() == data, "claim content", "{}: {pk:?}", w());
    match m.enckey() {
        Ok((k, e)) => {
            ensure!(data.starts_with(e.as_bytes()) && k.0 == enckeys()[0].2, "claim enckey", "{}: {e}", w());
        }
        Err(x) => {
            ensure!(x.map(|l| l.ptr.0) == find(b"enckey"), "claim enckey", "{}: {x:?}", w());
            ensure!(data != enckeys()[0].1.as_bytes(), "claim enckey", "{}: not found in its data", w());
        }
    }
    no_panic("showing a claim", &w, || format!("{m} {m:?}"))?;
    o.count("claim");
    Ok(())
}
/// password, enckey, pubkey
fn enckeys() -> &'static [(&'static [u8], String, [u8; 32])] {
    static K: std::sync::OnceLock<Vec<(&'static [u8], String, [u8; 32])>> = std::sync::OnceLock::new();
    K.get_or_init(|| keys().iter().zip([&b""[..], b"", b"secret"]).map(|((k, p), pass)| (pass, linkspace_argon2_identity::encrypt(k, pass, Some(linkspace_argon2_identity::INSECURE_COST)), *p)).collect())
}
#[derive(Clone)]
struct Entry {
    hash: [u8; 32],
    key: Option<[u8; 32]>,
    group: Option<[u8; 32]>,
    enc: Option<usize>,
    /// made by a setup, which also writes the entries by key
    setup: Option<u64>,
}
fn local(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut now: u64 = 1_000_000;
    clock::set(now);
    let st = Store::new(o, "n");
    let lks = [rt::runtime(st.env()), rt::runtime(st.env())];
    const N: [&[&[u8]]; 5] = [&[b"me", b"local"], &[b"a", b"local"], &[b"\xffx:y", b"local"], &[b"local"], &[b"local", b"local"]];
    let mut m: HashMap<usize, Entry> = HashMap::new();
    // direct claims may be in front of entries by key
    let mut direct = false;
    let mut made: HashMap<usize, [u8; 32]> = HashMap::new();
    let mut hist = String::new();
    for step in 0..r.range(3, 20) {
        o.eval();
        now += 1 + r.below(3);
        clock::set(now);
        let by = r.usize(2);
        let lk = &lks[by];
        let imp = lk.as_impl();
        let k = r.usize(N.len());
        let comps: Vec<Vec<u8>> = N[k].iter().map(|c| c.to_vec()).collect();
        let name = Name::from(N[k]).expect("name");
        let t = text(&comps);
        let h = hist.clone();
        let w = || format!("{h}");
        if r.chance(1, 4) {
            lk_process(lk);
        }
        match r.below(8) {
            0..=2 => {
                let e = r.usize(3);
                let over = r.bool();
                let (name, fine) = match r.below(10) {
                    0 => (Name::from(&[b"x", b"y", b"local"]).expect("name"), false),
                    1 => (Name::from(&[b"a", b"com"]).expect("name"), false),
                    _ => (name, true),
                };
                hist += &format!("{by}:setup({name},{e},{over}) ");
                let res = no_panic("setup_special_keyclaim", &w, || lns::setup_special_keyclaim(imp, name, &enckeys()[e].1, over))?;
                let ok = fine && (over || !m.contains_key(&k));
                ensure!(res.is_ok() == ok, if ok { "setup refused" } else { "setup accepted" }, "{hist}: {:?}", res.map_err(|e| e.to_string()));
                if ok {
                    ensure!(res.unwrap().0 == enckeys()[e].2, "setup key", "{hist}: another key is returned");
                    o.count(if m.contains_key(&k) { "key replaced" } else { "key set" });
                    m.insert(k, Entry { hash: [0; 32], key: Some(enckeys()[e].2), group: None, enc: Some(e), setup: Some(step as u64) });
                    made.remove(&k);
                } else {
                    o.count("setup refused");
                    if fine {
                        o.count("key kept")
                    }
                }
            }
            3 => {
                // a claim made by other means
                let e = r.usize(3);
                let (g, wk) = (r.chance(2, 3), r.bool());
                let mut l = vec![];
                if g {
                    l.push(Link { tag: AB(tag(b"group#")), ptr: B64([r.u8() | 1; 32]) })
                }
                if wk || !g {
                    l.push(Link { tag: AB(tag(b"pubkey@")), ptr: B64(enckeys()[e].2) })
                }
                let data = if wk { enckeys()[e].1.as_bytes() } else { b"" };
                let c = match Claim::new(name, Stamp::MAX, &mut l, data) {
                    Ok(c) => c,
                    Err(e) => return viol("claim refused", format!("{hist}: {e}")),
                };
                hist += &format!("{by}:claim({t},group {g},key {wk}) ");
                if let Err(e) = lk_save(lk, &c.pkt) {
                    return viol("save", e.to_string());
                }
                direct = true;
                made.remove(&k);
                m.insert(k, Entry { hash: c.pkt.hash().0, key: c.pubkey().map(|p| p.0), group: c.group().map(|g| g.0), enc: if wk { Some(e) } else { None }, setup: None });
            }
            4 => {
                // a key by name
                let create = r.bool();
                let e = m.get(&k).and_then(|e| e.enc);
                let pass: &[u8] = match e {
                    Some(e) if r.chance(3, 4) => enckeys()[e].0,
                    _ if r.chance(1, 4) && m.contains_key(&k) => b"wrong",
                    _ => b"",
                };
                if !m.contains_key(&k) && create && k > 2 {
                    continue;
                }
                let via_env = k == 0 && r.bool();
                hist += &format!("{by}:key({t},{create}) ");
                let res = no_panic("lk_key", &w, || lk_key(lk, Some(pass), if via_env { None } else { Some(&t) }, create))?;
                let res = res.map(|k| k.pubkey_bytes());
                match (m.get(&k).cloned(), made.get(&k)) {
                    (_, Some(p)) => {
                        // made before, without a password
                        if pass.is_empty() {
                            o.count("key opened");
                            ensure!(res.as_ref().ok() == Some(p), "key differs", "{hist}: the key made before is {}, got {:?}", B64(*p), res.map(|p| B64(p).to_string()).map_err(|e| e.to_string()));
                        } else {
                            o.count("wrong password");
                            ensure!(res.is_err(), "wrong password", "{hist}: opened");
                        }
                    }
                    (Some(Entry { enc: Some(e), .. }), _) => {
                        if pass == enckeys()[e].0 {
                            o.count("key opened");
                            ensure!(res.as_ref().ok() == Some(&enckeys()[e].2), "key differs", "{hist}: got {:?}", res.map(|p| B64(p).to_string()).map_err(|e| e.to_string()));
                        } else {
                            o.count("wrong password");
                            ensure!(res.is_err(), "wrong password", "{hist}: opened");
                        }
                    }
                    // a claim without a key
                    (Some(_), _) => {
                        ensure!(res.is_err(), "key of a claim without", "{hist}: {:?}", res.map(|p| B64(p).to_string()));
                    }
                    (None, _) if create => match res {
                        Ok(p) => {
                            o.count("key made");
                            made.insert(k, p);
                            m.insert(k, Entry { hash: [0; 32], key: Some(p), group: None, enc: None, setup: Some(step as u64) });
                        }
                        Err(e) => return viol("key not made", format!("{hist}: {e}")),
                    },
                    (None, _) => ensure!(res.is_err(), "key out of nowhere", "{hist}: {:?}", res.map(|p| B64(p).to_string())),
                }
            }
            _ => {}
        }
        now += 1;
        clock::set(now);
        // look everything up, from either runtime
        let by2 = r.usize(2);
        let lk = &lks[by2];
        let imp = lk.as_impl();
        if by != by2 {
            o.count("other runtime")
        }
        let ev = |e: &str| scope::lk_scope(Some(lk), ().into(), false).and_then(|s| varscope::lk_eval(s, e, false)).map_err(|e| format!("{e:#}"));
        for (k, n) in N.iter().enumerate() {
            let comps: Vec<Vec<u8>> = n.iter().map(|c| c.to_vec()).collect();
            let t = text(&comps);
            let name = Name::from(n).expect("name");
            let w = || format!("{hist}; looking for {t}");
            let c = no_panic("lookup_claim", &w, || lns::lookup_claim(imp, &name))?;
            let c = match c {
                Ok(c) => c,
                Err(e) => return viol("lookup fails", format!("{}: {e}", w())),
            };
            let (pk, gr, en) = (lns::lookup_pubkey(imp, &name).ok().flatten(), lns::lookup_group(imp, &name).ok().flatten(), lns::lookup_enckey(imp, &name).ok().flatten());
            let want = m.get(&k);
            ensure!(c.is_some() == want.is_some(), if c.is_some() { "claim out of nowhere" } else { "claim not found" }, "{}", w());
            o.count(if want.is_some() { "found" } else { "not found" });
            if let (Some(c), Some(e)) = (&c, want) {
                ensure!(c.name == name, "claim of another name", "{}: {}", w(), c.name);
                ensure!(e.setup.is_some() || c.pkt.hash().0 == e.hash, "older claim found", "{}: {}", w(), c);
            }
            let want = want.cloned().unwrap_or(Entry { hash: [0; 32], key: None, group: None, enc: None, setup: None });
            ensure!(pk.map(|p| p.0) == want.key, "pubkey of a name", "{}: {:?} instead of {:?}", w(), pk, want.key.map(B64));
            ensure!(gr.map(|p| p.0) == want.group, "group of a name", "{}: {:?}", w(), gr);
            if !made.contains_key(&k) {
                ensure!(en.as_ref().map(|e| &e.1) == want.enc.map(|e| &enckeys()[e].1), "enckey of a name", "{}: {:?}", w(), en);
            }
            for (f, v) in [("@", want.key), ("#", want.group), ("private@", want.key), ("private#", want.group)] {
                let e = format!("[{f}:{t}]");
                let got = no_panic("eval of a name", &|| format!("{} by {e}", w()), || ev(&e))?;
                ensure!(got.as_ref().ok().map(|v| &v[..]) == v.as_ref().map(|v| &v[..]), "name evaluates differently", "{} by {e}: {:?} instead of {:?}", w(), got.map(|v| show(&v)), v.map(B64));
                if v.is_some() && f == "#" {
                    o.count("group found")
                }
            }
            if let Some(c) = &c {
                for (e, v) in [(format!("[/lns:{t}/[hash]]"), c.pkt.hash().0), (format!("[/private-lns:{t}/[hash]]"), c.pkt.hash().0)] {
                    let got = ev(&e);
                    ensure!(got.as_ref().ok().map(|v| &v[..]) == Some(&v[..]), "macro differs", "{} by {e}: {:?}", w(), got.map(|v| show(&v)));
                }
            }
        }
        // by key
        for e in 0..3 {
            let p = enckeys()[e].2;
            let holders: Vec<(usize, &Entry)> = m.iter().filter(|x| x.1.key == Some(p)).map(|x| (*x.0, x.1)).collect();
            let w = || format!("{hist}; looking for key {e}");
            let got = no_panic("reverse lookup", &w, || ev(&format!("[?@:{}]", esc(&p))))?;
            let enc = scope::lk_scope(Some(lk), ().into(), false).and_then(|s| varscope::lk_try_encode(s, &p, "@/b", true));
            let enc = match enc {
                Ok(e) => e,
                Err(e) => return viol("key not encoded", format!("{}: {e}", w())),
            };
            match ev(&enc) {
                Ok(v) if v == p => {}
                v => return viol("encoded key differs", format!("{}: {enc} gives {:?}", w(), v.map(|v| show(&v)))),
            }
            match got {
                Ok(n) => {
                    let n = String::from_utf8_lossy(&n).to_string();
                    ensure!(holders.iter().any(|(k, _)| Name::from(N[*k]).expect("name").to_string() == n), "name of another key", "{}: {n}", w());
                    o.count("found by key");
                    if !direct {
                        let latest = holders.iter().max_by_key(|h| h.1.setup).unwrap();
                        ensure!(Name::from(N[latest.0]).expect("name").to_string() == n, "not the latest name", "{}: {n}", w());
                        ensure!(enc.starts_with("[@:"), "key not encoded by name", "{}: {enc}", w());
                        if holders.len() > 1 {
                            o.count("key of several names")
                        }
                    }
                }
                Err(x) => {
                    o.count("not found by key");
                    ensure!(holders.is_empty() || direct, "name of a key not found", "{}: {x}", w());
                }
            }
        }
        o.distinct(&hist);
    }
    o.sample(|| hist);
    Ok(())
}
fn authority(i: usize) -> &'static (SigningKey, [u8; 32]) {
    static K: std::sync::OnceLock<Vec<(SigningKey, [u8; 32])>> = std::sync::OnceLock::new();
    &K.get_or_init(|| {
        (0..6u8)
            .map(|b| {
                let k = SigningKey::try_from([0x21 + b; 32]).expect("key");
                let p = k.pubkey_bytes();
                (k, p)
            })
            .collect()
    })[i]
}
struct Node {
    comps: Vec<Vec<u8>>,
    claim: Claim,
    auth: Vec<usize>,
}
fn mk_claim(r: &mut Rng, comps: &[Vec<u8>], auth: &[usize]) -> anyhow::Result<Claim> {
    let mut l = vec![Link { tag: AB(tag(b"x")), ptr: B64([r.u8(); 32]) }];
    l.extend(auth.iter().map(|a| Link { tag: AB(tag(b"pubkey^")), ptr: B64(authority(*a).1) }));
    let refs: Vec<&[u8]> = comps.iter().map(|c| &c[..]).collect();
    Claim::new(Name::from(&refs)?, Stamp::MAX, &mut l, &r.array::<4>())
}
fn public(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    o.eval();
    let now: u64 = 1_000_000;
    clock::set(now);
    let st = Store::new(o, "p");
    let lk = rt::runtime(st.env());
    let imp = lk.as_impl();
    let mut hist = String::new();
    let save = |p: &dyn NetPkt| lk_save(&lk, p).map_err(|e| vmlib::Viol { sig: "save".into(), msg: e.to_string() });
    let auths = |r: &mut Rng| -> Vec<usize> {
        let mut a: Vec<usize> = (0..6).collect();
        r.shuffle(&mut a);
        a.truncate(*r.pick(&[1, 1, 2, 3, 3, 5]));
        a
    };
    // a root of our own, of which only the packet counts
    let ra = auths(r);
    let mut l = vec![Link { tag: AB([255; 16]), ptr: B64([0; 32]) }];
    l[0].tag.0[15] = b'x';
    l.extend(ra.iter().map(|a| Link { tag: AB(tag(b"pubkey^")), ptr: B64(authority(*a).1) }));
    let root_pkt = linkspace_pkt::linkpoint(PUBLIC, LNS, &linkspace_pkt::rspace1::<6>(b"claims"), &l, b"", Stamp::ZERO, ()).as_netbox();
    let root = || LiveClaim { claim: Claim { pkt: RecvPkt::from_dyn(&root_pkt), name: Name::root() }, signatures: vec![], parent: None };
    const C: [&[u8]; 4] = [b"com", b"a", b"b", b"local"];
    // from the root down, one path and what is beside it
    let depth = *r.pick(&[1, 1, 2, 2, 3, 4]);
    let mut path: Vec<Vec<u8>> = vec![];
    let mut nodes: Vec<Node> = vec![];
    let mut live = true;
    let mut ids: Vec<[u8; 32]> = vec![];
    for d in 0..depth {
        let c = C[if d == 0 { r.usize(3) } else { r.usize(4) }].to_vec();
        // names are read from right to left
        let mut comps = path.clone();
        comps.insert(0, c);
        let a = nodes.last().map(|n| n.auth.clone()).unwrap_or(ra.clone());
        let mut cands: Vec<Node> = vec![];
        for _ in 0..r.range(1, 3) {
            let auth = auths(r);
            match mk_claim(r, &comps, &auth) {
                Ok(claim) => cands.push(Node { comps: comps.clone(), claim, auth }),
                Err(e) => return viol("claim refused", format!("{}: {e}", text(&comps))),
            }
        }
        let missing = r.chance(1, 12);
        for c in &cands {
            if !missing {
                save(&c.claim.pkt)?;
            }
        }
        // votes: the newest of each counts
        let mut votes: Vec<Option<(usize, u64)>> = vec![None; a.len()];
        let same = r.chance(3, 4);
        for (i, a) in a.iter().enumerate() {
            for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3]) {
                let on = if same && r.chance(3, 4) { 0 } else { r.usize(cands.len()) };
                let at = now - 1 - r.below(6) * 100 - if r.chance(1, 3) { 0 } else { r.below(90) };
                if votes[i].map(|v| v.1 == at) == Some(true) {
                    continue;
                }
                clock::set(at);
                let v = match vote(&cands[on].claim, &authority(*a).0, &r.array::<2>()) {
                    Ok(v) => v,
                    Err(e) => return viol("vote", e.to_string()),
                };
                clock::set(now);
                save(&v)?;
                if votes[i].is_some() {
                    o.count("vote changed")
                }
                if votes[i].map(|v| v.1 < at).unwrap_or(true) {
                    votes[i] = Some((on, at))
                }
                hist += &format!("{}{}->{on}@{at} ", text(&comps), a);
            }
        }
        // noise: votes of others, in other places
        for _ in 0..r.below(4) {
            let other = (0..6).filter(|x| !a.contains(x)).next();
            let on = &cands[r.usize(cands.len())].claim;
            let key = match (r.below(3), other) {
                (0, Some(k)) => {
                    if let Ok(v) = vote(on, &authority(k).0, &r.array::<2>()) {
                        save(&v)?;
                    }
                    continue;
                }
                _ => &authority(a[r.usize(a.len())]).0,
            };
            let l = [Link { tag: AB(tag(b"vote")), ptr: on.pkt.hash() }];
            let mut below: Vec<Vec<u8>> = vec![b"claims".to_vec()];
            below.extend(comps.iter().rev().cloned());
            let (mut g, mut dm) = (PUBLIC, LNS);
            match r.below(3) {
                0 => below.push(b"zz".to_vec()),
                1 => g = B64([3; 32]),
                _ => dm = AB(tag(b"lnt")),
            }
            let sp = SpaceBuf::try_from_iter(below.iter()).expect("space").try_into_rooted().expect("space");
            let v = linkspace_pkt::keypoint(g, dm, &sp, &l, b"", Stamp::new(now - 1), key, ());
            save(&v)?;
        }
        // what is live
        let mut tally: Vec<(usize, u64)> = vec![(0, 0); cands.len()];
        for (on, at) in votes.iter().flatten() {
            tally[*on].0 += 1;
            tally[*on].1 = tally[*on].1.max(*at);
        }
        let best = tally.iter().filter(|t| t.0 > 0).map(|t| (t.0, u64::MAX - t.1)).max();
        let win: Vec<usize> = (0..cands.len()).filter(|i| tally[*i].0 > 0 && Some((tally[*i].0, u64::MAX - tally[*i].1)) == best).collect();
        if tally.iter().filter(|t| t.0 > 0).count() > 1 {
            o.count("minority")
        }
        path = comps;
        if win.len() == 1 && !missing {
            let n = cands.swap_remove(win[0]);
            ids.push(n.claim.pkt.hash().0);
            nodes.push(n);
        } else {
            o.count(if missing && win.len() == 1 { "claim missing" } else if win.len() > 1 { "tie" } else { "not live" });
            live = false;
        }
        if !live {
            break;
        }
    }
    // walk to the name, and to one below it
    let reader = match imp.env().new_read_txn() {
        Ok(r) => r,
        Err(e) => return viol("read", e.to_string()),
    };
    for extra in [false, true] {
        let mut comps = path.clone();
        if extra {
            comps.insert(0, b"below".to_vec())
        }
        let refs: Vec<&[u8]> = comps.iter().map(|c| &c[..]).collect();
        let name = Name::from(&refs).expect("name");
        let w = || format!("{hist}; walking to {}", text(&comps));
        let mut issues = 0;
        let res = no_panic("walk_live_claims", &w, || {
            public_claim::walk_live_claims(&reader, root(), &mut name.space().iter(), &mut |_| {
                issues += 1;
                Ok(())
            })
        })?;
        let res = match res {
            Ok(r) => r,
            Err(e) => return viol("walk fails", format!("{}: {e}", w())),
        };
        let want_ok = live && !extra;
        let (ok, lc) = match res {
            Ok(l) => (true, l),
            Err(l) => (false, l),
        };
        ensure!(ok == want_ok, if ok { "claim is live" } else { "claim is not live" }, "{}: got {}, expected live: {want_ok}", w(), lc.claim);
        // the chain that leads there
        let chain: Vec<[u8; 32]> = lc.list().iter().rev().map(|l| l.claim.pkt.hash().0).collect();
        let mut want = vec![root_pkt.hash().0];
        want.extend(&ids);
        ensure!(chain == want, "chain differs", "{}: {:?} instead of {:?}", w(), chain.iter().map(|h| B64(*h).to_string()).collect::<Vec<_>>(), want.iter().map(|h| B64(*h).to_string()).collect::<Vec<_>>());
        for x in lc.list() {
            for s in &x.signatures {
                ensure!(s.get_links().first().map(|l| l.ptr) == Some(x.claim.pkt.hash()), "signature of another claim", "{}", w());
            }
            if x.parent.is_some() {
                let a = nodes.iter().position(|n| n.claim.pkt.hash() == x.claim.pkt.hash()).unwrap();
                let by = if a == 0 { &ra } else { &nodes[a - 1].auth };
                ensure!(!x.signatures.is_empty() && x.signatures.iter().all(|s| by.iter().any(|k| authority(*k).1 == s.get_pubkey().0)), "signature of another key", "{}", w());
                ensure!(nodes[a].comps.len() == a + 1, "depth", "{}", w());
            }
        }
        if ok {
            o.count("live");
            if comps.len() >= 3 {
                o.count("live at depth 3")
            }
        }
    }
    // all the claims there are under a prefix
    if let Some(n) = nodes.first() {
        if !path.last().map(|c| c == b"local").unwrap_or(true) {
            let refs: Vec<&[u8]> = n.comps.iter().map(|c| &c[..]).collect();
            let name = Name::from(&refs).expect("name");
            let got: Vec<[u8; 32]> = no_panic("potential claims", &|| hist.clone(), || utils::list_all_potential_claims_with_prefix(&reader, &name).filter_map(|c| Some(c.ok()?.pkt.hash().0)).collect())?;
            for n in nodes.iter().filter(|n| n.comps.last() != Some(&b"local".to_vec())) {
                ensure!(got.contains(&n.claim.pkt.hash().0), "claim not listed", "{hist}: {}", n.claim);
            }
            o.count("potential claims")
        }
    }
    o.distinct(&hist);
    o.sample(|| hist);
    Ok(())
}
