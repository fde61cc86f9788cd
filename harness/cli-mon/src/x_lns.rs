//! the program for names
use crate::lk::{self, Dir};
use crate::refpkt::{self, Parsed, LINK};
use crate::refpred::b64;
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static X08: Prop = Prop {
    id: "X08",
    stages: &[Stage { name: "claims", quick: 400, thorough: 12_000, run: claims }],
    rule: "random histories of lns create-claim, get, ls and vote and of lk save and eval on one store, every command a process of its own, next to a model of which claims were made and which were saved: the packets, links, ends and data of what is made, what a name stands for, what is listed, what is refused. Packets are read by an independent reader. Non-trivial: distinct claims and histories.",
    assumptions: &["clap is a stand-in", "the keys of the public roots are not known here, so that nothing can be voted for: L06 decides what votes make live"],
    floors: &[
        "made", "local", "public", "group", "pubkey", "no authority", "enckey", "copied", "authorities", "empty", "empty refused", "bad end", "conflict", "bad name", "bad authority", "end at a time", "to the store", "saved", "kept to itself", "looked up", "replaced", "not there", "root", "not live", "name to key", "name to group", "no such key", "no such group", "listed", "listed below", "vote refused", "of another name", "by name",
    ],
    opts: Opts { stall_s: 90, as_mib: 16384, ..OPTS },
};
fn tag(b: &[u8]) -> [u8; 16] {
    let mut t = [0; 16];
    t[16 - b.len()..].copy_from_slice(b);
    t
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros() as u64
}
fn roots() -> Vec<Vec<u8>> {
    let mut b = &linkspace_core::LNS_ROOTS.0[..];
    let mut v = vec![];
    while let Ok(p) = refpkt::parse(b) {
        v.push(b[..p.size].to_vec());
        b = &b[p.size..];
        if b.is_empty() {
            break;
        }
    }
    v
}
#[derive(Clone, Debug)]
struct Cl {
    name: Vec<String>,
    until: u64,
    x: Parsed,
    bytes: Vec<u8>,
}
impl Cl {
    fn local(&self) -> bool {
        self.name.last().map_or(false, |c| c == "local")
    }
    fn find(&self, t: &[u8]) -> Option<[u8; 32]> {
        self.x.links.iter().find(|l| l.0.ends_with(t)).map(|l| l.1)
    }
}
fn name(r: &mut Rng) -> Vec<String> {
    let n = *r.pick(&[1, 2, 2, 2, 3, 4]);
    let mut v: Vec<String> = (0..n).map(|_| r.pick(&["a", "b", "bob", "x_y", "7"]).to_string()).collect();
    let last = v.len() - 1;
    v[last] = r.pick(&["local", "local", "com", "dev"]).to_string();
    v
}
/// the newest of a name
fn newest<'a>(saved: &'a [Cl], n: &[String]) -> Option<&'a Cl> {
    saved.iter().filter(|c| c.name == n).max_by_key(|c| c.x.lp.unwrap().0)
}
struct S {
    d: Dir,
    saved: Vec<Cl>,
    made: Vec<Cl>,
    hist: String,
}
impl S {
    fn lns(&mut self, a: &[String], o: &mut Obs) -> Result<lk::Out, Viol> {
        o.eval();
        self.hist += &format!("lns {}; ", lk::cmd(a));
        self.d.prog("lns", a, b"")
    }
}
const GROUPS: [[u8; 32]; 3] = [refpkt::PUBLIC, [9; 32], [0; 32]];
fn create(r: &mut Rng, s: &mut S, o: &mut Obs) -> Res {
    let n = name(r);
    let local = n.last().unwrap() == "local";
    let mut refuse: Option<&str> = None;
    let mut opts: Vec<Vec<String>> = vec![];
    let mut links: Vec<([u8; 16], [u8; 32])> = vec![];
    let mut data = vec![];
    if r.chance(2, 5) {
        let g = *r.pick(&GROUPS);
        let t = match g {
            refpkt::PUBLIC if r.bool() => "[#:pub]".to_string(),
            _ => format!("[b:{}]", b64(&g)),
        };
        opts.push(vec!["--group".into(), t]);
        links.push((tag(b"group#"), g));
        o.count("group");
    }
    let mut pubkey = None;
    match r.below(6) {
        0 | 1 => {
            let k = refpkt::keys()[r.usize(3)].1;
            opts.push(vec!["--pubkey".into(), format!("[b:{}]", b64(&k))]);
            pubkey = Some(k);
            o.count("pubkey");
        }
        2 => {
            let k = r.usize(3);
            opts.push(vec!["--enckey".into(), lk::enckeys()[k].clone()]);
            pubkey = Some(refpkt::keys()[k].1);
            data = format!("{}\n", lk::enckeys()[k]).into_bytes();
            o.count("enckey");
        }
        3 => {
            let other = match s.saved.is_empty() || r.chance(1, 4) {
                true => name(r),
                false => r.pick(&s.saved).name.clone(),
            };
            let is = if other.last().unwrap() == "local" { newest(&s.saved, &other).and_then(|c| c.find(b"pubkey@")) } else { None };
            if r.bool() {
                opts.push(vec!["--copy-from".into(), other.join(":")]);
                pubkey = is;
            } else {
                opts.push(vec!["--pubkey".into(), format!("[@:{}]", other.join(":"))]);
                pubkey = is;
                if is.is_none() {
                    refuse = Some("no such key")
                }
                o.count("by name");
            }
            if is.is_some() {
                o.count("copied")
            }
        }
        _ => {}
    }
    if r.chance(1, 12) && opts.iter().any(|x| x[0] == "--enckey" || x[0] == "--copy-from") {
        opts.push(vec!["--pubkey".into(), format!("[b:{}]", b64(&refpkt::keys()[0].1))]);
        refuse = Some("conflict");
    }
    links.extend(pubkey.map(|k| (tag(b"pubkey@"), k)));
    if r.chance(1, 3) {
        opts.push(vec!["--no-auth".into()]);
        o.count("no authority");
    } else {
        links.extend(pubkey.map(|k| (tag(b"pubkey^"), k)))
    }
    r.shuffle(&mut opts);
    for _ in 0..*r.pick(&[0, 0, 0, 1, 2, 3]) {
        let t = *r.pick(&["a", "bob", "pubkey", "root_1", "1234567", "x y"]);
        let k: [u8; 32] = match r.bool() {
            true => refpkt::keys()[r.usize(3)].1,
            false => r.array(),
        };
        opts.push(vec!["--auth".into(), format!("{t}:[b:{}]", b64(&k))]);
        links.push((tag(format!("{t}^").as_bytes()), k));
        o.count("authorities");
    }
    if r.chance(1, 25) {
        opts.push(vec!["--auth".into(), format!("12345678:[b:{}]", b64(&[1; 32]))]);
        refuse = Some("bad authority");
    }
    let allow = r.chance(1, 3);
    if allow {
        opts.push(vec!["--allow-empty".into()])
    }
    let empty = links.is_empty();
    if empty {
        if allow {
            links.push(([0; 16], [0; 32]));
            o.count("empty")
        } else if refuse.is_none() {
            refuse = Some("empty refused")
        }
    }
    // (at least, at most) after now, or exactly
    let day = 24 * 3600 * 1_000_000;
    let mut until = (7 * day, None);
    match r.below(6) {
        0 => {
            opts.push(lk::s(&["--until", "[now:+1D]"]));
            until.0 = day
        }
        1 => {
            let t = *r.pick(&[u64::MAX, u64::MAX - 1, 1u64 << 63, 4_000_000_000_000_000]);
            opts.push(vec!["--until".into(), format!("[u64:{t}]")]);
            until.1 = Some(t);
            o.count("end at a time");
        }
        2 if r.chance(1, 3) => {
            let t = *r.pick(&[0, 1, 1_000_000]);
            opts.push(vec!["--until".into(), format!("[u64:{t}]")]);
            until.1 = Some(t);
            if local || t == 0 {
                refuse = refuse.or(Some("bad end"));
            }
        }
        _ => {}
    }
    let dest = *r.pick(&["", "stdout", "file:out", "db", "db"]);
    if !dest.is_empty() {
        opts.push(lk::s(&["--write", dest]))
    }
    if dest == "db" {
        opts.push(lk::s(&["--write", "stdout"]))
    }
    // the name where one may be
    let mut text = n.join(":");
    if r.chance(1, 25) {
        text = r.pick(&["", ":local", "a::com", "a:b:c:d:e:f:g:h"]).to_string();
        refuse = Some("bad name");
    }
    let k = r.usize(opts.len() + 1);
    let mut flat: Vec<String> = vec!["create-claim".into()];
    for (i, x) in opts.iter().enumerate() {
        if i == k {
            flat.push(text.clone())
        }
        flat.extend(x.clone())
    }
    if k == opts.len() {
        flat.push(text)
    }
    let _ = std::fs::remove_file(s.d.0.join("out"));
    let t0 = now();
    let out = s.lns(&flat, o)?;
    let t1 = now();
    let h = s.hist.clone();
    if let Some(why) = refuse {
        o.count(why);
        ensure!(!out.ok() && out.out.is_empty() && s.d.read("out").is_empty(), "accepted", "{h}: {why}, wrote {} bytes", out.out.len());
        return Ok(());
    }
    ensure!(out.ok(), "refused", "{h}: {}", out.errs());
    let all: Vec<u8> = match dest {
        "file:out" => {
            ensure!(out.out.is_empty(), "output", "{h}: {} bytes at stdout", out.out.len());
            s.d.read("out")
        }
        _ => out.out.clone(),
    };
    let v = match lk::packets(&all) {
        Ok(v) => v,
        Err(e) => return viol("output", format!("{h}: {e}")),
    };
    ensure!(v.len() == 1, "output", "{h}: {} packets", v.len());
    let x = v.into_iter().next().unwrap();
    let l = x.lp.unwrap_or_default();
    let mut space = vec![b"claims".to_vec()];
    space.extend(n.iter().rev().map(|c| c.as_bytes().to_vec()));
    let group = if local { [0; 32] } else { refpkt::PUBLIC };
    ensure!(x.kind == LINK && l.1 == group && l.2 == tag(b"lns") && x.comps == space, "place", "{h}: kind {} group {:02x?} domain {:02x?} space {:?}", x.kind, l.1, l.2, x.comps);
    ensure!(if local { t0 <= l.0 && l.0 <= t1 } else { l.0 == 0 }, "create", "{h}: create {} not between {t0} and {t1}", l.0);
    let end = x.links.first().map_or(0, |l| u64::from_be_bytes(l.0[..8].try_into().unwrap()));
    match until.1 {
        Some(t) => ensure!(end == t, "until", "{h}: ends at {end} instead of {t}"),
        None => ensure!(t0 + until.0 <= end && end <= t1 + until.0, "until", "{h}: ends at {end}, not between {} and {}", t0 + until.0, t1 + until.0),
    }
    links[0].0[..8].copy_from_slice(&end.to_be_bytes());
    ensure!(x.links == links, "links", "{h}: links {:02x?} instead of {links:02x?}", x.links);
    ensure!(x.data == data, "data", "{h}: data {:?} instead of {data:?}", x.data);
    o.count("made");
    o.count(if local { "local" } else { "public" });
    o.distinct(&(&n, &links));
    let c = Cl { name: n, until: end, x, bytes: all };
    if dest == "db" {
        o.count("to the store");
        add(s, c, o);
    } else {
        s.made.push(c)
    }
    Ok(())
}
fn add(s: &mut S, c: Cl, o: &mut Obs) {
    if !s.saved.iter().any(|k| k.x.hash == c.x.hash) {
        if s.saved.iter().any(|k| k.name == c.name) {
            o.count("replaced")
        }
        s.saved.push(c)
    }
}
fn save(r: &mut Rng, s: &mut S, o: &mut Obs) -> Res {
    if s.made.is_empty() {
        return Ok(());
    }
    let k = r.usize(s.made.len());
    let c = s.made.swap_remove(k);
    o.eval();
    let open = r.chance(3, 4);
    let a = if open { lk::s(&["--private", "save"]) } else { lk::s(&["save"]) };
    let out = s.d.lk(&a, &c.bytes)?;
    s.hist += &format!("lk {} of {:?}; ", lk::cmd(&a), c.name);
    if c.local() && !open {
        o.count("kept to itself");
        ensure!(!out.ok(), "accepted", "{}: private claim saved", s.hist);
        return Ok(());
    }
    ensure!(out.ok(), "refused", "{}: {}", s.hist, out.errs());
    o.count("saved");
    add(s, c, o);
    Ok(())
}
fn get(r: &mut Rng, s: &mut S, o: &mut Obs) -> Res {
    let mut a = lk::s(&["get"]);
    let n = match r.below(6) {
        0 => vec![],
        1 => name(r),
        _ if s.saved.is_empty() => name(r),
        _ => r.pick(&s.saved).name.clone(),
    };
    let _ = std::fs::remove_file(s.d.0.join("sig"));
    let chain = r.chance(1, 3);
    if chain {
        a.push("--chain".into())
    }
    let mut sig = false;
    if !n.is_empty() {
        a.push(n.join(":"));
        sig = r.chance(1, 3);
        if sig {
            a.push("file:sig".into())
        }
    }
    let out = s.lns(&a, o)?;
    let h = &s.hist;
    if n.is_empty() {
        o.count("root");
        ensure!(out.ok() && out.out == roots()[0], "root", "{h}: {} bytes {}", out.out.len(), out.errs());
        return Ok(());
    }
    if n.last().unwrap() != "local" {
        // down to where it is live
        ensure!(!out.ok() && out.out == roots()[0], "public name", "{h}: {} {} bytes", out.ok(), out.out.len());
        if sig {
            let want: Vec<u8> = roots()[1..].concat();
            ensure!(s.d.read("sig").len() <= want.len() && want.starts_with(&s.d.read("sig")), "signatures", "{h}: {} bytes of signatures", s.d.read("sig").len());
        }
        o.count("not live");
        return Ok(());
    }
    match newest(&s.saved, &n) {
        None => {
            o.count("not there");
            ensure!(!out.ok(), "found", "{h}: found what was not saved")
        }
        Some(c) => {
            o.count("looked up");
            ensure!(out.ok(), "not found", "{h}: {}", out.errs());
            match lk::packets(&out.out) {
                Ok(v) if v.len() == 1 && v[0].hash == c.x.hash => {}
                v => return viol("claim", format!("{h}: {:?} instead of {}", v.map(|v| v.iter().map(|p| b64(&p.hash)).collect::<Vec<_>>()), b64(&c.x.hash))),
            }
            ensure!(s.d.read("sig").is_empty(), "signatures", "{h}: there are none");
        }
    }
    Ok(())
}
fn eval(r: &mut Rng, s: &mut S, o: &mut Obs) -> Res {
    let n = match r.below(4) {
        0 => name(r),
        _ if s.saved.is_empty() => name(r),
        _ => r.pick(&s.saved).name.clone(),
    };
    let key = r.bool();
    let a = vec!["eval".to_string(), format!("[{}:{}]", if key { '@' } else { '#' }, n.join(":"))];
    o.eval();
    s.hist += &format!("lk {}; ", lk::cmd(&a));
    let out = s.d.lk(&a, b"")?;
    let h = &s.hist;
    let is = match n.last().unwrap() == "local" {
        true => newest(&s.saved, &n).and_then(|c| c.find(if key { b"pubkey@" } else { b"group#" })),
        false => None,
    };
    match is {
        Some(v) => {
            o.count(if key { "name to key" } else { "name to group" });
            ensure!(out.ok() && out.out == v, "value", "{h}: {:02x?} instead of {v:02x?}, {}", out.out, out.errs());
        }
        None => {
            o.count(if key { "no such key" } else { "no such group" });
            ensure!(!out.ok() && out.out.is_empty(), "value", "{h}: {:02x?} for nothing", out.out);
        }
    }
    Ok(())
}
fn ls(r: &mut Rng, s: &mut S, o: &mut Obs) -> Res {
    let mut n = if s.saved.is_empty() || r.chance(1, 5) { name(r) } else { r.pick(&s.saved).name.clone() };
    let cut = r.usize(n.len());
    n.drain(..cut);
    let out = s.lns(&vec!["ls".to_string(), n.join(":")], o)?;
    let h = &s.hist;
    ensure!(out.ok(), "refused", "{h}: {}", out.errs());
    let t = String::from_utf8_lossy(&out.out).to_string();
    let mut got: Vec<(String, String, String, usize)> = vec![];
    for l in t.lines().filter(|l| !l.is_empty()) {
        let f: Vec<&str> = l.split('\t').collect();
        match (f.len(), got.last_mut()) {
            (4, _) => got.push((f[0].into(), f[1].into(), f[2].into(), 0)),
            (2, Some(g)) => g.3 += 1,
            _ => return viol("listed", format!("{h}: line {l:?}")),
        }
    }
    let mut want: Vec<(String, String, String, usize)> = s.saved.iter().filter(|c| c.name.ends_with(&n) && c.until > now()).map(|c| (b64(&c.x.hash), c.name.join(":"), c.until.to_string(), c.x.links.len())).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "listed", "{h}: {got:?} instead of {want:?}");
    if !got.is_empty() {
        o.count("listed")
    }
    if got.iter().any(|g| g.1 != n.join(":")) {
        o.count("listed below")
    }
    Ok(())
}
fn vote(r: &mut Rng, s: &mut S, o: &mut Obs) -> Res {
    let c: Vec<&Cl> = s.saved.iter().filter(|c| !c.local()).collect();
    if c.is_empty() {
        return Ok(());
    }
    let c = *r.pick(&c);
    let mut n = c.name.clone();
    if r.chance(1, 4) {
        n.insert(0, "z".into());
        o.count("of another name")
    }
    let k = r.usize(3);
    let a = vec!["vote".to_string(), n.join(":"), format!("[b:{}]", b64(&c.x.hash)), "--enckey".into(), lk::enckeys()[k].clone(), "--password".into(), lk::PW.into()];
    let out = s.lns(&a, o)?;
    o.count("vote refused");
    ensure!(!out.ok() && out.out.is_empty(), "accepted", "{}: a vote by one that is no authority", s.hist);
    Ok(())
}
fn claims(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let mut s = S { d: Dir::new(o), saved: vec![], made: vec![], hist: String::new() };
    let out = s.d.lk(&lk::s(&["init"]), b"")?;
    ensure!(out.ok(), "refused", "lk init: {}", out.errs());
    for _ in 0..r.range(4, 12) {
        match r.below(12) {
            0..=4 => create(r, &mut s, o)?,
            5 => save(r, &mut s, o)?,
            6 | 7 => get(r, &mut s, o)?,
            8 | 9 => eval(r, &mut s, o)?,
            10 => ls(r, &mut s, o)?,
            _ => vote(r, &mut s, o)?,
        }
    }
    o.distinct(&s.hist);
    Ok(())
}
