//! the handshake program
use crate::lk::{self, Dir};
use crate::refpkt::{self, Parsed, Spec, DATA, KEY, LINK};
use crate::x_stream::hopped;
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static X07: Prop = Prop {
    id: "X07",
    stages: &[Stage { name: "phases", quick: 700, thorough: 20_000, run: phases }, Stage { name: "sessions", quick: 500, thorough: 15_000, run: sessions }],
    rule: "lk-handshake as a process, its four phases one at a time and connect against serve with the monitor between them, which passes on, changes, forges (with a key of its own), replays, cuts and drops messages; next to a model of which message answers which. Every packet written is read by an independent reader, its signature checked with the curve library. Non-trivial: distinct histories.",
    assumptions: &["clap is a stand-in", "the clock is real: stamps within 10 s of the allowed difference are not judged"],
    floors: &[
        "phase 0", "phase 1", "phase 1 refused", "phase 2", "phase 2 refused", "phase 3", "phase 3 refused", "no message", "broken message", "forwarded", "wrong password", "own key", "other identity", "replayed", "forged by another", "unsigned", "too old", "too new", "changed link", "changed group", "changed domain", "changed space", "still fine", "agreed", "met another", "from a file", "into a file",
    ],
    opts: Opts { stall_s: 90, as_mib: 16384, ..OPTS },
};
fn tag(b: &[u8]) -> [u8; 16] {
    let mut t = [0; 16];
    t[16 - b.len()..].copy_from_slice(b);
    t
}
fn xor(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| a[i] ^ b[i])
}
fn key(k: usize) -> [u8; 32] {
    refpkt::keys()[k].1
}
fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros() as u64
}
/// None: too close to say
fn in_time(stamp: u64, max: Option<u64>) -> Option<bool> {
    let d = stamp.abs_diff(now()) as u128;
    let m = max.unwrap_or(15) as u128 * 1_000_000;
    match m {
        0 => Some(false),
        _ if d + 10_000_000 <= m => Some(true),
        _ if d >= m + 10_000_000 => Some(false),
        _ => None,
    }
}
const SPACE: &[u8] = b"sentinal";
/// what a side gets
#[derive(Clone)]
struct Msg {
    bytes: Vec<u8>,
    /// None: nothing that can be read
    x: Option<Parsed>,
}
impl Msg {
    fn of(bytes: Vec<u8>) -> Msg {
        let x = refpkt::parse(&bytes).ok().filter(|x| x.size == bytes.len() && x.hash_ok() && (x.kind != KEY || x.sig_ok()) && x.lp.map_or(true, |l| l.1 != [0; 32]));
        Msg { bytes, x }
    }
    fn key(&self) -> Option<[u8; 32]> {
        self.x.as_ref().and_then(|x| x.signed).map(|s| s.0)
    }
    fn stamp(&self) -> u64 {
        self.x.as_ref().and_then(|x| x.lp).map_or(0, |l| l.0)
    }
    /// does it answer `prev`, between these two
    fn answers(&self, prev: &[u8; 32], a: &[u8; 32], b: &[u8; 32]) -> bool {
        let Some(x) = &self.x else { return false };
        x.lp.map_or(false, |l| l.2 == tag(b"\xffhandshake") && l.1 == xor(a, b)) && x.comps == [SPACE] && x.links.iter().any(|l| l.1 == *prev)
    }
}
impl std::fmt::Debug for Msg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.x {
            None => write!(f, "{} unreadable bytes", self.bytes.len()),
            Some(x) => write!(f, "{{hash {:02x?} kind {} key {:02x?} at {:?} links {:02x?} in {:?}}}", &x.hash[..3], x.kind, x.signed.map(|s| s.0[0]), x.lp.map(|l| (l.0, l.1[0], l.2 == tag(b"\xffhandshake"))), x.links.iter().map(|l| &l.1[..3]).collect::<Vec<_>>(), x.comps),
        }
    }
}
/// what the one in the middle passes on
fn pass(r: &mut Rng, x: &Parsed, by: usize, adv: usize, other: &[Vec<u8>], o: &mut Obs) -> Msg {
    let bytes = |s: &Spec| Msg::of(s.bytes());
    let l = x.lp.unwrap_or_default();
    let mut s = Spec { kind: KEY, hdr: [0; 32], group: l.1, domain: l.2, stamp: l.0, links: x.links.clone(), comps: x.comps.clone(), data: x.data.clone(), key: by };
    let plain = |o: &mut Obs| {
        o.count("passed on");
        let mut b = x.hdr.to_vec();
        b.extend(x.hash);
        b.extend(&x.point);
        Msg::of(b)
    };
    if r.chance(1, 6) {
        s.key = adv;
        if adv != by {
            o.count("forged by another")
        }
    }
    match r.below(24) {
        0 => {
            o.count("no message");
            Msg::of(vec![])
        }
        1 => {
            o.count("broken message");
            let mut b = plain(o).bytes;
            match r.below(3) {
                0 => b.truncate(r.usize(b.len())),
                _ => {
                    let k = r.range(32, b.len() - 1);
                    b[k] ^= 1 << r.below(8)
                }
            }
            Msg::of(b)
        }
        2 if !other.is_empty() => {
            o.count("replayed");
            Msg::of(r.pick(other).clone())
        }
        3 => {
            o.count("unsigned");
            s.kind = *r.pick(&[LINK, DATA]);
            bytes(&s)
        }
        4 | 5 => {
            let d = *r.pick(&[1, 3, 40, 4000, 90_000_000]) * 1_000_000;
            s.stamp = if r.bool() {
                o.count("too new");
                s.stamp + d
            } else {
                o.count("too old");
                s.stamp.saturating_sub(d)
            };
            bytes(&s)
        }
        6 => {
            o.count("changed link");
            match r.below(3) {
                0 => s.links.clear(),
                1 => s.links = vec![([1; 16], r.array())],
                _ => {
                    for l in &mut s.links {
                        l.1[r.usize(32)] ^= 1
                    }
                }
            }
            bytes(&s)
        }
        7 => {
            o.count("changed group");
            s.group = match r.below(4) {
                0 => refpkt::PUBLIC,
                1 => key(by),
                2 => xor(&s.group, &xor(&key(by), &key(adv))),
                _ => {
                    s.group[r.usize(32)] ^= 1 << r.below(8);
                    s.group
                }
            };
            bytes(&s)
        }
        8 => {
            o.count("changed domain");
            s.domain = *r.pick(&[tag(b"handshake"), tag(b"\xffhandshakf"), [0; 16], tag(b"test")]);
            bytes(&s)
        }
        9 => {
            o.count("changed space");
            s.comps = match r.below(4) {
                0 => vec![],
                1 => vec![b"sentinal".to_vec(), b"x".to_vec()],
                2 => vec![b"anonymous".to_vec()],
                _ => vec![b"sentinam".to_vec()],
            };
            bytes(&s)
        }
        10 | 11 => {
            o.count("still fine");
            s.data = r.array::<3>().to_vec();
            s.links.insert(r.usize(s.links.len() + 1), ([b'x'; 16], r.array()));
            bytes(&s)
        }
        12 | 13 => {
            // a session with the one in the middle
            s.group = xor(&xor(&s.group, &key(by)), &key(adv));
            s.key = adv;
            bytes(&s)
        }
        14 => bytes(&s),
        _ => plain(o),
    }
}
struct Side {
    key: usize,
    max: Option<u64>,
    wrong: bool,
    write: bool,
    forward: bool,
}
impl Side {
    fn args(&self, r: &mut Rng, mode: &str, more: &[String]) -> Vec<String> {
        let mut opts = vec![
            vec!["--enckey".to_string(), lk::enckeys()[self.key].clone()],
            vec!["--password".to_string(), if self.wrong { "hunter3" } else { lk::PW }.to_string()],
        ];
        if let Some(m) = self.max {
            opts.push(vec!["--max-diff-secs".into(), m.to_string()])
        }
        if self.write {
            opts.push(lk::s(&["--write", "file:out"]))
        }
        if self.forward {
            opts.push(lk::s(&["--forward", "file:fwd"]))
        }
        if !more.is_empty() {
            opts.push(more.to_vec())
        }
        r.shuffle(&mut opts);
        let mut a = opts.concat();
        a.push(mode.into());
        a
    }
}
fn clean(d: &Dir) {
    for f in ["out", "fwd", "in"] {
        let _ = std::fs::remove_file(d.0.join(f));
    }
}
/// the copies of what was read
fn copies(d: &Dir, line: &str, read: &[&Msg], o: &mut Obs) -> Res {
    let b = d.read("fwd");
    let mut want = vec![];
    for m in read.iter().take_while(|m| m.x.is_some()) {
        let mut h: [u8; 32] = m.bytes[..32].try_into().unwrap();
        hopped(&mut h);
        want.extend(h);
        want.extend(&m.bytes[32..]);
        o.count("forwarded");
    }
    ensure!(b == want, "forwarded", "{line}: forwarded {} bytes instead of {}, of {read:?}", b.len(), want.len());
    Ok(())
}
/// the one packet a phase writes
fn made(line: &str, b: &[u8], k: usize, group: [u8; 32], prev: Option<[u8; 32]>, start: u64) -> Result<Parsed, Viol> {
    let v = match lk::packets(b) {
        Ok(v) => v,
        Err(e) => return viol("output", format!("{line}: {e}")),
    };
    ensure!(v.len() == 1, "output", "{line}: {} packets", v.len());
    let x = v.into_iter().next().unwrap();
    ensure!(x.signed.map(|s| s.0) == Some(key(k)) && x.sig_ok(), "signed", "{line}: signed by {:02x?} instead of {:02x?}", x.signed.map(|s| s.0), key(k));
    let l = x.lp.unwrap();
    ensure!(l.1 == group && l.2 == tag(b"\xffhandshake") && x.comps == [SPACE], "place", "{line}: group {:02x?} instead of {group:02x?}, domain {:02x?}, space {:?}", l.1, l.2, x.comps);
    ensure!(prev.map_or(true, |p| x.links.iter().any(|l| l.1 == p)), "link", "{line}: does not link {prev:02x?}");
    ensure!(start <= l.0 && l.0 <= now(), "stamp", "{line}: stamp {} is not between {start} and {}", l.0, now());
    Ok(x)
}
fn maxdiff(r: &mut Rng) -> Option<u64> {
    *r.pick(&[None, None, None, Some(0), Some(60), Some(5000), Some(u64::MAX)])
}
/// runs one phase; Some is what it wrote
fn phase(r: &mut Rng, d: &Dir, n: usize, side: &mut Side, inp: &[&Msg], want: Option<(bool, [u8; 32], Option<[u8; 32]>)>, o: &mut Obs) -> Result<Option<Parsed>, Viol> {
    clean(d);
    side.write = r.chance(1, 4);
    side.forward = r.chance(1, 3);
    side.wrong = r.chance(1, 30);
    let bytes: Vec<u8> = inp.iter().flat_map(|m| m.bytes.clone()).collect();
    let mut more = vec![];
    let mut stdin = &bytes[..];
    if r.chance(1, 4) && n > 0 {
        more = vec!["--pkts".to_string(), d.file("in", &bytes)];
        stdin = b"";
        o.count("from a file");
    }
    let a = side.args(r, &format!("phase{n}"), &more);
    let start = now();
    let out = d.prog("lk-handshake", &a, stdin)?;
    let line = format!("lk-handshake phase{n} as {} max {:?} of {inp:?}", side.key, side.max);
    let b = if side.write {
        o.count("into a file");
        ensure!(out.out.is_empty(), "output", "{line}: wrote {} bytes to stdout", out.out.len());
        d.read("out")
    } else {
        out.out.clone()
    };
    if side.wrong {
        o.count("wrong password");
        ensure!(!out.ok() && b.is_empty(), "password", "{line}: accepted with a wrong password");
        return Ok(None);
    }
    if side.forward && n > 0 {
        copies(d, &line, inp, o)?
    }
    let Some((ok, group, prev)) = want else { return Ok(None) };
    ensure!(out.ok() == ok, if ok { "refused" } else { "accepted" }, "{line}: {} {}", out.ok(), out.errs());
    if !ok {
        o.count(&format!("phase {n} refused"));
    } else {
        o.count(&format!("phase {n}"));
    }
    if !ok || n == 3 {
        ensure!(b.is_empty(), "output", "{line}: wrote {} bytes", b.len());
        return Ok(None);
    }
    made(&line, &b, side.key, group, prev, start).map(Some)
}
fn before(r: &mut Rng, c: usize, s: usize) -> Vec<Vec<u8>> {
    // messages of an older session
    let t = now() - 1_000_000 * r.below(9);
    let mk = |k: usize, group: [u8; 32], links: Vec<([u8; 16], [u8; 32])>| Spec { kind: KEY, hdr: [0; 32], group, domain: tag(b"\xffhandshake"), stamp: t, links, comps: vec![SPACE.to_vec()], data: vec![], key: k };
    let p0 = mk(c, key(c), vec![]).bytes();
    let h0 = refpkt::parse(&p0).unwrap().hash;
    let p1 = mk(s, xor(&key(c), &key(s)), vec![(tag(b"auth"), h0)]).bytes();
    let h1 = refpkt::parse(&p1).unwrap().hash;
    let p2 = mk(c, xor(&key(c), &key(s)), vec![(tag(b"signed"), h1)]).bytes();
    vec![p0, p1, p2]
}
fn other(r: &mut Rng, k: usize, o: &mut Obs) -> usize {
    if r.chance(1, 10) {
        o.count("other identity");
        return r.usize(3);
    }
    k
}
fn plain(x: &Parsed) -> Msg {
    let mut b = x.hdr.to_vec();
    b.extend(x.hash);
    b.extend(&x.point);
    Msg::of(b)
}
fn phases(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let (c, s, adv) = (r.usize(3), r.usize(3), r.usize(3));
    let (ck, sk) = (key(c), key(s));
    let old = before(r, c, s);
    let max = maxdiff(r);
    let mut client = Side { key: c, max, wrong: false, write: false, forward: false };
    let mut server = Side { key: s, max: maxdiff(r), wrong: false, write: false, forward: false };
    let Some(p0) = phase(r, &d, 0, &mut client, &[], Some((true, ck, None)), o)? else { return Ok(()) };
    let w0 = pass(r, &p0, c, adv, &old, o);
    o.distinct(&format!("{c}{s}{adv}{w0:?}"));
    let k0 = w0.key();
    if k0 == Some(sk) {
        o.count("own key")
    }
    let t = in_time(w0.stamp(), server.max);
    let ok = match k0 {
        None => Some(false),
        Some(k) if k == sk => Some(false),
        _ => t,
    };
    let want = ok.map(|ok| (ok, xor(&k0.unwrap_or_default(), &sk), w0.x.as_ref().map(|x| x.hash)));
    let Some(p1) = phase(r, &d, 1, &mut server, &[&w0], want, o)? else { return Ok(()) };
    let m1 = plain(&p1);
    let w1 = pass(r, &p1, s, adv, &old, o);
    o.distinct(&format!("{c}{s}{adv}{w1:?}"));
    client.key = other(r, c, o);
    // its own message may be another than the one that was sent
    let m0 = if r.chance(1, 10) { w0.clone() } else { plain(&p0) };
    let me = key(client.key);
    let k1 = w1.key();
    let ok = match (&m0.x, k1) {
        (Some(x), Some(k1)) if m0.key() == Some(me) && w1.answers(&x.hash, &me, &k1) => in_time(w1.stamp(), client.max),
        _ => Some(false),
    };
    let want = ok.map(|ok| (ok, xor(&k1.unwrap_or_default(), &me), w1.x.as_ref().map(|x| x.hash)));
    let Some(p2) = phase(r, &d, 2, &mut client, &[&m0, &w1], want, o)? else { return Ok(()) };
    let w2 = pass(r, &p2, c, adv, &old, o);
    o.distinct(&format!("{c}{s}{adv}{w2:?}"));
    server.key = other(r, s, o);
    let me = key(server.key);
    let ok = me == sk && w2.key().is_some() && w2.key() == k0 && w2.answers(&p1.hash, &w2.key().unwrap_or_default(), &sk);
    phase(r, &d, 3, &mut server, &[&w0, &m1, &w2], Some((ok, [0; 32], None)), o)?;
    o.count(if ok { "agreed" } else { "phase 3 refused" });
    Ok(())
}
fn sessions(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let (d, e) = (Dir::new(o), Dir::new(o));
    let (c, s, adv) = (r.usize(3), r.usize(3), r.usize(3));
    let (ck, sk) = (key(c), key(s));
    let old = before(r, c, s);
    let client = Side { key: c, max: maxdiff(r), wrong: false, write: false, forward: r.bool() };
    let server = Side { key: s, max: maxdiff(r), wrong: false, write: false, forward: r.bool() };
    let start = now();
    let mut pc = d.spawn_prog("lk-handshake", &client.args(r, "connect", &[]), &[]);
    let mut ps = e.spawn_prog("lk-handshake", &server.args(r, "serve", &[]), &[]);
    let lc = format!("lk-handshake connect as {c} max {:?}", client.max);
    let ls = format!("lk-handshake serve as {s} max {:?}", server.max);
    let p0 = made(&lc, &pc.wrote(1), c, ck, None, start)?;
    let w0 = pass(r, &p0, c, adv, &old, o);
    let k0 = w0.key();
    let ok1 = match k0 {
        None => Some(false),
        Some(k) if k == sk => Some(false),
        _ => in_time(w0.stamp(), server.max),
    };
    let Some(ok1) = ok1 else { return Ok(()) };
    ps.send(&w0.bytes);
    if w0.x.is_none() {
        // what is cut short could go on
        ps.stdin = None;
    }
    let ls = format!("{ls} of {w0:?}");
    let mut p1 = None;
    if ok1 {
        p1 = Some(made(&ls, &ps.wrote(1), s, xor(&k0.unwrap(), &sk), w0.x.as_ref().map(|x| x.hash), start)?);
        o.count("phase 1");
    }
    // what the client gets
    let w1 = match &p1 {
        Some(p) => pass(r, p, s, adv, &old, o),
        None => {
            let s = Spec { kind: KEY, hdr: [0; 32], group: xor(&ck, &key(adv)), domain: tag(b"\xffhandshake"), stamp: now(), links: vec![(tag(b"auth"), p0.hash)], comps: vec![SPACE.to_vec()], data: vec![], key: adv };
            let m = Msg::of(s.bytes());
            match m.x.clone() {
                Some(x) if r.bool() => {
                    let z = r.usize(3);
                    pass(r, &x, adv, z, &old, o)
                }
                _ => m,
            }
        }
    };
    let k1 = w1.key();
    let ok2 = match k1 {
        Some(k1) if w1.answers(&p0.hash, &ck, &k1) => in_time(w1.stamp(), client.max),
        _ => Some(false),
    };
    let lc = format!("{lc} of {w1:?}");
    pc.input(&w1.bytes);
    let Some(ok2) = ok2 else { return Ok(()) };
    let out = pc.finish()?;
    ensure!(out.ok() == ok2, if ok2 { "refused" } else { "accepted" }, "{lc}: {}", out.errs());
    let n0 = 64 + p0.point.len();
    let mut p2 = None;
    if ok2 {
        o.count("phase 2");
        if k1 != Some(sk) {
            o.count("met another")
        }
        p2 = Some(made(&lc, &out.out[n0..], c, xor(&k1.unwrap(), &ck), w1.x.as_ref().map(|x| x.hash), start)?);
    } else {
        o.count("phase 2 refused");
        ensure!(out.out.len() == n0, "output", "{lc}: went on with {} bytes", out.out.len() - n0);
    }
    if client.forward {
        copies(&d, &lc, &[&w1], o)?
    }
    let mut seen = vec![&w0];
    let w2;
    let mut ok3 = false;
    if let Some(p1) = &p1 {
        w2 = match &p2 {
            Some(p) => pass(r, p, c, adv, &old, o),
            None => {
                // the one in the middle goes on
                let k = r.usize(3);
                let s = Spec { kind: KEY, hdr: [0; 32], group: xor(&sk, &key(k)), domain: tag(b"\xffhandshake"), stamp: now(), links: vec![(tag(b"signed"), p1.hash)], comps: vec![SPACE.to_vec()], data: vec![], key: k };
                Msg::of(s.bytes())
            }
        };
        ok3 = w2.key().is_some() && w2.key() == k0 && w2.answers(&p1.hash, &k0.unwrap(), &sk);
        ps.input(&w2.bytes);
        seen.push(&w2);
    } else {
        ps.stdin = None;
    }
    let ls = format!("{ls} then {:?}", seen.get(1));
    let out = ps.finish()?;
    ensure!(out.ok() == ok3, if ok3 { "refused" } else { "accepted" }, "{ls}: {}", out.errs());
    ensure!(out.out.len() == p1.as_ref().map_or(0, |p| 64 + p.point.len()), "output", "{ls}: wrote {} bytes", out.out.len());
    if server.forward {
        copies(&e, &ls, &seen, o)?
    }
    o.count(if ok3 { "agreed" } else if ok1 { "phase 3 refused" } else { "phase 1 refused" });
    o.distinct(&format!("{c}{s}{adv}{w0:?}{w1:?}{ok3}"));
    Ok(())
}
