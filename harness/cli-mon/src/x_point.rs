//! X01: points made at the command line
use crate::lk::{self, Dir};
use crate::refpkt::{self, Parsed, Spec, DATA, KEY, LINK};
use crate::refpred::{b64, esc};
use std::fmt::Write;
use vmlib::{ensure, Obs, Opts, Prop, Res, Rng, Stage, OPTS};

pub static X01: Prop = Prop {
    id: "X01",
    stages: &[Stage { name: "points", quick: 9_000, thorough: 60_000, run: points }],
    rule: "the real lk binary, run in a directory of its own, makes datapoints, linkpoints and keypoints from strings, files and standard input; every destination it was told to write to is read back with an independent packet parser and compared, field by field, with a model of the arguments. Non-trivial: distinct command lines.",
    assumptions: &[
        "clap, rpassword, serde_json, crossbeam-channel and tracing-subscriber are stand-ins; how they report errors is not judged, only that the command fails",
        "a record longer than the read size is not judged when a delimiter is set",
    ],
    floors: &["datapoints", "linkpoints", "keypoints", "refused", "split data", "carried data", "trimmed data", "too much data", "delimited", "evaluated", "repeated", "read limit", "many points", "linked to the previous", "private refused", "to a file", "to the store", "to several places", "formatted"],
    opts: Opts { stall_s: 90, as_mib: 16384, ..OPTS },
};
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Over {
    Error,
    Trim,
    Split,
    Carry,
}
/// what the data options mean
#[derive(Clone)]
pub struct Rd {
    pub src: Option<Vec<u8>>,
    pub pos: usize,
    pub take: Option<usize>,
    pub limit: usize,
    pub cycle: bool,
    pub eval: bool,
    pub delim: Option<u8>,
    pub over: Over,
    pub pending: Option<Vec<u8>>,
    pub overflowed: bool,
}
impl Rd {
    fn read(&mut self, free: usize) -> Option<Vec<u8>> {
        if self.limit == 0 {
            return None;
        }
        self.limit -= 1;
        let Some(src) = &self.src else { return Some(vec![]) };
        if self.pos == src.len() && self.cycle {
            self.pos = 0
        }
        let rest = &src[self.pos..];
        if rest.is_empty() {
            return None;
        }
        let max = self.take.unwrap_or(free).min(rest.len());
        let b = match self.delim.and_then(|d| rest.iter().position(|c| *c == d)) {
            Some(n) => {
                self.pos += n + 1;
                &rest[..n]
            }
            None => {
                self.pos += max;
                &rest[..max]
            }
        };
        Some(if self.eval { unesc(b) } else { b.to_vec() })
    }
    /// the data of the next point
    pub fn next(&mut self, free: usize) -> Result<Option<Vec<u8>>, ()> {
        let mut b = match self.pending.take() {
            Some(p) if self.over == Over::Carry => [p, self.read(free).unwrap_or_default()].concat(),
            Some(p) => p,
            None => match self.read(free) {
                Some(b) => b,
                None => return Ok(None),
            },
        };
        if b.len() > free {
            self.overflowed = true;
            match self.over {
                Over::Error => return Err(()),
                Over::Trim => b.truncate(free),
                _ => self.pending = Some(b.split_off(free)),
            }
        }
        Ok(Some(b))
    }
}
fn unesc(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            v.push(u8::from_str_radix(std::str::from_utf8(&b[i + 2..i + 4]).unwrap(), 16).unwrap());
            i += 4
        } else {
            v.push(b[i]);
            i += 1
        }
    }
    v
}
/// the most data a point with these fields has room for
pub fn room(s: &Spec) -> usize {
    let mut s = s.clone();
    let (mut lo, mut hi) = (0, refpkt::MAX_POINT);
    while lo < hi {
        let m = (lo + hi + 1) / 2;
        s.data = vec![0; m];
        if s.fits() {
            lo = m
        } else {
            hi = m - 1
        }
    }
    lo
}
pub fn group(r: &mut Rng) -> ([u8; 32], String) {
    let public: [u8; 32] = crate::refpkt::PUBLIC;
    match r.below(7) {
        0 => (public, "".into()),
        1 | 2 => (public, "[#:pub]".into()),
        3 => ([0; 32], "[#:0]".into()),
        _ => {
            let g = r.array::<32>();
            (g, if r.bool() { b64(&g) } else { format!("[b:{}]", b64(&g)) })
        }
    }
}
pub fn domain(r: &mut Rng) -> ([u8; 16], String) {
    let n = *r.pick(&[0, 1, 3, 8, 15, 16]);
    let d: Vec<u8> = (0..n).map(|i| if i == 0 { b'd' } else { *r.pick(b"abz09_-.\xff\n:/[]\\") }).collect();
    let mut a = [0; 16];
    a[16 - n..].copy_from_slice(&d);
    (a, if n > 0 && r.bool() { format!("[a:{}]", esc(&d)) } else { esc(&d) })
}
pub fn comps(r: &mut Rng) -> (Vec<Vec<u8>>, String) {
    let n = *r.pick(&[0, 0, 1, 1, 2, 3, 8]);
    let c: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let n = r.range(1, 12);
            match r.below(3) {
                0 => r.bytes(n),
                _ => (0..n).map(|_| *r.pick(b"abcxyz019")).collect(),
            }
        })
        .collect();
    let t = c.iter().map(|c| format!("/{}", esc(c))).collect();
    (c, t)
}
pub fn links(r: &mut Rng) -> Vec<(refpkt::RLink, String)> {
    (0..*r.pick(&[0, 0, 1, 2, 5]))
        .map(|_| {
            // no tag is not a link
            let n = *r.pick(&[1, 4, 9, 16]);
            let mut t = [0u8; 16];
            for i in 16 - n..16 {
                t[i] = 1 + r.below(255) as u8
            }
            let p = r.array::<32>();
            ((t, p), format!("{}:{}", esc(&t[16 - n..]), if r.bool() { b64(&p) } else { format!("[b:{}]", b64(&p)) }))
        })
        .collect()
}
/// data options, with what they are expected to do
pub fn source(r: &mut Rng, d: &Dir, stdin_default: bool, need: bool, big: usize) -> (Rd, Vec<String>, Vec<u8>) {
    let mut a: Vec<String> = vec![];
    let mut rd = Rd { src: None, pos: 0, take: None, limit: usize::MAX, cycle: false, eval: false, delim: None, over: Over::Error, pending: None, overflowed: false };
    let mut stdin = vec![];
    let none = !need && r.chance(1, 5);
    if none {
        if stdin_default || r.bool() {
            a.push("--no-data".into())
        }
        return (rd, a, stdin);
    }
    // records
    let delim = r.chance(1, 3);
    rd.eval = r.chance(1, 4);
    let dl = *r.pick(b"\n,\0|");
    let n = if delim { r.range(0, 6) } else { 1 };
    let mut src = vec![];
    let mut longest = 1;
    for i in 0..n {
        let len = match r.below(8) {
            _ if big > 0 && !rd.eval => r.range(big / 2, big * 3),
            0 => 0,
            1..=3 => r.range(1, 8),
            _ => r.range(1, 60),
        };
        let rec: Vec<u8> = if len > 1000 {
            let x = r.u8() | 1;
            (0..len).map(|k| ((k / 251) as u8).wrapping_mul(x).wrapping_add((k % 251) as u8)).collect()
        } else {
            match r.below(3) {
                0 => r.bytes(len),
                _ => (0..len).map(|_| *r.pick(b"abcdef \n\xc3")).collect(),
            }
        };
        let rec = if rd.eval { esc(&rec).into_bytes() } else { rec };
        let rec: Vec<u8> = if delim { rec.into_iter().filter(|c| *c != dl).collect() } else { rec };
        longest = longest.max(rec.len());
        src.extend(rec);
        if delim && (i + 1 < n || r.bool()) {
            src.push(dl)
        }
    }
    if delim {
        rd.delim = Some(dl);
        a.push(r.pick(&["-D", "--data-delim"]).to_string());
        a.push(match dl {
            b'\n' => "\\n".to_string(),
            _ if r.bool() => format!("[u8:{dl}]"),
            _ => esc(&[dl]),
        });
    }
    if rd.eval {
        a.push("--data-eval".into())
    }
    // how much is read at once
    let least = if delim || rd.eval { longest } else { 1 };
    if big > 0 || r.chance(1, 3) {
        let n = match r.below(3) {
            0 => least,
            _ if big > 0 => least.max(r.range(big / 3 + 1, big * 2)),
            _ => least.max(r.range(1, 20)),
        };
        if !(big > 0 && r.chance(1, 4) && !delim) {
            // not too many points
            let n = if delim { n } else { n.max(src.len() / 12) }.max(1);
            rd.take = Some(n);
            a.push(r.pick(&["-n", "--data-bufsize"]).to_string());
            a.push(n.to_string());
        }
    }
    if big > 0 || r.chance(1, 3) {
        rd.over = *r.pick(&[Over::Error, Over::Trim, Over::Split, Over::Carry, Over::Carry]);
        a.push("--data-overflow".into());
        a.push(format!("{:?}", rd.over).to_lowercase());
    }
    if delim && rd.take.is_none() && big > 0 {
        // what is longer than the room left is not judged
        rd.take = Some(longest.max(1));
        a.push("-n".into());
        a.push(longest.max(1).to_string());
    }
    match r.below(3) {
        0 if !src.contains(&0) && std::str::from_utf8(&src).is_ok() && src.first() != Some(&b'-') && src.len() < 100_000 => {
            a.push("--data-str".into());
            a.push(String::from_utf8(src.clone()).unwrap());
            rd.cycle = r.chance(1, 4);
        }
        1 => {
            if !stdin_default || r.bool() {
                a.push("--data-stdin".into())
            }
            stdin = src.clone();
        }
        _ => {
            a.push("--data".into());
            a.push(d.file("in", &src));
            rd.cycle = !src.is_empty() && r.chance(1, 4);
        }
    }
    if rd.cycle {
        a.push("--data-repeat".into())
    }
    if rd.cycle || r.chance(1, 6) {
        rd.limit = r.range(1, 9);
        a.push("--data-reads".into());
        a.push(rd.limit.to_string());
    }
    rd.src = Some(src);
    (rd, a, stdin)
}
pub struct Exp {
    pub spec: Spec,
    pub stamp: (u64, u64),
}
/// is this the point that was asked for
pub fn differs(p: &Parsed, e: &Exp) -> Option<String> {
    let s = &e.spec;
    if p.kind != s.kind {
        return Some(format!("kind {} instead of {}", p.kind, s.kind));
    }
    if p.data != s.data {
        return Some(format!("data {} of {} bytes instead of {} of {}", vmlib::show(&p.data), p.data.len(), vmlib::show(&s.data), s.data.len()));
    }
    if s.kind == DATA {
        return None;
    }
    let (stamp, group, domain) = p.lp.unwrap();
    if group != s.group {
        return Some(format!("group {}", b64(&group)));
    }
    if domain != s.domain {
        return Some(format!("domain {}", esc(&domain)));
    }
    if p.comps != s.comps {
        return Some(format!("space {:?}", p.comps));
    }
    if p.links != s.links {
        return Some(format!("{} links {:?}", p.links.len(), p.links));
    }
    if stamp < e.stamp.0 || stamp > e.stamp.1 {
        return Some(format!("created {stamp} instead of {:?}", e.stamp));
    }
    if s.kind == KEY {
        if p.signed.unwrap().0 != refpkt::keys()[s.key].1 {
            return Some("signed by another key".into());
        }
        if !p.sig_ok() {
            return Some("signature".into());
        }
    }
    None
}
pub fn now() -> u64 {
    std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_micros() as u64
}
fn points(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let cmd = *r.pick(&["datapoint", "linkpoint", "keypoint", "point"]);
    let mut a: Vec<String> = vec![match cmd {
        "datapoint" => *r.pick(&["datapoint", "data", "d"]),
        "linkpoint" => *r.pick(&["linkpoint", "link", "l"]),
        "keypoint" => *r.pick(&["keypoint", "keyp"]),
        _ => "point",
    }
    .to_string()];
    let plain = cmd == "datapoint" || (cmd == "point" && r.chance(1, 3));
    let many = plain || ((cmd == "linkpoint" || cmd == "keypoint") && r.bool());
    let mut spec = Spec { kind: DATA, hdr: [0; 32], group: [0; 32], domain: [0; 16], stamp: 0, links: vec![], comps: vec![], data: vec![], key: 0 };
    let mut stamp = (0, u64::MAX);
    let mut tail = vec![];
    let mut tag = None;
    let mut opts: Vec<Vec<String>> = vec![];
    let t0 = now();
    if !plain {
        let sign = cmd == "keypoint" || r.chance(1, 3);
        spec.kind = if sign { KEY } else { LINK };
        let (g, gt) = group(r);
        let (dm, dt) = domain(r);
        let (c, ct) = comps(r);
        spec.group = g;
        spec.domain = dm;
        spec.comps = c;
        // what needs not be there
        opts.push(vec![format!("{dt}:{gt}{}", if ct.is_empty() && r.bool() { "".into() } else { format!(":{ct}") })]);
        if sign {
            spec.key = r.usize(3);
            opts.push(vec!["--enckey".into(), lk::enckeys()[spec.key].clone()]);
            opts.push(match r.below(3) {
                0 => vec!["--utf8-password".into(), "--password".into(), lk::PW.into()],
                1 => vec!["--password".into(), lk::PW.into()],
                _ => vec!["--pass".into(), lk::PW.replace("u", "\\x75")],
            });
            if cmd != "keypoint" || r.chance(1, 4) {
                opts.push(vec!["--sign".into()]);
            }
        }
        match r.below(4) {
            0 => {
                spec.stamp = vmlib::gen::u64b(r);
                stamp = (spec.stamp, spec.stamp);
                opts.push(vec!["--create-int".into(), spec.stamp.to_string()]);
            }
            1 => {
                spec.stamp = vmlib::gen::u64b(r);
                stamp = (spec.stamp, spec.stamp);
                opts.push(vec![r.pick(&["--create", "-u"]).replace("-u", "--u"), format!("[u64:{}]", spec.stamp)]);
            }
            _ => stamp.0 = t0,
        }
        let l = links(r);
        if !l.is_empty() {
            tail = vec!["--".to_string()];
            tail.extend(l.iter().map(|l| l.1.clone()));
        }
        spec.links = l.into_iter().map(|l| l.0).collect();
        if many {
            opts.push(vec![r.pick(&["-m", "--multi"]).to_string()]);
            if r.bool() {
                let t = r.array::<16>();
                opts.push(vec!["--multi-link".into(), format!("[b:{}]", b64(&t))]);
                tag = Some(t)
            }
        }
    }
    let big = if r.chance(1, 8) { 65_000 } else { 0 };
    let (mut rd, dopts, stdin) = source(r, &d, plain, many, big);
    opts.push(dopts.clone());
    // who may see it
    let hide = r.chance(1, 8);
    if hide {
        a.splice(0..0, lk::s(&["--private-write", "false"]));
    } else if r.chance(1, 8) {
        opts.push(vec!["--private".into()]);
    }
    // where to
    let mut dests: Vec<&str> = vec![];
    for _ in 0..*r.pick(&[0, 0, 0, 1, 1, 2, 3]) {
        dests.push(*r.pick(&["stdout", "stdout", "-", "null", "db", "file:f0", "file:./f1", "stdout-expr:[hash:str]\\n", "file-expr:f2:[data]|[hash]", "stderr"]));
    }
    for w in &dests {
        opts.push(vec![r.pick(&["-w", "--write"]).to_string(), w.to_string()]);
    }
    if dests.is_empty() {
        dests.push("stdout")
    }
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    a.extend(tail);
    let line = lk::cmd(&a);
    // what to expect
    let mut want: Vec<Exp> = vec![];
    let mut fail = false;
    let f0 = room(&spec);
    // a stand-in for the previous point
    let mut linked = spec.clone();
    linked.links.push(([0; 16], [0; 32]));
    let f1 = if tag.is_some() { room(&linked) } else { f0 };
    loop {
        match rd.next(if want.is_empty() { f0 } else { f1 }) {
            Err(()) => {
                fail = true;
                break;
            }
            Ok(None) => {
                fail |= !plain && want.is_empty();
                break;
            }
            Ok(Some(data)) => {
                let mut s = if want.is_empty() { spec.clone() } else { linked.clone() };
                if tag.is_none() && !want.is_empty() {
                    s.links.pop();
                }
                s.data = data;
                want.push(Exp { spec: s, stamp })
            }
        }
        if !many || want.len() > 400 {
            break;
        }
    }
    ensure!(want.len() <= 400, "harness", "too many points from {line}");
    let somewhere = dests.iter().any(|d| *d != "null");
    if hide && spec.kind != DATA && spec.group == [0; 32] && somewhere && !want.is_empty() {
        want.clear();
        fail = true;
        o.count("private refused");
    }
    if dests.contains(&"db") {
        let i = d.lk(&lk::s(&["init"]), b"")?;
        ensure!(i.ok(), "init", "lk init: {}", i.errs());
    }
    let out = d.lk(&a, &stdin)?;
    ensure!(out.ok() != fail, if fail { "accepted" } else { "refused" }, "lk {line}: exit {:?}, expected {}: {}", out.code, if fail { "to fail" } else { "points" }, out.errs());
    if fail {
        o.count("refused");
    }
    // the same points at all destinations
    let t1 = now();
    let mut made: Option<Vec<Parsed>> = None;
    let mut streams: Vec<(&str, Vec<u8>)> = vec![("f0", d.read("f0")), ("f1", d.read("f1"))];
    if !dests.contains(&"stdout-expr:[hash:str]\\n") {
        streams.push(("stdout", out.out.clone()))
    }
    if dests.contains(&"stderr") && !fail {
        streams.push(("stderr", out.err.clone()))
    }
    for (name, bytes) in &streams {
        let copies = dests.iter().filter(|d| d.trim_start_matches("file:").trim_start_matches("./") == *name || (**d == "-" && *name == "stdout")).count();
        let got = match lk::packets(bytes) {
            Ok(g) => g,
            Err(e) => return vmlib::viol("stream", format!("lk {line}: {name} does not hold packets: {e}")),
        };
        ensure!(got.len() == copies * want.len(), "number of points", "lk {line}: {} points at {name}, expected {copies} times {}", got.len(), want.len());
        for (k, p) in got.iter().enumerate() {
            let n = k / copies;
            // a point is the same everywhere
            if let Some(m) = &made {
                ensure!(m[n].point == p.point, "another point", "lk {line}: point {n} of {name} is not the one written elsewhere");
                continue;
            }
            let e = &mut want[n];
            e.stamp.1 = e.stamp.1.min(if e.stamp.0 == t0 { t1 } else { u64::MAX });
            if let Some(t) = tag {
                if n > 0 {
                    let prev = got[(n - 1) * copies].hash;
                    *e.spec.links.last_mut().unwrap() = (t, prev);
                    o.count("linked to the previous");
                }
            }
            if let Some(x) = differs(p, e) {
                return vmlib::viol("point", format!("lk {line} (input {}): point {n} of {}: {x}", vmlib::show(&stdin), want.len()));
            }
        }
        if copies > 0 && made.is_none() {
            made = Some(got.into_iter().step_by(copies).collect())
        }
    }
    if let Some(m) = &made {
        o.add(["datapoints", "linkpoints", "keypoints"][[DATA, LINK, KEY].iter().position(|k| *k == spec.kind).unwrap()], m.len() as u64);
        if m.len() > 1 {
            o.count("many points")
        }
        // formatted output
        let f = dests.iter().filter(|d| d.starts_with("stdout-expr")).count();
        if f > 0 && !dests.iter().any(|d| *d == "stdout" || *d == "-") {
            let want: String = m.iter().fold(String::new(), |mut s, p| {
                for _ in 0..f {
                    let _ = writeln!(s, "{}", b64(&p.hash));
                }
                s
            });
            ensure!(out.out == want.as_bytes(), "formatted", "lk {line}: {} instead of {}", vmlib::show(&out.out), vmlib::show(want.as_bytes()));
            o.count("formatted");
        }
        let f = dests.iter().filter(|d| d.starts_with("file-expr")).count();
        if f > 0 {
            let want: Vec<u8> = m.iter().flat_map(|p| [&p.data[..], b"|", &p.hash].concat().repeat(f)).collect();
            ensure!(d.read("f2") == want, "formatted", "lk {line}: the file holds {} instead of {}", vmlib::show(&d.read("f2")), vmlib::show(&want));
            o.count("formatted");
        }
        if dests.contains(&"db") {
            let w = d.lk(&lk::s(&["--private", "watch-log", "--asc", "--bare", "--db-only"]), b"")?;
            let got = lk::packets(&w.out).unwrap_or_default();
            let mut all: Vec<&Parsed> = vec![];
            for p in m {
                if !all.iter().any(|a| a.hash == p.hash) {
                    all.push(p)
                }
            }
            ensure!(w.ok() && got.len() == all.len() && got.iter().zip(&all).all(|(a, b)| a.point == b.point), "stored", "lk {line}: the store holds {} points instead of {}: {}", got.len(), all.len(), w.errs());
            o.count("to the store");
        }
    }
    if streams.iter().take(2).any(|s| !s.1.is_empty()) {
        o.count("to a file")
    }
    if dests.len() > 1 && !want.is_empty() {
        o.count("to several places")
    }
    if rd.overflowed {
        o.count(match rd.over {
            Over::Error => "too much data",
            Over::Trim => "trimmed data",
            Over::Split => "split data",
            Over::Carry => "carried data",
        })
    }
    for (k, b) in [("delimited", rd.delim.is_some()), ("evaluated", rd.eval), ("repeated", rd.cycle && rd.limit == 0), ("read limit", rd.limit == 0)] {
        if b && !want.is_empty() {
            o.count(k)
        }
    }
    o.distinct(&line);
    o.sample(|| format!("lk {line}: {} points", want.len()));
    Ok(())
}
