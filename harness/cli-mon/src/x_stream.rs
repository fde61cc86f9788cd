//! X02: commands that read packets and write packets
use crate::lk::{self, Dir};
use crate::refpkt::{self, Parsed, Spec, DATA, KEY, LINK};
use crate::refpred::{self, b64, esc, Cond};
use crate::rt;
use crate::world::Item;
use crate::x_point::{comps, differs, domain, group, links, now, room, Exp};
use std::collections::HashSet;
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static X02: Prop = Prop {
    id: "X02",
    stages: &[
        Stage { name: "filters", quick: 3_000, thorough: 40_000, run: filters },
        Stage { name: "rewrites", quick: 2_000, thorough: 30_000, run: rewrites },
        Stage { name: "collections", quick: 2_000, thorough: 30_000, run: collections },
        Stage { name: "formats", quick: 2_000, thorough: 30_000, run: formats },
    ],
    rule: "the real lk binary is given streams of packets to filter, ignore, dedup, route, rewrite, collect or format; all it writes is compared with what an independent model makes of the same packets and arguments. Non-trivial: distinct command lines and streams.",
    assumptions: &["what filter does with packets after the last one a query can take is not judged"],
    floors: &[
        "filtered", "kept", "rejected elsewhere", "datapoints let through", "up to a maximum", "signed only", "unsigned only", "deduplicated", "routed", "private refused", "private passed", "no packets", "hop", "points rewritten", "resigned", "unsigned", "signed", "left alone", "data rewritten", "as much as fits", "from the packet", "forwarded",
        "collections", "collections of a full batch", "chained", "buffered", "formatted", "joined", "error format", "format failed", "by type", "damaged stream refused",
    ],
    opts: Opts { stall_s: 90, as_mib: 16384, ..OPTS },
};
/// a stream of packets, some of them more than once
pub fn stream(r: &mut Rng, private: bool) -> Vec<&'static Item> {
    let n = *r.pick(&[0, 1, 2, 5, 9, 20]);
    let mut v: Vec<&'static Item> = vec![];
    while v.len() < n {
        let i = if !v.is_empty() && r.chance(1, 4) { v[r.usize(v.len())] } else { rt::any(r) };
        if private || i.x.lp.map_or(true, |l| l.1 != [0; 32]) {
            v.push(i)
        }
    }
    v
}
pub fn bytes(v: &[&Item]) -> Vec<u8> {
    v.iter().flat_map(|i| i.pkt.as_netpkt_bytes().to_vec()).collect()
}
use linkspace::prelude::*;
pub fn is_private(i: &Item) -> bool {
    i.x.lp.map_or(false, |l| l.1 == [0; 32])
}
/// the stream arrives at `a`'s command as the input or from a file
pub fn feed(r: &mut Rng, d: &Dir, a: &mut Vec<Vec<String>>, b: &[u8]) -> Vec<u8> {
    if r.chance(1, 4) {
        a.push(vec!["--pkts".into(), d.file("pkts", b)]);
        return if r.bool() { b"not packets".to_vec() } else { vec![] };
    }
    b.to_vec()
}
/// the same points in the same order
fn same_points(line: &str, at: &str, got: &[u8], want: &[&Item], exact: Option<bool>) -> Result<(), Viol> {
    let g = match lk::packets(got) {
        Ok(g) => g,
        Err(e) => return viol("stream", format!("lk {line}: {at}: {e}")),
    };
    ensure!(g.len() == want.len(), "number of packets", "lk {line}: {} packets at {at} instead of {}: {:?} for {:?}", g.len(), want.len(), g.iter().map(|p| b64(&p.hash)).collect::<Vec<_>>(), want.iter().map(|p| b64(&p.x.hash)).collect::<Vec<_>>());
    for (n, (g, w)) in g.iter().zip(want).enumerate() {
        ensure!(g.point == w.x.point, "another packet", "lk {line}: packet {n} at {at} is {} instead of {}", b64(&g.hash), b64(&w.x.hash));
        if let Some(hop) = exact {
            let mut h = w.x.hdr;
            if hop {
                hopped(&mut h)
            }
            ensure!(g.hdr == h, "net header", "lk {line}: packet {n} at {at} has net header {:?} instead of {h:?}", g.hdr);
        }
    }
    Ok(())
}
/// what a hop does to a net header
pub fn hopped(h: &mut [u8; 32]) {
    let hop = u32::from_be_bytes([h[4], h[5], h[6], h[7]]);
    h[4..8].copy_from_slice(&hop.saturating_add(1).to_be_bytes());
    // the flag that is always zero
    h[3] &= 0x7f;
}
/// a place given as domain:group:space:depth
pub struct Place {
    pub text: String,
    pub group: [u8; 32],
    pub domain: [u8; 16],
    pub pre: Vec<Vec<u8>>,
    pub deep: usize,
}
impl Place {
    pub fn near(r: &mut Rng, x: &Parsed) -> Place {
        let (_, group, domain) = x.lp.unwrap();
        let n = r.usize(x.comps.len() + 1);
        let pre = x.comps[..n].to_vec();
        let deep = *r.pick(&[0, 0, 1, 2, 5, 8, 9, 9]);
        let lead = domain.iter().position(|c| *c != 0).unwrap_or(16);
        let mut text = format!("{}:[b:{}]:{}", esc(&domain[lead..]), b64(&group), pre.iter().map(|c| format!("/{}", esc(c))).collect::<String>());
        match deep {
            0 if r.bool() => {}
            1 if r.bool() => text.push_str(":*"),
            9 => text.push_str(":**"),
            k => text.push_str(&format!(":{k}")),
        }
        Place { text, group, domain, pre, deep: deep.min(8) }
    }
    pub fn holds(&self, x: &Parsed) -> bool {
        x.lp.map_or(false, |l| l.1 == self.group && l.2 == self.domain) && x.comps.starts_with(&self.pre) && x.comps.len() <= self.pre.len() + self.deep
    }
}
fn filters(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let mut private = r.chance(1, 3);
    let inp = stream(r, private);
    let cmd = *r.pick(&["filter", "filter", "ignore", "dedup", "route"]);
    let forced = cmd == "dedup" || cmd == "route";
    let mut a: Vec<String> = vec![];
    let mut opts: Vec<Vec<String>> = vec![];
    // may private points pass
    let mut writes = None;
    if private && !forced {
        match r.below(4) {
            0 => private = false,
            1 => {
                a.extend(lk::s(&["--private-read", "true"]));
                if r.bool() {
                    a.extend(lk::s(&["--private-write", "true"]));
                    writes = Some(true)
                }
            }
            _ => {
                opts.push(lk::s(&["--private"]));
                writes = Some(true)
            }
        }
    }
    let mut hop = None;
    if r.bool() && cmd != "route" {
        hop = Some(r.bool());
        a.extend(lk::s(&["--hop", if hop == Some(true) { "true" } else { "false" }]))
    }
    let mut bad = usize::MAX;
    let mut raw = bytes(&inp);
    if !inp.is_empty() && r.chance(1, 12) && !forced {
        bad = r.usize(inp.len());
        let n = inp.iter().take(bad).map(|i| i.x.size).sum::<usize>();
        // the hash, or the data
        raw[n + *r.pick(&[32, 63, 68])] ^= 1;
    }
    a.push(cmd.to_string());
    let none = r.chance(1, 15);
    let stdin = if none {
        opts.push(lk::s(&["--no-pkts"]));
        o.count("no packets");
        raw
    } else {
        feed(r, &d, &mut opts, &raw)
    };
    let inp: Vec<&Item> = if none { vec![] } else { inp };
    let refused = !private && !forced && inp.iter().any(|i| is_private(i));
    let mut tail = vec![];
    let shown = |i: &&Item| forced || !is_private(i) || writes == Some(true);
    match cmd {
        "dedup" => {
            let cap = *r.pick(&[1, 2, 16, 256]);
            if cap != 256 || r.bool() {
                opts.push(vec!["--capacity".into(), cap.to_string()]);
            }
            r.shuffle(&mut opts);
            a.extend(opts.concat());
            let line = lk::cmd(&a);
            let out = d.lk(&a, &stdin)?;
            ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
            let got = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: format!("lk {line}: {e}") })?;
            // a subsequence with the first of each
            let mut k = 0;
            let mut seen = HashSet::new();
            for (n, i) in inp.iter().enumerate() {
                let here = got.get(k).map_or(false, |g| g.point == i.x.point);
                if seen.insert(i.x.hash) {
                    ensure!(here, "lost", "lk {line}: packet {n} is new, but not written");
                } else if n > 0 && inp[n - 1].x.hash == i.x.hash {
                    // the one just seen
                    let more = inp[n..].iter().take_while(|j| j.x.hash == i.x.hash).count();
                    let again = got[k.min(got.len())..].iter().take_while(|j| j.hash == i.x.hash).count();
                    ensure!(!here || again < more || inp.get(n + more).is_none() && again < more, "repeated", "lk {line}: packet {n} is the one before it, but written again");
                    if !here {
                        o.count("deduplicated");
                        continue;
                    }
                    return viol("repeated", format!("lk {line}: packet {n} is the one before it, but written again"));
                } else if !here {
                    o.count("deduplicated");
                    continue;
                }
                k += 1;
            }
            ensure!(k == got.len(), "invented", "lk {line}: {} packets more than were read", got.len() - k);
            o.distinct((&line, &raw_of(&inp)));
            return Ok(());
        }
        "route" => {
            let fields: [(&str, usize, usize); 7] = [("netflags", 3, 1), ("hop", 4, 4), ("stamp", 8, 8), ("ubits0", 16, 4), ("ubits1", 20, 4), ("ubits2", 24, 4), ("ubits3", 28, 4)];
            let mut set = vec![];
            for _ in 0..r.below(4) {
                let (name, at, n) = *r.pick(&fields);
                let mut v = r.bytes(n);
                if name == "netflags" {
                    v[0] &= 0x3f
                }
                tail.push(if n < 8 && r.bool() { format!("{name}:=:[u{}:{}]", n * 8, v.iter().fold(0u64, |a, b| a << 8 | *b as u64)) } else { format!("{name}:=:[b:{}]", b64(&v)) });
                set.push((at, v));
            }
            r.shuffle(&mut opts);
            a.extend(opts.concat());
            a.extend(tail);
            let line = lk::cmd(&a);
            let out = d.lk(&a, &stdin)?;
            ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
            same_points(&line, "stdout", &out.out, &inp, None)?;
            for (n, g) in lk::packets(&out.out).unwrap().iter().enumerate() {
                let mut h = inp[n].x.hdr;
                for (at, v) in &set {
                    h[*at..*at + v.len()].copy_from_slice(v);
                }
                ensure!(g.hdr == h, "net header", "lk {line}: packet {n} has net header {:?} instead of {h:?}", g.hdr);
                o.count("routed");
            }
            o.distinct((&line, &raw_of(&inp)));
            return Ok(());
        }
        _ => {}
    }
    // filter and ignore
    let mut c: Vec<Cond> = vec![];
    let fields = refpred::all_fields();
    for _ in 0..*r.pick(&[0, 1, 1, 2, 3]) {
        let x = if inp.is_empty() || r.chance(1, 4) { rt::any(r) } else { inp[r.usize(inp.len())] };
        match refpred::cond(r, &x.x, 0, &fields) {
            Cond::Recv(..) => {}
            k => c.push(k),
        }
    }
    let mut lim = vec![];
    if r.chance(1, 5) {
        let n = r.below(4) as u32;
        lim.push(Cond::Limit(0, refpred::Op::T(refpred::TestOpH::Lt), n));
        opts.push(vec!["--max".into(), n.to_string()]);
        o.count("up to a maximum");
    }
    let sig: Option<bool> = if r.chance(1, 4) { Some(r.bool()) } else { None };
    match sig {
        Some(true) => {
            opts.push(lk::s(&["--signed"]));
            o.count("signed only")
        }
        Some(false) => {
            opts.push(lk::s(&["--unsigned"]));
            o.count("unsigned only")
        }
        None => {}
    }
    // a place: of a packet, and maybe more below it
    let place = match r.bool() && inp.iter().any(|i| i.x.kind != DATA) {
        true => {
            let i = loop {
                let i = inp[r.usize(inp.len())];
                if i.x.kind != DATA {
                    break i;
                }
            };
            let p = Place::near(r, &i.x);
            // it is the first argument
            opts.push(vec![p.text.clone()]);
            Some(p)
        }
        false => {
            opts.push(vec![r.pick(&["-b", "--bare"]).to_string()]);
            None
        }
    };
    let let_through = r.chance(1, 4);
    if let_through {
        opts.push(lk::s(&["--allow-datapoint"]))
    }
    let other = r.chance(1, 3);
    if other {
        opts.push(vec![r.pick(&["-f", "--write-false"]).to_string(), "file:other".into()]);
    }
    if !c.is_empty() {
        tail.push("--".to_string());
        tail.extend(c.iter().map(|c| c.text(r)));
    }
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    a.extend(tail);
    let line = lk::cmd(&a);
    let out = d.lk(&a, &stdin)?;
    let ok = |x: &Parsed| {
        c.iter().all(|c| c.ok(x, 0))
            && sig.map_or(true, |s| (x.kind == KEY) == s)
            && place.as_ref().map_or(true, |p| p.holds(x))
    };
    let limited = !lim.is_empty() || c.iter().any(|c| matches!(c, Cond::F(0, ..)));
    let all: Vec<Cond> = c.iter().cloned().chain(lim).collect();
    let mut yes: Vec<&Item> = vec![];
    let mut no: Vec<&Item> = vec![];
    let mut n = 0;
    let mut done = refpred::nth_done(&all, 0, 0);
    let mut stopped = false;
    for (k, i) in inp.iter().enumerate() {
        if done {
            break;
        }
        if k == bad || refused && is_private(i) {
            stopped = true;
            break;
        }
        if let_through && i.x.kind == DATA {
            yes.push(i);
            o.count("datapoints let through");
            continue;
        }
        // it hops when it is read
        let mut x = i.x.clone();
        if hop == Some(true) {
            hopped(&mut x.hdr)
        }
        if ok(&x) && refpred::nth_ok(&all, 0, n) {
            yes.push(i);
        } else {
            no.push(i)
        }
        if ok(&x) {
            n += 1;
            done = refpred::nth_done(&all, 0, n);
        }
    }
    if stopped {
        // what is there of it is not judged
        ensure!(!out.ok(), "accepted", "lk {line}: a stream with a {} packet is accepted", if refused { "private" } else { "damaged" });
        o.count(if bad == usize::MAX { "private refused" } else { "damaged stream refused" });
        return Ok(());
    }
    if !out.ok() {
        // a query nothing can pass is refused
        ensure!(yes.iter().all(|i| let_through && i.x.kind == DATA), "refused", "lk {line}: {}", out.errs());
        return Ok(());
    }
    let yes: Vec<&Item> = yes.into_iter().filter(shown).collect();
    let no: Vec<&Item> = no.into_iter().filter(shown).collect();
    let (main, rest): (_, Option<&Vec<&Item>>) = if cmd == "filter" { (&yes, other.then_some(&no)) } else { (&no, other.then_some(&yes)) };
    if cmd == "filter" || !limited {
        same_points(&line, "stdout", &out.out, main, hop)?;
    }
    if let Some(rest) = rest {
        if cmd != "filter" || !limited {
            same_points(&line, "the other place", &d.read("other"), rest, hop)?;
            o.count("rejected elsewhere");
        }
    }
    if hop == Some(true) && !main.is_empty() {
        o.count("hop")
    }
    o.count("filtered");
    o.add("kept", main.len() as u64);
    if main.iter().any(|i| is_private(i)) {
        o.count("private passed")
    }
    if !main.is_empty() {
        o.distinct((&line, &raw_of(&inp)));
        o.sample(|| format!("lk {line}: {} of {}", main.len(), inp.len()));
    }
    Ok(())
}
fn raw_of(v: &[&Item]) -> Vec<[u8; 32]> {
    v.iter().map(|i| i.x.hash).collect()
}
fn spec_of(x: &Parsed) -> Spec {
    let l = x.lp.unwrap_or_default();
    Spec { kind: x.kind, hdr: x.hdr, group: l.1, domain: l.2, stamp: l.0, links: x.links.clone(), comps: x.comps.clone(), data: x.data.clone(), key: 0 }
}
/// a value may look like an option
fn val(name: &str, t: String) -> Vec<String> {
    match t.starts_with('-') {
        true => vec![format!("{}={t}", if name == "-d" { "--domain" } else { name })],
        false => vec![name.to_string(), t],
    }
}
fn sign_opts(r: &mut Rng, key: usize) -> Vec<String> {
    let mut v = vec!["--enckey".to_string(), lk::enckeys()[key].clone()];
    v.extend(lk::s(if r.bool() { &["--password", lk::PW] } else { &["--utf8-password", "--pass", lk::PW] }));
    v
}
/// the points that came out against what was expected
fn points_are(line: &str, at: &str, got: &[Parsed], want: &[Exp]) -> Result<(), Viol> {
    ensure!(got.len() == want.len(), "number of points", "lk {line}: {} points at {at} instead of {}", got.len(), want.len());
    for (n, (g, e)) in got.iter().zip(want).enumerate() {
        if let Some(x) = differs(g, e) {
            return viol("point", format!("lk {line}: point {n} at {at}: {x}"));
        }
    }
    Ok(())
}
fn rewrites(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let inp = stream(r, false);
    let mut opts: Vec<Vec<String>> = vec![];
    let mode = *r.pick(&["sign-all", "unsign", "skip", "resign"]);
    let key = r.usize(3);
    opts.push(vec![mode.into()]);
    if mode == "sign-all" || mode == "resign" {
        opts.push(sign_opts(r, key));
    }
    // fields: the same for all, or from the packet
    type F = Box<dyn Fn(&Parsed) -> Vec<u8>>;
    let mut ng: Option<F> = None;
    let mut nd: Option<F> = None;
    let mut ns: Option<Box<dyn Fn(&Parsed) -> Vec<Vec<u8>>>> = None;
    let mut nc: Option<Box<dyn Fn(&Parsed) -> u64>> = None;
    let mut data: Option<F> = None;
    let (mut used, mut room, mut trim, mut left) = (false, false, false, 70_000);
    if r.chance(1, 3) {
        if r.bool() {
            opts.push(lk::s(&[*r.pick(&["-g", "--group"]), "[hash]"]));
            ng = Some(Box::new(|x| x.hash.to_vec()));
            used = true;
        } else {
            let (g, t) = loop {
                let g = group(r);
                if g.0 != [0; 32] && !g.1.is_empty() {
                    break g;
                }
            };
            opts.push(val("--group", t));
            ng = Some(Box::new(move |_| g.to_vec()));
        }
    }
    if r.chance(1, 3) {
        let (dm, t) = domain(r);
        opts.push(val(*r.pick(&["-d", "--domain"]), t));
        // the option comes after a subcommand, where -d is the domain
        nd = Some(Box::new(move |_| dm.to_vec()));
    }
    if r.chance(1, 3) {
        if r.bool() {
            opts.push(lk::s(&[*r.pick(&["-s", "--space"]), "[hash]/[group]"]).into_iter().map(|s| if s.starts_with('[') { format!("/{s}") } else { s }).collect());
            ns = Some(Box::new(|x| vec![x.hash.to_vec(), x.lp.unwrap().1.to_vec()]));
            used = true;
        } else {
            let (c, t) = loop {
                let c = comps(r);
                if !c.0.is_empty() {
                    break c;
                }
            };
            opts.push(vec!["--space".into(), t]);
            ns = Some(Box::new(move |_| c.clone()));
        }
    }
    if r.chance(1, 3) {
        match r.below(2) {
            0 => {
                opts.push(lk::s(&[*r.pick(&["--u", "--create"]), "[create]"]));
                nc = Some(Box::new(|x| x.lp.unwrap().0));
                used = true;
            }
            _ => {
                let n = vmlib::gen::u64b(r);
                opts.push(vec!["--create".into(), format!("[u64:{n}]")]);
                nc = Some(Box::new(move |_| n));
            }
        }
    }
    if r.chance(1, 3) {
        opts.push(lk::s(&[*r.pick(&["-i", "--interpret-data"])]));
        opts.push(lk::s(&["--data-repeat"]));
        if r.chance(1, 4) {
            // as much as there is room for
            opts.push(vec!["--data".into(), d.file("big", &vec![b'x'; 70_000])]);
            // all of it every time, or what comes next
            trim = r.bool();
            if trim {
                opts.push(lk::s(&["--data-bufsize", "70000", "--data-overflow", "trim"]));
            }
            room = true;
        } else if r.bool() {
            opts.push(lk::s(&["--data-eval", "--data-str", "[data]-[hash:str]"]));
            data = Some(Box::new(|x| [&x.data[..], b"-", b64(&x.hash).as_bytes()].concat()));
            used = true;
        } else {
            opts.push(lk::s(&["--data-str", "fixed [data]"]));
            data = Some(Box::new(|_| b"fixed [data]".to_vec()));
        }
    }
    let fwd = r.chance(1, 3);
    if fwd {
        opts.push(lk::s(&["--forward", "file:fwd"]))
    }
    let stdin = feed(r, &d, &mut opts, &bytes(&inp));
    r.shuffle(&mut opts);
    let mut a = vec!["rewrite".to_string()];
    a.extend(opts.concat());
    let line = lk::cmd(&a);
    let mut want = vec![];
    let mut fail = false;
    for i in &inp {
        let x = &i.x;
        let mut s = spec_of(x);
        let same = x.kind == DATA || (x.kind == KEY && mode == "skip");
        if same {
            if x.kind == KEY {
                o.count("left alone");
                s.key = (0..3).find(|k| refpkt::keys()[*k].1 == x.signed.unwrap().0).unwrap();
            }
        } else {
            if let Some(f) = &ng {
                s.group = f(x).try_into().unwrap()
            }
            if let Some(f) = &nd {
                s.domain = f(x).try_into().unwrap()
            }
            if let Some(f) = &ns {
                s.comps = f(x)
            }
            if let Some(f) = &nc {
                s.stamp = f(x)
            }
            if let Some(f) = &data {
                s.data = f(x)
            }
            let sign = mode == "sign-all" || (mode == "resign" && x.kind == KEY);
            s.key = key;
            if room {
                s.kind = if sign { KEY } else { LINK };
                s.data = vec![];
                if !s.fits() {
                    return Ok(());
                }
                if left == 0 || trim {
                    left = 70_000
                }
                let n = left.min(refpkt::MAX_POINT - s.usize_());
                left -= n;
                s.data = vec![b'x'; n];
                o.count("as much as fits");
            }
            o.count(match (x.kind == KEY, sign) {
                (true, true) => "resigned",
                (true, false) => "unsigned",
                (false, true) => "signed",
                _ => "points rewritten",
            });
            s.kind = if sign { KEY } else { LINK };
            if data.is_some() {
                o.count("data rewritten")
            }
        }
        fail |= !s.fits();
        let st = s.stamp;
        want.push(Exp { spec: s, stamp: (st, st) });
    }
    if fail {
        return Ok(());
    }
    if used && want.iter().any(|w| w.spec.kind != DATA) {
        o.count("from the packet")
    }
    let out = d.lk(&a, &stdin)?;
    ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
    let got = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: format!("lk {line}: {e}") })?;
    points_are(&line, "stdout", &got, &want)?;
    // those left alone are the same
    for (g, i) in got.iter().zip(&inp) {
        if i.x.kind == DATA || (i.x.kind == KEY && mode == "skip") {
            ensure!(g.point == i.x.point, "changed", "lk {line}: {} changed", b64(&i.x.hash));
        }
    }
    if fwd {
        same_points(&line, "forward", &d.read("fwd"), &inp, None)?;
        o.count("forwarded");
    }
    if !got.is_empty() {
        o.distinct((&line, &raw_of(&inp)));
        o.sample(|| format!("lk {line}: {} points", got.len()));
    }
    Ok(())
}
fn collections(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let inp = stream(r, false);
    let mut opts: Vec<Vec<String>> = vec![];
    let (mut g, mut gt) = group(r);
    if g == [0; 32] {
        (g, gt) = (crate::refpkt::PUBLIC, "[#:pub]".into())
    }
    let (dm, dt) = domain(r);
    let (c, ct) = comps(r);
    opts.push(vec![format!("{dt}:{gt}:{ct}")]);
    let mut base = Spec { kind: LINK, hdr: [0; 32], group: g, domain: dm, stamp: 0, links: vec![], comps: c, data: vec![], key: 0 };
    if r.chance(1, 3) {
        base.kind = KEY;
        base.key = r.usize(3);
        opts.push(sign_opts(r, base.key));
        opts.push(lk::s(&["--sign"]));
    }
    let t0 = now();
    let mut stamp = (t0, u64::MAX);
    if r.bool() {
        let n = vmlib::gen::u64b(r);
        stamp = (n, n);
        opts.push(vec!["--create-int".into(), n.to_string()]);
    }
    let mut tag: Option<[u8; 16]> = None;
    if r.chance(2, 3) {
        let t = r.array::<16>();
        opts.push(vec![r.pick(&["--ctag", "--collect-tag"]).to_string(), format!("[b:{}]", b64(&t))]);
        tag = Some(t);
    }
    let mut chain: Option<[u8; 16]> = None;
    if r.bool() {
        let t = r.array::<16>();
        opts.push(vec!["--chain-tag".into(), format!("[b:{}]", b64(&t))]);
        chain = Some(t);
    }
    let init = if r.chance(1, 3) { links(r) } else { vec![] };
    for l in &init {
        opts.push(vec![r.pick(&["--il", "--init-link"]).to_string(), l.1.clone()]);
    }
    // keep the order of those
    let keep = opts.len();
    let all = if r.chance(1, 3) { links(r) } else { vec![] };
    let mut max = usize::MAX;
    if r.chance(2, 3) {
        max = *r.pick(&[1, 2, 3, 5, 100]);
        opts.push(vec!["--max-links".into(), max.to_string()]);
    }
    match r.below(4) {
        0 => {
            opts.push(lk::s(&["--data-str", "note", "--data-repeat"]));
            base.data = b"note".to_vec();
        }
        1 => opts.push(lk::s(&["--no-data"])),
        _ => {}
    }
    let fw = *r.pick(&["", "stdout", "buffer", "null", "file:fwd"]);
    let wr = *r.pick(&["", "stdout", "buffer", "file:made"]);
    if !fw.is_empty() {
        opts.push(lk::s(&[*r.pick(&["-f", "--forward"]), fw]))
    }
    if !wr.is_empty() {
        opts.push(lk::s(&[*r.pick(&["-w", "--write"]), wr]))
    }
    let stdin = feed(r, &d, &mut opts, &bytes(&inp));
    let mut later = opts.split_off(keep);
    r.shuffle(&mut later);
    let mut a = vec!["collect".to_string()];
    a.extend(opts.concat());
    a.extend(later.concat());
    if !all.is_empty() {
        a.push("--".into());
        a.extend(all.iter().map(|l| l.1.clone()));
    }
    let line = lk::cmd(&a);
    let out = d.lk(&a, &stdin)?;
    let t1 = now();
    if stamp.0 == t0 {
        stamp.1 = t1
    }
    ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
    // taken apart: what was read is told from what was made by its hash
    let theirs: HashSet<[u8; 32]> = inp.iter().map(|i| i.x.hash).collect();
    let fail = |e: String| Viol { sig: "stream".into(), msg: format!("lk {line}: {e}") };
    let so = lk::packets(&out.out).map_err(fail)?;
    let fwd = lk::packets(&d.read("fwd")).map_err(fail)?;
    let file = lk::packets(&d.read("made")).map_err(fail)?;
    let made: Vec<&Parsed> = if wr == "file:made" { file.iter().collect() } else { so.iter().filter(|p| !theirs.contains(&p.hash)).collect() };
    // the batches
    let mut batches: Vec<&[&Item]> = inp.chunks(max).collect();
    let full = inp.len() / max.max(1) * max.max(1) == inp.len() && max != usize::MAX || inp.is_empty();
    let more_allowed = full && (!all.is_empty() || (batches.is_empty() && !init.is_empty()) || (chain.is_some() && !batches.is_empty()));
    if full && made.len() == batches.len() + 1 && more_allowed {
        // the links that are always there, with nothing new
        batches.push(&[]);
    }
    ensure!(made.len() == batches.len(), "number of collections", "lk {line}: {} points made for {} packets", made.len(), inp.len());
    let mut prev: Option<[u8; 32]> = None;
    for (n, (b, m)) in batches.iter().zip(&made).enumerate() {
        let mut s = base.clone();
        s.links = match prev {
            None => init.iter().chain(&all).map(|l| l.0).collect(),
            Some(p) => chain.map(|t| (t, p)).into_iter().chain(all.iter().map(|l| l.0)).collect(),
        };
        if chain.is_some() && prev.is_some() {
            o.count("chained")
        }
        for i in b.iter() {
            s.links.push((tag.unwrap_or([0; 16]), i.x.hash))
        }
        // tagged with the time
        let mut x = (*m).clone();
        if tag.is_none() {
            let k = s.links.len() - b.len();
            for l in x.links.iter_mut().skip(k) {
                let t = u64::from_be_bytes(l.0[8..].try_into().unwrap());
                ensure!(l.0[..8] == [0; 8] && t >= t0 && t <= t1, "tag", "lk {line}: collection {n} has a link tagged {:?}", l.0);
                l.0 = [0; 16];
            }
        }
        if let Some(e) = differs(&x, &Exp { spec: s, stamp }) {
            return viol("collection", format!("lk {line}: point {n} of {}: {e}", made.len()));
        }
        if b.len() == max {
            o.count("collections of a full batch")
        }
        prev = Some(m.hash);
    }
    // in order
    let mut want: Vec<[u8; 32]> = vec![];
    for (b, m) in batches.iter().zip(&made) {
        let f = b.iter().map(|i| i.x.hash);
        match (fw, wr) {
            ("" | "stdout", "file:made") => want.extend(f),
            ("" | "stdout", _) => {
                want.extend(f);
                want.push(m.hash)
            }
            ("buffer", "" | "stdout") => {
                want.push(m.hash);
                want.extend(f)
            }
            ("buffer", "buffer") => {
                want.extend(f);
                want.push(m.hash)
            }
            ("buffer", _) => want.extend(f),
            (_, "file:made") => {}
            _ => want.push(m.hash),
        }
    }
    let got: Vec<[u8; 32]> = so.iter().map(|p| p.hash).collect();
    ensure!(got == want, "order", "lk {line}: standard output holds {:?} instead of {:?}", got.iter().map(|h| b64(h)).collect::<Vec<_>>(), want.iter().map(|h| b64(h)).collect::<Vec<_>>());
    if fw == "file:fwd" {
        ensure!(fwd.iter().map(|p| p.hash).eq(inp.iter().map(|i| i.x.hash)), "forward", "lk {line}: {} packets forwarded of {}", fwd.len(), inp.len());
    }
    if fw == "buffer" || wr == "buffer" {
        o.count("buffered")
    }
    o.add("collections", made.len() as u64);
    if !made.is_empty() {
        o.distinct((&line, &raw_of(&inp)));
        o.sample(|| format!("lk {line}: {} points from {} packets", made.len(), inp.len()));
    }
    Ok(())
}
/// a format, and what it gives for a packet; none: fails
fn fmt(r: &mut Rng, lp: bool) -> (String, Box<dyn Fn(&Parsed) -> Option<Vec<u8>>>) {
    let mut t = String::new();
    let mut f: Vec<Box<dyn Fn(&Parsed) -> Option<Vec<u8>>>> = vec![];
    for _ in 0..r.range(1, 4) {
        match r.below(if lp { 12 } else { 6 }) {
            0 => {
                t.push_str("[hash:str]");
                f.push(Box::new(|x| Some(b64(&x.hash).into_bytes())))
            }
            1 => {
                t.push_str("[hash]");
                f.push(Box::new(|x| Some(x.hash.to_vec())))
            }
            2 => {
                t.push_str("[data]");
                f.push(Box::new(|x| Some(x.data.clone())))
            }
            3 | 4 => {
                let n = r.range(1, 5);
                let b: Vec<u8> = (0..n).map(|_| *r.pick(b"ab z,;")).collect();
                t.push_str(std::str::from_utf8(&b).unwrap());
                f.push(Box::new(move |_| Some(b.clone())))
            }
            5 => {
                if r.chance(1, 3) {
                    t.push_str("[nosuchthing:1]");
                    f.push(Box::new(|_| None))
                }
            }
            6 => {
                t.push_str("[group]");
                f.push(Box::new(|x| Some(x.lp?.1.to_vec())))
            }
            7 => {
                t.push_str("[domain]");
                f.push(Box::new(|x| Some(x.lp?.2.to_vec())))
            }
            8 => {
                t.push_str("[create:str]");
                f.push(Box::new(|x| Some(x.lp?.0.to_string().into_bytes())))
            }
            9 => {
                t.push_str("[links_len:str]");
                f.push(Box::new(|x| Some(x.links.len().to_string().into_bytes())))
            }
            10 => {
                t.push_str("[depth:str]");
                f.push(Box::new(|x| Some(x.comps.len().to_string().into_bytes())))
            }
            _ => {
                t.push_str("[/links:[ptr:str]]");
                f.push(Box::new(|x| Some(x.links.iter().map(|l| b64(&l.1)).collect::<String>().into_bytes())))
            }
        }
    }
    (t, Box::new(move |x| f.iter().map(|f| f(x)).collect::<Option<Vec<_>>>().map(|v| v.concat())))
}
fn formats(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    let private = r.bool();
    let inp = stream(r, private);
    let mut a: Vec<String> = vec![];
    let mut opts: Vec<Vec<String>> = vec![];
    let n = r.range(1, 3);
    let types: Vec<_> = (0..n).map(|k| fmt(r, k > 0)).collect();
    let hide = r.chance(1, 6);
    if hide {
        a.extend(lk::s(&["--private-write", "false"]));
    }
    a.push(r.pick(&["pktf", "p"]).to_string());
    let mut delim = b"\n".to_vec();
    if r.bool() {
        delim = r.pick(&[&b""[..], b",", b"--", b"\0", b"\xff\n"]).to_vec();
        opts.push(vec![r.pick(&["--delimiter", "-d"]).to_string(), esc(&delim)]);
    }
    let join = r.bool();
    if join {
        opts.push(lk::s(&[*r.pick(&["-j", "--join-delimiter"])]));
    }
    let mut err = None;
    if r.bool() {
        let e = r.pick(&["failed", "e"]).to_string();
        opts.push(vec![r.pick(&["-e", "--error"]).to_string(), e.clone()]);
        err = Some(e.into_bytes());
    }
    if r.chance(1, 4) {
        opts.push(lk::s(&["--silent"]))
    }
    let inspect = r.chance(1, 6) && err.is_some();
    if inspect {
        opts.push(lk::s(&["--inspect"]))
    }
    let fwd = !hide && r.chance(1, 4);
    if fwd {
        opts.push(lk::s(&[*r.pick(&["-f", "--forward"]), "file:fwd"]))
    }
    let stdin = feed(r, &d, &mut opts, &bytes(&inp));
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    a.extend(types.iter().map(|t| t.0.clone()));
    let line = lk::cmd(&a);
    let mut want = vec![];
    let mut fail = false;
    let mut passed: Vec<&Item> = vec![];
    for i in &inp {
        if hide && is_private(i) {
            continue;
        }
        let k = (i.x.kind != DATA) as usize + (i.x.kind == KEY) as usize;
        let f = &types[k.min(n - 1)].1;
        let t = match (f(&i.x), &err) {
            (Some(t), _) => t,
            (None, Some(e)) => {
                o.count("error format");
                e.clone()
            }
            (None, None) => {
                fail = true;
                break;
            }
        };
        if join && !passed.is_empty() {
            want.extend(&delim)
        }
        want.extend(t);
        if !join {
            want.extend(&delim)
        }
        passed.push(i);
    }
    let out = d.lk(&a, &stdin)?;
    ensure!(out.ok() != fail, if fail { "accepted" } else { "refused" }, "lk {line}: exit {:?}: {}", out.code, out.errs());
    let text = if inspect { &out.err } else { &out.out };
    ensure!(*text == want, "formatted", "lk {line}: {} instead of {}", vmlib::show(text), vmlib::show(&want));
    if fail {
        o.count("format failed");
        return Ok(());
    }
    // private points are not forwarded unasked
    let open: Vec<&Item> = passed.iter().copied().filter(|i| !is_private(i)).collect();
    if inspect {
        same_points(&line, "stdout", &out.out, &open, None)?;
    }
    if fwd {
        same_points(&line, "forward", &d.read("fwd"), &open, None)?;
        o.count("forwarded");
    }
    if join && passed.len() > 1 {
        o.count("joined")
    }
    if n > 1 && passed.iter().any(|p| p.x.kind != DATA) {
        o.count("by type")
    }
    o.count("formatted");
    if !passed.is_empty() {
        o.distinct((&line, &raw_of(&inp)));
        o.sample(|| format!("lk {line}: {}", vmlib::show(&want)));
    }
    let _ = room;
    Ok(())
}
