//! X03: commands that save to and read from the store, one after another
use crate::lk::{self, Dir};
use crate::refpkt::{Parsed, Spec, DATA, KEY, LINK};
use crate::refpred::{self, b64, esc, Cond};
use crate::rt;
use crate::refpkt;
use crate::world::{self, Item};
use crate::x_stream::{bytes, feed, hopped, is_private, stream, Place};
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static X03: Prop = Prop {
    id: "X03",
    stages: &[Stage { name: "sessions", quick: 2_400, thorough: 40_000, run: sessions }],
    rule: "a sequence of real lk processes on one directory saves streams and reads them back by place, query, hash, links and pull; all they write is compared with a model of the log and of the selection. Non-trivial: distinct command lines on distinct logs.",
    assumptions: &["the directory is kept by the LMDB stand-in's file", "conditions on the time of receipt are not used"],
    floors: &[
        "saved", "already there", "to the other place", "private refused", "refused without the store", "written to the store", "watched", "tree", "log", "by hash", "by place", "limited", "per branch", "followed", "links followed", "private hidden", "nothing can pass", "queries from packets", "constrained", "printed", "queries printed",
        "links written", "links missing", "links of links", "chains", "imported", "import refused", "pulled", "checked",
    ],
    opts: Opts { stall_s: 120, as_mib: 16384, ..OPTS },
};
type Log = Vec<(u64, Item)>;
pub fn find<'a>(log: &'a Log, h: &[u8; 32]) -> Option<&'a Item> {
    log.iter().find(|i| i.1.x.hash == *h).map(|i| &i.1)
}
/// the packet with another net header
pub fn with_hdr(i: &Item, f: impl FnOnce(&mut [u8; 32])) -> Item {
    let mut b = i.pkt.as_netpkt_bytes().to_vec();
    f((&mut b[..32]).try_into().unwrap());
    Item::of(&b)
}
/// adds it unless it is there
fn store(log: &mut Log, i: Item) -> bool {
    if find(log, &i.x.hash).is_some() {
        return false;
    }
    log.push((0, i));
    true
}
/// the same packets in the same order
pub fn same(line: &str, at: &str, got: &[u8], want: &[Item]) -> Res {
    let g = match lk::packets(got) {
        Ok(g) => g,
        Err(e) => return viol("stream", format!("lk {line}: {at}: {e}: {}", vmlib::show(got))),
    };
    let l = |v: Vec<String>| v.join(" ");
    ensure!(g.len() == want.len(), "number of packets", "lk {line}: {} packets at {at} instead of {}: [{}] for [{}]", g.len(), want.len(), l(g.iter().map(|p| b64(&p.hash)).collect()), l(want.iter().map(|p| b64(&p.x.hash)).collect()));
    for (n, (g, w)) in g.iter().zip(want).enumerate() {
        ensure!(g.point == w.x.point, "another packet", "lk {line}: packet {n} at {at} is {} instead of {}", b64(&g.hash), b64(&w.x.hash));
        ensure!(g.hdr == w.x.hdr, "net header", "lk {line}: packet {n} at {at} has net header {:?} instead of {:?}", g.hdr, w.x.hdr);
    }
    Ok(())
}
struct Ask {
    opts: Vec<Vec<String>>,
    tail: Vec<String>,
    conds: Vec<Cond>,
    place: Option<Place>,
    sig: Option<bool>,
    /// only by the command line, not in a query's text
    mode: &'static str,
}
pub const MODES: &[&str] = &["tree-desc", "tree-asc", "log-desc", "log-asc", "hash-asc", "hash-desc"];
impl Ask {
    fn new(r: &mut Rng, log: &Log, o: &mut Obs, place: bool) -> Ask {
        let l: Vec<(u64, &Item)> = log.iter().map(|l| (l.0, &l.1)).collect();
        let mut a = Ask { opts: vec![], tail: vec![], conds: vec![], place: None, sig: None, mode: *r.pick(MODES) };
        if place {
            if r.bool() {
                let p = match log.is_empty() || r.chance(1, 6) {
                    true => loop {
                        let i = rt::any(r);
                        if i.x.kind != DATA {
                            break Some(Place::near(r, &i.x));
                        }
                    },
                    false => Some(&log[r.usize(log.len())].1).filter(|i| i.x.kind != DATA).map(|i| Place::near(r, &i.x)),
                };
                if let Some(p) = p {
                    a.opts.push(vec![p.text.clone()]);
                    a.place = Some(p);
                    o.count("by place");
                }
            }
            if a.place.is_none() {
                a.opts.push(vec![r.pick(&["-b", "--bare"]).to_string()]);
            }
        }
        a.sig = if r.chance(1, 6) { Some(r.bool()) } else { None };
        a.conds = rt::conds(r, &l, 0, a.sig.is_none());
        a.conds.retain(|c| !matches!(c, Cond::Recv(..)));
        if !refpred::nth_left(&a.conds, 3, 0) {
            // what no first of a branch can pass is not judged in other modes
            a.conds.retain(|c| !matches!(c, Cond::Limit(3, ..)));
        }
        match a.sig {
            Some(true) => a.opts.push(lk::s(&["--signed"])),
            Some(false) => a.opts.push(lk::s(&["--unsigned"])),
            None => {}
        }
        // limits by name
        let text: Vec<String> = a.conds.iter().map(|c| c.text(r)).collect();
        for (c, t) in a.conds.iter().zip(text) {
            match c {
                Cond::Limit(k, crate::refpred::Op::T(crate::refpred::TestOpH::Lt), n) if r.bool() && !a.opts.iter().any(|x| x[0].contains("max")) => {
                    let name = ["--max", "--max-new", "--max-index", "--max-branch"][*k];
                    a.opts.push(vec![name.into(), n.to_string()]);
                }
                _ => a.tail.push(t),
            }
        }
        if a.conds.iter().any(|c| matches!(c, Cond::Limit(..))) {
            o.count("limited")
        }
        if a.conds.iter().any(|c| matches!(c, Cond::Limit(3, ..))) && a.mode.starts_with("tree") {
            o.count("per branch")
        }
        a
    }
    fn holds(&self, x: &Parsed) -> bool {
        self.sig.map_or(true, |s| (x.kind == KEY) == s) && self.place.as_ref().map_or(true, |p| p.holds(x))
    }
    fn select<'a>(&self, log: &'a Log, mode: &str, more: &[Cond]) -> Vec<&'a Item> {
        let l: Vec<(u64, &Item)> = log.iter().map(|l| (l.0, &l.1)).filter(|l| self.holds(&l.1.x)).collect();
        let c: Vec<Cond> = self.conds.iter().chain(more).cloned().collect();
        rt::select(&l, &c, mode).got.into_iter().map(|k| l[k].1).collect()
    }
    fn opts(&self, r: &mut Rng, more: Vec<Vec<String>>) -> Vec<String> {
        let mut o: Vec<Vec<String>> = self.opts.iter().cloned().chain(more).collect();
        r.shuffle(&mut o);
        let mut a = o.concat();
        if !self.tail.is_empty() {
            a.push("--".into());
            a.extend(self.tail.clone())
        }
        a
    }
}
/// the packets a handler of a query with :follow gets
pub fn followed(log: &Log, got: Vec<&Item>, o: &mut Obs) -> Vec<Item> {
    let mut v = vec![];
    for g in got {
        v.push(with_hdr(g, |h| h[3] &= !6));
        for l in &g.x.links {
            if let Some(i) = find(log, &l.1) {
                v.push(with_hdr(i, |h| h[3] = h[3] & !4 | 2));
                o.count("links followed")
            }
        }
    }
    v
}
struct Case {
    d: Dir,
    log: Log,
    private: bool,
}
impl Case {
    fn common(&self, r: &mut Rng) -> (Vec<String>, Vec<Vec<String>>) {
        match (self.private, r.bool()) {
            (false, _) => (vec![], vec![]),
            (true, true) => (lk::s(&["--private"]), vec![]),
            (true, false) => (vec![], vec![lk::s(&["--private"])]),
        }
    }
}
fn refused(line: &str, out: &lk::Out, q: &Ask, at: &[&Item]) -> Result<bool, Viol> {
    if out.ok() {
        return Ok(false);
    }
    ensure!(at.is_empty() || (0..4).any(|k| !refpred::nth_left(&q.conds, k, 0)), "refused", "lk {line}: {}", out.errs());
    Ok(true)
}
fn sessions(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let mut c = Case { d: Dir::new(o), log: vec![], private: r.chance(1, 2) };
    match r.below(8) {
        0 => {
            // nothing there
            let a = lk::s(*r.pick(&[&["save"][..], &["watch", "--bare", "--db-only"], &["db-check"], &["get-links", "skip"]]));
            let out = c.d.lk(&a, &[])?;
            ensure!(!out.ok(), "accepted", "lk {}: accepted without a store", lk::cmd(&a));
            ensure!(!c.d.0.join("inst").exists(), "created", "lk {}: a directory was created", lk::cmd(&a));
            o.count("refused without the store");
        }
        _ => {}
    }
    let a = if r.bool() { lk::s(&["init"]) } else { lk::s(&["--init", "db-check"]) };
    let out = c.d.lk(&a, &[])?;
    ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
    save(r, &mut c, o)?;
    for _ in 0..r.range(2, 7) {
        match r.below(16) {
            0 | 1 => save(r, &mut c, o)?,
            2 => write_db(r, &mut c, o)?,
            3..=7 => watch(r, &c, o)?,
            8 => by_hash(r, &c, o)?,
            9 | 10 => multi(r, &c, o)?,
            11 | 12 => links(r, &mut c, o)?,
            13 => import(r, &mut c, o)?,
            14 => pull(r, &mut c, o)?,
            _ => print(r, &c, o)?,
        }
    }
    let out = c.d.lk(&lk::s(&["db-check"]), &[])?;
    ensure!(out.ok() && String::from_utf8_lossy(&out.out).contains("everything ok"), "check", "lk db-check: {}{}", String::from_utf8_lossy(&out.out), out.errs());
    o.count("checked");
    Ok(())
}
fn save(r: &mut Rng, c: &mut Case, o: &mut Obs) -> Res {
    let mut private = c.private;
    let inp = stream(r, private);
    let (mut a, mut opts) = c.common(r);
    if private && r.chance(1, 8) {
        (a, opts) = (vec![], vec![]);
        private = false;
    }
    let mut hop = true;
    if r.chance(1, 3) {
        hop = r.bool();
        a.extend(lk::s(&["--hop", if hop { "true" } else { "false" }]));
    }
    a.push("save".into());
    let fwd = r.chance(1, 3);
    if fwd {
        opts.push(lk::s(&[*r.pick(&["-f", "--forward-stdout"])]))
    }
    let mut new = vec![];
    match r.below(4) {
        0 => {
            opts.push(lk::s(&["--new", "db", "--new", "file:new"]));
            new.push("new");
        }
        1 => {
            opts.push(lk::s(&["--new", "file:new", "--new", "db"]));
            new.push("new");
        }
        _ => {}
    }
    let old = r.chance(1, 3);
    if old {
        opts.push(lk::s(&["--old", "file:old"]))
    }
    let stdin = feed(r, &c.d, &mut opts, &bytes(&inp));
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    let line = lk::cmd(&a);
    let _ = std::fs::remove_file(c.d.0.join("new"));
    let _ = std::fs::remove_file(c.d.0.join("old"));
    let out = c.d.lk(&a, &stdin)?;
    let (mut n, mut e, mut f) = (vec![], vec![], vec![]);
    let mut stopped = false;
    for i in inp {
        if !private && is_private(i) {
            stopped = true;
            break;
        }
        let h = || with_hdr(i, |h| if hop { hopped(h) });
        let is_new = store(&mut c.log, h());
        o.count(if is_new { "saved" } else { "already there" });
        if is_new { &mut n } else { &mut e }.push(h());
        f.push(h());
    }
    ensure!(out.ok() != stopped, if stopped { "accepted" } else { "refused" }, "lk {line}: exit {:?} {}", out.code, out.errs());
    if stopped {
        o.count("private refused")
    }
    same(&line, "stdout", &out.out, if fwd { &f } else { &[] })?;
    if !new.is_empty() {
        same(&line, "the place of new ones", &c.d.read("new"), &n)?
    }
    if old {
        same(&line, "the place of old ones", &c.d.read("old"), &e)?;
        o.count("to the other place")
    }
    Ok(())
}
fn write_db(r: &mut Rng, c: &mut Case, o: &mut Obs) -> Res {
    let inp = stream(r, c.private);
    let (mut a, mut opts) = c.common(r);
    a.push("filter".into());
    opts.push(lk::s(&["--bare"]));
    opts.push(lk::s(&["-w", "db"]));
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    let line = lk::cmd(&a);
    let out = c.d.lk(&a, &bytes(&inp))?;
    ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
    for i in inp {
        store(&mut c.log, with_hdr(i, |_| ()));
    }
    o.count("written to the store");
    Ok(())
}
fn watch(r: &mut Rng, c: &Case, o: &mut Obs) -> Res {
    let q = Ask::new(r, &c.log, o, true);
    let (mut a, mut more) = c.common(r);
    let hidden = c.private && r.chance(1, 4);
    if hidden {
        (a, more) = (vec![], vec![]);
        if r.bool() {
            a = lk::s(&["--private-read", "true"])
        }
    }
    let mode = match r.below(4) {
        0 => {
            a.push("watch-tree".into());
            match r.bool() {
                true => {
                    more.push(lk::s(&[*r.pick(&["-a", "--asc"])]));
                    "tree-asc"
                }
                false => "tree-desc",
            }
        }
        1 => {
            a.push("watch-log".into());
            match r.bool() {
                true => {
                    more.push(lk::s(&[*r.pick(&["-a", "--asc"])]));
                    "log-asc"
                }
                false => "log-desc",
            }
        }
        _ => {
            a.push("watch".into());
            if q.mode != "tree-desc" || r.bool() {
                more.push(lk::s(&["--mode", q.mode]));
            }
            q.mode
        }
    };
    more.push(lk::s(&[*r.pick(&["--db-only", "--no-new"])]));
    let follow = r.chance(1, 4);
    if follow {
        more.push(lk::s(&["--follow"]))
    }
    if r.chance(1, 4) {
        more.push(lk::s(*r.pick(&[&["--qid", "mine"][..], &["--watch"], &["--until", "1h"]])));
    }
    let file = r.chance(1, 4);
    if file {
        let _ = std::fs::remove_file(c.d.0.join("out"));
        more.push(lk::s(&[*r.pick(&["-w", "--write"]), "file:out"]))
    }
    a.extend(q.opts(r, more));
    let line = lk::cmd(&a);
    let got = q.select(&c.log, mode, &[]);
    let out = c.d.lk(&a, b"")?;
    if refused(&line, &out, &q, &got)? {
        o.count("nothing can pass");
        return Ok(());
    }
    let n = got.len();
    let mut want = if follow { o.count("followed"); followed(&c.log, got, o) } else { got.into_iter().map(|g| with_hdr(g, |_| ())).collect() };
    if hidden || !c.private {
        let n = want.len();
        want.retain(|i| !is_private(i));
        if n != want.len() {
            o.count("private hidden")
        }
    }
    same(&line, "the output", &if file { c.d.read("out") } else { out.out }, &want)?;
    o.count(&mode[..mode.find('-').unwrap()]);
    o.count("watched");
    if n > 0 {
        o.distinct((&line, n, c.log.len()));
        o.sample(|| format!("lk {line}: {n} of {}", c.log.len()));
    }
    Ok(())
}
fn by_hash(r: &mut Rng, c: &Case, o: &mut Obs) -> Res {
    let i = if c.log.is_empty() || r.chance(1, 5) { rt::any(r) } else { &c.log[r.usize(c.log.len())].1 };
    let (mut a, mut opts) = c.common(r);
    a.push("watch-hash".into());
    let t = b64(&i.x.hash);
    opts.push(vec![if t.starts_with('-') || r.bool() { format!("[b:{t}]") } else { t }]);
    opts.push(lk::s(&["--db-only"]));
    let follow = r.chance(1, 4);
    if follow {
        opts.push(lk::s(&["--follow"]))
    }
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    let line = lk::cmd(&a);
    let out = c.d.lk(&a, b"")?;
    ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
    let got: Vec<&Item> = find(&c.log, &i.x.hash).into_iter().collect();
    let mut want = if follow { followed(&c.log, got, o) } else { got.into_iter().map(|g| with_hdr(g, |_| ())).collect() };
    want.retain(|i| c.private || !is_private(i));
    same(&line, "stdout", &out.out, &want)?;
    o.count("by hash");
    Ok(())
}
fn note(text: &str) -> Vec<u8> {
    Spec { kind: DATA, hdr: [0; 32], group: [0; 32], domain: [0; 16], stamp: 0, links: vec![], comps: vec![], data: text.as_bytes().to_vec(), key: 0 }.bytes()
}
fn multi(r: &mut Rng, c: &Case, o: &mut Obs) -> Res {
    let mut inp = vec![];
    let mut want: Vec<Item> = vec![];
    // what they are held to
    let or: Vec<Vec<Cond>> = match r.below(3) {
        0 => (0..r.range(1, 3)).map(|_| {
            let q = Ask::new(r, &c.log, o, false);
            q.conds.into_iter().filter(|c| !matches!(c, Cond::Limit(..))).collect::<Vec<_>>()
        }).filter(|c| !c.is_empty()).collect(),
        _ => vec![],
    };
    let mut opts: Vec<Vec<String>> = or.iter().map(|c| vec!["--or".to_string(), c.iter().map(|c| c.text(r)).collect::<Vec<_>>().join("\n")]).collect();
    let mut told = vec![];
    let mut watches = 0;
    for k in 0..r.range(1, 4) {
        let mut q = Ask::new(r, &c.log, o, false);
        q.sig = None;
        if or.iter().flatten().any(rt::beyond_index) {
            // whether these count in a branch is not said
            q.conds.retain(|c| !matches!(c, Cond::Limit(3, ..)))
        }
        let mut t: Vec<String> = q.conds.iter().map(|c| c.text(r)).collect();
        t.push(format!(":mode:{}", q.mode));
        t.push(format!(":qid:{k}"));
        if r.bool() {
            t.push("i_new:<:[u32:0]".into());
        }
        if r.chance(1, 8) {
            t.push("nonsense".into());
            inp.extend(note(&t.join("\n")));
            continue;
        }
        let follow = r.chance(1, 5);
        if follow {
            t.push(":follow".into())
        }
        r.shuffle(&mut t);
        // the first that leaves something
        let text = t.join("\n");
        told.push(text.clone());
        let empty = |more: &[Cond]| {
            possible(more, &text)
        };
        let held: &[Cond] = match or.iter().find(|c| empty(c)) {
            Some(c) => c,
            None if or.is_empty() => &[],
            None => {
                inp.extend(note(&text));
                continue;
            }
        };
        if !held.is_empty() {
            o.count("constrained");
        }
        inp.extend(note(&text));
        let can = possible(held, &text);
        watches += can as usize;
        let got = if can { q.select(&c.log, q.mode, held) } else { vec![] };
        if follow {
            want.extend(followed(&c.log, got, o))
        } else {
            want.extend(got.into_iter().map(|g| with_hdr(g, |_| ())))
        }
        o.count("queries from packets");
    }
    let mut a = lk::s(&["--private"]);
    a.push("multi-watch".into());
    let print = r.chance(1, 5);
    if print {
        opts.push(lk::s(&[*r.pick(&["--print-expr", "--print-text"])]))
    }
    let stdin = feed(r, &c.d, &mut opts, &inp);
    a.extend(opts.concat());
    let line = lk::cmd(&a);
    let mut out = c.d.lk(&a, &stdin)?;
    ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
    if print {
        // nothing but the queries, which say the same as those that were asked
        let text = String::from_utf8_lossy(&out.out).to_string();
        let mut qs: Vec<String> = vec![];
        for part in text.split("\n\n").filter(|t| !t.trim().is_empty()) {
            match qs.last_mut() {
                Some(q) if !part.trim_start().starts_with(':') => {
                    q.push('\n');
                    q.push_str(part)
                }
                _ => qs.push(part.to_string()),
            }
        }
        ensure!(qs.len() == watches, "printed queries", "lk {line} of {told:?}: {} queries instead of {watches}: {text:?}", qs.len());
        let b = lk::s(&["--private", "multi-watch"]);
        let inp: Vec<u8> = qs.iter().flat_map(|q| note(q)).collect();
        out = c.d.lk(&b, &inp)?;
        ensure!(out.ok(), "refused", "lk {line} of {told:?}: printed {text:?}: {}", out.errs());
        o.count("queries printed");
    }
    same(&format!("{line} of {told:?}"), "stdout", &out.out, &want)?;
    Ok(())
}
/// can the real query take anything
fn possible(more: &[Cond], text: &str) -> bool {
    let mut r = Rng::new(1);
    let mut t = text.to_string();
    for c in more {
        t.push('\n');
        t.push_str(&c.text(&mut r));
    }
    linkspace::lk_query_parse(linkspace::query::Query::from(linkspace_core::prelude::Query::default()), &[&t], ()).is_ok()
}
/// points that link to some of those before them, saved
fn chain(r: &mut Rng, c: &mut Case, o: &mut Obs) -> Result<Vec<Item>, Viol> {
    let mut v: Vec<Item> = vec![];
    for k in 0..r.range(3, 8) {
        let mut s = world::spec(r);
        s.kind = refpkt::LINK;
        s.group = refpkt::PUBLIC;
        s.stamp = 1 + k as u64;
        s.data = r.array::<8>().to_vec();
        s.links = v.last().map(|i| ([1; 16], i.x.hash)).into_iter().collect();
        if k > 1 && r.chance(1, 3) {
            s.links.push(([2; 16], v[r.usize(k - 1)].x.hash))
        }
        if r.chance(1, 3) {
            // some of them again
            for _ in 0..r.range(1, 2) {
                if let Some(l) = s.links.get(r.usize(s.links.len().max(1))).copied() {
                    s.links.insert(r.usize(s.links.len()), ([r.u8(); 16], l.1))
                }
            }
        }
        if s.fits() {
            v.push(Item::new(&s))
        }
    }
    let a = lk::s(&["--hop", "false", "save"]);
    let out = c.d.lk(&a, &bytes(&v.iter().collect::<Vec<_>>()))?;
    ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
    for i in &v {
        store(&mut c.log, with_hdr(i, |_| ()));
    }
    o.count("chains");
    Ok(v)
}
fn links(r: &mut Rng, c: &mut Case, o: &mut Obs) -> Res {
    let chain = if r.bool() { chain(r, c, o)? } else { vec![] };
    let c = &*c;
    // what it reads need not be stored
    let mut inp: Vec<&Item> = stream(r, c.private);
    inp.truncate(6);
    if !chain.is_empty() {
        inp.truncate(1);
        inp.extend(chain.last());
        inp.push(r.pick(&chain));
    }
    if r.bool() {
        inp.extend(c.log.iter().map(|l| &l.1).filter(|i| !i.x.links.is_empty() && (c.private || !is_private(i))).take(4))
    }
    let (mut a, mut opts) = c.common(r);
    a.push("get-links".into());
    let mut depth = 0;
    match r.below(3) {
        0 => {}
        1 => {
            depth = r.usize(4);
            opts.push(vec![r.pick(&["-r", "--recursive"]).to_string(), depth.to_string()])
        }
        _ => {
            depth = usize::MAX;
            opts.push(lk::s(&[*r.pick(&["-R", "--rrecursive"])]))
        }
    }
    let fw = *r.pick(&["", "null", "file:fwd"]);
    if !fw.is_empty() {
        opts.push(lk::s(&[*r.pick(&["-f", "--forward"]), fw]))
    }
    let file = r.chance(1, 4);
    if file {
        opts.push(lk::s(&[*r.pick(&["-w", "--write"]), "file:links"]))
    }
    for f in ["fwd", "links"] {
        let _ = std::fs::remove_file(c.d.0.join(f));
    }
    let stdin = feed(r, &c.d, &mut opts, &bytes(&inp));
    r.shuffle(&mut opts);
    a.extend(opts.concat());
    let error = r.chance(1, 3);
    a.push(if error { "error" } else { "skip" }.into());
    let line = lk::cmd(&a);
    let out = c.d.lk(&a, &stdin)?;
    // (of the input?, packet)
    fn walk(log: &Log, i: &Item, level: usize, error: bool, v: &mut Vec<(bool, Item)>, o: &mut Obs) -> bool {
        for l in &i.x.links {
            match find(log, &l.1) {
                Some(i) => {
                    v.push((false, with_hdr(i, |_| ())));
                    o.count("links written");
                    if level > 0 && !i.x.links.is_empty() {
                        o.count("links of links");
                        if !walk(log, i, level - 1, error, v, o) {
                            return false;
                        }
                    }
                }
                None => {
                    o.count("links missing");
                    if error {
                        return false;
                    }
                }
            }
        }
        true
    }
    let mut v = vec![];
    let mut ok = true;
    for i in &inp {
        if !walk(&c.log, i, depth, error, &mut v, o) {
            ok = false;
            break;
        }
        v.push((true, with_hdr(i, |_| ())));
    }
    ensure!(out.ok() == ok, if ok { "refused" } else { "accepted" }, "lk {line}: exit {:?} when {}: {}", out.code, if ok { "all is well" } else { "a link is not known" }, out.errs());
    let (mut so, mut ff, mut fl) = (vec![], vec![], vec![]);
    for (input, i) in v {
        if !c.private && is_private(&i) {
            continue;
        }
        match (input, fw) {
            (true, "") => so.push(i),
            (true, "null") => {}
            (true, _) => ff.push(i),
            (false, _) if file => fl.push(i),
            _ => so.push(i),
        }
    }
    same(&line, "stdout", &out.out, &so)?;
    same(&line, "the place of links", &c.d.read("links"), &fl)?;
    same(&line, "the place of the input", &c.d.read("fwd"), &ff)?;
    Ok(())
}
fn import(r: &mut Rng, c: &mut Case, o: &mut Obs) -> Res {
    let inp = stream(r, true);
    let mut b = bytes(&inp);
    let bad = !inp.is_empty() && r.chance(1, 4);
    if bad {
        let n = inp.iter().take(r.usize(inp.len())).map(|i| i.x.size).sum::<usize>();
        if r.bool() {
            b[n + *r.pick(&[32, 63, 68])] ^= 1;
        } else {
            b.truncate(n + r.range(1, 40));
        }
    }
    let f = c.d.file("import", &b);
    let a = vec!["db-import".to_string(), f];
    let line = lk::cmd(&a);
    let out = c.d.lk(&a, b"")?;
    ensure!(out.ok() != bad, if bad { "accepted" } else { "refused" }, "lk {line}: exit {:?} {}", out.code, out.errs());
    if bad {
        o.count("import refused");
        return Ok(());
    }
    let mut want = String::new();
    for i in &inp {
        let n = store(&mut c.log, with_hdr(i, |_| ()));
        want.push_str(&format!("{} {}\n", b64(&i.x.hash), if n { "Written" } else { "Exists" }));
    }
    want.push_str(&format!("read {} - ", inp.len()));
    let t = String::from_utf8_lossy(&out.out).to_string();
    ensure!(t.starts_with(&want), "report", "lk {line}: reports {t} instead of {want}");
    o.count("imported");
    Ok(())
}
fn pull(r: &mut Rng, c: &mut Case, o: &mut Obs) -> Res {
    let mut q = Ask::new(r, &c.log, o, true);
    let place = match q.place.take() {
        Some(p) => p,
        None => return Ok(()),
    };
    let p = (place.group, place.domain);
    q.place = Some(place);
    let mut more = vec![];
    let mut id = b"default".to_vec();
    if r.bool() {
        id = (0..r.range(1, 9)).map(|_| r.u8()).collect();
        let t = esc(&id);
        more.push(vec![format!("--qid={t}")]);
    }
    let mut a = vec!["pull".to_string()];
    let to_db = r.bool();
    if !to_db {
        more.push(lk::s(&["-w", "stdout"]))
    }
    a.extend(q.opts(r, more));
    let line = lk::cmd(&a);
    let out = c.d.lk(&a, b"")?;
    let got = q.select(&c.log, q.mode, &[]);
    if refused(&line, &out, &q, &got)? {
        return Ok(());
    }
    let bytes = match to_db {
        false => out.out,
        true => {
            let a = lk::s(&["watch-log", "--private", "--bare", "--db-only", "--max", "1"]);
            let out = c.d.lk(&a, b"")?;
            ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
            out.out
        }
    };
    let v = lk::packets(&bytes).map_err(|e| Viol { sig: "stream".into(), msg: format!("lk {line}: {e}") })?;
    ensure!(v.len() == 1, "number of packets", "lk {line}: {} packets", v.len());
    let x = &v[0];
    let mut exchange = [255; 16];
    exchange[8..].copy_from_slice(b"exchange");
    let comps = vec![b"pull".to_vec(), p.0.to_vec(), p.1.to_vec(), id];
    ensure!(x.kind == LINK && x.lp.map_or(false, |l| l.1 == [0; 32] && l.2 == exchange) && x.comps == comps && x.links.is_empty(), "pull point", "lk {line}: the pull point is at {:?} {:?} with {} links", x.lp, x.comps, x.links.len());
    if to_db {
        ensure!(store(&mut c.log, Item::of(&bytes)), "not saved", "lk {line}: nothing new in the store");
    }
    // the query it tells
    let a = lk::s(&["--private", "multi-watch"]);
    let mut d = x.data.clone();
    d.extend(format!("\n:mode:{}", q.mode).into_bytes());
    let out = c.d.lk(&a, &note(&String::from_utf8_lossy(&d)))?;
    let want: Vec<Item> = q.select(&c.log, q.mode, &[]).into_iter().map(|g| with_hdr(g, |_| ())).collect();
    same(&format!("{line}: told {:?}", String::from_utf8_lossy(&d)), "what that selects", &out.out, &want)?;
    o.count("pulled");
    Ok(())
}
/// a query as it is printed says the same
fn print(r: &mut Rng, c: &Case, o: &mut Obs) -> Res {
    let q = Ask::new(r, &c.log, o, true);
    let mut more = vec![lk::s(&["--mode", q.mode])];
    let mut a = vec![];
    match r.below(3) {
        0 => a.push(r.pick(&["print-query", "q", "print-predicate"]).to_string()),
        k => {
            a.push("watch".into());
            more.push(lk::s(&[if k == 1 { "--print-expr" } else { "--print-text" }]))
        }
    }
    if r.bool() {
        more.push(lk::s(&["--db-only"]))
    }
    a.extend(q.opts(r, more));
    let line = lk::cmd(&a);
    let out = c.d.lk(&a, b"")?;
    let got = q.select(&c.log, q.mode, &[]);
    if refused(&line, &out, &q, &got)? {
        return Ok(());
    }
    let text = String::from_utf8_lossy(&out.out).to_string();
    let b = lk::s(&["--private", "multi-watch"]);
    let out = c.d.lk(&b, &note(&format!("{text}\n:qid:it")))?;
    let want: Vec<Item> = got.into_iter().map(|g| with_hdr(g, |_| ())).collect();
    same(&format!("{line}: printed {text:?}"), "what that selects", &out.out, &want)?;
    o.count("printed");
    Ok(())
}
