//! X04: several commands on one store at the same time
use crate::lk::{self, Dir, Out, Proc};
use crate::refpkt::{Spec, DATA, LINK};
use crate::refpred::{self, b64, esc, Cond};
use crate::rt;
use crate::world::Item;
use crate::x_store::{find, MODES};
use crate::x_stream::{bytes, Place};
use std::collections::HashMap;
use std::time::{Duration, Instant};
use vmlib::{ensure, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static X04: Prop = Prop {
    id: "X04",
    stages: &[
        Stage { name: "together", quick: 800, thorough: 12_000, run: together },
        Stage { name: "links", quick: 300, thorough: 4_000, run: links },
        Stage { name: "status", quick: 240, thorough: 3_000, run: status },
        Stage { name: "records", quick: 80, thorough: 1_000, run: records },
    ],
    rule: "real lk processes run at the same time on one directory: some save overlapping streams and may be killed, others wait for packets, links and status replies; everything each of them wrote is judged against the log of the store as it is in the end. Non-trivial: distinct orders of the log and points at which those that wait started.",
    assumptions: &["processes share the store by the LMDB stand-in's file (one writer at a time, snapshot reads), and tell each other by linkspace's own bus", "a process that waits gets 25 s"],
    floors: &["saved together", "saved by one of several", "killed", "cut short", "watches that end", "watches that go on", "woken", "from the store and then new", "lingering", "links waited for", "links out of order", "status replied", "status not replied", "several replies", "request written", "records answered", "records used up", "records repeated"],
    opts: Opts { stall_s: 120, as_mib: 16384, workers: 6, ..OPTS },
};
fn pause(us: u64) {
    std::thread::sleep(Duration::from_micros(us))
}
fn init(d: &Dir) -> Res {
    let out = d.lk(&lk::s(&["init"]), b"")?;
    ensure!(out.ok(), "refused", "lk init: {}", out.errs());
    Ok(())
}
fn log(d: &Dir) -> Result<Vec<(u64, Item)>, Viol> {
    let a = lk::s(&["--private", "watch-log", "--asc", "--bare", "--db-only"]);
    let out = d.lk(&a, b"")?;
    ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
    let v = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: format!("the log: {e}") })?;
    let mut b = &out.out[..];
    Ok(v.iter()
        .map(|p| {
            let (a, r) = b.split_at(p.size);
            b = r;
            (0, Item::of(a))
        })
        .collect())
}
struct Batch {
    how: u8,
    items: Vec<&'static Item>,
    delay: u64,
    kill: Option<u64>,
    /// the stream comes in pieces
    cut: usize,
}
struct Waiter {
    args: Vec<String>,
    input: Vec<u8>,
    delay: u64,
    conds: Vec<Cond>,
    place: Option<Place>,
    mode: &'static str,
    max: Option<usize>,
}
impl Waiter {
    fn ok(&self, i: &Item) -> bool {
        self.conds.iter().all(|c| c.ok(&i.x, 0)) && self.place.as_ref().map_or(true, |p| p.holds(&i.x))
    }
    /// when the first `s` of the log were there at the start
    fn want<'a>(&self, log: &'a [(u64, Item)], s: usize) -> Vec<&'a Item> {
        let l: Vec<(u64, &Item)> = log[..s].iter().map(|l| (l.0, &l.1)).filter(|l| self.ok(l.1)).collect();
        let mut v: Vec<&Item> = rt::select(&l, &[], self.mode).got.into_iter().map(|k| l[k].1).collect();
        v.extend(log[s..].iter().map(|l| &l.1).filter(|i| self.ok(i)));
        if let Some(n) = self.max {
            v.truncate(n)
        }
        v
    }
    fn judge(&self, out: &[u8], log: &[(u64, Item)]) -> Result<usize, String> {
        let got = lk::packets(out)?;
        for s in 0..=log.len() {
            let w = self.want(log, s);
            if w.len() == got.len() && w.iter().zip(&got).all(|(w, g)| w.x.point == g.point && w.x.hdr == g.hdr) {
                return Ok(s);
            }
        }
        let at = |h: &[u8; 32]| log.iter().position(|l| l.1.x.hash == *h).map_or("?".into(), |p| p.to_string());
        Err(format!("wrote {:?} of the log of {}, that never held it at once and then went on (from the start it would be {:?})", got.iter().map(|g| at(&g.hash)).collect::<Vec<_>>(), log.len(), self.want(log, 0).iter().map(|g| at(&g.x.hash)).collect::<Vec<_>>()))
    }
}
fn waiter(r: &mut Rng, sure: &[&'static Item], k: usize) -> Waiter {
    let mut w = Waiter { args: vec![], input: vec![], delay: *r.pick(&[0, 0, 1_000, 3_000, 6_000, 10_000]), conds: vec![], place: None, mode: *r.pick(MODES), max: None };
    let fields = refpred::all_fields();
    let near = if sure.is_empty() { rt::any(r) } else { sure[r.usize(sure.len())] };
    match r.below(4) {
        0 => {}
        1 if near.x.kind != DATA => w.place = Some(Place::near(r, &near.x)),
        _ => {
            if let c @ (Cond::F(..) | Cond::Space(..)) = refpred::cond(r, &near.x, 0, &fields) {
                w.conds.push(c)
            }
        }
    }
    let n = sure.iter().filter(|i| w.ok(i)).count();
    if n > 0 && r.chance(3, 4) {
        w.max = Some(r.range(1, n))
    }
    // tree and hash order may leave datapoints out of what was there
    let tree_n = sure.iter().filter(|i| w.ok(i) && i.x.kind != DATA).count();
    if w.mode.starts_with("tree") {
        w.max = w.max.filter(|_| tree_n > 0).map(|m| m.min(tree_n));
    }
    if r.chance(1, 4) {
        let mut t: Vec<String> = w.conds.iter().map(|c| c.text(r)).collect();
        if let Some(p) = &w.place {
            let lead = p.domain.iter().position(|c| *c != 0).unwrap_or(16);
            t.push(format!("group:=:[b:{}]", b64(&p.group)));
            t.push(format!("domain:=:{}", esc(&p.domain[lead..])));
            t.push(format!("prefix:=:{}", p.pre.iter().map(|c| format!("/{}", esc(c))).collect::<String>()));
            t.push(format!("depth:<:[u8:{}]", p.pre.len() + p.deep + 1));
        }
        if let Some(n) = w.max {
            t.push(format!("i:<:[u32:{n}]"))
        }
        t.push(format!(":qid:q{k}"));
        t.push(format!(":mode:{}", w.mode));
        w.input = Spec { kind: DATA, hdr: [0; 32], group: [0; 32], domain: [0; 16], stamp: 0, links: vec![], comps: vec![], data: t.join("\n").into_bytes(), key: 0 }.bytes();
        w.args = lk::s(&["--private", "multi-watch", "--linger"]);
        return w;
    }
    w.args = lk::s(&["--private", "watch"]);
    match &w.place {
        Some(p) => w.args.push(p.text.clone()),
        None => w.args.push("--bare".into()),
    }
    w.args.extend(lk::s(&["--mode", w.mode]));
    if let Some(n) = w.max {
        w.args.extend(lk::s(&["--max", &n.to_string()]))
    }
    if !w.conds.is_empty() {
        w.args.push("--".into());
        w.args.extend(w.conds.iter().map(|c| c.text(r)))
    }
    w
}
fn fresh(r: &mut Rng) -> Vec<u8> {
    Spec { kind: DATA, hdr: [0; 32], group: [0; 32], domain: [0; 16], stamp: 0, links: vec![], comps: vec![], data: r.bytes(24), key: 0 }.bytes()
}
fn together(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    init(&d)?;
    let n = *r.pick(&[1, 3, 8, 20, 40]);
    let mut all: Vec<&'static Item> = vec![];
    while all.len() < n {
        let i = rt::any(r);
        if !all.iter().any(|a| a.x.hash == i.x.hash) {
            all.push(i)
        }
    }
    let writers: Vec<Vec<Batch>> = (0..r.range(1, 4))
        .map(|_| {
            (0..r.range(1, 4))
                .map(|_| {
                    let mut items: Vec<&'static Item> = (0..r.usize(n + 1)).map(|_| all[r.usize(n)]).collect();
                    items.truncate(25);
                    let how = r.below(5) as u8;
                    Batch { how, cut: if how < 3 && r.bool() { r.range(1, 4) as usize } else { 1 }, items, delay: *r.pick(&[0, 0, 500, 2_000, 5_000]), kill: if r.chance(1, 5) { Some(*r.pick(&[500, 2_000, 3_000, 4_000, 6_000, 10_000])) } else { None } }
                })
                .collect()
        })
        .collect();
    let mut sure: Vec<&'static Item> = vec![];
    for b in writers.iter().flatten().filter(|b| b.kill.is_none()) {
        for i in &b.items {
            if !sure.iter().any(|s| s.x.hash == i.x.hash) {
                sure.push(i)
            }
        }
    }
    let waiters: Vec<Waiter> = (0..r.range(1, 4)).map(|k| waiter(r, &sure, k as usize)).collect();
    let last = fresh(r);
    let mut told: Vec<(Vec<&'static Item>, Result<Out, Viol>, u8, bool, Vec<u8>)> = vec![];
    let mut procs: Vec<Proc> = vec![];
    std::thread::scope(|s| {
        let mut ts = vec![];
        for (wn, w) in writers.iter().enumerate() {
            let d = &d;
            ts.push(s.spawn(move || {
                let mut v = vec![];
                for (bn, b) in w.iter().enumerate() {
                    pause(b.delay);
                    let raw = bytes(&b.items);
                    let name = format!("w{wn}-{bn}");
                    let new = format!("file:{name}.new");
                    let a = match b.how {
                        0 | 1 | 2 => lk::s(&["--private", "--hop", "false", "save", "--new", "db", "--new", &new]),
                        3 => {
                            d.file(&name, &raw);
                            lk::s(&["db-import", &name])
                        }
                        _ => lk::s(&["--private", "filter", "--bare", "-w", "db"]),
                    };
                    let mut p = d.spawn(&a);
                    if b.how == 3 {
                        p.input(b"");
                    } else if b.cut > 1 && b.kill.is_none() {
                        use std::io::Write;
                        let mut i = p.stdin.take().unwrap();
                        for c in raw.chunks(raw.len() / b.cut + 1) {
                            let _ = i.write_all(c);
                            pause(700);
                        }
                    } else {
                        p.input(&raw);
                    }
                    let out = match b.kill {
                        Some(us) => {
                            pause(us);
                            Ok(p.end())
                        }
                        None => p.finish(),
                    };
                    v.push((b.items.clone(), out, b.how, b.kill.is_some(), d.read(&format!("{name}.new"))));
                }
                v
            }));
        }
        // those who wait
        let mut order: Vec<usize> = (0..waiters.len()).collect();
        order.sort_by_key(|k| waiters[*k].delay);
        let t0 = Instant::now();
        for k in &order {
            let w = &waiters[*k];
            pause(w.delay.saturating_sub(t0.elapsed().as_micros() as u64));
            let mut p = d.spawn(&w.args);
            p.input(&w.input);
            procs.push(p);
        }
        let mut by: Vec<Option<Proc>> = order.iter().map(|_| None).collect();
        for (k, p) in order.iter().zip(procs.drain(..)) {
            by[*k] = Some(p)
        }
        procs.extend(by.into_iter().flatten());
        for t in ts {
            told.extend(t.join().expect("writer"));
        }
    });
    // the last one, that no one is killed after
    let a = lk::s(&["--hop", "false", "save"]);
    let out = d.lk(&a, &last)?;
    ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
    let fin = log(&d)?;
    let what = || {
        let b: Vec<String> = writers.iter().enumerate().map(|(n, w)| format!("{n}: {}", w.iter().map(|b| format!("{}x{}{}", ["save", "save", "save", "import", "filter"][b.how as usize], b.items.len(), b.kill.map_or(String::new(), |k| format!(" killed after {k}us")))).collect::<Vec<_>>().join(", "))).collect();
        format!("writers {}", b.join("; "))
    };
    // the log: all of it, once
    for (k, l) in fin.iter().enumerate() {
        let i = all.iter().find(|a| a.x.hash == l.1.x.hash);
        ensure!(i.map_or(k + 1 == fin.len(), |i| l.1.x.point == i.x.point && l.1.x.hdr == i.x.hdr), "the log holds another packet", "{}: number {k} of {}", what(), fin.len());
        ensure!(!fin[..k].iter().any(|f| f.1.x.hash == l.1.x.hash), "stored twice", "{}: {}", what(), b64(&l.1.x.hash));
    }
    for s in &sure {
        ensure!(find(&fin, &s.x.hash).is_some(), "lost", "{}: {} is not in the log", what(), b64(&s.x.hash));
    }
    let place: HashMap<[u8; 32], usize> = fin.iter().enumerate().map(|(k, l)| (l.1.x.hash, k)).collect();
    let mut news: HashMap<[u8; 32], u32> = HashMap::new();
    let mut quiet: Vec<[u8; 32]> = vec![];
    for (items, out, how, killed, new) in told {
        let hashes: Vec<[u8; 32]> = items.iter().map(|i| i.x.hash).collect();
        // read by someone while it was written
        if killed {
            o.count("killed");
            // what it wrote is the start of what it was given
            let done = hashes.iter().take_while(|h| place.contains_key(*h)).count();
            for h in &hashes[done..] {
                ensure!(!place.contains_key(h) || hashes[..done].contains(h) || writers.iter().flatten().filter(|b| b.items.iter().any(|i| i.x.hash == *h)).count() > 1, "not a prefix", "{}: of a stream that was cut, {} is stored and what comes before is not ({})", what(), b64(h), hashes.iter().map(|h| if place.contains_key(h) { '+' } else { '-' }).collect::<String>());
            }
            if done < hashes.len() {
                o.count("cut short")
            }
            quiet.extend(hashes);
            continue;
        }
        let out = out?;
        ensure!(out.ok(), "refused", "{}: {}", what(), out.errs());
        let told: Vec<[u8; 32]> = match how {
            0 | 1 | 2 => lk::packets(&new).map_err(|e| Viol { sig: "stream".into(), msg: e })?.iter().map(|p| p.hash).collect(),
            3 => {
                let t = String::from_utf8_lossy(&out.out).to_string();
                let l: Vec<&str> = t.lines().collect();
                ensure!(l.len() == hashes.len() + 1, "report", "{}: {} lines for {} packets", what(), l.len(), hashes.len());
                let mut v = vec![];
                for (h, l) in hashes.iter().zip(l) {
                    match l.split_once(' ') {
                        Some((t, "Written")) if t == b64(h) => v.push(*h),
                        Some((t, "Exists")) if t == b64(h) => {}
                        _ => return viol("report", format!("{}: {l} for {}", what(), b64(h))),
                    }
                }
                v
            }
            _ => {
                quiet.extend(hashes);
                continue;
            }
        };
        let at: Vec<usize> = told.iter().map(|h| place[h]).collect();
        ensure!(at.windows(2).all(|w| w[0] < w[1]), "order", "{}: packets of one stream are stored as {at:?}", what());
        for h in told {
            *news.entry(h).or_default() += 1
        }
    }
    for (h, n) in &news {
        ensure!(*n == 1, "new twice", "{}: {} was new to {n} of them", what(), b64(h));
        o.count("saved by one of several")
    }
    for l in &fin[..fin.len() - 1] {
        let h = l.1.x.hash;
        ensure!(news.contains_key(&h) || quiet.contains(&h), "new to no one", "{}: {}", what(), b64(&h));
        o.count("saved together")
    }
    let mut starts = vec![];
    for (w, mut p) in waiters.iter().zip(procs) {
        let line = p.line.clone();
        let said = |e: String| Viol { sig: "waiting".into(), msg: format!("lk {line} [{}], {}: {e}", String::from_utf8_lossy(w.input.get(136..).unwrap_or(&[])), what()) };
        let out = match w.max {
            Some(_) => {
                o.count("watches that end");
                let out = p.finish()?;
                ensure!(out.ok(), "refused", "lk {line}: {}", out.errs());
                out.out
            }
            None => {
                o.count("watches that go on");
                let t = Instant::now();
                while t.elapsed() < Duration::from_secs(20) && p.running() && w.judge(&p.so_far(), &fin).is_err() {
                    pause(500)
                }
                if !p.running() {
                    let e = p.finish()?;
                    // one that can pass only once, and has
                    let once = w.conds.iter().any(|c| matches!(c, Cond::F(f, refpred::Op::T(refpred::TestOpH::Eq), _) if refpred::FIELDS[*f].0 == "hash"));
                    if e.ok() && once && w.judge(&e.out, &fin).is_ok() && !e.out.is_empty() {
                        o.count("watches of one packet");
                        continue;
                    }
                    // one that nothing can pass
                    ensure!(!e.ok() && !fin.iter().any(|l| w.ok(&l.1)) || linger_empty(w), "ended", "lk {line}, {}: {}", what(), e.errs());
                    continue;
                }
                p.end().out
            }
        };
        let s = w.judge(&out, &fin).map_err(said)?;
        starts.push(s);
        let db = w.want(&fin[..s], s).len();
        let n = lk::packets(&out).unwrap().len();
        if n > db {
            o.count("woken");
            if db > 0 {
                o.count("from the store and then new")
            }
        }
        if w.args.contains(&"--linger".to_string()) {
            o.count("lingering")
        }
    }
    o.distinct((fin.iter().map(|l| l.1.x.hash).collect::<Vec<_>>(), &starts));
    o.max("log", fin.len() as u64);
    o.sample(|| format!("{}, {} waiting from {starts:?} of {}", what(), waiters.len(), fin.len()));
    Ok(())
}
/// a query that nothing can pass leaves nothing to linger for
fn linger_empty(w: &Waiter) -> bool {
    w.args.contains(&"--linger".to_string())
}
fn links(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    init(&d)?;
    // the linked, and what links to them
    let mut known: Vec<Item> = vec![];
    for _ in 0..r.range(1, 8) {
        known.push(Item::of(&fresh(r)))
    }
    let mut inp: Vec<Item> = vec![];
    for k in 0..r.range(1, 5) {
        let l: Vec<([u8; 16], [u8; 32])> = (0..r.usize(4)).map(|n| ([n as u8 + 1; 16], r.pick(&known).x.hash)).collect();
        inp.push(Item::new(&Spec { kind: LINK, hdr: [0; 32], group: [3; 32], domain: [b'd'; 16], stamp: k as u64, links: l, comps: vec![], data: vec![], key: 0 }));
    }
    let raw = |v: &[&Item]| v.iter().flat_map(|i| i.pkt.as_netpkt_bytes().to_vec()).collect::<Vec<u8>>();
    let mut later: Vec<&Item> = known.iter().filter(|i| inp.iter().any(|p| p.x.links.iter().any(|l| l.1 == i.x.hash))).collect();
    r.shuffle(&mut later);
    let before = later.split_off(r.usize(later.len() + 1));
    let save = |v: &[&Item]| -> Res {
        let a = lk::s(&["--hop", "false", "save"]);
        let out = d.lk(&a, &raw(v))?;
        ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
        Ok(())
    };
    save(&before)?;
    let watch = r.bool();
    let a = lk::s(&["get-links", "-f", "file:fwd", if watch { "watch" } else { "pause" }]);
    let mut p = d.spawn(&a);
    p.input(&raw(&inp.iter().collect::<Vec<_>>()));
    let each = r.bool();
    pause(*r.pick(&[0, 0, 1_000, 3_000, 8_000]));
    if each {
        for l in &later {
            save(&[l])?;
            pause(r.below(1_500));
        }
    } else {
        save(&later)?;
    }
    let out = p.finish()?;
    ensure!(out.ok(), "refused", "lk {}: {}", lk::cmd(&a), out.errs());
    let mut got: Vec<[u8; 32]> = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: e })?.iter().map(|p| p.hash).collect();
    let mut want: Vec<[u8; 32]> = inp.iter().flat_map(|i| i.x.links.iter().map(|l| l.1)).collect();
    let show = |v: &[[u8; 32]]| v.iter().map(|h| known.iter().position(|k| k.x.hash == *h).map_or("?".to_string(), |p| p.to_string())).collect::<Vec<_>>().join(" ");
    let ctx = format!("{} stored before, {} after in {}", before.len(), later.len(), if each { "several commands" } else { "one" });
    if watch {
        // one that is waited for already is not waited for again
        let mut few = vec![];
        for i in &inp {
            for (k, l) in i.x.links.iter().enumerate() {
                few.push((k, l.1))
            }
        }
        few.sort();
        few.dedup();
        let mut few: Vec<[u8; 32]> = few.into_iter().map(|f| f.1).collect();
        few.sort();
        let (g, w) = (show(&got), show(&want));
        got.sort();
        want.sort();
        let within = |a: &[[u8; 32]], b: &[[u8; 32]]| {
            let mut b = b.to_vec();
            a.iter().all(|x| b.iter().position(|y| y == x).map(|p| b.remove(p)).is_some())
        };
        ensure!(within(&few, &got) && within(&got, &want), "links", "lk {}, {ctx}: wrote {g} of {w}", lk::cmd(&a));
        o.count("links out of order");
    } else {
        ensure!(got == want, "links", "lk {}, {ctx}: wrote {} instead of {}", lk::cmd(&a), show(&got), show(&want));
        if !later.is_empty() {
            o.count("links waited for")
        }
    }
    let fwd = lk::packets(&d.read("fwd")).map_err(|e| Viol { sig: "stream".into(), msg: e })?;
    ensure!(fwd.iter().map(|p| p.hash).eq(inp.iter().map(|i| i.x.hash)), "forward", "lk {}: {} of {} forwarded", lk::cmd(&a), fwd.len(), inp.len());
    o.distinct((&ctx, &want));
    Ok(())
}
fn status(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    init(&d)?;
    let dom = |n: u64| format!("dom{n}");
    let types = ["process", "pull"];
    let inst: [Option<&str>; 3] = [None, Some("a"), Some("default")];
    #[derive(Clone, PartialEq)]
    struct Key(u64, u64, usize, usize);
    let key = |r: &mut Rng| Key(r.below(2), r.below(2), r.usize(2), r.usize(3));
    let args = |k: &Key| {
        let mut v = vec![dom(k.0), ["[#:pub]", "[#:test]"][k.1 as usize].to_string(), types[k.2].to_string()];
        v.extend(inst[k.3].map(|s| s.to_string()));
        v
    };
    let asks = key(r);
    let mut sets: Vec<Key> = (0..r.below(3)).map(|_| if r.chance(2, 3) { asks.clone() } else { key(r) }).collect();
    for s in sets.iter_mut() {
        if r.chance(1, 3) {
            s.3 = r.usize(3)
        }
    }
    let name = |k: &Key| inst[k.3].unwrap_or("default");
    // (no instance asks for all of them)
    let answers = |s: &Key| s.0 == asks.0 && s.1 == asks.1 && s.2 == asks.2 && (inst[asks.3].is_none() || name(s) == name(&asks));
    let any = sets.iter().any(|s| answers(s));
    let mut procs = vec![];
    let early = r.bool();
    let multi = any && r.chance(1, 3);
    let timeout = if any { if multi { "400l" } else { "20s" } } else { "150l" };
    let start = |n: usize, s: &Key| {
        let mut a = lk::s(&["status", "set"]);
        a.extend(args(s));
        a.extend(vec!["--data-str".into(), format!("by {n}"), "--data-repeat".into()]);
        let mut p = d.spawn(&a);
        p.input(b"");
        p
    };
    if early || multi {
        for (n, s) in sets.iter().enumerate() {
            procs.push(start(n, s))
        }
        if multi {
            // their first words are there
            let t = Instant::now();
            while log(&d)?.len() < sets.len() {
                ensure!(t.elapsed() < Duration::from_secs(20), "not set", "of {} status only {} are set", sets.len(), log(&d)?.len());
                pause(500)
            }
        }
        pause(*r.pick(&[0, 1_000, 5_000]));
    }
    let mut a = lk::s(&["status", "watch"]);
    a.extend(args(&asks));
    a.extend(lk::s(&["--timeout", timeout]));
    if multi {
        a.push("--multi".into())
    }
    let line = lk::cmd(&a);
    let t = Instant::now();
    let mut p = d.spawn(&a);
    p.input(b"");
    if !(early || multi) {
        pause(*r.pick(&[0, 2_000, 6_000]));
        for (n, s) in sets.iter().enumerate() {
            procs.push(start(n, s))
        }
    }
    let out = p.finish()?;
    let took = t.elapsed();
    let got = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: e })?;
    ensure!(out.ok() == any, if any { "not answered" } else { "answered" }, "lk {line} with {} of {} status: exit {:?}, {} replies after {took:?}: {}", sets.iter().filter(|s| answers(s)).count(), sets.len(), out.code, got.len(), out.errs());
    if any {
        ensure!(if multi { !got.is_empty() } else { got.len() == 1 }, "number of replies", "lk {line}: {} replies", got.len());
        ensure!(multi || took < Duration::from_secs(15), "slow", "lk {line}: {took:?}");
        ensure!(!multi || took > Duration::from_millis(300), "too soon", "lk {line}: {took:?}");
        o.count(if multi { "several replies" } else { "status replied" });
    } else {
        ensure!(got.is_empty(), "number of replies", "lk {line}: {} replies", got.len());
        ensure!(took >= Duration::from_millis(140), "too soon", "lk {line}: {took:?}");
        o.count("status not replied");
    }
    let fin = log(&d)?;
    let mut dm = [0; 16];
    dm[12..].copy_from_slice(dom(asks.0).as_bytes());
    for g in &got {
        let (_, group, domain) = g.lp.unwrap_or_default();
        ensure!(g.kind == LINK && group == [0; 32] && domain == dm && !g.data.is_empty() && g.links.len() == 1, "reply", "lk {line}: a reply in {} {:?} with {} links", b64(&group), domain, g.links.len());
        let n: usize = String::from_utf8_lossy(&g.data).strip_prefix("by ").and_then(|n| n.parse().ok()).unwrap_or(usize::MAX);
        ensure!(sets.get(n).map_or(false, |s| answers(s) && g.comps.last().map(|c| &c[..]) == Some(name(s).as_bytes())), "reply of another", "lk {line}: the reply of {:?} at {:?}", String::from_utf8_lossy(&g.data), g.comps);
        let to = g.links[0].1;
        // the first is linked to nothing, the others to the one before them
        let tag = |t: &[u8; 16], w: &[u8]| t.ends_with(w) && t[..16 - w.len()].iter().all(|b| *b == 0);
        let at = |h: &[u8; 32]| fin.iter().position(|l| l.1.x.hash == *h);
        let prev = at(&to).map(|k| &fin[k].1.x);
        ensure!(
            if to == [0; 32] { tag(&g.links[0].0, b"init") } else { tag(&g.links[0].0, b"prev") && at(&to) < at(&g.hash) && prev.map_or(false, |q| q.data == g.data && q.comps == g.comps && q.kind == LINK) },
            "reply to nothing",
            "lk {line}: {:?} linked to {}",
            String::from_utf8_lossy(&g.links[0].0),
            b64(&to)
        );
        if to != [0; 32] {
            o.count("reply on request")
        }
        ensure!(find(&fin, &g.hash).is_some(), "reply from nowhere", "lk {line}: {}", b64(&g.hash));
    }
    // one request each
    let mut seen = vec![];
    for l in &fin {
        let x = &l.1.x;
        if x.links.len() == 1 && x.links[0].1 != [0; 32] {
            let k = (x.data.clone(), x.links[0].1);
            ensure!(!seen.contains(&k), "answered twice", "lk {line}: {:?}", String::from_utf8_lossy(&k.0));
            seen.push(k)
        }
    }
    if r.chance(1, 3) {
        let mut a = lk::s(&["status", "watch"]);
        a.extend(args(&asks));
        a.extend(lk::s(&["--write-request", "stdout"]));
        let out = d.lk(&a, b"")?;
        let v = lk::packets(&out.out).map_err(|e| Viol { sig: "stream".into(), msg: e })?;
        ensure!(out.ok() && v.len() == 1 && v[0].kind == LINK && v[0].data.is_empty() && v[0].links.is_empty() && v[0].lp.map(|l| (l.1, l.2)) == Some(([0; 32], dm)), "request", "lk {}: {} packets {}", lk::cmd(&a), v.len(), out.errs());
        ensure!(log(&d)?.iter().all(|l| l.1.x.hash != v[0].hash), "saved", "lk {}: the request is in the store", lk::cmd(&a));
        o.count("request written");
    }
    for p in procs {
        let out = p.end();
        ensure!(!out.errs().contains("panicked"), "crash", "lk status set: {}", out.errs());
    }
    o.distinct((&line, sets.len(), early, fin.len()));
    Ok(())
}
/// a status that has a list of answers gives them one after the other, and none that it does not have
fn records(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let d = Dir::new(o);
    init(&d)?;
    let n = r.range(1, 3);
    let repeat = r.chance(1, 3);
    let recs: Vec<String> = (0..n).map(|k| format!("answer {k}{}", "x".repeat(r.usize(4)))).collect();
    let place = lk::s(&["dom", "[#:pub]", "process", "one"]);
    let mut a = lk::s(&["status", "set"]);
    a.extend(place.clone());
    a.extend(lk::s(&["-D", "\\n", "--data"]));
    a.push(d.file("records", recs.join("\n").as_bytes()));
    if repeat {
        a.push("--data-repeat".into())
    }
    let line = lk::cmd(&a);
    let mut p = d.spawn(&a);
    p.input(b"");
    let replies = || -> Result<Vec<Item>, Viol> { Ok(log(&d)?.into_iter().map(|l| l.1).filter(|i| !i.x.links.is_empty()).collect()) };
    let t = Instant::now();
    while replies()?.is_empty() {
        ensure!(t.elapsed() < Duration::from_secs(20), "not set", "lk {line}: nothing is set");
        pause(500)
    }
    pause(*r.pick(&[20_000, 40_000]));
    let mut w = lk::s(&["status", "watch"]);
    w.extend(place);
    w.extend(lk::s(&["--write-request", "stdout"]));
    let mut answered = 1;
    for ask in 0..r.range(1, 5) {
        let out = d.lk(&w, b"")?;
        let out = d.lk(&lk::s(&["--private", "save"]), &out.out)?;
        ensure!(out.ok(), "refused", "lk save of a request: {}", out.errs());
        let more = repeat || answered < n;
        let t = Instant::now();
        // the first may come before it listens
        let wait = if !more || ask == 0 { 150 } else { 20_000 };
        let mut now = replies()?.len();
        while now == answered && t.elapsed() < Duration::from_millis(wait) {
            pause(2_000);
            now = replies()?.len();
        }
        ensure!(now == answered + 1 || !more || (ask == 0 && now == answered), "request not answered", "lk {line}: {answered} replies after request {ask} of {n} records");
        if now == answered && more {
            // perhaps not listening
            o.count("too early");
            break;
        }
        answered = now;
        if !more {
            o.count("records used up")
        }
    }
    let got = replies()?;
    let want: Vec<&[u8]> = (0..got.len()).map(|k| recs[k % n].as_bytes()).collect();
    let told: Vec<String> = got.iter().map(|i| String::from_utf8_lossy(&i.x.data).to_string()).collect();
    ensure!(repeat || got.len() <= n, "more answers than records", "lk {line}: {told:?} from {recs:?}");
    ensure!(got.iter().map(|i| &i.x.data[..]).eq(want.iter().copied()), "answers", "lk {line}: {told:?} from {recs:?}");
    for (k, i) in got.iter().enumerate() {
        let prev = if k == 0 { [0; 32] } else { got[k - 1].x.hash };
        ensure!(i.x.links.len() == 1 && i.x.links[0].1 == prev, "chain of answers", "lk {line}: answer {k} of {told:?} is linked to {}", b64(&i.x.links[0].1));
    }
    if got.len() > 1 {
        o.count("records answered")
    }
    if got.len() > n {
        o.count("records repeated")
    }
    let out = p.end();
    ensure!(!out.errs().contains("panicked"), "crash", "lk {line}: {}", out.errs());
    o.distinct((&line, &told));
    Ok(())
}
