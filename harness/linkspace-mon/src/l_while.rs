//! L02: lk_process_while
use crate::rt;
use crate::world::Store;
use linkspace::prelude::*;
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::runtime::*;
use linkspace::*;
use std::cell::RefCell;
use std::fmt::Write;
use std::ops::ControlFlow;
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vmlib::{ensure, no_panic, viol, Obs, Opts, Prop, Res, Rng, Stage, Viol, OPTS};

pub static L02: Prop = Prop {
    id: "L02",
    stages: &[
        Stage { name: "returns", quick: 6_000, thorough: 300_000, run: returns },
        Stage { name: "expiry", quick: 400, thorough: 10_000, run: expiry },
        Stage { name: "threads", quick: 300, thorough: 12_000, run: threads },
    ],
    rule: "histories of saves, watches, callbacks that save, replace, stop, break and nest, and lk_process_while with and without an id and with timeouts of 1 us to 20 s: what it returns agrees with what the handlers were told (called, stopped), no packet is left out, 0 never before the time is up; watches that end at a time; 1-3 threads that save 0-60 us after the wait starts wake it up. Non-trivial: distinct histories, wake-ups.",
    assumptions: &["20 s is enough for a runnable thread to be scheduled", "conditions on i that skip packets are not combined with waiting for an id"],
    floors: &["returned 1", "returned -1", "returned 0", "no such watch", "nested call refused", "woken by a packet saved in a callback", "replaced", "stopped", "limit reached", "broke", "none left", "expired", "expired: none left", "expired: another left", "time up before the watch expires", "woken by another thread"],
    opts: Opts { stall_s: 120, ..OPTS },
};
#[derive(Clone, Debug)]
enum Act {
    None,
    Break,
    /// a packet for this domain
    Save(usize),
    /// set up another watch: id, domain
    Watch(usize, usize),
    Stop(usize),
    Nest,
}
struct Inst {
    id: usize,
    dom: usize,
    calls: u32,
    stopped: Option<&'static str>,
    /// packets of its domain before it was set up
    before: u32,
    plan: Vec<Act>,
    live: bool,
}
#[derive(Default)]
struct Mon {
    ws: Vec<Inst>,
    /// by domain
    saved: [u32; 5],
    hist: String,
    bad: Option<(&'static str, String)>,
    nested: u32,
    by_callback: bool,
    round: bool,
    n: u64,
}
type M = Rc<RefCell<Mon>>;
const DOMS: [&[u8]; 5] = [b"d0", b"d1", b"d2", b"d3", b"d4"];
const IDS: [&[u8]; 4] = [b"t", b"ta", b"u", b"v"];
fn packet(d: usize, n: u64) -> NetPktBox {
    lk_linkpoint(&n.to_be_bytes(), ab(DOMS[d]), PUBLIC, RootedSpace::empty(), &[], Some(Stamp::from(n))).expect("a packet")
}
fn query(id: usize, d: usize, more: &[String]) -> Query {
    let mut l = vec![format!("domain:=:{}", std::str::from_utf8(DOMS[d]).unwrap()), "mode:log-asc".to_string(), format!(":qid:{}", std::str::from_utf8(IDS[id]).unwrap())];
    l[1].insert(0, ':');
    l.extend(more.iter().cloned());
    let l: Vec<&str> = l.iter().map(|s| s.as_str()).collect();
    lk_query_parse(lk_query(&Q), &l, ()).expect("a query")
}
struct Cb(usize, M);
impl PktHandler for Cb {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, lk: &Linkspace) -> ControlFlow<()> {
        let a = {
            let mut m = self.1.borrow_mut();
            let _ = writeln!(m.hist, "  watch {} called", self.0);
            let w = &mut m.ws[self.0];
            let a = w.plan.get(w.calls as usize).cloned().unwrap_or(Act::None);
            w.calls += 1;
            let (dom, stopped) = (w.dom, w.stopped);
            if pkt.get_domain().0 != ab::<16>(DOMS[dom]).0 {
                m.bad = m.bad.take().or(Some(("wrong-match", format!("watch {} of {dom} called with {}", self.0, pkt.get_domain()))))
            }
            if let Some(s) = stopped {
                m.bad = m.bad.take().or(Some(("after-end", format!("watch {} is called after it was told {s}", self.0))))
            }
            a
        };
        let brk = matches!(a, Act::Break);
        act(lk, &self.1, a);
        if brk {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn stopped(&mut self, _: Query, _: &Linkspace, reason: StopReason, _: u32, _: u32) {
        let r = match reason {
            StopReason::Break => "break",
            StopReason::Finish => "finish",
            StopReason::Replaced => "replaced",
            StopReason::Closed => "closed",
        };
        let mut m = self.1.borrow_mut();
        let _ = writeln!(m.hist, "  watch {} stopped: {r}", self.0);
        m.ws[self.0].stopped = Some(r);
        m.ws[self.0].live = false;
    }
}
fn save(lk: &Linkspace, m: &M, d: usize) {
    let p = {
        let mut m = m.borrow_mut();
        m.n += 1;
        m.saved[d] += 1;
        let _ = writeln!(m.hist, "  save for d{d}");
        packet(d, m.n)
    };
    if !matches!(lk_save(lk, &p), Ok(true)) {
        m.borrow_mut().bad = Some(("save", "lk_save of a new packet is not Ok(true)".into()))
    }
}
fn watch(lk: &Linkspace, m: &M, id: usize, d: usize, more: &[String], plan: Vec<Act>) -> usize {
    let k = {
        let mut m = m.borrow_mut();
        let k = m.ws.len();
        let _ = writeln!(m.hist, "  watch {k} as {} for d{d} {more:?} {plan:?}", String::from_utf8_lossy(IDS[id]));
        m.ws.push(Inst { id, dom: d, calls: 0, stopped: None, before: 0, plan, live: false });
        k
    };
    let r = lk_watch(lk, &query(id, d, more), Cb(k, m.clone()));
    // one whose time is over by now is not registered, and 0 is returned as well
    let mut there = more.is_empty();
    if !there {
        lk_list_watches(lk, &mut |i, _| there |= i == IDS[id]);
    }
    let mut m = m.borrow_mut();
    match r {
        Ok(n) if n <= 0 => m.ws[k].live = there && m.ws[k].stopped.is_none(),
        Ok(_) => {}
        Err(e) => m.bad = Some(("watch", format!("lk_watch: {e:#}"))),
    }
    k
}
fn act(lk: &Linkspace, m: &M, a: Act) {
    match a {
        Act::None | Act::Break => {}
        Act::Save(d) => {
            save(lk, m, d);
            m.borrow_mut().by_callback = true
        }
        Act::Watch(id, d) => {
            watch(lk, m, id, d, &[], vec![]);
        }
        Act::Stop(id) => lk_stop(lk, IDS[id], false),
        // outside of a round it would be a round of its own
        Act::Nest if !m.borrow().round => {}
        Act::Nest => match lk_process_while(lk, None, Stamp::new(1)) {
            Err(_) => m.borrow_mut().nested += 1,
            Ok(n) => m.borrow_mut().bad = Some(("nested", format!("lk_process_while within a callback returns Ok({n})"))),
        },
    }
}
fn wait(o: &mut Obs, lk: &Linkspace, m: &M, id: Option<usize>, us: u64, sure: bool) -> Res {
    let t = {
        let mut m = m.borrow_mut();
        let _ = writeln!(m.hist, "lk_process_while {id:?} {us} us");
        id.and_then(|id| m.ws.iter().rposition(|w| w.id == id && w.live))
    };
    let calls = t.map(|t| m.borrow().ws[t].calls);
    m.borrow_mut().round = true;
    let start = Instant::now();
    let r = no_panic("lk_process_while", &|| m.try_borrow().map(|m| m.hist.clone()).unwrap_or_default(), || lk_process_while(lk, id.map(|i| IDS[i]), Stamp::new(us)))?;
    let dur = start.elapsed();
    o.eval();
    let mut m = m.borrow_mut();
    m.round = false;
    let _ = writeln!(m.hist, "  returns {:?} after {dur:?}", r.as_ref().map_err(|e| format!("{e:#}")));
    if let Some((s, b)) = m.bad.take() {
        return viol(s, format!("{b}\n{}", m.hist));
    }
    let up = dur >= Duration::from_micros(us) && us > 0;
    let left = m.ws.iter().filter(|w| w.live).count();
    match (&r, id, t) {
        (Err(e), Some(_), None) => {
            ensure!(format!("{e:#}").contains("not found"), "error", "{e:#}\n{}", m.hist);
            o.count("no such watch");
            return Ok(());
        }
        (Err(e), ..) => return viol("error", format!("fails with {e:#}\n{}", m.hist)),
        (Ok(n), Some(_), None) => return viol("no-such-watch", format!("returns {n} for a watch there is not\n{}", m.hist)),
        (Ok(1), Some(_), Some(t)) => {
            let Some(reason) = m.ws[t].stopped else { return viol("returned-1", format!("returns 1, but watch {t} was not told it stopped\n{}", m.hist)) };
            o.count("returned 1");
            let id = m.ws[t].id;
            o.count(match reason {
                _ if m.ws[t + 1..].iter().any(|w| w.id == id) => "replaced",
                "closed" => "stopped",
                "finish" => "limit reached",
                _ => "broke",
            });
        }
        (Ok(-1), Some(_), Some(t)) => {
            let w = &m.ws[t];
            ensure!(w.live && Some(w.calls) > calls, "returned--1", "returns -1: watch {t} live {} calls {} before {calls:?}\n{}", w.live, w.calls, m.hist);
            o.count("returned -1");
        }
        (Ok(0), _, t) => {
            ensure!(up, "early", "returns 0 after {dur:?} of {us} us\n{}", m.hist);
            if let Some(t) = t {
                ensure!(m.ws[t].live && Some(m.ws[t].calls) == calls, "returned-0", "returns 0: watch {t} live {} calls {} before {calls:?}\n{}", m.ws[t].live, m.ws[t].calls, m.hist);
            }
            ensure!(!sure, "asleep", "nothing left to wait for, or packets to process, and it slept for {dur:?}\n{}", m.hist);
            o.count("returned 0");
        }
        (Ok(1), None, _) => {
            ensure!(left == 0, "returned-1", "returns 1, {left} watches are left\n{}", m.hist);
            o.count("none left");
        }
        (Ok(n), ..) => return viol("returned", format!("returns {n}\n{}", m.hist)),
    }
    ensure!(!sure || dur < Duration::from_secs(19), "asleep", "it slept for {dur:?}, with packets to process\n{}", m.hist);
    if sure && m.by_callback {
        o.count("woken by a packet saved in a callback")
    }
    o.add("nested call refused", std::mem::take(&mut m.nested) as u64);
    Ok(())
}
fn returns(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let st = Store::new(o, "p");
    let lk = rt::runtime(st.env());
    let m: M = Default::default();
    // a chain of watches, each saves for the next, the target is the last: it has to be reached
    let chain = r.below(4) as usize;
    let mut used = vec![];
    for k in 0..chain {
        // ids 1..3 feed the next domain
        let mut plan = vec![Act::Save(k + 1)];
        if r.chance(1, 4) {
            plan[0] = Act::Save(k + 1);
            plan.push(Act::Nest)
        }
        watch(&lk, &m, k + 1, k, &[], plan);
        used.push(k + 1);
    }
    let target = chain;
    let more = match r.below(5) {
        0 => vec![format!("i:<:[u32:{}]", r.range(1, 3))],
        1 => vec![format!("i_new:<:[u32:{}]", r.range(1, 3))],
        _ => vec![],
    };
    let rnd = |r: &mut Rng| match r.below(9) {
        0 => Act::Break,
        1 => Act::Save(r.usize(5)),
        2 => Act::Watch(r.usize(4), r.usize(5)),
        3 => Act::Stop(r.usize(4)),
        4 => Act::Nest,
        _ => Act::None,
    };
    let plan = (0..r.below(4)).map(|_| rnd(r)).collect();
    watch(&lk, &m, 0, target, &more, plan);
    // the head of the chain: the wait has to end with the target called
    if r.chance(2, 3) {
        save(&lk, &m, 0);
        if m.borrow().ws.iter().any(|w| w.id == 0 && w.live) {
            wait(o, &lk, &m, Some(0), 20_000_000, true)?;
        }
    }
    if chain < 3 && r.bool() {
        let plan = (0..r.below(4)).map(|_| rnd(r)).collect();
        watch(&lk, &m, 3, r.usize(5), &[], plan);
    }
    for _ in 0..r.range(1, 6) {
        let _ = writeln!(m.borrow_mut().hist, "-");
        for _ in 0..r.below(3) {
            save(&lk, &m, r.usize(5))
        }
        if r.chance(1, 4) {
            let plan = (0..r.below(4)).map(|_| rnd(r)).collect();
            watch(&lk, &m, r.usize(4), r.usize(5), &[], plan);
        }
        if r.chance(1, 6) {
            lk_stop(&lk, IDS[r.usize(4)], r.bool())
        }
        let id = if r.chance(1, 4) { None } else { Some(r.usize(4)) };
        let us = *r.pick(&[1, 1, 50, 300]);
        wait(o, &lk, &m, id, us, false)?;
        let mut ids = vec![];
        lk_list_watches(&lk, &mut |id, _| ids.push(id.to_vec()));
        let mut want: Vec<_> = m.borrow().ws.iter().filter(|w| w.live).map(|w| IDS[w.id].to_vec()).collect();
        want.sort();
        ids.sort();
        ensure!(ids == want, "list", "the watches are {ids:?}, expected {want:?}\n{}", m.borrow().hist);
    }
    // and in the end everything comes to rest
    for k in 0.. {
        let before = m.borrow().n;
        lk_process(&lk);
        if m.borrow().n == before {
            break;
        }
        ensure!(k < 100, "endless", "still saving\n{}", m.borrow().hist);
    }
    let m = m.borrow();
    for (k, w) in m.ws.iter().enumerate() {
        if w.live {
            ensure!(w.calls + w.before == m.saved[w.dom], "missed", "watch {k} was called {} times for {} packets\n{}", w.calls, m.saved[w.dom], m.hist);
        }
    }
    o.distinct(m.hist.lines().filter(|l| !l.contains("after")).collect::<Vec<_>>());
    Ok(())
}
/// a watch that can match only packets before some time ends then
fn expiry(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let st = Store::new(o, "e");
    let lk = rt::runtime(st.env());
    let m: M = Default::default();
    let ms = r.range(1, 25) as u64;
    let high = now().get() + ms * 1000;
    let op = if r.bool() { format!("recv:<:[us:{high}]") } else { format!("recv:<=:[u64:{}]", high - 1) };
    let op = op.replace("us:", "u64:");
    let at = Instant::now();
    let t = watch(&lk, &m, 0, 0, &[op], vec![]);
    ensure!(m.borrow().ws[t].live || now().get() >= high, "watch", "not registered {ms} ms before its end");
    if !m.borrow().ws[t].live {
        return Ok(());
    }
    let other = r.bool();
    if other {
        if r.bool() {
            watch(&lk, &m, 2, 1, &[], vec![]);
        } else {
            watch(&lk, &m, 2, 1, &[format!("recv:<:[u64:{}]", high + 3000)], vec![]);
        }
    }
    let lasting = m.borrow().ws.len() > 1 && m.borrow().ws[1].live && !m.borrow().hist.contains(&format!("{}", high + 3000));
    let hist = || m.borrow().hist.clone();
    if ms > 6 && r.bool() {
        let us = r.range(1, 2000) as u64;
        let res = lk_process_while(&lk, Some(b"t"), Stamp::new(us)).map_err(|e| Viol { sig: "error".into(), msg: format!("{e:#}") })?;
        if now().get() < high {
            ensure!(res == 0, "returned", "returns {res} after {us} us, the watch ends after {ms} ms\n{}", hist());
            o.count("time up before the watch expires");
        }
        if m.borrow().ws[t].stopped.is_some() {
            return Ok(());
        }
    }
    let none = r.bool();
    if none && lasting {
        let us = ms * 1000 + 2000;
        let s = Instant::now();
        let res = lk_process_while(&lk, None, Stamp::new(us));
        ensure!(matches!(res, Ok(0)), "returned", "returns {res:?} while one is left\n{}", hist());
        ensure!(s.elapsed() >= Duration::from_micros(us), "early", "0 after {:?} of {us} us\n{}", s.elapsed(), hist());
        // unless it woke up too late for both
        if m.borrow().ws[t].stopped == Some("finish") {
            o.count("expired");
            o.count("expired: another left");
        }
        return Ok(());
    }
    let to = *r.pick(&[0, 20_000_000]);
    let res = lk_process_while(&lk, if none { None } else { Some(b"t") }, Stamp::new(to));
    let end = now().get();
    ensure!(matches!(res, Ok(1)), "returned", "returns {res:?} with timeout {to} us, after {:?}\n{}", at.elapsed(), hist());
    ensure!(m.borrow().ws[t].stopped == Some("finish"), "not-told", "told {:?}\n{}", m.borrow().ws[t].stopped, hist());
    ensure!(end >= high, "early", "ended {} us early\n{}", high - end, hist());
    ensure!(end < high + 10_000_000, "late", "ended {} us late\n{}", end - high, hist());
    o.eval();
    if none {
        ensure!(m.borrow().ws.iter().all(|w| !w.live), "returned-1", "returns 1 with watches left\n{}", hist());
        o.count("expired: none left")
    }
    o.count("expired");
    o.distinct((ms, none, other));
    Ok(())
}
/// others save while it waits, or just before
fn threads(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let st = Store::new(o, "t");
    let lk = rt::runtime(st.env());
    let m: M = Default::default();
    let n = r.range(1, 3);
    let rounds = r.range(20, 60) as u64;
    let go = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let took = Arc::new(AtomicU64::new(0));
    let seed = r.next();
    let threads: Vec<_> = (0..n as u64)
        .map(|k| {
            let env = st.env().clone();
            let (go, done, took) = (go.clone(), done.clone(), took.clone());
            std::thread::spawn(move || {
                let lk = rt::runtime(&env);
                let mut r = Rng::new(seed ^ k);
                let mut ok = true;
                for i in 1..=rounds {
                    while go.load(SeqCst) < i {
                        std::hint::spin_loop()
                    }
                    if go.load(SeqCst) == u64::MAX {
                        break;
                    }
                    let d = Instant::now();
                    let us = r.below(60);
                    while d.elapsed() < Duration::from_micros(us) {
                        std::hint::spin_loop()
                    }
                    ok &= matches!(lk_save(&lk, &packet(0, i << 8 | k)), Ok(true));
                    done.fetch_add(1, SeqCst);
                    took.store(d.elapsed().as_nanos() as u64, SeqCst);
                }
                ok
            })
        })
        .collect();
    watch(&lk, &m, 0, 0, &[], vec![]);
    // the more there are, the longer it takes from looking at the log to going to sleep
    for k in 0..*r.pick(&[0usize, 0, 100, 3000]) {
        let q = lk_query_push(query(1, 1, &[]), "", "qid", format!("z{k}").as_bytes());
        let q = q.and_then(|q| lk_watch(&lk, &q, cb::cb(|_, _| false)));
        ensure!(q.is_ok(), "watch", "{q:?}");
    }
    let mut res = Ok(());
    let mut lat = 100_000;
    for i in 1..=rounds {
        go.store(i, SeqCst);
        let mut waits = 0;
        // somewhere around the time it takes to save
        let d = Instant::now();
        lat = (lat * 7 + took.load(SeqCst).min(2_000_000)) / 8;
        let ns = r.below(lat + lat / 2 + 1);
        while d.elapsed() < Duration::from_nanos(ns) {
            std::hint::spin_loop()
        }
        // every packet of this round
        while res.is_ok() && (m.borrow().ws[0].calls as u64) < i * n as u64 {
            let had = m.borrow().ws[0].calls;
            let by = done.load(SeqCst);
            crate::clock::jitter(*r.pick(&[0, 20_000, 200_000]), r.next());
            let at = Instant::now();
            let got = lk_process_while(&lk, Some(b"t"), Stamp::new(20_000_000));
            let slept = at.elapsed();
            crate::clock::jitter(0, 0);
            waits += 1;
            o.eval();
            let calls = m.borrow().ws[0].calls;
            if !matches!(got, Ok(-1)) || calls == had || slept > Duration::from_secs(19) {
                res = viol("asleep", format!("round {i}, {n} threads: lk_process_while returns {got:?} after {slept:?}; {calls} calls so far, {had} before; {by} packets were saved before, now {}", done.load(SeqCst)))
            } else if (had as u64) < i * n as u64 && by == done.load(SeqCst) {
                o.count("already there")
            } else {
                o.count("woken by another thread")
            }
        }
        o.max("us to save", lat / 1000); o.distinct((n, waits, m.borrow().ws[0].calls));
        if res.is_err() {
            break;
        }
    }
    go.store(u64::MAX, SeqCst);
    for t in threads {
        match t.join() {
            Ok(true) => {}
            _ if res.is_err() => {}
            _ => return viol("save", "a thread could not save"),
        }
    }
    res?;
    let calls = m.borrow().ws[0].calls as u64;
    ensure!(calls == rounds * n as u64, "twice", "{calls} calls for {} packets", rounds * n as u64);
    Ok(())
}
