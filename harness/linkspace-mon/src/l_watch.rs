//! L01: watches of a runtime
use crate::clock;
use crate::d_query::{build, MODES};
use crate::refpred::{self, Cond};
use crate::rt::{self, any};
use crate::world::{Item, Store};
use linkspace::prelude::*;
use linkspace::runtime::cb::{PktHandler, StopReason};
use linkspace::runtime::*;
use linkspace::*;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::fmt::Write;
use std::ops::ControlFlow;
use std::rc::Rc;
use vmlib::{ensure, no_panic, Obs, Prop, Res, Rng, Stage, Viol, OPTS};

pub static L01: Prop = Prop {
    id: "L01",
    stages: &[Stage { name: "histories", quick: 12_000, thorough: 200_000, run: histories }],
    rule: "a watch calls its function exactly once for each packet its query selects: first those in the store, in the order of the mode, then during processing each new one in the order it was received, until the function breaks, its limits are reached, or it is replaced or stopped, which it is told exactly once with the reason",
    assumptions: &["up to 40 steps, 7 ids, packets saved from two runtimes on one store", "lk_process is not called from within a callback", "a watch that is stopped from within a callback may still be called in the running round"],
    floors: &[
        "called from the store", "called for a new packet", "saved from a callback", "watched from a callback", "stopped from a callback", "followed", "stop: break", "stop: finish", "stop: closed", "stop: replaced",
        "watched when told it stopped", "ended in the store", "never registered", "expired", "rounds with new packets",
    ],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
#[derive(Clone)]
enum Act {
    Save(&'static Item),
    Watch(Rc<Plan>),
    Stop(Vec<u8>, bool),
}
struct Plan {
    id: Vec<u8>,
    conds: Vec<Cond>,
    mode: &'static str,
    follow: bool,
    query: Query,
    /// by number of the call
    acts: Vec<Vec<Act>>,
    break_at: Option<u32>,
    on_stop: Vec<Act>,
}
#[derive(PartialEq, Clone, Copy, Debug)]
enum Phase {
    Db,
    Live,
    Dead,
}
struct W {
    plan: Rc<Plan>,
    phase: Phase,
    db: VecDeque<usize>,
    /// links still to be shown
    sub: VecDeque<usize>,
    nq: u32,
    nn: u32,
    /// calls so far: matches, and with links
    matches: u32,
    calls: u32,
    /// packets of the log before this one are done with
    pos: usize,
    fin: bool,
    broke: bool,
    /// stopped or replaced within a round
    stopping: bool,
    seen: u32,
}
struct Mon {
    log: Vec<(u64, &'static Item)>,
    snap: usize,
    round: Option<usize>,
    ws: Vec<W>,
    /// ids that an operation under way takes down
    closing: Vec<(Vec<u8>, bool)>,
    hist: String,
    viol: Option<Viol>,
    counts: Vec<&'static str>,
    plans: usize,
    must: Vec<usize>,
    /// lk_process_while also ends those whose time is over
    gc: bool,
}
impl Mon {
    fn fail(&mut self, sig: &str, msg: String) {
        if self.viol.is_none() {
            self.viol = Some(Viol { sig: sig.into(), msg: format!("{msg}\n{}", self.hist) })
        }
    }
    fn test(w: &mut W, i: &Item, recv: u64) -> (bool, bool) {
        let c = &w.plan.conds;
        if c.iter().any(|c| matches!(c, Cond::Recv(..))) && refpred::recv_high(c) < recv {
            return (false, true);
        }
        if !c.iter().all(|c| c.ok(&i.x, recv)) {
            return (false, false);
        }
        let ok = refpred::nth_ok(c, 0, w.nq) && refpred::nth_ok(c, 1, w.nn);
        w.nq += 1;
        w.nn += 1;
        (ok, !refpred::nth_left(c, 0, w.nq) || !refpred::nth_left(c, 1, w.nn))
    }
    fn on_call(&mut self, s: usize, pkt: &dyn NetPkt) -> (Vec<Act>, bool) {
        let h = pkt.hash();
        let Some(idx) = self.log.iter().position(|(_, i)| i.x.hash == h.0) else {
            self.fail("unknown-packet", format!("watch {s} is called with {h}, which was never saved"));
            return (vec![], true);
        };
        let (recv, item) = self.log[idx];
        if self.gc && self.round.map_or(false, |r| idx >= r) {
            // another round, what was saved when told it stopped
            self.round = Some(self.log.len());
            self.snap = self.log.len();
        }
        let _ = writeln!(self.hist, "  watch {s} called with packet {idx}");
        let flags = pkt.net_header().flags;
        let inner = NetFlags::LINKED_IN_FUTURE_PKT;
        let w = &self.ws[s];
        let sub = !w.sub.is_empty();
        let follow = w.plan.follow;
        let mut b = pkt.as_netbox().as_netpkt_bytes().to_vec();
        let mut e = item.pkt.as_netpkt_bytes().to_vec();
        if follow {
            ensure_or(self, flags.contains(inner) == sub && !flags.contains(NetFlags::LINKED_IN_PREVIOUS_PKT), "follow-flags", || format!("watch {s}: packet {idx} comes with flags {flags:?}, linked: {sub}"));
            b[3] = 0;
            e[3] = 0;
        }
        ensure_or(self, b == e, "packet-differs", || format!("watch {s}: packet {idx} is not as it was saved: {b:?} expected {e:?}"));
        ensure_or(self, pkt.get_recv().get() == recv, "recv", || format!("watch {s}: packet {idx} has recv {} expected {recv}", pkt.get_recv()));
        let round = self.round;
        let snap = self.snap;
        let log = &self.log;
        let w = &mut self.ws[s];
        let mut bad = None;
        if w.broke {
            bad = Some(("after-break", format!("watch {s} is called with packet {idx} after it broke")))
        } else if sub {
            if w.sub.pop_front() != Some(idx) {
                bad = Some(("follow", format!("watch {s}: packet {idx} is not the next link")))
            }
        } else if w.phase == Phase::Db {
            let next = w.db.pop_front();
            if next != Some(idx) {
                bad = Some(("store-order", format!("watch {s}: packet {idx} from the store, expected {next:?}")))
            }
            self.counts.push("called from the store");
        } else if w.phase == Phase::Dead {
            bad = Some(("after-end", format!("watch {s} has ended and is called with packet {idx}")))
        } else if round.is_none() {
            bad = Some(("out-of-round", format!("watch {s} is called with packet {idx} outside of processing")))
        } else if idx < w.pos || idx >= round.unwrap() {
            bad = Some(("twice", format!("watch {s} is called with packet {idx}, but is at {} of {}", w.pos, round.unwrap())))
        } else {
            for j in w.pos..=idx {
                let (ok, fin) = Self::test(w, log[j].1, log[j].0);
                if j == idx {
                    if !ok {
                        bad = Some(("wrong-match", format!("watch {s} is called with packet {idx}, which does not pass")))
                    }
                    w.fin = fin
                } else if (ok || fin) && !w.stopping {
                    bad = Some(("missed", format!("watch {s} is called with packet {idx}; before that it should have matched or ended with {j}")))
                }
            }
            w.pos = idx + 1;
            self.counts.push("called for a new packet");
        }
        if !sub {
            w.matches += 1;
            if follow {
                for (_, h) in &item.x.links {
                    if let Some(k) = log[..snap].iter().position(|(_, i)| i.x.hash == *h) {
                        w.sub.push_back(k);
                        self.counts.push("followed");
                    }
                }
            }
        }
        let n = w.calls as usize;
        w.calls += 1;
        let brk = w.plan.break_at == Some(n as u32);
        if brk {
            w.broke = true;
            w.sub.clear();
        }
        let acts = w.plan.acts.get(n).cloned().unwrap_or_default();
        if let Some((a, b)) = bad {
            self.fail(a, b);
            return (vec![], true);
        }
        (acts, brk)
    }
    fn on_stop(&mut self, s: usize, reason: StopReason, total: u32, new: u32) -> Vec<Act> {
        let reason = match reason {
            StopReason::Break => "break",
            StopReason::Finish => "finish",
            StopReason::Replaced => "replaced",
            StopReason::Closed => "closed",
        };
        let _ = writeln!(self.hist, "  watch {s} stopped: {reason}");
        let round = self.round;
        let by_op = self.closing.iter().any(|(id, range)| if *range { self.ws[s].plan.id.starts_with(id) } else { &self.ws[s].plan.id == id });
        let log = &self.log;
        let w = &mut self.ws[s];
        let mut bad = None;
        // registered, but its callback ran others before it returned
        let early = w.phase == Phase::Db && w.db.is_empty() && w.sub.is_empty() && !w.broke && by_op;
        if early {
            w.nq = rt::select(&log[..w.pos], &w.plan.conds, w.plan.mode).count
        }
        if w.phase != Phase::Live && !early {
            bad = Some(("stopped-twice", format!("watch {s} is told it stopped while {:?}", w.phase)))
        } else if !w.broke && !w.fin {
            // a limit on recv ends without a call
            if reason == "finish" && round.is_some() {
                while w.pos < round.unwrap() {
                    let (ok, fin) = Self::test(w, log[w.pos].1, log[w.pos].0);
                    w.pos += 1;
                    if ok && !w.stopping {
                        bad = Some(("missed", format!("watch {s} stops without packet {}", w.pos - 1)))
                    }
                    if fin {
                        w.fin = true;
                        break;
                    }
                }
                if self.gc && refpred::recv_high(&w.plan.conds) <= linkspace_pkt::now().get() {
                    w.fin = true;
                    self.counts.push("expired");
                }
            }
        }
        if w.stopping && round.is_some() && reason != "finish" {
            // whichever it has not been shown
            while !w.broke && !w.fin && w.pos < round.unwrap() && w.nq < total {
                Self::test(w, log[w.pos].1, log[w.pos].0);
                w.pos += 1;
            }
        }
        let want: &[&str] = match (w.broke, w.fin) {
            (true, true) => &["break", "finish"],
            (true, false) => &["break"],
            (false, true) => &["finish"],
            _ if w.stopping || by_op => &["closed", "replaced"],
            _ => &[],
        };
        if !want.contains(&reason) && bad.is_none() {
            bad = Some(("reason", format!("watch {s} is told it stopped by {reason}, expected one of {want:?}")))
        }
        let skips = w.plan.conds.iter().any(|c| matches!(c, Cond::Limit(0 | 1, ..)));
        let low = w.matches;
        if bad.is_none() && !(total >= low && total <= w.nq && (skips || total == low) && new == total - (w.nq - w.nn)) {
            bad = Some(("counts", format!("watch {s} is told of {total} calls, {new} new, but there were {} matches, count {} of which new {}", w.matches, w.nq, w.nn)))
        }
        w.phase = Phase::Dead;
        self.counts.push(match reason {
            "break" => "stop: break",
            "finish" => "stop: finish",
            "closed" => "stop: closed",
            _ => "stop: replaced",
        });
        let acts = w.plan.on_stop.clone();
        if let Some((a, b)) = bad {
            self.fail(a, b);
            return vec![];
        }
        acts
    }
    /// ids an operation stops: those have to be down afterwards, or in a round by its end
    fn take_down(&mut self, id: &[u8], range: bool) -> Vec<usize> {
        let mut v = vec![];
        for (k, w) in self.ws.iter_mut().enumerate() {
            if w.phase == Phase::Live && if range { w.plan.id.starts_with(id) } else { w.plan.id == id } {
                if self.round.is_some() {
                    w.stopping = true
                }
                v.push(k)
            }
        }
        v
    }
    /// those have been told by the end of the outermost operation
    fn check_down(&mut self, l: &[usize]) {
        self.must.extend(l);
        if self.round.is_none() && self.closing.is_empty() {
            for k in std::mem::take(&mut self.must) {
                if self.ws[k].phase != Phase::Dead {
                    self.fail("not-stopped", format!("watch {k} has to be stopped by now"));
                }
            }
        }
    }
}
fn ensure_or(m: &mut Mon, c: bool, sig: &str, msg: impl FnOnce() -> String) {
    if !c {
        m.fail(sig, msg())
    }
}
type M = Rc<RefCell<Mon>>;
struct Cb(usize, M);
impl PktHandler for Cb {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, lk: &Linkspace) -> ControlFlow<()> {
        let (acts, brk) = self.1.borrow_mut().on_call(self.0, pkt);
        for a in acts {
            perform(lk, &self.1, &a, true);
        }
        if brk {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn stopped(&mut self, q: Query, lk: &Linkspace, reason: StopReason, total: u32, new: u32) {
        let acts = self.1.borrow_mut().on_stop(self.0, reason, total, new);
        let same = q.to_string() == self.1.borrow().ws[self.0].plan.query.to_string();
        ensure_or(&mut self.1.borrow_mut(), same, "stopped-query", || format!("stopped() of another query: {q}"));
        for a in acts {
            if let Act::Watch(_) = a {
                self.1.borrow_mut().counts.push("watched when told it stopped");
            }
            perform(lk, &self.1, &a, true);
        }
    }
}
fn save(m: &M, lk: &Linkspace, items: &[&'static Item], one: bool) {
    let mut seen = std::collections::HashSet::new();
    let (now, news) = {
        let m = m.borrow();
        let l: Vec<&'static Item> = items.iter().filter(|i| !m.log.iter().any(|(_, j)| j.x.hash == i.x.hash) && seen.insert(i.x.hash)).copied().collect();
        (linkspace_pkt::now().get().max(m.log.last().map(|l| l.0 + 1).unwrap_or(0)), l)
    };
    let n = if one {
        let r = lk_save(lk, &items[0].pkt);
        r.map(|b| b as usize)
    } else {
        let l: Vec<&dyn NetPkt> = items.iter().map(|i| &i.pkt as &dyn NetPkt).collect();
        lk_save_all(lk, &l)
    };
    let mut m = m.borrow_mut();
    match n {
        Ok(n) if n == news.len() => {}
        n => m.fail("save", format!("saving {} packets, {} of them new: {n:?}", items.len(), news.len())),
    }
    let at = m.log.len();
    for (k, i) in news.iter().enumerate() {
        m.log.push((now + k as u64, i))
    }
    let end = m.log.len();
    let _ = writeln!(m.hist, "  saved packets {at}..{end}");
}
fn perform(lk: &Linkspace, m: &M, a: &Act, nested: bool) {
    if m.borrow().viol.is_some() {
        return;
    }
    match a {
        Act::Save(i) => {
            save(m, lk, &[i], true);
            if nested {
                m.borrow_mut().counts.push("saved from a callback")
            }
        }
        Act::Stop(id, range) => {
            let down = {
                let mut m = m.borrow_mut();
                // a watch that is being set up cannot be stopped yet
                if m.ws.iter().any(|w| w.phase == Phase::Db && if *range { w.plan.id.starts_with(id) } else { w.plan.id == *id }) {
                    return;
                }
                let _ = writeln!(m.hist, "  stop {} range {range}", vmlib::show(id));
                if nested {
                    m.counts.push("stopped from a callback")
                }
                m.closing.push((id.clone(), *range));
                m.take_down(id, *range)
            };
            lk_stop(lk, id, *range);
            let mut m = m.borrow_mut();
            if m.round.is_none() {
                m.closing.pop();
            }
            m.check_down(&down);
        }
        Act::Watch(p) => {
            let p = p.clone();
            let (s, down, sel) = {
                let mut m = m.borrow_mut();
                if m.ws.len() > 60 {
                    return;
                }
                let sel = rt::select(&m.log[..m.snap], &p.conds, p.mode);
                let s = m.ws.len();
                let _ = writeln!(m.hist, "  watch {s} as {} mode {} follow {} break at {:?}: {}", vmlib::show(&p.id), p.mode, p.follow, p.break_at, refpred::show(&p.conds));
                m.closing.push((p.id.clone(), false));
                let down = m.take_down(&p.id, false);
                let pos = m.snap;
                m.ws.push(W { plan: p.clone(), phase: Phase::Db, db: sel.got.iter().copied().collect(), sub: VecDeque::new(), nq: 0, nn: 0, matches: 0, calls: 0, pos, fin: false, broke: false, stopping: false, seen: 0 });
                if nested {
                    m.counts.push("watched from a callback")
                }
                (s, down, sel)
            };
            let r = lk_watch(lk, &p.query, Cb(s, m.clone()));
            let mut m = m.borrow_mut();
            // one that was set up under this id meanwhile
            let again: Vec<usize> = (s + 1..m.ws.len()).filter(|k| m.ws[*k].plan.id == p.id && m.ws[*k].phase == Phase::Live).collect();
            let in_round = m.round.is_some();
            let now = linkspace_pkt::now().get();
            let w = &mut m.ws[s];
            let mut bad = None;
            if !w.broke && (!w.db.is_empty() || !w.sub.is_empty()) {
                bad = Some(("store-missed", format!("watch {s} was not called for {:?} {:?} from the store", w.db, w.sub)))
            }
            let registered = if w.broke {
                false
            } else {
                w.nq = sel.count;
                refpred::nth_left(&p.conds, 0, w.nq) && refpred::nth_left(&p.conds, 1, 0) && refpred::recv_high(&p.conds) > now
            };
            match r {
                Err(e) => bad = bad.or(Some(("watch-error", format!("watch {s} fails: {e:#}")))),
                Ok(n) => {
                    if n.unsigned_abs() != w.matches {
                        bad = bad.or(Some(("watch-count", format!("watch {s} returns {n} after {} calls", w.matches))))
                    }
                    if (n > 0) == registered && n != 0 {
                        bad = bad.or(Some(("watch-sign", format!("watch {s} returns {n}, but registered is {registered} (broke {})", w.broke))))
                    }
                }
            }
            let broke = w.broke;
            let registered = registered && w.phase == Phase::Db;
            w.phase = if registered { Phase::Live } else { Phase::Dead };
            if let Some((a, b)) = bad {
                m.fail(a, b)
            }
            if !registered {
                m.counts.push(if broke { "ended in the store" } else { "never registered" });
            }
            for k in again {
                // whichever came later stays: this one, if it was registered
                if m.ws[k].phase == Phase::Live && registered {
                    if in_round {
                        m.ws[k].stopping = true
                    } else {
                        m.fail("not-replaced", format!("watch {k} has the id of {s}, which was registered later"))
                    }
                }
            }
            if m.round.is_none() {
                m.closing.pop();
            }
            m.check_down(&down);
        }
    }
}
fn process(m: &M, lk: &Linkspace, how: u64) {
    let to = {
        let mut m = m.borrow_mut();
        let _ = writeln!(m.hist, "process");
        let to = m.log.len();
        m.snap = to;
        m.round = Some(to);
        to
    };
    let want = m.borrow().log.last().map(|l| l.0).unwrap_or(0);
    m.borrow_mut().gc = how == 0;
    let mut none_left = false;
    let got = if how == 0 {
        // a time long over by then
        match lk_process_while(lk, None, Stamp::new(1)) {
            Ok(0) => want,
            // no watches left
            Ok(1) => {
                none_left = true;
                want
            }
            o => {
                m.borrow_mut().fail("process-while", format!("lk_process_while returns {o:?}"));
                want
            }
        }
    } else {
        lk_process(lk).get()
    };
    let to = if how == 0 {
        let mut n = 0;
        let q = lk_query_push(Q.clone(), "", "mode", b"log-asc").expect("a mode");
        let _ = lk_get_all(lk, &q, &mut |_| {
            n += 1;
            false
        });
        n.max(to)
    } else {
        to
    };
    let mut m = m.borrow_mut();
    m.snap = to;
    if got != want {
        m.fail("process-stamp", format!("lk_process returns {got}, the last packet has {want}"))
    }
    let log = m.log.clone();
    let mut bad = vec![];
    let mut rounds = false;
    for (k, w) in m.ws.iter_mut().enumerate() {
        if w.phase != Phase::Live {
            continue;
        }
        if w.stopping {
            bad.push(("not-stopped", format!("watch {k} has to be stopped by the end of processing")));
            continue;
        }
        if w.broke || w.fin {
            bad.push(("not-ended", format!("watch {k} has ended, but was not told")));
            continue;
        }
        if none_left {
            bad.push(("left", format!("lk_process_while returns 1, but watch {k} has not ended")))
        }
        if !w.sub.is_empty() {
            bad.push(("follow", format!("watch {k} was not called for the links {:?}", w.sub)))
        }
        rounds |= w.pos < to;
        while w.pos < to {
            let (ok, fin) = Mon::test(w, log[w.pos].1, log[w.pos].0);
            if ok || fin {
                bad.push(("missed", format!("watch {k} was not called for packet {} (matches {ok}, ends {fin})", w.pos)))
            }
            w.pos += 1;
        }
    }
    if rounds {
        m.counts.push("rounds with new packets")
    }
    m.round = None;
    m.gc = false;
    m.closing.clear();
    for (a, b) in bad {
        m.fail(a, b)
    }
}
const IDS: [&[u8]; 7] = [b"a", b"ab", b"abc", b"b", b"\xff", b"a:b", b"x\n"];
fn plan(r: &mut Rng, m: &M, now: u64, deep: u32) -> Result<Rc<Plan>, Viol> {
    loop {
        let log = m.borrow().log.clone();
        let c = rt::conds(r, &log, now, true);
        let (_, q) = build(r, &c)?;
        let Ok(q) = q else { continue };
        // documented as ignored in other modes, but nothing is read
        if !refpred::nth_left(&c, 3, 0) {
            continue;
        }
        let mode = *r.pick(&MODES);
        let id = r.pick(&IDS[..]).to_vec();
        let follow = r.chance(1, 5);
        let mut q = Query::from(q);
        for (k, v) in [("mode", mode.as_bytes()), ("qid", &id)] {
            q = match lk_query_push(q, "", k, v) {
                Ok(q) => q,
                Err(e) => return vmlib::viol("push", format!("{k}: {e:#}")),
            }
        }
        if follow {
            q = lk_query_push(q, "", "follow", b"").map_err(|e| Viol { sig: "push".into(), msg: format!("{e:#}") })?;
        }
        let mut acts = vec![];
        if deep > 0 && r.chance(1, 2) {
            for _ in 0..r.range(1, 12) {
                acts.push(if r.chance(1, 3) { vec![act(r, m, now, deep - 1)?] } else { vec![] })
            }
        }
        let on_stop = if deep > 0 && r.chance(1, 4) { vec![act(r, m, now, deep - 1)?] } else { vec![] };
        m.borrow_mut().plans += 1;
        return Ok(Rc::new(Plan { id, conds: c, mode, follow, query: q, acts, break_at: if r.chance(1, 2) { Some(r.below(12) as u32) } else { None }, on_stop }));
    }
}
fn act(r: &mut Rng, m: &M, now: u64, deep: u32) -> Result<Act, Viol> {
    Ok(match r.below(4) {
        0 | 1 => Act::Save(any(r)),
        2 => Act::Watch(plan(r, m, now, deep)?),
        _ => Act::Stop(r.pick(&IDS[..]).to_vec(), r.bool()),
    })
}
fn histories(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut now: u64 = 1_000_000;
    clock::set(now);
    let st = Store::new(o, "w");
    let lk = rt::runtime(st.env());
    let other = rt::runtime(st.env());
    let m: M = Rc::new(RefCell::new(Mon { log: vec![], snap: 0, round: None, ws: vec![], closing: vec![], hist: String::new(), viol: None, counts: vec![], plans: 0, must: vec![], gc: false }));
    let steps = r.range(5, 40);
    let hist = || m.try_borrow().map(|m| m.hist.clone()).unwrap_or_default();
    for _ in 0..steps {
        o.eval();
        now += r.below(4);
        clock::set(now);
        let _ = writeln!(m.borrow_mut().hist, "at {now}:");
        match r.below(10) {
            0..=2 => {
                let items: Vec<&'static Item> = (0..r.range(1, 6)).map(|_| any(r)).collect();
                let by = if r.bool() { &lk } else { &other };
                let one = r.bool();
                no_panic("save", &hist, || save(&m, by, if one { &items[..1] } else { &items }, one))?;
            }
            3..=5 => {
                let p = plan(r, &m, now, 2)?;
                no_panic("lk_watch", &hist, || perform(&lk, &m, &Act::Watch(p), false))?;
            }
            6 => {
                let a = Act::Stop(r.pick(&IDS[..]).to_vec(), r.chance(1, 3));
                no_panic("lk_stop", &hist, || perform(&lk, &m, &a, false))?;
            }
            _ => {
                let how = r.below(3);
                no_panic("lk_process", &hist, || process(&m, &lk, how))?;
            }
        }
        {
            let mut m = m.borrow_mut();
            for c in std::mem::take(&mut m.counts) {
                o.count(c)
            }
            if let Some(v) = m.viol.take() {
                return Err(v);
            }
        }
        let mut ids = vec![];
        no_panic("lk_list_watches", &hist, || lk_list_watches(&lk, &mut |id, _| ids.push(id.to_vec())))?;
        let mut want: Vec<Vec<u8>> = m.borrow().ws.iter().filter(|w| w.phase == Phase::Live).map(|w| w.plan.id.clone()).collect();
        want.sort();
        ids.sort();
        ensure!(ids == want, "list", "the watches are {ids:?}, expected {want:?}\n{}", hist());
    }
    let m = m.borrow();
    o.distinct(&m.hist);
    o.max("calls of one watch", m.ws.iter().map(|w| w.calls as u64).max().unwrap_or(0));
    Ok(())
}
