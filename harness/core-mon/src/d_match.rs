//! D05: queries applied to packets as they arrive; D08: the table of watches
use crate::clock;
use crate::d_query::build;
use crate::refpred::{self, Cond, FIELDS};
use crate::world::{pool, Item};
use linkspace_core::env::RecvPktPtr;
use linkspace_core::matcher::{Matcher, WatchEntry};
use linkspace_core::prelude::*;
use linkspace_pkt::reroute::RecvPkt;
use std::collections::BTreeMap;
use std::ops::ControlFlow;
use vmlib::{ensure, no_panic, Obs, Prop, Res, Rng, Stage, OPTS};

pub static D05: Prop = Prop {
    id: "D05",
    stages: &[Stage { name: "streams", quick: 90_000, thorough: 600_000, run: streams }],
    rule: "a compiled query accepts a packet exactly when it passes every predicate and its turn is in the i and i_new sets; it says it is finished exactly when no later packet can be accepted",
    assumptions: &["streams of up to 60 packets with increasing recv stamps"],
    floors: &["accepted", "refused", "not-its-turn", "finished-by-count", "finished-by-recv", "never-starts"],
    opts: OPTS,
};
pub static D08: Prop = Prop {
    id: "D08",
    stages: &[Stage { name: "histories", quick: 90_000, thorough: 3_000_000, run: histories }],
    rule: "watches are kept by id: a new one replaces the old one under its id, an ended one is dropped exactly once and given back, closing takes the watch with the id or all whose id starts with it, each packet is shown to exactly the watches it passes in order of their id, and collection drops those whose time has passed and tells when the next one will",
    assumptions: &["histories of up to 40 steps over 9 ids"],
    floors: &["registered", "replaced", "too-late", "closed", "closed-range", "closed-none", "matched", "dropped-by-callback", "dropped-by-count", "collected"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
fn limits(r: &mut Rng, c: &mut Vec<Cond>) {
    for k in [0, 1] {
        if r.chance(1, 3) {
            c.push(refpred::limit(r, k))
        }
    }
}
/// members of the set from n on
fn left(c: &[Cond], k: usize, n: u32) -> bool {
    refpred::nth_left(c, k, n)
}
/// what the watch should do: accepted, finished
struct Model {
    c: Vec<Cond>,
    nq: u32,
    nn: u32,
}
impl Model {
    fn test(&mut self, i: &Item, recv: u64) -> (bool, bool) {
        if self.c.iter().any(|c| matches!(c, Cond::Recv(..))) && refpred::recv_high(&self.c) < recv {
            return (false, true);
        }
        if !self.c.iter().all(|c| c.ok(&i.x, recv)) {
            return (false, false);
        }
        let ok = refpred::nth_ok(&self.c, 0, self.nq) && refpred::nth_ok(&self.c, 1, self.nn);
        self.nq += 1;
        self.nn += 1;
        (ok, !left(&self.c, 0, self.nq) || !left(&self.c, 1, self.nn))
    }
}
fn recv_pkt(i: &Item, recv: u64) -> RecvPktPtr {
    RecvPkt { recv: Stamp::from(recv), pkt: &*i.pkt }
}
fn streams(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let t0: u64 = *r.pick(&[1, 1000, 1_700_000_000_000_000]);
    let n = *r.pick(&[0, 1, 1, 2, 2, 3]);
    let mut c = refpred::conds(r, n, &|_, r| t0 + r.below(60), &refpred::all_fields());
    limits(r, &mut c);
    let (txt, q) = build(r, &c)?;
    let Ok(q) = q else { return Ok(()) };
    let start = if r.chance(1, 4) { r.below(5) as u32 } else { 0 };
    let by_compile = start == 0 && r.bool();
    let mut m = Model { c, nq: start, nn: 0 };
    let begins = left(&m.c, 0, start) && left(&m.c, 1, 0);
    let inp = || format!("starting at {start}\n{txt}");
    let mut f: Box<dyn FnMut(&Item, u64) -> (bool, ControlFlow<()>)> = if by_compile {
        match no_panic("compile", &inp, || q.compile().map_err(|e| e.to_string()))? {
            Ok(mut f) => Box::new(move |i, s| f(&RecvPkt { recv: Stamp::from(s), pkt: &i.pkt })),
            Err(e) => {
                ensure!(!begins, "compile-refused", "refused with {e}: {}", inp());
                o.count("never-starts");
                return Ok(());
            }
        }
    } else {
        match no_panic("WatchEntry::new", &inp, || WatchEntry::new(b"q".to_vec(), q, start, (), tracing_span()).map_err(|e| e.to_string()))? {
            Ok(mut w) => Box::new(move |i, s| {
                let x = w.test(recv_pkt(i, s));
                assert!(w.last_test == x && w.status().nth_query == w.nth_query);
                x
            }),
            Err(e) => {
                ensure!(!begins, "watch-refused", "refused with {e}: {}", inp());
                o.count("never-starts");
                return Ok(());
            }
        }
    };
    ensure!(begins, "starts-empty", "accepted, though no packet can be taken: {}", inp());
    let mut recv = t0;
    let p = pool();
    let base = r.usize(p.len());
    // packets that pass are rare: find some
    let some: Vec<&Item> = p.iter().filter(|i| m.c.iter().all(|c| matches!(c, Cond::Recv(..)) || c.ok(&i.x, recv))).take(40).collect();
    for k in 0..r.range(5, 60) {
        o.eval();
        recv += 1 + r.below(3);
        let i = if r.bool() && !some.is_empty() { some[r.usize(some.len())] } else { &p[(base + k) % p.len()] };
        let (nq, nn) = (m.nq, m.nn);
        let want = m.test(i, recv);
        let got = no_panic("test", &inp, || f(i, recv))?;
        let got = (got.0, got.1.is_break());
        ensure!(
            got == want,
            "test",
            "packet {k} received at {recv}, number {nq} of the query and {nn} of the new: (accepted, finished) is {got:?}, expected {want:?}, type {} depth {}: {}",
            i.x.kind,
            i.x.comps.len(),
            inp()
        );
        o.count(if want.0 { "accepted" } else if m.nq > nq { "not-its-turn" } else { "refused" });
        o.distinct((txt.len(), want, nq, nn, recv - t0));
        if want.1 {
            o.count(if m.nq > nq { "finished-by-count" } else { "finished-by-recv" });
            break;
        }
    }
    Ok(())
}
fn tracing_span() -> tracing::Span {
    tracing::Span::none()
}
const IDS: [&[u8]; 9] = [b"", b"a", b"ab", b"abc", b"ac", b"b", b"\xff", b"\xff\xff", b"a\0"];
fn histories(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut now: u64 = 1_000_000;
    clock::set(now);
    let mut mt: Matcher<u64> = Matcher::default();
    let mut model: BTreeMap<Vec<u8>, (u64, Model)> = BTreeMap::new();
    let mut serial = 0u64;
    let mut wids = std::collections::HashSet::new();
    let mut hist = String::new();
    use std::fmt::Write;
    let ids: Vec<&[u8]> = (0..r.range(2, 9)).map(|_| *r.pick(&IDS)).collect();
    for _ in 0..r.range(4, 40) {
        o.eval();
        now += r.below(4);
        clock::set(now);
        match r.below(12) {
            0..=3 => {
                let id = *r.pick(&ids);
                let mut c = if r.bool() { vec![] } else { let n = r.range(1, 2); refpred::conds(r, n, &|_, r| now + r.below(40), &refpred::all_fields()) };
                if r.chance(1, 3) {
                    c.push(Cond::Recv(*r.pick(&[refpred::OPS[2], refpred::Op::Le]), now - 2 + r.below(40)))
                }
                limits(r, &mut c);
                let (txt, q) = build(r, &c)?;
                let Ok(q) = q else { continue };
                let start = if r.chance(1, 5) { r.below(4) as u32 } else { 0 };
                let w = match no_panic("WatchEntry::new", &|| txt.clone(), || WatchEntry::new(id.to_vec(), q, start, serial, tracing_span()))? {
                    Ok(w) => w,
                    Err(_) => {
                        ensure!(!left(&c, 0, start) || !left(&c, 1, 0), "watch-refused", "refused: {txt}");
                        continue;
                    }
                };
                ensure!(wids.insert(w.watch_id), "watch-id", "two watches have the number {}", w.watch_id);
                let _ = writeln!(hist, "at {now}: watch {serial} as {} from {start}: {}", vmlib::show(id), refpred::show(&c));
                let late = refpred::recv_high(&c) <= now;
                let old = no_panic("register", &|| hist.clone(), || mt.register(w))?;
                let want = model.remove(id).map(|x| x.0);
                ensure!(old.as_ref().map(|e| e.ctx) == want, "register", "registering gives back {:?}, expected {want:?}\n{hist}", old.map(|e| e.ctx));
                if want.is_some() {
                    o.count("replaced")
                }
                if late {
                    o.count("too-late")
                } else {
                    o.count("registered");
                    model.insert(id.to_vec(), (serial, Model { c, nq: start, nn: 0 }));
                }
                serial += 1;
            }
            4 => {
                let id = *r.pick(&ids);
                let range = r.bool();
                let gone: Vec<Vec<u8>> = model.keys().filter(|k| if range { k.starts_with(id) } else { &k[..] == id }).cloned().collect();
                let _ = writeln!(hist, "at {now}: close {} range {range}", vmlib::show(id));
                let mut got = vec![];
                let n = no_panic("deregister", &|| hist.clone(), || mt.deregister(id, range, |w| got.push(w.ctx)))?;
                let want: Vec<u64> = gone.iter().map(|k| model.remove(k).unwrap().0).collect();
                ensure!(got == want && n == want.len(), "close", "closed {got:?} ({n}), expected {want:?}\n{hist}");
                o.count(if want.is_empty() { "closed-none" } else if range { "closed-range" } else { "closed" });
            }
            5 => {
                let at = now - 3 + r.below(12);
                let _ = writeln!(hist, "at {now}: collect {at}");
                let mut out = vec![];
                let got = no_panic("gc", &|| hist.clone(), || mt.gc(Stamp::from(at), |w| out.push(w.ctx)))?.map(|s| s.get());
                let gone: Vec<u64> = model.values().filter(|(_, m)| refpred::recv_high(&m.c) <= at).map(|(s, _)| *s).collect();
                ensure!(out == gone, "gc-dropped", "collecting up to {at} drops {out:?}, expected {gone:?}\n{hist}");
                let before = model.len();
                model.retain(|_, (_, m)| refpred::recv_high(&m.c) > at);
                o.add("collected", (before - model.len()) as u64);
                let want = model.values().map(|(_, m)| refpred::recv_high(&m.c)).min();
                ensure!(got == want, "gc", "collecting up to {at} says {got:?}, expected {want:?}\n{hist}");
            }
            6 => {
                for id in &ids {
                    let got = mt.get(id).map(|e| (e.ctx, e.nth_query, e.nth_new));
                    let want = model.get(*id).map(|(s, m)| (*s, m.nq, m.nn));
                    ensure!(got == want, "get", "under {} is {got:?}, expected {want:?}\n{hist}", vmlib::show(id));
                }
            }
            _ => {
                let i = &pool()[r.usize(pool().len())];
                now += 1;
                let recv = now;
                let _ = writeln!(hist, "packet at {recv} type {} depth {}", i.x.kind, i.x.comps.len());
                let salt = r.below(1000);
                let stops = |s: u64| (s * 7919 + salt) % 5 == 0;
                let (mut called, mut dropped) = (vec![], vec![]);
                no_panic("trigger", &|| hist.clone(), || {
                    mt.trigger(
                        recv_pkt(i, recv),
                        |c| {
                            called.push(*c);
                            if stops(*c) {
                                ControlFlow::Break(())
                            } else {
                                ControlFlow::Continue(())
                            }
                        },
                        |w| dropped.push(w.ctx),
                    )
                })?;
                let (mut wc, mut wd) = (vec![], vec![]);
                model.retain(|_, (s, m)| {
                    let (ok, fin) = m.test(i, recv);
                    if ok {
                        wc.push(*s);
                        o.count("matched")
                    }
                    let stop = ok && stops(*s);
                    if stop || fin {
                        o.count(if fin { "dropped-by-count" } else { "dropped-by-callback" });
                        wd.push(*s)
                    }
                    !(stop || fin)
                });
                ensure!(called == wc, "called", "the packet is shown to {called:?}, expected {wc:?}\n{hist}");
                ensure!(dropped == wd, "dropped", "watches {dropped:?} end, expected {wd:?}\n{hist}");
            }
        }
        let got: Vec<(Vec<u8>, u64)> = mt.entries().iter().map(|e| (e.query_id.clone(), e.ctx)).collect();
        let want: Vec<(Vec<u8>, u64)> = model.iter().map(|(k, v)| (k.clone(), v.0)).collect();
        ensure!(got == want, "entries", "the table holds {got:?}, expected {want:?}\n{hist}");
        o.distinct((got.len(), serial, now % 64));
    }
    let _ = FIELDS;
    Ok(())
}
