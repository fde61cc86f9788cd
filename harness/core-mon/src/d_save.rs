//! D01: saving packets
use crate::clock;
use crate::world::{pick, pool, Item, Store};
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::env::query_mode::Mode;
use linkspace_core::prelude::*;
use lmdb_sys::fault;
use std::collections::{HashMap, HashSet};
use vmlib::{ensure, no_panic, Obs, Prop, Res, Rng, Stage, OPTS};

pub static D01: Prop = Prop {
    id: "D01",
    stages: &[
        Stage { name: "histories", quick: 4_000, thorough: 80_000, run: histories },
        Stage { name: "threads", quick: 600, thorough: 8_000, run: threads },
    ],
    rule: "a store is exactly the set of packets whose save succeeded: every packet is written once under a recv stamp that is later than all before it whatever the clock does, the returned range is the stamps of the new packets in order, each packet's state says what happened to it, a failed save changes nothing and can be repeated, the log, hash and tree index always agree, readers keep their snapshot, and everything is there after reopening",
    assumptions: &["LMDB is replaced by an in-memory model of its documented behaviour; its own durability is out of scope", "the clock stays below 2^63 microseconds"],
    floors: &["saved", "duplicates", "duplicate-in-batch", "clock-frozen", "clock-rewound", "put-fault", "commit-fault", "retry-after-fault", "reopened", "snapshot-kept", "preset-state", "thread-saves", "thread-snapshots"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
        fault::clear();
    }
}
/// every index of the store against what it should hold; returns nothing that is not checked
fn audit(rd: &ReadTxn, log: &[(u64, &'static Item)], absent: &[&'static Item], o: &mut Obs) -> Res {
    o.eval();
    let got: Vec<(u64, [u8; 32])> = rd.local_pkt_log(Stamp::ZERO).map(|p| (p.recv.get(), p.hash().0)).collect();
    let want: Vec<(u64, [u8; 32])> = log.iter().map(|(s, i)| (*s, i.x.hash)).collect();
    ensure!(got == want, "log", "the log holds {} packets, expected {}; first difference at {}", got.len(), want.len(), got.iter().zip(&want).take_while(|(a, b)| a == b).count());
    let head = log.last().map(|l| l.0).unwrap_or(0);
    ensure!(rd.log_head().get() == head, "log-head", "log_head is {}, expected {head}", rd.log_head().get());
    for (s, i) in log {
        let h = linkspace_pkt::LkHash::from(i.x.hash);
        let at = rd.read_ptr(&h).map_err(|e| vmlib::Viol { sig: "read".into(), msg: e.to_string() })?;
        ensure!(at.map(|a| a.get()) == Some(*s), "hash-index", "hash index says {at:?} for a packet received at {s}");
        let Ok(Some(p)) = rd.read(&h) else { return vmlib::viol("read", "a saved packet cannot be read by its hash") };
        ensure!(p.recv.get() == *s && p.hash().0 == i.x.hash, "read", "read by hash gives another packet");
        ensure!(p.pkt.as_netpkt_bytes() == i.pkt.as_netpkt_bytes(), "bytes", "the stored bytes of a packet differ from the saved ones:\n {}\n {}", vmlib::show(p.pkt.as_netpkt_bytes()), vmlib::show(i.pkt.as_netpkt_bytes()));
    }
    for i in absent {
        let h = linkspace_pkt::LkHash::from(i.x.hash);
        ensure!(matches!(rd.read_ptr(&h), Ok(None)) && matches!(rd.read(&h), Ok(None)), "absent", "a packet that was never saved can be read");
    }
    let n = PktPredicates::DEFAULT;
    let recv: HashMap<[u8; 32], u64> = log.iter().map(|(s, i)| (i.x.hash, *s)).collect();
    let mut points: Vec<[u8; 32]> = log.iter().filter(|(_, i)| i.tkey.is_some()).map(|(_, i)| i.x.hash).collect();
    points.sort();
    let mut nth = 0;
    let it = rd.query("tree-asc".parse::<Mode>().unwrap(), &n, &mut nth).map_err(|e| vmlib::Viol { sig: "query".into(), msg: e.to_string() })?;
    let mut tree = vec![];
    for p in it.take(2 * log.len() + 5) {
        ensure!(recv.get(&p.hash().0) == Some(&p.recv.get()), "tree-recv", "the tree index gives another recv stamp than the log");
        tree.push(p.hash().0)
    }
    tree.sort();
    ensure!(tree == points, "tree-index", "the tree index holds {} points, the log {}", tree.len(), points.len());
    let mut all: Vec<[u8; 32]> = recv.keys().copied().collect();
    all.sort();
    let mut nth = 0;
    let h: Vec<[u8; 32]> = rd.query("hash-asc".parse::<Mode>().unwrap(), &n, &mut nth).map_err(|e| vmlib::Viol { sig: "query".into(), msg: e.to_string() })?.take(2 * log.len() + 5).map(|p| p.hash().0).collect();
    ensure!(h == all, "hash-index", "the hash index holds {} packets, the log {}", h.len(), all.len());
    Ok(())
}
/// reads that take an iterator or a position
fn lookups(r: &mut Rng, rd: &ReadTxn, log: &[(u64, &'static Item)], absent: &[&'static Item]) -> Res {
    let mut q: Vec<&Item> = vec![];
    for _ in 0..r.below(6) {
        if r.bool() && !log.is_empty() {
            q.push(log[r.usize(log.len())].1)
        } else if !absent.is_empty() {
            q.push(absent[r.usize(absent.len())])
        }
    }
    let have: HashSet<[u8; 32]> = log.iter().map(|l| l.1.x.hash).collect();
    let want: Vec<[u8; 32]> = q.iter().map(|i| i.x.hash).filter(|h| have.contains(h)).collect();
    let got: Vec<[u8; 32]> = rd.get_pkts_by_hash(q.iter().map(|i| i.x.hash.into())).map(|p| p.hash().0).collect();
    ensure!(got == want, "by-hash", "reading {} hashes, {} of them saved, yields {}", q.len(), want.len(), got.len());
    let mut at: Vec<u64> = vec![];
    for _ in 0..r.below(6) {
        let s = if log.is_empty() { r.below(9) } else { log[r.usize(log.len())].0 };
        at.push(if r.chance(1, 4) { s.wrapping_add(r.below(3)).wrapping_sub(1) } else { s });
    }
    let by: HashMap<u64, [u8; 32]> = log.iter().map(|(s, i)| (*s, i.x.hash)).collect();
    let want: Vec<[u8; 32]> = at.iter().filter_map(|s| by.get(s).copied()).collect();
    let got: Vec<[u8; 32]> = rd.get_pkts_by_logidx(at.iter().map(|s| (*s).into())).map(|p| p.hash().0).collect();
    ensure!(got == want, "by-recv", "reading recv stamps {at:?} yields {} packets, expected {}", got.len(), want.len());
    let s = at.first().copied().unwrap_or(0);
    let from: Vec<u64> = rd.local_pkt_log(s.into()).map(|p| p.recv.get()).collect();
    let want: Vec<u64> = log.iter().map(|l| l.0).filter(|x| *x >= s).collect();
    ensure!(from == want, "log-from", "the log from {s} has {} packets, expected {}", from.len(), want.len());
    let from: Vec<u64> = rd.pkts_after(s.into()).map(|p| p.recv.get()).collect();
    let want: Vec<u64> = log.iter().map(|l| l.0).filter(|x| *x > s).collect();
    ensure!(from == want, "log-after", "the log after {s} has {} packets, expected {}", from.len(), want.len());
    Ok(())
}
type Saved = std::io::Result<(Option<std::ops::Range<u64>>, Vec<SaveState>)>;
/// one of the ways to save; `pre` are the states the caller starts with
fn save(r: &mut Rng, env: &BTreeEnv, b: &[&'static Item], pre: &[SaveState]) -> Saved {
    let fresh = pre.iter().all(|s| *s == SaveState::Pending);
    let ptr = |i: &'static Item| -> &'static linkspace_pkt::NetPktPtr { &*i.pkt };
    match r.below(if fresh { 6 } else { 2 }) {
        0 => {
            let mut l: Vec<(&dyn NetPkt, SaveState)> = b.iter().zip(pre).map(|(i, s)| (&i.pkt as &dyn NetPkt, *s)).collect();
            let g = env.save_dyn(&mut l)?;
            Ok((Some(g), l.iter().map(|x| x.1).collect()))
        }
        1 => {
            let mut l: Vec<(&linkspace_pkt::NetPktPtr, SaveState)> = b.iter().zip(pre).map(|(i, s)| (ptr(i), *s)).collect();
            let g = env.save_ptr(&mut l)?;
            Ok((Some(g), l.iter().map(|x| x.1).collect()))
        }
        2 if b.len() == 1 => Ok((None, vec![env.save_dyn_one(&b[0].pkt)?])),
        3 if b.len() == 1 => Ok((None, vec![env.save_ptr_one(ptr(b[0]))?])),
        4 => Ok((Some(env.save_dyn_iter(b.iter().map(|i| &i.pkt as &dyn NetPkt))?), vec![])),
        _ => Ok((Some(env.save_ptr_iter(b.iter().map(|i| ptr(i)))?), vec![])),
    }
}
fn histories(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut st = Store::new(o, "s");
    let universe = pick(r, 60);
    let mut log: Vec<(u64, &'static Item)> = vec![];
    let mut t: u64 = *r.pick(&[0, 1, 1_000_000, 1_700_000_000_000_000, (1 << 62) - 5000]);
    clock::set(t);
    let mut frozen = true;
    for _ in 0..r.range(3, 14) {
        // the clock does as it likes
        match r.below(10) {
            0..=3 => {
                frozen = true;
            }
            4 => {
                t += 1;
                frozen = false
            }
            5 => {
                t += r.below(100_000_000);
                frozen = false
            }
            6 | 7 => {
                t = t.saturating_sub(*r.pick(&[1, 2, 50, 1_000_000, u64::MAX]));
                frozen = false;
                o.count("clock-rewound")
            }
            _ => t += r.below(20),
        }
        t = t.min((1 << 62) - 1);
        clock::set(t);
        if frozen && !log.is_empty() {
            o.count("clock-frozen")
        }
        let env = st.env().clone();
        let snap = if r.chance(1, 3) { Some((env.new_read_txn().expect("read txn"), log.clone())) } else { None };
        // a batch
        let mut b: Vec<&'static Item> = vec![];
        for _ in 0..*r.pick(&[0, 1, 1, 1, 2, 3, 5, 12]) {
            b.push(universe[r.usize(universe.len())])
        }
        let mut pre = vec![SaveState::Pending; b.len()];
        if r.chance(1, 6) {
            for s in pre.iter_mut() {
                *s = *r.pick(&[SaveState::Pending, SaveState::Pending, SaveState::Exists, SaveState::Written, SaveState::Error]);
                if *s != SaveState::Pending {
                    o.count("preset-state")
                }
            }
        }
        // what should happen
        let mut have: HashSet<[u8; 32]> = log.iter().map(|l| l.1.x.hash).collect();
        let before = have.clone();
        let mut want = pre.clone();
        let mut new: Vec<&'static Item> = vec![];
        for (i, s) in b.iter().zip(want.iter_mut()) {
            if *s == SaveState::Pending {
                if have.insert(i.x.hash) {
                    *s = SaveState::Written;
                    new.push(i)
                } else {
                    *s = SaveState::Exists;
                    o.count(if before.contains(&i.x.hash) { "duplicates" } else { "duplicate-in-batch" })
                }
            }
        }
        let last = log.last().map(|l| l.0);
        let inp = || format!("{} packets ({} new), states {pre:?}, clock at {t}, last recv {last:?}", b.len(), new.len());
        // sometimes the storage fails, and the caller tries again
        if r.chance(1, 5) {
            let put = r.bool();
            fault::clear();
            let f0 = fault::INJECTED.load(std::sync::atomic::Ordering::SeqCst);
            if put {
                fault::at_put(r.below(3 * b.len() as u64 + 1) as i64, lmdb_sys::MDB_MAP_FULL)
            } else {
                fault::at_commit(0, lmdb_sys::MDB_MAP_FULL)
            }
            let mut l: Vec<(&dyn NetPkt, SaveState)> = b.iter().zip(&pre).map(|(i, s)| (&i.pkt as &dyn NetPkt, *s)).collect();
            let bus = st.env().0.log_head.val();
            let res = no_panic("save with a failing store", &inp, || st.env().save_dyn(&mut l))?;
            let hit = fault::INJECTED.load(std::sync::atomic::Ordering::SeqCst) > f0;
            fault::clear();
            if hit {
                ensure!(res.is_err(), "fault-ignored", "the store failed, but save returns {res:?}: {}", inp());
                o.count(if put { "put-fault" } else { "commit-fault" });
                ensure!(st.env().0.log_head.val() == bus, "fault-emits", "a failed save is announced: {}", inp());
                for (k, (i, s)) in b.iter().zip(l.iter().map(|x| x.1)).enumerate() {
                    ensure!(pre[k] != SaveState::Pending || s != SaveState::Written, "fault-state", "save failed, but the state of packet {k} is {s}: {}", inp());
                    ensure!(pre[k] != SaveState::Pending || s != SaveState::Exists || have.contains(&i.x.hash), "fault-state", "save failed, state {s}: {}", inp());
                }
                let rd = st.env().new_read_txn().expect("read txn");
                let absent: Vec<&Item> = universe.iter().filter(|i| !before.contains(&i.x.hash)).copied().collect();
                audit(&rd, &log, &absent, o)?;
                o.count("retry-after-fault");
                // fall through: the same batch again
            } else {
                let Ok(g) = res else { return vmlib::viol("save-fails", format!("save fails without a fault: {}", inp())) };
                for (k, i) in new.iter().enumerate() {
                    log.push((g.start + k as u64, i))
                }
                continue;
            }
        }
        let res = no_panic("save", &inp, || save(r, st.env(), &b, &pre))?;
        let (g, states) = match res {
            Ok(x) => x,
            Err(e) => return vmlib::viol("save-fails", format!("save fails with {e}: {}", inp())),
        };
        ensure!(states.is_empty() || states == want, "states", "states {states:?}, expected {want:?}: {}", inp());
        let g = match g {
            Some(g) => g,
            // the one-packet forms do not say
            None => {
                let h = st.env().new_read_txn().expect("read txn").log_head().get();
                h + 1 - new.len() as u64..h + 1
            }
        };
        ensure!(g.end - g.start == new.len() as u64, "range", "range {g:?} for {} new packets: {}", new.len(), inp());
        if !new.is_empty() {
            ensure!(last.map_or(true, |l| g.start > l), "recv-order", "recv stamps {g:?} are not later than {last:?}: {}", inp());
            ensure!(g.start >= t, "recv-clock", "recv stamps {g:?} are before the clock: {}", inp());
            ensure!(g.start == t.max(last.map_or(0, |l| l + 1)), "recv-clock", "recv stamps {g:?} are neither now nor right after the last: {}", inp());
            ensure!(st.env().0.log_head.val() == g.end - 1, "announce", "announced {} after writing {g:?}", st.env().0.log_head.val());
        }
        for (k, i) in new.iter().enumerate() {
            log.push((g.start + k as u64, i));
            o.count("saved")
        }
        o.distinct((b.len(), new.len(), frozen, last.map(|l| t > l), r.below(1 << 20)));
        let look = r.chance(1, 4);
        for (mut rd, old) in snap {
            if look {
                let absent: Vec<&Item> = universe.iter().filter(|i| !old.iter().any(|l| l.1.x.hash == i.x.hash)).copied().collect();
                audit(&rd, &old, &absent, o)?;
                o.count("snapshot-kept");
                rd.refresh();
                let absent: Vec<&Item> = universe.iter().filter(|i| !have.contains(&i.x.hash)).copied().collect();
                audit(&rd, &log, &absent, o)?;
            }
        }
        drop(env);
        if r.chance(1, 5) {
            st.reopen();
            o.count("reopened")
        }
        let rd = st.env().new_read_txn().expect("read txn");
        let absent: Vec<&Item> = universe.iter().filter(|i| !have.contains(&i.x.hash)).copied().collect();
        audit(&rd, &log, &absent, o)?;
        no_panic("lookups", &inp, || lookups(r, &rd, &log, &absent))??;
    }
    Ok(())
}
/// several threads of one process save and read
fn threads(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let st = Store::new(o, "t");
    let universe = pick(r, 80);
    let t = 1_700_000_000_000_000;
    clock::set(t);
    let nw = r.range(2, 4);
    let plans: Vec<Vec<Vec<&'static Item>>> = (0..nw).map(|_| (0..r.range(3, 10)).map(|_| (0..r.range(1, 6)).map(|_| universe[r.usize(universe.len())]).collect()).collect()).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    let env = st.env();
    type Batch<'a> = (Vec<&'a Item>, std::ops::Range<u64>, Vec<SaveState>);
    let (batches, snaps): (Vec<Batch>, Vec<Vec<(u64, [u8; 32])>>) = std::thread::scope(|s| {
        let ws: Vec<_> = plans
            .iter()
            .map(|p| {
                s.spawn(move || {
                    let mut out: Vec<Batch> = vec![];
                    for b in p {
                        let mut l: Vec<(&dyn NetPkt, SaveState)> = b.iter().map(|i| (&i.pkt as &dyn NetPkt, SaveState::Pending)).collect();
                        match env.save_dyn(&mut l) {
                            Ok(g) => out.push((b.clone(), g, l.iter().map(|x| x.1).collect())),
                            Err(e) => return Err(e.to_string()),
                        }
                        std::thread::yield_now();
                    }
                    Ok(out)
                })
            })
            .collect();
        let rs: Vec<_> = (0..2)
            .map(|_| {
                let stop = &stop;
                s.spawn(move || {
                    let mut out = vec![];
                    while !stop.load(std::sync::atomic::Ordering::SeqCst) && out.len() < 200 {
                        let rd = env.new_read_txn().expect("read txn");
                        let a: Vec<(u64, [u8; 32])> = rd.local_pkt_log(Stamp::ZERO).map(|p| (p.recv.get(), p.hash().0)).collect();
                        out.push(a);
                        std::thread::yield_now();
                    }
                    out
                })
            })
            .collect();
        let mut b = vec![];
        let mut e = None;
        for w in ws {
            match w.join() {
                Ok(Ok(x)) => b.extend(x),
                Ok(Err(x)) => e = Some(x),
                Err(_) => e = Some("a saving thread panicked".into()),
            }
        }
        stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let mut sn = vec![];
        for x in rs {
            sn.extend(x.join().unwrap_or_default())
        }
        match e {
            Some(e) => vmlib::viol("thread-save", e),
            None => Ok((b, sn)),
        }
    })?;
    // put the batches in order of their stamps: they must not overlap
    let mut b: Vec<&Batch> = batches.iter().collect();
    b.retain(|b| !b.1.is_empty());
    b.sort_by_key(|b| b.1.start);
    let mut log: Vec<(u64, &'static Item)> = vec![];
    let by: HashMap<[u8; 32], &'static Item> = universe.iter().map(|i| (i.x.hash, *i)).collect();
    for (items, g, states) in b {
        ensure!(log.last().map_or(true, |l| l.0 < g.start), "thread-overlap", "two saves were given the same stamps: {g:?}");
        let w: Vec<_> = items.iter().zip(states).filter(|(_, s)| s.is_written()).map(|(i, _)| i.x.hash).collect();
        ensure!(w.len() as u64 == g.end - g.start, "thread-range", "{} packets written, range {g:?}", w.len());
        for (k, h) in w.iter().enumerate() {
            ensure!(!log.iter().any(|l| l.1.x.hash == *h), "thread-twice", "two threads were told that they wrote the same packet");
            log.push((g.start + k as u64, by[h]));
            o.count("thread-saves")
        }
    }
    for (items, _, states) in &batches {
        for (i, s) in items.iter().zip(states) {
            ensure!(*s == SaveState::Written || *s == SaveState::Exists, "thread-state", "state {s} after a save that worked");
            ensure!(log.iter().any(|l| l.1.x.hash == i.x.hash), "thread-lost", "a packet is said to exist, but was never written");
        }
    }
    let full: Vec<(u64, [u8; 32])> = log.iter().map(|l| (l.0, l.1.x.hash)).collect();
    for s in &snaps {
        ensure!(full.starts_with(s), "thread-snapshot", "a reader saw {} packets that are not the first ones of the log", s.len());
        // on the boundary of a batch
        let end = s.last().map_or(0, |l| l.0 + 1);
        ensure!(s.is_empty() || batches.iter().any(|b| b.1.end == end), "thread-torn", "a reader saw a part of a batch");
        o.count("thread-snapshots")
    }
    o.distinct(snaps.iter().map(|s| s.len()).collect::<HashSet<_>>().len() as u64 * 1000 + log.len() as u64);
    let rd = env.new_read_txn().expect("read txn");
    let absent: Vec<&Item> = pool().iter().filter(|i| !full.iter().any(|f| f.1 == i.x.hash)).take(50).collect();
    audit(&rd, &log, &absent, o)
}
