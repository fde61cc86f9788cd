//! L03: saving and getting through a runtime
use crate::clock;
use crate::d_query::{build, MODES};
use crate::refpred;
use crate::rt::{self, any};
use crate::world::{Item, Store};
use linkspace::prelude::*;
use linkspace::runtime::*;
use linkspace::*;
use std::collections::HashSet;
use std::fmt::Write;
use vmlib::{ensure, no_panic, viol, Obs, Prop, Res, Rng, Stage, Viol, OPTS};

pub static L03: Prop = Prop {
    id: "L03",
    stages: &[Stage { name: "histories", quick: 24_000, thorough: 400_000, run: histories }],
    rule: "histories of saves from two runtimes on one store, processing and gets: what lk_get_all, lk_get, lk_get_ref and lk_get_hashes show is judged by a model of the log up to the last processing, byte by byte, in order, and so are the numbers returned by saves and gets. Non-trivial: distinct histories.",
    assumptions: &["the sign of what lk_get_all returns is not judged, its documentation gives both"],
    floors: &["packets shown", "stopped early", "first found", "first not found", "hashes found", "hashes missing", "older snapshot", "skipped by a limit", "duplicates saved", "saved all", "saved one", "range of a save"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
fn check(pkt: &dyn NetPkt, want: (u64, &Item)) -> Result<(), String> {
    let b = pkt.as_netbox();
    if b.as_netpkt_bytes() != want.1.pkt.as_netpkt_bytes() {
        return Err(format!("got {} instead of {}", pkt.hash(), want.1.pkt.hash()));
    }
    if pkt.get_recv().get() != want.0 {
        return Err(format!("{} comes with recv {} instead of {}", pkt.hash(), pkt.get_recv(), want.0));
    }
    if pkt.hash().0 != want.1.x.hash {
        return Err(format!("{} comes with another hash", pkt.hash()));
    }
    Ok(())
}
fn histories(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut now: u64 = 1_000_000;
    clock::set(now);
    let st = Store::new(o, "g");
    let lks = [rt::runtime(st.env()), rt::runtime(st.env())];
    let mut snaps = [0usize; 2];
    let mut log: Vec<(u64, &'static Item)> = vec![];
    let mut hist = String::new();
    for _ in 0..r.range(5, 40) {
        o.eval();
        now += r.below(4);
        clock::set(now);
        let by = r.usize(2);
        let lk = &lks[by];
        let h = hist.clone();
        let what = || h.clone();
        match r.below(9) {
            0..=2 => {
                let mut items: Vec<&'static Item> = (0..r.range(0, 7)).map(|_| if !log.is_empty() && r.chance(1, 4) { log[r.usize(log.len())].1 } else { any(r) }).collect();
                let how = r.below(3);
                if how == 0 && items.len() > 1 {
                    items.truncate(1)
                }
                let mut seen: HashSet<[u8; 32]> = log.iter().map(|l| l.1.x.hash).collect();
                let news: Vec<&'static Item> = items.iter().filter(|i| seen.insert(i.x.hash)).copied().collect();
                if news.len() < items.len() {
                    o.count("duplicates saved")
                }
                let at = now.max(log.last().map(|l| l.0 + 1).unwrap_or(0));
                let refs: Vec<&dyn NetPkt> = items.iter().map(|i| &i.pkt as &dyn NetPkt).collect();
                let _ = writeln!(hist, "{now}: {by} saves {} packets, {} new, as {}", items.len(), news.len(), log.len());
                if how == 0 && refs.len() == 1 {
                    let got = no_panic("lk_save", &what, || lk_save(lk, refs[0]))?;
                    ensure!(matches!(got, Ok(b) if b as usize == news.len()), "save", "lk_save returns {got:?}, new {}\n{hist}", news.len());
                    o.count("saved one");
                } else if how == 1 {
                    let got = no_panic("lk_save_all", &what, || lk_save_all(lk, &refs))?;
                    ensure!(matches!(got, Ok(n) if n == news.len()), "save-all", "lk_save_all returns {got:?}, new {}\n{hist}", news.len());
                    o.count("saved all");
                } else {
                    let got = no_panic("lk_save_all_ext", &what, || lk_save_all_ext(lk, &refs))?;
                    let Ok((a, b)) = got else { return viol("save-all", format!("lk_save_all_ext fails: {got:?}\n{hist}")) };
                    ensure!(b.get() - a.get() == news.len() as u64, "save-range", "lk_save_all_ext returns {a}..{b}, new {}\n{hist}", news.len());
                    if !news.is_empty() {
                        ensure!(a.get() == at, "save-range", "lk_save_all_ext returns {a}..{b}, expected to start at {at}\n{hist}");
                        o.count("range of a save");
                    }
                }
                for (k, i) in news.iter().enumerate() {
                    log.push((at + k as u64, i))
                }
            }
            3 => {
                let _ = writeln!(hist, "{now}: {by} processes");
                let got = no_panic("lk_process", &what, || lk_process(lk))?;
                ensure!(got.get() == log.last().map(|l| l.0).unwrap_or(0), "process", "lk_process returns {got}\n{hist}");
                snaps[by] = log.len();
            }
            4 => {
                let seen = &log[..snaps[by]];
                let l: Vec<LkHash> = (0..r.below(6)).map(|_| if !log.is_empty() && r.chance(3, 4) { log[r.usize(log.len())].1.pkt.hash() } else { any(r).pkt.hash() }).collect();
                let want: Vec<_> = l.iter().filter_map(|h| seen.iter().find(|s| s.1.x.hash == h.0)).copied().collect();
                let brk = if r.chance(1, 3) { r.usize(4) } else { usize::MAX };
                let mut n = 0;
                let mut bad = None;
                let _ = writeln!(hist, "{now}: {by} gets {} hashes, {} there, stops at {brk}", l.len(), want.len());
                let got = no_panic("lk_get_hashes", &what, || {
                    lk_get_hashes(lk, &l, &mut |p| {
                        bad = bad.take().or(match want.get(n) {
                            Some(w) => check(p, (p.get_recv().get(), w.1)).err(),
                            None => Some(format!("one too many: {}", p.hash())),
                        });
                        n += 1;
                        n - 1 == brk
                    })
                })?;
                if let Some(b) = bad {
                    return viol("hashes", format!("{b}\n{hist}"));
                }
                // (those come without the time they were received)
                let calls = want.len().min(brk.saturating_add(1));
                ensure!(n == calls, "hashes", "{n} of {calls} shown\n{hist}");
                let num = if brk < want.len() { -(calls as i32) } else { calls as i32 };
                ensure!(matches!(got, Ok(g) if g == num), "hashes-number", "returns {got:?} instead of {num}\n{hist}");
                o.add("hashes found", want.len() as u64);
                o.add("hashes missing", (l.len() - want.len()) as u64);
            }
            k => {
                let seen = &log[..snaps[by]];
                let c = rt::conds(r, seen, now, true);
                let (text, q) = build(r, &c)?;
                let Ok(q) = q else { continue };
                let mode = *r.pick(&MODES);
                let implicit = mode == "tree-desc" && r.bool();
                let mut q = Query::from(q);
                if !implicit {
                    q = lk_query_push(q, "", "mode", mode.as_bytes()).map_err(|e| Viol { sig: "push".into(), msg: format!("{e:#}") })?;
                }
                let sel = rt::select(seen, &c, mode);
                let want: Vec<_> = sel.got.iter().map(|k| seen[*k]).collect();
                let _ = writeln!(hist, "{now}: {by} gets {text:?} mode {mode} from {} of {}: {:?}", seen.len(), log.len(), sel.got);
                if seen.len() < log.len() {
                    o.count("older snapshot")
                }
                if sel.total as usize > want.len() {
                    o.count("skipped by a limit")
                }
                match k {
                    5 | 6 => {
                        let brk = if r.chance(1, 3) { r.usize(4) } else { usize::MAX };
                        let mut n = 0;
                        let mut bad = None;
                        let got = no_panic("lk_get_all", &what, || {
                            lk_get_all(lk, &q, &mut |p| {
                                bad = bad.take().or(match want.get(n) {
                                    Some(w) => check(p, *w).err(),
                                    None => Some(format!("one too many: {}", p.hash())),
                                });
                                n += 1;
                                n - 1 == brk
                            })
                        })?;
                        if let Some(b) = bad {
                            return viol("get-all", format!("number {n}: {b}\n{hist}"));
                        }
                        let calls = want.len().min(brk.saturating_add(1));
                        ensure!(n == calls, "get-all", "{n} of {calls} shown\n{hist}");
                        ensure!(matches!(got, Ok(g) if g.unsigned_abs() as usize == calls), "get-all-number", "returns {got:?} after {calls} calls, the first {brk} of them were to continue\n{hist}");
                        o.add("packets shown", n as u64);
                        if brk < want.len() {
                            o.count("stopped early")
                        }
                    }
                    7 => {
                        let got = no_panic("lk_get", &what, || lk_get(lk, &q))?;
                        match (&got, want.first()) {
                            (Ok(Some(p)), Some(w)) => {
                                ensure!(check(p, (p.get_recv().get(), w.1)).is_ok(), "get", "lk_get returns {}\n{hist}", p.hash());
                                o.count("first found")
                            }
                            (Ok(None), None) => o.count("first not found"),
                            _ => return viol("get", format!("lk_get returns {:?}, expected {:?}\n{hist}", got.map(|p| p.map(|p| p.hash())), want.first().map(|w| w.1.pkt.hash()))),
                        }
                    }
                    _ => {
                        let mut n = 0;
                        let got = no_panic("lk_get_ref", &what, || {
                            lk_get_ref(lk, &q, &mut |p| {
                                n += 1;
                                want.first().map(|w| check(p, *w))
                            })
                        })?;
                        match (got, want.is_empty()) {
                            (Ok(Some(Some(Ok(())))), false) => ensure!(n == 1, "get-ref", "{n} calls\n{hist}"),
                            (Ok(None), true) => {}
                            (g, _) => return viol("get-ref", format!("lk_get_ref returns {g:?}\n{hist}")),
                        }
                    }
                }
            }
        }
    }
    o.distinct(&hist);
    Ok(())
}
