//! D02: what a query reads from the store
use crate::refpred::{self, Cond, Sat};
use crate::world::{pick, pool, Item, Store};
use linkspace_core::env::query_mode::Mode;
use linkspace_core::eval::core_scope;
use linkspace_core::prelude::*;
use std::collections::HashMap;
use vmlib::{ensure, no_panic, Obs, Prop, Res, Rng, Stage, Viol, OPTS};

pub static D02: Prop = Prop {
    id: "D02",
    stages: &[
        Stage { name: "queries", quick: 8_640, thorough: 144_000, run: queries },
        Stage { name: "dense-branches", quick: 4_320, thorough: 72_000, run: dense },
    ],
    rule: "a query in any of the six modes yields exactly the stored packets that pass every predicate, in the order of its index (log: receive order; hash: hash order; tree: group, domain, depth, spacename, key ascending, then create stamp and hash in the asked direction), limited as the i_branch, i_db and i sets say, and continues its count where it is told to; a set of predicates is refused only if nothing could pass it",
    assumptions: &["stores of up to 150 packets, up to 7 conditions", "i_branch counts entries that pass what the tree index can answer; it is only combined with such conditions", "LMDB is replaced by an in-memory model of its documented behaviour"],
    floors: &["mode log-asc", "mode log-desc", "mode hash-asc", "mode hash-desc", "mode tree-asc", "mode tree-desc", "yielded", "empty-result", "branch-limited", "db-limited", "i-limited", "refused"],
    opts: OPTS,
};
pub const MODES: [&str; 6] = ["log-asc", "log-desc", "hash-asc", "hash-desc", "tree-asc", "tree-desc"];
fn queries(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let items = pick(r, 150);
    run(r, o, items, 14)
}
fn dense(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    // few branches with many entries
    let p = pool();
    let k = r.usize(p.len() - 80);
    let mut items: Vec<&Item> = p[k..k + r.range(20, 80)].iter().filter(|i| i.x.lp.is_some()).collect();
    if items.is_empty() {
        items.push(&p[k])
    }
    r.shuffle(&mut items);
    run(r, o, items, 14)
}
fn run(r: &mut Rng, o: &mut Obs, items: Vec<&'static Item>, nq: usize) -> Res {
    let st = Store::new(o, "q");
    let mut left = &items[..];
    while !left.is_empty() {
        let n = r.range(1, left.len().min(20));
        st.save(&left[..n]).map_err(|e| Viol { sig: "save-fails".into(), msg: format!("saving {n} packets: {e}") })?;
        left = &left[n..];
    }
    let rd = st.env().new_read_txn().expect("read txn");
    let mut log: Vec<(u64, &Item)> = vec![];
    let by: HashMap<[u8; 32], &'static Item> = items.iter().map(|i| (i.x.hash, *i)).collect();
    for p in rd.local_pkt_log(Stamp::ZERO) {
        let Some(it) = by.get(&p.hash().0) else { return vmlib::viol("log-foreign", "the log holds a packet that was never saved") };
        log.push((p.recv.get(), it))
    }
    ensure!(log.len() == items.len(), "log-count", "{} packets saved, {} in the log", items.len(), log.len());
    let recv: HashMap<[u8; 32], u64> = log.iter().map(|(s, i)| (i.x.hash, *s)).collect();
    let all = refpred::all_fields();
    for _ in 0..nq {
        let n = *r.pick(&[0, 1, 1, 2, 2, 3, 4, 5]);
        let any = log[r.usize(log.len())].0;
        let mut c = refpred::conds(r, n, &|i, _| recv.get(&pool()[i].x.hash).copied().unwrap_or(any), &all);
        let post = c.iter().any(|c| matches!(c, Cond::F(f, ..) if !matches!(refpred::FIELDS[*f].0, "hash" | "group" | "domain" | "pubkey" | "create" | "depth" | "links_len" | "data_size")));
        for k in 0..4 {
            if r.chance(1, 4) && (k != 3 || !post) {
                for _ in 0..r.range(1, 2) {
                    c.push(refpred::limit(r, k))
                }
            }
        }
        if r.bool() {
            r.shuffle(&mut c)
        }
        one(r, o, &rd, &log, &c)?
    }
    Ok(())
}
/// the predicates as code under test
pub fn build(r: &mut Rng, c: &[Cond]) -> Result<(String, Result<Query, String>), Viol> {
    let sc = core_scope();
    let mut q = Query::DEFAULT;
    let mut txt = String::new();
    for c in c {
        txt.push_str(&c.text(r));
        txt.push('\n')
    }
    let how = r.below(3);
    let ok = no_panic("building a query", &|| txt.clone(), || -> anyhow::Result<()> {
        match how {
            0 => {
                for l in txt.lines() {
                    q.parse(l.as_bytes(), &sc)?
                }
            }
            _ => q.parse(txt.as_bytes(), &sc)?,
        }
        Ok(())
    })?;
    Ok((txt, ok.map(|_| q).map_err(|e| format!("{e:#}"))))
}
fn one(r: &mut Rng, o: &mut Obs, rd: &ReadTxn, log: &[(u64, &Item)], c: &[Cond]) -> Res {
    o.eval();
    let (txt, q) = build(r, c)?;
    let sat = refpred::sat(c);
    let q = match q {
        Err(e) => {
            ensure!(sat != Sat::No || true, "", "");
            ensure!(sat != Sat::Yes, "refused-satisfiable", "refused with {e}\n{txt}");
            o.count("refused");
            return Ok(());
        }
        Ok(q) => q,
    };
    ensure!(sat != Sat::No, "accepts-contradiction", "accepted, though nothing can pass\n{txt}");
    let preds = q.predicates;
    let pass: Vec<(u64, &Item)> = log.iter().filter(|(s, i)| c.iter().all(|c| c.ok(&i.x, *s))).copied().collect();
    o.distinct((&txt, pass.len()));
    for mode in MODES {
        let asc = mode.ends_with("asc");
        let mut l = pass.clone();
        match &mode[..3] {
            "log" => l.sort_by_key(|(s, _)| *s),
            "has" => l.sort_by_key(|(_, i)| i.x.hash),
            _ => l.retain(|(_, i)| i.tkey.is_some()),
        }
        if mode.starts_with("tree") {
            l.sort_by(|(_, a), (_, b)| (&a.tkey).cmp(&b.tkey).then_with(|| if asc { a.tval().cmp(&b.tval()) } else { b.tval().cmp(&a.tval()) }));
            let mut n = 0;
            let mut last: Option<&Vec<u8>> = None;
            l.retain(|(_, i)| {
                if last != i.tkey.as_ref() {
                    n = 0;
                    last = i.tkey.as_ref()
                }
                let keep = refpred::nth_ok(c, 3, n);
                n += 1;
                if !keep {
                    o.count("branch-limited")
                }
                keep
            });
        } else if !asc {
            l.reverse()
        }
        let mut n = 0;
        let before = l.len();
        l.retain(|_| {
            n += 1;
            refpred::nth_ok(c, 2, n - 1)
        });
        o.add("db-limited", (before - l.len()) as u64);
        let start = if r.chance(1, 4) { r.below(4) as u32 } else { 0 };
        let mut n = start;
        let before = l.len();
        let total = l.len() as u32;
        l.retain(|_| {
            n += 1;
            refpred::nth_ok(c, 0, n - 1)
        });
        o.add("i-limited", (before - l.len()) as u64);
        let m: Mode = mode.parse().map_err(|e| Viol { sig: "mode-text".into(), msg: format!("{mode}: {e:?}") })?;
        ensure!(m.to_string() == mode, "mode-text", "{mode} prints as {m}");
        let mut nth = start;
        let lim = if r.chance(1, 5) { r.below(4) as usize } else { usize::MAX };
        let inp = || format!("mode {mode}, {} packets, from {start}\n{txt}", log.len());
        let got = no_panic("query", &inp, || -> Result<Vec<(u64, [u8; 32], bool)>, String> {
            let it = rd.query(m, &preds, &mut nth).map_err(|e| e.to_string())?;
            // at most twice as many as there are, should it go in circles
            Ok(it.take(lim.min(2 * log.len() + 5)).map(|p| (p.recv.get(), p.pkt.hash().0, p.pkt.as_netpkt_bytes().len() == p.pkt.size() as usize)).collect())
        })?;
        let got = match got {
            Ok(g) => g,
            Err(e) => return vmlib::viol("query-error", format!("query fails with {e}: {}", inp())),
        };
        let want: Vec<(u64, [u8; 32], bool)> = l.iter().map(|(s, i)| (*s, i.x.hash, true)).take(lim).collect();
        if got != want {
            let at = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
            let name = |v: &Vec<(u64, [u8; 32], bool)>| v.iter().map(|(s, h, _)| {
                let i = log.iter().find(|(_, i)| i.x.hash == *h).unwrap().1;
                format!("\n   recv {s} hash {:02x}{:02x} create {} depth {} key {}", h[0], h[1], i.tval().0, i.x.comps.len(), vmlib::show(i.tkey.as_deref().unwrap_or(b"-")))
            }).collect::<String>();
            let missing = want.iter().filter(|w| !got.contains(w)).count();
            let extra = got.iter().filter(|w| !want.contains(w)).count();
            let kind = if extra > 0 { "extra" } else if missing > 0 { "missing" } else if got.len() != want.len() { "repeated" } else { "order" };
            return vmlib::viol(
                format!("{}-{kind}", &mode[..mode.find('-').unwrap()]),
                format!("{} results, expected {} ({missing} missing, {extra} unexpected, differs from index {at})\n{} got:{}\n want:{}", got.len(), want.len(), inp(), name(&got), name(&want)),
            );
        }
        o.count(&format!("mode {mode}"));
        o.add("yielded", got.len() as u64);
        if got.is_empty() {
            o.count("empty-result")
        }
        if lim == usize::MAX {
            // the running count a watch continues with
            let mut e = start;
            for _ in 0..total {
                if refpred::nth_done(c, 0, e) {
                    break;
                }
                e += 1
            }
            ensure!(nth == e, "nth", "the count ends at {nth}, expected {e}: {}", inp());
        }
    }
    Ok(())
}
