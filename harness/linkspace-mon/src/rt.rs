//! what the runtime monitors share: packets with links, the reference selection from a store
use crate::refpred::{self, Cond};
use crate::world::{self, pool, Item};
use linkspace::prelude::*;
use linkspace::Linkspace;
use vmlib::Rng;

/// packets of the pool, and some that link to others of them
pub fn linked() -> &'static [Item] {
    static P: std::sync::OnceLock<Vec<Item>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut r = Rng::new(0x6c696e6b);
        let mut v: Vec<Item> = vec![];
        let mut seen = std::collections::HashSet::new();
        while v.len() < 200 {
            let mut s = world::spec(&mut r);
            if s.kind == crate::refpkt::DATA {
                if r.chance(1, 4) {
                    continue;
                }
            } else {
                s.links = (0..*r.pick(&[0, 1, 2, 3, 5]))
                    .map(|i| {
                        let h = match r.below(4) {
                            0 => [7; 32],
                            1 | 2 if !v.is_empty() => v[r.usize(v.len())].x.hash,
                            _ => pool()[r.usize(pool().len())].x.hash,
                        };
                        ([i as u8; 16], h)
                    })
                    .collect();
            }
            let it = Item::new(&s);
            if seen.insert(it.x.hash) && !pool().iter().any(|p| p.x.hash == it.x.hash) {
                v.push(it)
            }
        }
        v
    })
}
/// either kind of packets
pub fn any(r: &mut Rng) -> &'static Item {
    if r.chance(1, 3) {
        r.pick(linked())
    } else {
        r.pick(pool())
    }
}
pub struct Sel {
    /// indexes into the log
    pub got: Vec<usize>,
    /// where the running count ends
    pub count: u32,
    /// how many pass before i is applied
    pub total: u32,
}
/// what a query yields from these packets, by the documentation
pub fn select(log: &[(u64, &Item)], c: &[Cond], mode: &str) -> Sel {
    let asc = mode.ends_with("asc");
    let mut l: Vec<usize> = (0..log.len()).filter(|k| c.iter().all(|c| c.ok(&log[*k].1.x, log[*k].0))).collect();
    match &mode[..3] {
        "log" => {}
        "has" => l.sort_by_key(|k| log[*k].1.x.hash),
        _ => l.retain(|k| log[*k].1.tkey.is_some()),
    }
    if mode.starts_with("tree") {
        l.sort_by(|a, b| {
            let (a, b) = (log[*a].1, log[*b].1);
            (&a.tkey).cmp(&b.tkey).then_with(|| if asc { a.tval().cmp(&b.tval()) } else { b.tval().cmp(&a.tval()) })
        });
        let mut n = 0;
        let mut last: Option<&Vec<u8>> = None;
        l.retain(|k| {
            let i = log[*k].1;
            if last != i.tkey.as_ref() {
                n = 0;
                last = i.tkey.as_ref()
            }
            n += 1;
            refpred::nth_ok(c, 3, n - 1)
        });
    } else if !asc {
        l.reverse()
    }
    let mut n = 0;
    l.retain(|_| {
        n += 1;
        refpred::nth_ok(c, 2, n - 1)
    });
    let total = l.len() as u32;
    let mut n = 0;
    l.retain(|_| {
        n += 1;
        refpred::nth_ok(c, 0, n - 1)
    });
    let mut count = 0;
    for _ in 0..total {
        if refpred::nth_done(c, 0, count) {
            break;
        }
        count += 1
    }
    Sel { got: l, count, total }
}
/// conditions for queries of the runtime
pub fn conds(r: &mut Rng, log: &[(u64, &Item)], now: u64, limits: bool) -> Vec<Cond> {
    let n = *r.pick(&[0, 0, 0, 1, 1, 2]);
    let all = refpred::all_fields();
    let mut c = refpred::conds(r, n, &|_, r| if log.is_empty() || r.bool() { now + r.below(40) } else { log[r.usize(log.len())].0 }, &all);
    if limits {
        let post = c.iter().any(beyond_index);
        for k in 0..4 {
            if r.chance(1, 6) && (k != 3 || !post) {
                c.push(refpred::limit(r, k))
            }
        }
    }
    c
}
/// is it about something that is not part of the index by place
pub fn beyond_index(c: &Cond) -> bool {
    matches!(c, Cond::F(f, ..) if !matches!(refpred::FIELDS[*f].0, "hash" | "group" | "domain" | "pubkey" | "create" | "depth" | "links_len" | "data_size"))
}
/// does net header and point of `pkt` agree with the item
pub fn same(pkt: &dyn NetPkt, i: &Item) -> bool {
    pkt.as_netbox().as_netpkt_bytes() == i.pkt.as_netpkt_bytes()
}
/// a second runtime on the same store
pub fn runtime(env: &linkspace_core::env::lmdb::BTreeEnv) -> Linkspace {
    Linkspace::from(linkspace::interop::rt_interop::LinkspaceImpl::new_opt_rt(env.clone(), Default::default()))
}
