//! L09: handshake; L10: pull requests and shorthands; L11: opening a directory
use crate::clock;
use crate::refpkt::{self, keys};
use crate::refpred;
use crate::rt;
use crate::world::{rmdir, Store};
use linkspace::abe::*;
use linkspace::prelude::*;
use linkspace::runtime::*;
use linkspace::*;
use linkspace_common::dgs::{DGSDExpr, DGSExpr};
use linkspace_common::prelude::NetPktExt as _;
use linkspace_common::protocols::handshake::*;
use linkspace_common::protocols::unicast_group;
use std::path::{Path, PathBuf};
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, Viol, OPTS};

pub static L09: Prop = Prop {
    id: "L09",
    stages: &[Stage { name: "handshake", quick: 12_000, thorough: 600_000, run: handshake }],
    rule: "sessions of two to three parties under a stepped clock: each message is delivered as sent, replaced by one of another session or party, or made anew with some of its fields changed, by the keys the adversary holds, everything correctly hashed and signed. Every step is judged by what the packets say. Non-trivial: distinct sessions.",
    assumptions: &["the transport validates hashes and signatures and counts hops, as the documentation of the handshake asks", "what phase 0 looks like beyond its key and stamp, and the tags of links, are not judged"],
    floors: &["agreed", "phase 1", "phase 1 refused", "phase 2", "phase 2 refused", "phase 3 refused", "replay", "too old", "too new", "unsigned", "own key", "changed space", "changed group", "changed domain", "changed link", "changed key", "other identity"],
    opts: OPTS,
};
pub static L10: Prop = Prop {
    id: "L10",
    stages: &[Stage { name: "pull", quick: 6_000, thorough: 300_000, run: pull }, Stage { name: "dgs", quick: 6_000, thorough: 300_000, run: dgs }],
    rule: "queries of all sorts with and without the group, domain and id that a pull needs, turned into pull points, whose place is checked and whose text is parsed again and applied to a pool of packets; shorthands domain:group:space:depth with escapes, expressions, defaults and errors, turned into predicates and applied to the same pool. Non-trivial: distinct queries and shorthands.",
    assumptions: &[],
    floors: &["pulled", "pulled twice", "no group", "no domain", "no id", "id does not fit", "matches", "matches none", "shorthand", "default domain", "default group", "no space", "depth limit", "any depth", "bad shorthand", "evaluated space"],
    opts: OPTS,
};
pub static L11: Prop = Prop {
    id: "L11",
    stages: &[Stage { name: "open", quick: 4_000, thorough: 10_000, run: open }],
    rule: "directories opened by path, link, relative path and environment, from up to six threads at once, some missing, some nested; what is saved through one handle is looked for through the others, in the same and other threads; the store counts how often each directory is really opened. Non-trivial: distinct sequences.",
    assumptions: &["directories are not moved while open"],
    floors: &["opened", "created", "refused", "same", "other", "by link", "by environment", "threads at once", "seen elsewhere", "not seen elsewhere", "watched elsewhere"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
fn tag(b: &[u8]) -> [u8; 16] {
    let mut t = [0; 16];
    t[16 - b.len()..].copy_from_slice(b);
    t
}
fn key(i: usize) -> (SigningKey, [u8; 32]) {
    let b = [[1u8; 32], [0x5a; 32], [9; 32]][i];
    (SigningKey::try_from(b).expect("key"), keys()[i].1)
}
/// through a channel that validates and counts the hop
fn deliver(p: &NetPktBox) -> Result<NetPktBox, Viol> {
    match linkspace_pkt::read::read_pkt(p.as_netpkt_bytes(), false) {
        Ok(b) => {
            let mut b = b.into_owned();
            let h = b.net_header();
            b.net_header_mut().expect("header").hop = linkspace_common::prelude::U32::new(h.hop.get() + 1);
            Ok(b)
        }
        Err(e) => Err(Viol { sig: "own packet refused".into(), msg: format!("{e:?}") }),
    }
}
fn fields(p: &NetPktBox) -> refpkt::Parsed {
    refpkt::parse(p.as_netpkt_bytes()).expect("packet")
}
fn xor(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    std::array::from_fn(|i| a[i] ^ b[i])
}
/// what the adversary sends instead
fn forge(r: &mut Rng, p: &NetPktBox, who: usize, other: &[NetPktBox], o: &mut Obs) -> Result<NetPktBox, Viol> {
    let x = fields(p);
    let (stamp, mut group, mut domain) = x.lp.unwrap_or((clock_now(), [0; 32], tag(b"\xffhandshake")));
    let mut stamp = stamp;
    let mut comps = x.comps.clone();
    let mut links: Vec<Link> = x.links.iter().map(|l| Link { tag: AB(l.0), ptr: B64(l.1) }).collect();
    let mut by = Some(who);
    for _ in 0..r.range(1, 2) {
        match r.below(9) {
            0 if !other.is_empty() => {
                o.count("replay");
                return deliver(&other[r.usize(other.len())]);
            }
            1 => {
                comps = r.pick(&[vec![], vec![b"anonymous".to_vec()], vec![b"sentinal".to_vec(), b"x".to_vec()], vec![b"sentina".to_vec()]]).clone();
                o.count("changed space")
            }
            2 => {
                group = *r.pick(&[[0; 32], PUBLIC.0, keys()[who].1, xor(&keys()[0].1, &keys()[2].1)]);
                o.count("changed group")
            }
            3 => {
                domain = *r.pick(&[[0; 16], tag(b"handshake"), tag(b"\xffhandshak")]);
                o.count("changed domain")
            }
            4 => {
                match r.below(4) {
                    0 => links.clear(),
                    1 => links.iter_mut().for_each(|l| l.ptr.0[31] ^= 1),
                    2 => links.insert(0, Link { tag: AB(tag(b"x")), ptr: B64([5; 32]) }),
                    _ => links.iter_mut().for_each(|l| l.tag = AB(tag(b"other"))),
                }
                o.count("changed link")
            }
            5 => {
                by = Some(r.usize(3));
                o.count("changed key")
            }
            6 => {
                by = None;
                o.count("unsigned")
            }
            7 => stamp = stamp.saturating_sub(r.below(40_000_000)),
            _ => stamp = stamp.saturating_add(r.below(40_000_000)),
        }
    }
    let sp = SpaceBuf::try_from_iter(comps.iter()).expect("space").try_into_rooted().expect("space");
    let k = by.map(|b| key(b).0);
    let p = linkspace_pkt::point(B64(group), AB(domain), &sp, &links, &[], Stamp::new(stamp), k.as_ref(), ()).as_netbox();
    deliver(&p)
}
static NOW: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn clock_now() -> u64 {
    NOW.load(std::sync::atomic::Ordering::Relaxed)
}
fn set(now: u64) {
    NOW.store(now, std::sync::atomic::Ordering::Relaxed);
    clock::set(now)
}
fn in_time(stamp: u64, now: u64, max: Option<usize>) -> bool {
    (stamp.abs_diff(now) as u128) < max.unwrap_or(15) as u128 * 1_000_000
}
fn handshake(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    o.eval();
    let mut now: u64 = *r.pick(&[20_000_000, 1_700_000_000_000_000, 5]);
    set(now);
    // an older session of the same parties
    let (c, s) = (r.usize(3), r.usize(3));
    let (ck, sk) = (key(c), key(s));
    let adversary = r.usize(3);
    let max = *r.pick(&[None, None, Some(0), Some(1), Some(15), Some(usize::MAX)]);
    let (g1, g2) = (unicast_group(B64(ck.1), B64(sk.1)), unicast_group(B64(sk.1), B64(ck.1)));
    ensure!(g1 == g2 && g1.0 == xor(&ck.1, &sk.1), "group of two", "{} {}", g1, g2);
    let mut others: Vec<NetPktBox> = vec![];
    for _ in 0..r.below(3) {
        let (a, b) = (key(r.usize(3)), key(r.usize(3)));
        let p0 = phase0_client_init(&a.0);
        others.push(p0.0.clone());
        let d0 = Phase0(deliver(&p0.0)?);
        if let Ok(p1) = phase1_server_signs(&d0, &b.0, None) {
            others.push(p1.0.clone());
            if let Ok((p2, _)) = phase2_client_signs(&p0, &Phase1(deliver(&p1.0)?), &a.0, None) {
                others.push(p2.0)
            }
        }
        now += r.below(3_000_000);
        set(now);
    }
    let mut hist = format!("client {c} server {s} adversary {adversary} max {max:?} ");
    let mut step = |r: &mut Rng| {
        now += *r.pick(&[0, 1, 1000, 999_999, 1_000_000, 14_999_999, 15_000_000, 15_000_001]) * r.below(2);
        if r.chance(1, 8) {
            now = now.saturating_sub(*r.pick(&[1, 999_999, 15_000_000, 15_000_001]))
        }
        set(now);
        now
    };
    let p0 = no_panic("phase0", &|| hist.clone(), || phase0_client_init(&ck.0))?;
    let f0 = fields(&p0.0);
    ensure!(f0.signed.map(|s| s.0) == Some(ck.1) && f0.comps == [b"sentinal".to_vec()] && f0.lp == Some((clock_now(), ck.1, tag(b"\xffhandshake"))), "phase 0", "{hist}: {f0:?}");
    let w0 = if r.chance(3, 5) { deliver(&p0.0)? } else { forge(r, &p0.0, adversary, &others, o)? };
    let t1 = step(r);
    let x0 = fields(&w0);
    hist += &format!("0:{x0:?} at {t1} ");
    let w0 = Phase0(w0);
    let p1 = no_panic("phase1", &|| hist.clone(), || phase1_server_signs(&w0, &sk.0, max))?;
    let st0 = x0.lp.map(|l| l.0).unwrap_or(0);
    let k0 = x0.signed.map(|s| s.0);
    let ok1 = k0.is_some() && k0 != Some(sk.1) && in_time(st0, t1, max);
    if k0 == Some(sk.1) {
        o.count("own key")
    }
    if k0.is_some() && !in_time(st0, t1, max) {
        o.count(if st0 < t1 { "too old" } else { "too new" })
    }
    ensure!(p1.is_ok() == ok1, if ok1 { "phase 1 refuses" } else { "phase 1 accepts" }, "{hist}: {:?}", p1.err().map(|e| e.to_string()));
    let p1 = match p1 {
        Ok(p) => p,
        Err(_) => {
            o.count("phase 1 refused");
            o.distinct(&hist);
            return Ok(());
        }
    };
    o.count("phase 1");
    let f1 = fields(&p1.0);
    ensure!(f1.signed.map(|s| s.0) == Some(sk.1) && f1.links.iter().any(|l| l.1 == x0.hash) && f1.comps == [b"sentinal".to_vec()] && f1.lp == Some((t1, xor(&k0.unwrap(), &sk.1), tag(b"\xffhandshake"))), "phase 1", "{hist}: {f1:?}");
    let w1 = if r.chance(3, 5) { deliver(&p1.0)? } else { forge(r, &p1.0, adversary, &others, o)? };
    let t2 = step(r);
    let x1 = fields(&w1);
    hist += &format!("1:{x1:?} at {t2} ");
    let me = if r.chance(1, 12) {
        o.count("other identity");
        key(r.usize(3))
    } else {
        key(c)
    };
    let w1 = Phase1(w1);
    let p2 = no_panic("phase2", &|| hist.clone(), || phase2_client_signs(&p0, &w1, &me.0, max))?;
    let k1 = x1.signed.map(|s| s.0);
    let lp = x1.lp.unwrap_or_default();
    let ok2 = me.1 == ck.1 && k1.is_some() && in_time(lp.0, t2, max) && x1.links.iter().any(|l| l.1 == f0.hash) && lp.2 == tag(b"\xffhandshake") && lp.1 == xor(&ck.1, &k1.unwrap()) && x1.comps == [b"sentinal".to_vec()];
    ensure!(p2.is_ok() == ok2, if ok2 { "phase 2 refuses" } else { "phase 2 accepts" }, "{hist}: {:?}", p2.err().map(|e| e.to_string()));
    let p2 = match p2 {
        Ok((p, k)) => {
            o.count("phase 2");
            ensure!(Some(k.0) == k1, "key of the server", "{hist}: {k}");
            let f2 = fields(&p.0);
            ensure!(f2.signed.map(|s| s.0) == Some(ck.1) && f2.links.iter().any(|l| l.1 == x1.hash) && f2.comps == [b"sentinal".to_vec()] && f2.lp == Some((t2, xor(&k1.unwrap(), &ck.1), tag(b"\xffhandshake"))), "phase 2", "{hist}: {f2:?}");
            p.0
        }
        Err(_) => {
            o.count("phase 2 refused");
            // the adversary goes on alone
            w1.0.clone()
        }
    };
    let w2 = if ok2 && r.chance(3, 5) { deliver(&p2)? } else { forge(r, &p2, adversary, &others, o)? };
    let t3 = step(r);
    let x2 = fields(&w2);
    hist += &format!("2:{x2:?} at {t3} ");
    let me = if r.chance(1, 12) {
        o.count("other identity");
        key(r.usize(3))
    } else {
        key(s)
    };
    let got = no_panic("phase3", &|| hist.clone(), || phase3_server_verify(&w0, &p1, &Phase2(w2), &me.0))?;
    let k2 = x2.signed.map(|s| s.0);
    let lp = x2.lp.unwrap_or_default();
    let ok3 = me.1 == sk.1 && k2.is_some() && k2 == k0 && x2.links.iter().any(|l| l.1 == f1.hash) && x2.comps == [b"sentinal".to_vec()] && lp.2 == tag(b"\xffhandshake") && lp.1 == xor(&k2.unwrap(), &sk.1);
    ensure!(got.is_ok() == ok3, if ok3 { "phase 3 refuses" } else { "phase 3 accepts" }, "{hist}: {:?}", got.err().map(|e| e.to_string()));
    match got {
        Ok(k) => {
            ensure!(Some(k.0) == k2, "key of the client", "{hist}: {k}");
            o.count("agreed")
        }
        Err(_) => o.count("phase 3 refused"),
    }
    o.distinct(&hist);
    o.sample(|| hist);
    Ok(())
}
thread_local! {
    static POOL: std::cell::OnceCell<Linkspace> = const { std::cell::OnceCell::new() };
}
/// what of the pool a query selects
fn pool_sel(q: &Query, o: &Obs) -> Result<Vec<[u8; 32]>, String> {
    POOL.with(|p| {
        let lk = p.get_or_init(|| {
            let st = Store::new(o, "pool");
            let lk = rt::runtime(st.env());
            let v: Vec<&dyn NetPkt> = rt::linked().iter().map(|i| &i.pkt as &dyn NetPkt).collect();
            lk_save_all(&lk, &v).expect("save");
            lk_process(&lk);
            std::mem::forget(st);
            lk
        });
        let mut v = vec![];
        let q = lk_query_push(q.clone(), "", "mode", b"log-asc").map_err(|e| e.to_string())?;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            lk_get_all(lk, &q, &mut |p| {
                v.push(p.hash().0);
                false
            })
        })) {
            Ok(r) => r.map(|_| ()).map_err(|e| e.to_string())?,
            Err(_) => return Err("panic".into()),
        }
        v.sort();
        Ok(v)
    })
}
fn pull(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    o.eval();
    let now = 1 + (r.next() >> *r.pick(&[8, 14, 30]));
    clock::set(now);
    let log: Vec<(u64, &'static crate::world::Item)> = (0..4).map(|i| (now + i, rt::any(r))).collect();
    let mut c = rt::conds(r, &log, now, true);
    c.retain(|c| !matches!(c.name(), "group" | "domain"));
    let item = rt::any(r);
    let lp = item.x.lp.unwrap_or_default();
    let (wg, wd) = (r.chance(7, 8), r.chance(7, 8));
    let sc = Some(());
    let _ = sc;
    let mut q = lk_query(&Q);
    let e = |e: &dyn std::fmt::Display| Viol { sig: "query".into(), msg: e.to_string() };
    let mut parts: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = c.iter().map(|c| (c.name().as_bytes().to_vec(), c.op().text().as_bytes().to_vec(), c.value())).collect();
    if wg {
        parts.push((b"group".to_vec(), b"=".to_vec(), lp.1.to_vec()))
    } else if r.bool() {
        parts.push((b"group".to_vec(), b"<".to_vec(), lp.1.to_vec()))
    }
    if wd {
        parts.push((b"domain".to_vec(), b"=".to_vec(), lp.2.to_vec()))
    } else if r.bool() {
        parts.push((b"domain".to_vec(), b">".to_vec(), lp.2.to_vec()))
    }
    r.shuffle(&mut parts);
    for (n, op, v) in &parts {
        let (n, op) = (std::str::from_utf8(n).unwrap(), std::str::from_utf8(op).unwrap());
        q = match lk_query_push(q, n, op, v) {
            Ok(q) => q,
            // conditions that exclude each other
            Err(_) => return Ok(()),
        }
    }
    let id: Option<Vec<u8>> = match r.below(8) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![b'x'; *r.pick(&[150, 160, 170, 175, 177, 178, 179, 180, 200, 201, 255])]),
        3 => Some(vmlib::gen::bytes(r, 30)),
        _ => Some(r.pick(&[&b"my"[..], b"a:b", b"a/b", b"\0", b"\xff[hash]"]).to_vec()),
    };
    if let Some(id) = &id {
        q = lk_query_push(q, "", "qid", id).map_err(|x| e(&x))?;
    }
    if r.bool() {
        q = lk_query_push(q, "", "follow", b"").map_err(|x| e(&x))?;
    }
    let t = lk_query_print(&q, false);
    let w = || format!("pull of\n{t}");
    let st = Store::new(o, "u");
    let lk = rt::runtime(st.env());
    let first = no_panic("lk_pull_point", &w, || conventions::pull::lk_pull_point(&q))?;
    // group, domain and id as components
    let fits = id.as_ref().map(|i| !i.is_empty() && i.len() <= 200 && 5 + 33 + 17 + i.len() + 1 <= 242 && t.len() < 50_000);
    let at_limit = id.as_ref().map(|i| i.len() > 170 && i.len() <= 200) == Some(true);
    let has = |f: &str, v: &[u8]| parts.iter().any(|p| p.0 == f.as_bytes() && p.1 == b"=" && p.2 == v);
    let ok = has("group", &lp.1) && has("domain", &lp.2) && fits == Some(true);
    if !at_limit {
        let narrowed = first.is_ok() && (!wg || !wd);
        ensure!(first.is_ok() == ok || narrowed, if ok { "pull refused" } else { "pull accepted" }, "{}: {:?}", w(), first.as_ref().err().map(|e| e.to_string()));
    }
    let p = match first {
        Ok(p) => p,
        Err(_) => {
            o.count(if !wg {
                "no group"
            } else if !wd {
                "no domain"
            } else if id.is_none() {
                "no id"
            } else {
                "id does not fit"
            });
            let h = no_panic("lk_pull", &w, || lk_pull(&lk, &q))?;
            ensure!(h.is_err(), "pull accepted", "{}", w());
            return Ok(());
        }
    };
    if !wg || !wd {
        return Ok(());
    }
    o.count("pulled");
    let x = fields(&p);
    let want = vec![b"pull".to_vec(), lp.1.to_vec(), lp.2.to_vec(), id.clone().unwrap()];
    ensure!(x.lp == Some((now, [0; 32], *b"\xff\xff\xff\xff\xff\xff\xff\xffexchange")) && x.comps == want && x.links.is_empty() && x.signed.is_none(), "place of a pull", "{}: {x:?}", w());
    let text = String::from_utf8_lossy(&x.data).to_string();
    let back = no_panic("reading a pull", &w, || lk_query_parse(lk_query(&Q), &[&text], ()))?;
    let back = match back {
        Ok(b) => b,
        // 'between its neighbours' is printed as 'is this hash', and only the latter implies taking one (see D03)
        Err(_) if t.lines().any(|l| l.starts_with("hash:=:")) && !parts.iter().any(|p| p.0 == b"hash" && p.1 == b"=") => {
            o.count("hash by inequality");
            return Ok(());
        }
        Err(e) => return viol("pull not read back", format!("{}: {e}", w())),
    };
    // (conditions print with what they imply and are compared by what they select)
    let lines = |t: &str| t.lines().filter(|l| l.starts_with(':') || l.starts_with("group") || l.starts_with("domain")).map(String::from).collect::<Vec<_>>();
    ensure!(lines(&lk_query_print(&back, false)) == lines(&t), "pull reads back differently", "{}: {}", w(), lk_query_print(&back, false));
    ensure!(linkspace::query::lk_query_print(&back, false).lines().any(|l| l.starts_with(":qid")), "pull id", "{}", w());
    if let (Ok(a), Ok(b)) = (pool_sel(&q, o), pool_sel(&back, o)) {
        o.count(if a.is_empty() { "matches none" } else { "matches" });
        ensure!(a == b, "pull selects differently", "{}: {a:?} {b:?}", w());
    }
    let h = no_panic("lk_pull", &w, || lk_pull(&lk, &q))?;
    match h {
        Ok(h) => {
            lk_process(&lk);
            let found = lk_get_hashes(&lk, &[h], &mut |p| {
                let y = refpkt::parse(p.as_netbox().as_netpkt_bytes()).expect("packet");
                let _ = y.comps == want && y.data == x.data;
                false
            });
            ensure!(found.is_ok() && h.0 == x.hash, "pull not saved", "{}: {h}", w());
            o.count("pulled twice");
        }
        Err(e) => return viol("pull refused", format!("{}: {e}", w())),
    }
    o.distinct(&t);
    o.sample(|| t.clone());
    Ok(())
}
fn dgs(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    o.eval();
    let item = rt::any(r);
    let lp = item.x.lp.unwrap_or_default();
    let sc = linkspace_core::eval::core_scope();
    // domain
    let (dt, dv): (String, Option<[u8; 16]>) = match r.below(6) {
        0 => {
            o.count("default domain");
            (String::new(), Some(linkspace_common::thread_local::domain().0))
        }
        1 => ("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa".into(), None),
        2 => (format!("[b:{}]", refpred::b64(&lp.2)), Some(lp.2)),
        _ => (refpred::esc(lp.2.iter().skip_while(|b| **b == 0).copied().collect::<Vec<_>>().as_slice()), Some(lp.2)),
    };
    let (dt, dv) = if dt.is_empty() && dv != Some(linkspace_common::thread_local::domain().0) { ("[a:\\0]".to_string(), Some([0; 16])) } else { (dt, dv) };
    let (gt, gv): (String, Option<[u8; 32]>) = match r.below(6) {
        0 => {
            o.count("default group");
            (String::new(), Some(linkspace_common::thread_local::group().0))
        }
        1 => ("[#:pub]".into(), Some(crate::refpkt::PUBLIC)),
        2 => ("x".into(), None),
        3 => (refpred::esc(&lp.1), Some(lp.1)),
        _ => (format!("[b:{}]", refpred::b64(&lp.1)), Some(lp.1)),
    };
    let n = r.usize(item.x.comps.len() + 1);
    let mut comps: Vec<Vec<u8>> = item.x.comps[..n].to_vec();
    if r.chance(1, 8) {
        comps = refpred::comps(r)
    }
    let mut evaluated = false;
    let st: String = match r.below(8) {
        0 if !comps.is_empty() => {
            evaluated = true;
            o.count("evaluated space");
            format!("[//{}]", comps.iter().map(|c| refpred::esc(c)).collect::<Vec<_>>().join("/"))
        }
        _ => comps.iter().map(|c| format!("/{}", refpred::esc(c))).collect(),
    };
    if comps.is_empty() {
        o.count("no space")
    }
    let (lt, lv): (Option<&str>, Option<usize>) = *r.pick(&[(None, Some(0)), (Some("*"), Some(1)), (Some("**"), Some(8)), (Some("0"), Some(0)), (Some("1"), Some(1)), (Some("2"), Some(2)), (Some("5"), Some(5)), (Some("8"), Some(8)), (Some("9"), None), (Some("x"), None), (Some("***"), None), (Some("**:"), None), (Some("*:*"), None)]);
    let mut t = format!("{dt}:{gt}:{st}");
    if let Some(l) = lt {
        t += &format!(":{l}")
    }
    // leaving out what is empty
    while lt.is_none() && t.ends_with(':') && r.bool() {
        t.pop();
    }
    let w = || format!("{t}");
    let e = no_panic("DGSDExpr", &w, || t.parse::<DGSDExpr>())?;
    o.distinct(&t);
    o.count("shorthand");
    if lv.is_none() {
        ensure!(e.is_err(), "shorthand accepted", "{}", w());
        o.count("bad shorthand");
        return Ok(());
    }
    let lim = lv.unwrap();
    let e = match e {
        Ok(e) => e,
        Err(x) => return viol("shorthand refused", format!("{}: {x}", w())),
    };
    // as a place
    if lt.is_none() {
        let p = no_panic("DGSExpr", &w, || t.parse::<DGSExpr>())?;
        let p = match p {
            Ok(p) => p,
            Err(x) => return viol("shorthand refused", format!("{}: {x}", w())),
        };
        let v = no_panic("DGSExpr eval", &w, || p.eval(&sc))?;
        match (dv, gv) {
            (Some(d), Some(g)) => match v {
                Ok(v) => ensure!(v.domain.0 == d && v.group.0 == g && v.space.space_bytes() == refpkt::sp(&comps), "place differs", "{}: {v:?}", w()),
                Err(x) => return viol("place refused", format!("{}: {x}", w())),
            },
            _ => ensure!(v.is_err(), "place accepted", "{}", w()),
        }
        let mut p2 = p.clone();
        if let Ok(v) = p2.resolve(&sc) {
            let v2 = no_panic("DGSExpr resolved", &w, || p2.eval(&sc))?;
            ensure!(v2.as_ref().ok() == Some(&v), "resolved place differs", "{}: {v2:?}", w());
        }
    }
    let x = no_panic("predicate_exprs", &w, || e.predicate_exprs().map(|i| i.collect::<Vec<_>>()))?;
    let unknown = evaluated && lim != 8;
    ensure!(x.is_err() == unknown, if unknown { "depth of an evaluated space" } else { "shorthand refused" }, "{}: {:?}", w(), x.err().map(|e| e.to_string()));
    let x = match x {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    o.count(if lim == 8 { "any depth" } else { "depth limit" });
    let mut q = lk_query(&Q);
    let mut err = None;
    for p in x {
        let t = match linkspace_core::predicate::exprs::PredicateExpr::from(p) {
            Ok(t) => t.to_string(),
            Err(e) => return viol("shorthand makes no predicate", format!("{}: {e:?}", w())),
        };
        match lk_query_parse(q.clone(), &[&t], ()) {
            Ok(x) => q = x,
            Err(x) => err = Some(format!("{t}: {x:#}")),
        }
    }
    let valid = dv.is_some() && gv.is_some();
    if !valid {
        ensure!(err.is_some(), "shorthand accepted", "{}", w());
        o.count("bad shorthand");
        return Ok(());
    }
    let max = comps.len() + lim;
    if let Some(x) = err {
        // nothing that deep
        return viol("shorthand refused", format!("{}: {x}", w()));
    }
    let got = match pool_sel(&q, o) {
        Ok(g) => g,
        Err(e) => return viol("shorthand fails", format!("{}: {e}", w())),
    };
    let mut want: Vec<[u8; 32]> = rt::linked()
        .iter()
        .filter(|i| match i.x.lp {
            Some(l) => Some(l.2) == dv && Some(l.1) == gv && i.x.comps.starts_with(&comps) && (lim == 8 || i.x.comps.len() <= max),
            None => false,
        })
        .map(|x| x.x.hash)
        .collect();
    want.sort();
    o.count(if want.is_empty() { "matches none" } else { "matches" });
    ensure!(got == want, "shorthand selects differently", "{}: {} instead of {}", w(), got.len(), want.len());
    o.sample(|| t.clone());
    Ok(())
}
fn point(n: u64, t: u64) -> NetPktBox {
    lk_linkpoint(&n.to_be_bytes(), AB(tag(b"open")), PUBLIC, &rspace_buf(&[b"x"]), &[], Some(Stamp::new(t))).expect("point")
}
fn has(lk: &Linkspace, h: LkHash) -> bool {
    lk_process(lk);
    let mut n = 0;
    let _ = lk_get_hashes(lk, &[h], &mut |_| {
        n += 1;
        false
    });
    n == 1
}
fn open(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    let base: PathBuf = o.scratch.join(format!("o{}-{i}", std::process::id()));
    std::env::set_var("TMPDIR", o.scratch.parent().unwrap_or(&o.scratch));
    std::fs::create_dir_all(&base).expect("scratch");
    let base = base.canonicalize().expect("scratch");
    let res = open_in(r, &base, o);
    for d in ["a", "b", "a/in"] {
        lmdb_sys::forget(&base.join(d));
    }
    rmdir(&base);
    res
}
fn open_in(r: &mut Rng, base: &Path, o: &mut Obs) -> Res {
    let dirs = ["a", "b", "a/in"];
    let mut exist = [false; 3];
    let mut hist = String::new();
    let mut lks: Vec<(usize, Linkspace)> = vec![];
    let mut n = r.next() >> 8;
    for d in 0..2 {
        std::os::unix::fs::symlink(base.join(dirs[d]), base.join(format!("l{d}"))).expect("link");
    }
    for _ in 0..r.range(2, 8) {
        o.eval();
        let d = r.usize(3);
        let create = r.chance(3, 4);
        let how = r.below(5);
        let path: Option<PathBuf> = match how {
            1 if d < 2 => {
                if !exist[d] && create {
                    // a link to nothing cannot be made a directory
                    continue;
                }
                o.count("by link");
                Some(base.join(format!("l{d}")))
            }
            2 if exist[0] => Some(base.join("a/../").join(dirs[d])),
            3 => {
                std::env::set_var("LK_DIR", base.join(dirs[d]));
                o.count("by environment");
                None
            }
            4 => {
                std::env::remove_var("LK_DIR");
                std::env::set_var("HOME", base.join(dirs[d]).join("no"));
                Some(base.join(dirs[d]))
            }
            _ => Some(base.join(dirs[d])),
        };
        crate::world::opened();
        hist += &format!("open({d},{how},{create}) ");
        let res = if r.chance(1, 3) {
            // from several threads at once
            let k = r.range(2, 6) as usize;
            o.count("threads at once");
            let bar = std::sync::Arc::new(std::sync::Barrier::new(k));
            n += 1;
            let p = point(n, n);
            let h = p.hash();
            let b = p.as_netpkt_bytes().to_vec();
            let js: Vec<_> = (0..k)
                .map(|t| {
                    let (bar, path, b) = (bar.clone(), path.clone(), b.clone());
                    let seed = r.next();
                    std::thread::spawn(move || -> Result<bool, String> {
                        clock::jitter(100_000, seed);
                        bar.wait();
                        let lk = std::panic::catch_unwind(|| lk_open(path.as_deref(), create).map_err(|e| e.to_string())).unwrap_or(Err("panic".into()));
                        let saved = match &lk {
                            Ok(lk) if t == 0 => linkspace::point::lk_read_unchecked(&b, true).map_err(|e| e.to_string()).and_then(|p| lk_save(lk, &p.0.into_owned()).map_err(|e| e.to_string()).map(|_| ())),
                            _ => Ok(()),
                        };
                        bar.wait();
                        saved?;
                        Ok(has(&lk?, h))
                    })
                })
                .collect();
            let rs: Vec<Result<bool, String>> = js.into_iter().map(|j| j.join().unwrap_or(Err("panic".into()))).collect();
            if rs.iter().any(|r| r.is_ok()) || exist[d] || create {
                for x in &rs {
                    ensure!(*x == Ok(true), "opened at once", "{hist}: {rs:?}");
                }
            }
            lk_open(path.as_deref(), create)
        } else {
            no_panic("lk_open", &|| hist.clone(), || lk_open(path.as_deref(), create))?
        };
        let ok = exist[d] || create;
        ensure!(res.is_ok() == ok, if ok { "open fails" } else { "opened what is not there" }, "{hist}: {:?}", res.err().map(|e| e.to_string()));
        match res {
            Err(_) => {
                o.count("refused");
                ensure!(!base.join(dirs[d]).exists(), "created when told not to", "{hist}");
            }
            Ok(lk) => {
                o.count(if exist[d] { "opened" } else { "created" });
                exist[d] = true;
                // (a directory is enough for a store to be made in it)
                if d == 2 {
                    exist[0] = true
                }
                let info = lk_info(&lk);
                ensure!(info.dir.canonicalize().ok() == base.join(dirs[d]).canonicalize().ok(), "directory of a runtime", "{hist}: {:?}", info.dir);
                lks.push((d, lk));
            }
        }
        // what one saves the others of that directory see
        if lks.len() > 0 {
            let k = r.usize(lks.len());
            n += 1;
            let p = point(n, n);
            let h = p.hash();
            // a watch in another runtime
            let hits = std::rc::Rc::new(std::cell::Cell::new(0));
            let wi = r.usize(lks.len());
            let h2 = hits.clone();
            let q = lk_query_push(lk_query(&Q), "hash", "=", &*h).and_then(|q| lk_query_push(q, "", "qid", b"w"));
            let q = match q {
                Ok(q) => q,
                Err(e) => return viol("query", e.to_string()),
            };
            if let Err(e) = lk_watch(&lks[wi].1, &q, cb::cb(move |_, _| {
                h2.set(h2.get() + 1);
                false
            })) {
                return viol("watch", format!("{hist}: {e}"));
            }
            match lk_save(&lks[k].1, &p) {
                Ok(true) => {}
                x => return viol("save", format!("{hist}: {x:?}")),
            }
            for (d, lk) in &lks {
                let same = *d == lks[k].0;
                ensure!(has(lk, h) == same, if same { "not seen by another runtime" } else { "seen in another directory" }, "{hist}: saved in {}, looked for in {}", dirs[lks[k].0], dirs[*d]);
                o.count(if same { "same" } else { "other" });
            }
            let same = lks[wi].0 == lks[k].0;
            ensure!(hits.get() == same as i32, "watch of another runtime", "{hist}: {} calls", hits.get());
            if same && wi != k {
                o.count("watched elsewhere")
            }
            lk_stop(&lks[wi].1, b"w", false);
            // and in another thread
            if r.chance(1, 3) {
                let d = r.usize(3);
                if exist[d] {
                    let path = base.join(dirs[d]);
                    let x = std::thread::spawn(move || lk_open(Some(&path), false).map(|lk| has(&lk, h)).map_err(|e| e.to_string())).join();
                    let want = d == lks[k].0;
                    ensure!(matches!(&x, Ok(Ok(b)) if *b == want), "another thread", "{hist}: {x:?}");
                    o.count(if want { "seen elsewhere" } else { "not seen elsewhere" });
                }
            }
        }
        o.distinct(&hist);
    }
    let (max, which) = lmdb_sys::opens(base);
    ensure!(max <= 1, "opened twice in one process", "{hist}: {which:?} is opened {max} times");
    o.sample(|| hist);
    Ok(())
}
