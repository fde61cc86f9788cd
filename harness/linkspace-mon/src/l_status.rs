//! L08: who answers a status request, and which answers are seen
use crate::clock;
use crate::refpkt;
use crate::rt;
use crate::world::Store;
use linkspace::conventions::status::*;
use linkspace::prelude::*;
use linkspace::runtime::*;
use linkspace::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::ops::ControlFlow;
use std::rc::Rc;
use vmlib::{ensure, no_panic, show, viol, Obs, Prop, Res, Rng, Stage, OPTS};

pub static L08: Prop = Prop {
    id: "L08",
    stages: &[Stage { name: "status", quick: 12_000, thorough: 200_000, run: status }],
    rule: "histories of two runtimes on one store, with processes that answer for a domain, group, type and instance, watchers with timeouts from 0 to 40 us under a stepped clock, requests by hand, and packets that are nearly requests or replies. The log of the store, every call and every reply is judged by a model that knows only the log. Non-trivial: distinct histories.",
    assumptions: &["a watch for all instances while only one instance was asked, and replies that arrive in time but are processed late are not judged"],
    floors: &["set", "set refused", "set replaced", "request", "not a request", "answered", "answered by two", "other instance", "watch", "asked", "not asked again", "old reply", "stopped by an old reply", "new reply", "reply of another", "too late", "watch ended", "overwatch", "stopped by handler"],
    opts: OPTS,
};
struct Real;
impl Drop for Real {
    fn drop(&mut self) {
        clock::real();
    }
}
#[derive(Clone, PartialEq, Debug, Eq, Hash)]
struct Key {
    d: u8,
    g: u8,
    t: &'static [u8],
    i: Option<&'static [u8]>,
}
const T: [&[u8]; 3] = [b"process", b"pull", b"p"];
const I: [&[u8]; 4] = [b"default", b"a", b"b", b"\0"];
fn dom(d: u8) -> Domain {
    AB(match d {
        0 => tag(b"exchange"),
        1 => tag(b"other"),
        _ => tag(b"exchang"),
    })
}
fn tag(b: &[u8]) -> [u8; 16] {
    let mut t = [0; 16];
    t[16 - b.len()..].copy_from_slice(b);
    t
}
fn grp(g: u8) -> GroupID {
    match g {
        0 => PUBLIC,
        1 => B64([7; 32]),
        _ => PRIVATE,
    }
}
impl Key {
    fn pick(r: &mut Rng, all: bool) -> Key {
        Key { d: r.below(2) as u8, g: r.below(3) as u8, t: *r.pick(&T), i: if all && r.bool() { None } else { Some(*r.pick(&I)) } }
    }
    fn prefix(&self) -> Vec<Vec<u8>> {
        vec![b"\xffstatus".to_vec(), grp(self.g).0.to_vec(), self.t.to_vec()]
    }
    fn comps(&self) -> Vec<Vec<u8>> {
        let mut p = self.prefix();
        p.extend(self.i.map(|i| i.to_vec()));
        p
    }
    fn status<'o>(&self, qid: &'o [u8]) -> LkStatus<'o> {
        LkStatus { domain: dom(self.d), group: grp(self.g), objtype: self.t, instance: self.i, qid }
    }
}
struct Pkt {
    recv: u64,
    hash: [u8; 32],
    create: u64,
    group: [u8; 32],
    domain: [u8; 16],
    comps: Vec<Vec<u8>>,
    links: Vec<([u8; 16], [u8; 32])>,
    data: Vec<u8>,
}
impl Pkt {
    fn below(&self, k: &Key) -> bool {
        self.domain == dom(k.d).0 && self.group == PRIVATE.0 && self.comps.starts_with(&k.comps())
    }
    fn request(&self) -> bool {
        self.links.is_empty() && self.data.is_empty()
    }
    fn reply(&self) -> bool {
        !self.links.is_empty() && !self.data.is_empty()
    }
}
#[derive(Clone)]
struct Call {
    space: Vec<u8>,
    domain: [u8; 16],
    tag: [u8; 16],
    ptr: [u8; 32],
    reply: [u8; 32],
}
struct Setter {
    key: Key,
    calls: Rc<RefCell<Vec<Call>>>,
    seen: usize,
    prev: [u8; 32],
}
struct Watcher {
    key: Key,
    got: Rc<RefCell<Vec<[u8; 32]>>>,
    stopped: Rc<RefCell<Option<String>>>,
    seen: usize,
    until: u64,
    from: u64,
    brk: usize,
    /// no longer judged
    free: bool,
}
enum Thing {
    Setter(Setter),
    Watcher(Watcher),
}
struct H {
    got: Rc<RefCell<Vec<[u8; 32]>>>,
    stopped: Rc<RefCell<Option<String>>>,
    brk: usize,
}
impl cb::PktHandler for H {
    fn handle_pkt(&mut self, pkt: &dyn NetPkt, _: &Linkspace) -> ControlFlow<()> {
        let mut g = self.got.borrow_mut();
        g.push(pkt.hash().0);
        if g.len() >= self.brk {
            ControlFlow::Break(())
        } else {
            ControlFlow::Continue(())
        }
    }
    fn stopped(&mut self, _: Query, _: &Linkspace, reason: cb::StopReason, _: u32, _: u32) {
        *self.stopped.borrow_mut() = Some(match reason {
            cb::StopReason::Break => "break",
            cb::StopReason::Finish => "finish",
            cb::StopReason::Replaced => "replaced",
            cb::StopReason::Closed => "closed",
        }.into());
    }
}
fn log(lk: &Linkspace) -> LkResult<Vec<Pkt>> {
    let q = lk_query(&Q);
    let q = lk_query_push(q, "", "mode", b"log-asc")?;
    let mut v = vec![];
    lk_get_all(lk, &q, &mut |p| {
        let b = p.as_netbox();
        let x = refpkt::parse(b.as_netpkt_bytes()).expect("stored packet");
        let (create, group, domain) = x.lp.map(|l| (l.0, l.1, l.2)).unwrap_or_default();
        v.push(Pkt { recv: p.recv().map(|s| s.get()).unwrap_or(0), hash: x.hash, create, group, domain, comps: x.comps, links: x.links.iter().map(|l| (l.0, l.1)).collect(), data: x.data });
        false
    })?;
    Ok(v)
}
fn status(r: &mut Rng, _i: u64, o: &mut Obs) -> Res {
    let _real = Real;
    let mut now: u64 = 1_000_000;
    clock::set(now);
    let st = Store::new(o, "s");
    let lks = [rt::runtime(st.env()), rt::runtime(st.env())];
    let mut things: Vec<HashMap<Vec<u8>, Thing>> = vec![HashMap::new(), HashMap::new()];
    let mut hist = String::new();
    let mut seen = 0;
    // few keys, so that they meet
    let keys: Vec<Key> = (0..r.range(1, 3)).map(|_| Key::pick(r, false)).collect();
    let e = |e: &dyn std::fmt::Display| vmlib::Viol { sig: "error".into(), msg: e.to_string() };
    for _ in 0..r.range(4, 25) {
        o.eval();
        now += 1 + if r.chance(1, 4) { r.below(12) } else { 0 };
        clock::set(now);
        let by = r.usize(2);
        let lk = &lks[by];
        let mut k = keys[r.usize(keys.len())].clone();
        match r.below(12) {
            0 => k.i = Some(*r.pick(&I)),
            1..=3 => k.i = None,
            4 => k = Key::pick(r, true),
            _ => {}
        }
        let qid: Vec<u8> = r.pick(&[&b"status"[..], b"q", b"q2", b"q3"]).to_vec();
        let before = log(lk).map_err(|x| e(&x))?;
        match r.below(10) {
            0 | 1 => {
                // answer from now on
                let mut k = k.clone();
                let calls: Rc<RefCell<Vec<Call>>> = Default::default();
                let bad = if r.chance(1, 5) { 1 + r.below(7) } else { 0 };
                hist += &format!("{by}:set({k:?},{},{bad}) ", show(&qid));
                let c2 = calls.clone();
                let res = no_panic("lk_status_set", &|| hist.clone(), || {
                    lk_status_set(lk, k.status(&qid), move |_lk, domain, group, space, link| {
                        let n = c2.borrow().len();
                        let (mut d, mut g, mut s, mut l, mut data) = (domain, group, space.to_owned(), vec![link], format!("OK\n{n}").into_bytes());
                        match bad {
                            1 => d = dom(2),
                            2 => g = PUBLIC,
                            3 => {
                                s.try_append_component(b"x")?;
                            }
                            4 => l.clear(),
                            5 => data.clear(),
                            6 => s = rspace_buf(&[b"x"]),
                            7 => anyhow::bail!("no status"),
                            _ => {}
                        }
                        let p = lk_linkpoint(&data, d, g, &s, &l, None)?;
                        c2.borrow_mut().push(Call { space: space.space_bytes().to_vec(), domain: domain.0, tag: link.tag.0, ptr: link.ptr.0, reply: p.hash().0 });
                        Ok(p)
                    })
                })?;
                k.i = k.i.or(Some(b"default"));
                lk_process(lk);
                let after = log(lk).map_err(|x| e(&x))?;
                if bad > 0 {
                    o.count("set refused");
                    ensure!(res.is_err(), "bad reply accepted", "{hist}");
                    ensure!(after.len() == before.len(), "bad reply saved", "{hist}");
                } else {
                    if let Err(x) = res {
                        return viol("set refused", format!("{hist}: {x}"));
                    }
                    o.count("set");
                    let c = calls.borrow().clone();
                    ensure!(c.len() == 1, "not called at once", "{hist}: {} calls", c.len());
                    ensure!(c[0].tag == tag(b"init") && c[0].ptr == [0; 32], "first link", "{hist}: {}:{}", show(&c[0].tag), show(&c[0].ptr));
                    ensure!(c[0].space == refpkt::sp(&k.comps()) && c[0].domain == dom(k.d).0, "place of the reply", "{hist}: {}", show(&c[0].space));
                    ensure!(after.len() == before.len() + 1 && after.last().unwrap().hash == c[0].reply, "first reply not saved", "{hist}");
                    let prev = c[0].reply;
                    if things[by].contains_key(&qid) {
                        o.count("set replaced")
                    }
                    let old = things[by].insert(qid.clone(), Thing::Setter(Setter { key: k, calls, seen: 1, prev }));
                    replaced(old, &hist)?;
                }
            }
            2..=4 => {
                // ask, or nearly
                for _ in 0..r.range(1, 3) {
                    now += 1;
                    clock::set(now);
                    let k = if r.chance(1, 3) { keys[r.usize(keys.len())].clone() } else { k.clone() };
                    let kind = r.below(12);
                    let by = r.usize(2);
                    let lk = &lks[by];
                    hist += &format!("{by}:ask({k:?},{kind}) ");
                    let res = if kind < 6 {
                        let q = lk_status_request(k.status(b"")).map_err(|x| e(&x))?;
                        let b = refpkt::parse(q.as_netpkt_bytes()).map_err(|x| e(&x))?;
                        ensure!(b.comps == k.comps() && b.data.is_empty() && b.links.is_empty() && b.lp == Some((now, PRIVATE.0, dom(k.d).0)), "request", "{hist}: {b:?}");
                        lk_save(lk, &q)
                    } else {
                        let (mut d, mut g, mut c, mut l, mut data) = (dom(k.d), PRIVATE, k.comps(), vec![], vec![]);
                        let lnk = Link { tag: AB(tag(b"init")), ptr: B64([9; 32]) };
                        match kind {
                            6 => d = dom(2),
                            7 => g = PUBLIC,
                            8 => c[0] = b"status".to_vec(),
                            9 => l.push(lnk),
                            10 => data.push(b'x'),
                            _ => {
                                // a reply of someone else
                                c.truncate(3);
                                c.push(k.i.unwrap_or(b"default").to_vec());
                                l.push(lnk);
                                data.extend(b"ERR\n");
                                o.count("reply of another");
                            }
                        }
                        let s = SpaceBuf::try_from_iter(c.iter()).expect("space").try_into_rooted().expect("space");
                        let p = lk_linkpoint(&data, d, g, &s, &l, None).map_err(|x| e(&x))?;
                        lk_save(lk, &p)
                    };
                    if let Err(x) = res {
                        return viol("save", format!("{hist}: {x}"));
                    }
                }
            }
            5 | 6 => {
                // watch
                let timeout = *r.pick(&[0, 1, 3, 8, 20, 40]);
                let brk = if r.chance(1, 4) { r.range(1, 4) as usize } else { usize::MAX };
                let (got, stopped): (Rc<RefCell<Vec<[u8; 32]>>>, Rc<RefCell<Option<String>>>) = Default::default();
                hist += &format!("{by}:watch({k:?},{},{timeout},{brk}) ", show(&qid));
                let h = H { got: got.clone(), stopped: stopped.clone(), brk };
                let res = no_panic("lk_status_watch", &|| hist.clone(), || lk_status_watch(lk, k.status(&qid), Stamp::new(timeout), h))?;
                let res = match res {
                    Ok(r) => r,
                    Err(x) => return viol("watch fails", format!("{hist}: {x}")),
                };
                o.count("watch");
                let recent: Vec<&Pkt> = before.iter().filter(|p| p.below(&k) && p.create > now.saturating_sub(timeout)).collect();
                let mut want: Vec<[u8; 32]> = recent.iter().filter(|p| p.reply()).map(|p| p.hash).collect();
                let mut seen_now = got.borrow().clone();
                let early = want.len() >= brk;
                if !early {
                    want.sort();
                    seen_now.sort();
                    ensure!(seen_now == want, "old replies", "{hist}: got {:?} of {:?}", seen_now.iter().map(|h| B64(*h).to_string()).collect::<Vec<_>>(), want.iter().map(|h| B64(*h).to_string()).collect::<Vec<_>>());
                    ensure!(res == !want.is_empty(), "result of the watch", "{hist}: {res} with {} replies", want.len());
                    for _ in &want {
                        o.count("old reply")
                    }
                }
                if early {
                    // it is over before it began
                    o.count("stopped by an old reply");
                    ensure!(seen_now.len() == brk, "called after it stopped", "{hist}: {} calls", seen_now.len());
                    ensure!(seen_now.iter().all(|h| want.contains(h)), "old replies", "{hist}");
                    ensure!(res, "result of the watch", "{hist}: {res} with {} replies", want.len());
                    ensure!(stopped.borrow().as_deref() == Some("break"), "not told it stopped", "{hist}: {:?}", stopped.borrow());
                    lk_process(lk);
                    let after = log(lk).map_err(|x| e(&x))?;
                    ensure!(after[before.len()..].iter().all(|p| p.create != now || !p.request()), "asked again", "{hist}: at {now}");
                    // the one before with that name is gone, too
                    things[by].remove(&qid);
                    continue;
                }
                let reqs: Vec<&&Pkt> = recent.iter().filter(|p| p.request()).collect();
                let exact = reqs.iter().filter(|p| p.comps == k.comps()).map(|p| p.create).max();
                let narrow = reqs.iter().any(|p| p.comps != k.comps());
                lk_process(lk);
                let after = log(lk).map_err(|x| e(&x))?;
                let req: Vec<&Pkt> = after[before.len()..].iter().filter(|p| p.create == now && p.request()).collect();
                let mut free = false;
                let mut last = exact.unwrap_or(now);
                if narrow {
                    free = true
                } else if exact.is_some() {
                    o.count("not asked again");
                    ensure!(req.is_empty(), "asked again", "{hist}: at {now}");
                } else {
                    o.count("asked");
                    ensure!(req.len() == 1, "not asked", "{hist}: at {now}, {} requests", req.len());
                    ensure!(req[0].comps == k.comps() && req[0].domain == dom(k.d).0 && req[0].group == PRIVATE.0, "request of the watch", "{hist}");
                    last = now;
                }
                let until = last + timeout;
                let n = seen_now.len();
                let old = things[by].insert(qid.clone(), Thing::Watcher(Watcher { key: k, got, stopped, seen: n, until, from: now, brk, free }));
                replaced(old, &hist)?;
            }
            7 => {
                let age = *r.pick(&[0, 1, 5, 20, 10_000_000]);
                let q = no_panic("lk_status_overwatch", &|| hist.clone(), || lk_status_overwatch(k.status(&qid), Stamp::new(age)))?.map_err(|x| e(&x))?;
                let mut got: Vec<[u8; 32]> = vec![];
                lk_get_all(lk, &q, &mut |p| {
                    got.push(p.hash().0);
                    false
                })
                .map_err(|x| e(&x))?;
                got.sort();
                let mut want: Vec<[u8; 32]> = before.iter().filter(|p| p.below(&k) && p.create > now.saturating_sub(age)).map(|p| p.hash).collect();
                want.sort();
                o.count("overwatch");
                ensure!(got == want, "overwatch", "{hist}: {k:?} of the last {age} at {now}: {} instead of {}", got.len(), want.len());
            }
            _ => {}
        }
        // until nothing happens any more
        for n in 0..6 {
            if r.chance(1, 3) {
                now += 1;
                clock::set(now);
            }
            let a = log(&lks[0]).map_err(|x| e(&x))?.len() + log(&lks[1]).map_err(|x| e(&x))?.len();
            lk_process(&lks[0]);
            lk_process(&lks[1]);
            let b = log(&lks[0]).map_err(|x| e(&x))?.len() + log(&lks[1]).map_err(|x| e(&x))?.len();
            ensure!(n < 5 || a == b, "never at rest", "{hist}");
        }
        let all = log(&lks[0]).map_err(|x| e(&x))?;
        ensure!(all.len() == log(&lks[1]).map_err(|x| e(&x))?.len(), "runtimes differ", "{hist}");
        let new = &all[seen..];
        // stamps may run ahead of the clock
        let at = now.max(all.last().map(|p| p.recv).unwrap_or(0));
        seen = all.len();
        let mut by_one: HashMap<[u8; 32], usize> = HashMap::new();
        for m in things.iter_mut() {
            let mut drop = vec![];
            for (qid, t) in m.iter_mut() {
                match t {
                    Thing::Setter(s) => {
                        let first = s.calls.borrow()[0].reply;
                        // those after it was set
                        let from = all.iter().position(|p| p.hash == first).map(|x| x + 1).unwrap_or(0).max(seen - new.len());
                        let ask: Vec<&Pkt> = all[from..].iter().filter(|p| p.request() && p.group == PRIVATE.0 && p.domain == dom(s.key.d).0 && (p.comps == s.key.prefix() || p.comps == s.key.comps())).collect();
                        let calls = s.calls.borrow();
                        let w = || format!("{hist}; {} for {:?}", show(qid), s.key);
                        ensure!(calls.len() - s.seen == ask.len(), if calls.len() - s.seen > ask.len() { "answered what it was not asked" } else { "not answered" }, "{}: {} answers to {} requests", w(), calls.len() - s.seen, ask.len());
                        for a in &ask {
                            *by_one.entry(a.hash).or_default() += 1;
                        }
                        for c in &calls[s.seen..] {
                            o.count("answered");
                            ensure!(c.tag == tag(b"prev") && c.ptr == s.prev, "link of the reply", "{}: {} {}", w(), show(&c.tag), B64(c.ptr));
                            ensure!(c.space == refpkt::sp(&s.key.comps()) && c.domain == dom(s.key.d).0, "place of the reply", "{}: {}", w(), show(&c.space));
                            ensure!(new.iter().any(|p| p.hash == c.reply && p.links == [(c.tag, c.ptr)]), "reply not saved", "{}", w());
                            s.prev = c.reply;
                        }
                        s.seen = calls.len();
                    }
                    Thing::Watcher(x) => {
                        let got = x.got.borrow();
                        let w = || format!("{hist}; {} for {:?} from {} to {}", show(qid), x.key, x.from, x.until);
                        let mine: Vec<&Pkt> = new.iter().filter(|p| p.below(&x.key) && p.reply()).collect();
                        let fresh = &got[x.seen..];
                        if !x.free {
                            for h in fresh {
                                match mine.iter().find(|p| p.hash == *h) {
                                    None => return viol("not a reply", format!("{}: {}", w(), B64(*h))),
                                    Some(p) => {
                                        ensure!(p.recv < x.until, "reply after the end", "{}: received at {}", w(), p.recv);
                                        ensure!(fresh.iter().filter(|g| *g == h).count() == 1, "reply seen twice", "{}", w());
                                        o.count("new reply");
                                    }
                                }
                            }
                            // what is surely in time
                            let due: Vec<&&Pkt> = mine.iter().filter(|p| p.recv + 1 < x.until && at + 1 < x.until).collect();
                            if got.len() < x.brk {
                                for p in &due {
                                    ensure!(fresh.contains(&p.hash), "reply not seen", "{}: received at {}, it is {now}", w(), p.recv);
                                }
                            } else {
                                o.count("stopped by handler");
                                ensure!(got.len() == x.brk, "called after it stopped", "{}", w());
                                drop.push(qid.clone());
                            }
                            if mine.iter().any(|p| p.recv >= x.until) {
                                o.count("too late")
                            }
                        }
                        x.seen = got.len();
                        if now > x.until + 1 {
                            o.count("watch ended");
                            drop.push(qid.clone());
                        } else if !x.free && got.len() < x.brk && at + 1 < x.until {
                            ensure!(x.stopped.borrow().is_none(), "watch ended early", "{}: {:?}", w(), x.stopped.borrow());
                        }
                    }
                }
            }
            for d in drop {
                m.remove(&d);
            }
        }
        for p in new {
            if p.comps.first().map(|c| &c[..]) == Some(b"\xffstatus") {
                if p.request() && p.group == PRIVATE.0 && p.domain != dom(2).0 {
                    o.count("request");
                    match by_one.get(&p.hash) {
                        None => o.count("other instance"),
                        Some(n) if *n > 1 => o.count("answered by two"),
                        _ => {}
                    }
                } else {
                    o.count("not a request")
                }
            }
        }
        o.distinct(&hist);
    }
    o.sample(|| hist);
    Ok(())
}
fn replaced(t: Option<Thing>, hist: &str) -> Res {
    if let Some(Thing::Watcher(w)) = t.filter(|t| matches!(t, Thing::Watcher(w) if !w.free && w.until > w.from + 2)) {
        ensure!(w.stopped.borrow().is_some(), "replaced watch not stopped", "{hist}");
    }
    Ok(())
}
