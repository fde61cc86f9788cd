//! I02 value, I03 wake-ups, I04 delivery between processes, I05 hostile datagrams
use crate::peer::*;
use ipcbus::ProcBus;
use std::future::Future;
use std::path::PathBuf;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};
use vmlib::*;

/// a port no ephemeral socket uses, different for every worker and most cases
fn port(r: &mut Rng) -> u16 {
    11000 + r.below(21000) as u16
}
struct Setup {
    tmp: PathBuf,
    dir: PathBuf,
    id: u64,
    port: u16,
}
fn setup(r: &mut Rng, i: u64, o: &Obs) -> Setup {
    let (id, port) = (r.next() ^ (std::process::id() as u64) << 20, port(r));
    let tmp = tmp_with_map(o, &format!("t{i}"), &record(id, port));
    let dir = id_dir(o, &format!("d{i}"), id);
    std::env::set_var("TMPDIR", &tmp);
    Setup { tmp, dir, id, port }
}
impl Drop for Setup {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.tmp);
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
/// the environment has loopback multicast at all (checked without the code under test)
fn multicast_works() -> bool {
    static OK: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *OK.get_or_init(|| {
        let f = || -> std::io::Result<bool> {
            let rx = raw(0)?;
            let port = rx.local_addr()?.as_socket_ipv4().map(|a| a.port()).unwrap_or(0);
            let tx = raw_tx()?;
            tx.send_to(b"probe", &std::net::SocketAddr::from(([239, 255, 50, 10], port)).into())?;
            rx.set_read_timeout(Some(Duration::from_secs(2)))?;
            let mut b = [std::mem::MaybeUninit::uninit(); 16];
            Ok(rx.recv_from(&mut b).map(|x| x.0 == 5).unwrap_or(false))
        };
        f().unwrap_or(false)
    })
}
fn raw(port: u16) -> std::io::Result<socket2::Socket> {
    use socket2::*;
    let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP))?;
    s.set_reuse_address(true)?;
    s.bind(&std::net::SocketAddr::from(([239, 255, 50, 10], port)).into())?;
    s.join_multicast_v4(&[239, 255, 50, 10].into(), &std::net::Ipv4Addr::LOCALHOST)?;
    Ok(s)
}
fn raw_tx() -> std::io::Result<socket2::Socket> {
    use socket2::*;
    let s = Socket::new(Domain::IPV4, Type::DGRAM, Some(Protocol::UDP))?;
    s.set_multicast_if_v4(&std::net::Ipv4Addr::LOCALHOST)?;
    s.set_multicast_ttl_v4(0)?;
    Ok(s)
}
fn new_bus(s: &Setup) -> Result<ProcBus, Viol> {
    let b = no_panic("ProcBus::new", &|| format!("{:?}", s.dir), || ProcBus::new(&s.dir))?;
    b.map_err(|e| Viol { sig: "bus-new".into(), msg: format!("{e:?}") })
}
fn value(r: &mut Rng) -> u64 {
    match r.below(5) {
        0 => r.below(4),
        1 => u64::MAX - r.below(4),
        2 => 1 << r.below(64),
        _ => r.next() >> r.below(64),
    }
}
fn i02_seq(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = new_bus(&s)?;
    let mut max = 0u64;
    let mut hist = vec![];
    for _ in 0..1 + r.usize(12) {
        let v = match r.below(4) {
            0 => max,
            1 => max.saturating_sub(1),
            2 => max.saturating_add(1),
            _ => value(r),
        };
        let got = no_panic("emit", &|| format!("{hist:?} {v}"), || bus.emit(v))?;
        hist.push(v);
        max = max.max(v);
        o.eval();
        ensure!(got == max, "emit-return", "emitted {hist:?}: the last returned {got}, the maximum is {max}");
        ensure!(bus.val() == max, "value", "emitted {hist:?}: value {} instead of {max}", bus.val());
    }
    o.distinct(&hist);
    Ok(())
}
/// many emitters and observers in one process
fn i02_conc(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = Arc::new(new_bus(&s)?);
    let n = 2 + r.usize(5);
    let per = 40 + r.usize(60);
    let base = value(r).min(u64::MAX - 100000);
    let plans: Vec<Vec<u64>> = (0..n)
        .map(|_| {
            let mut v: Vec<u64> = (0..per).map(|_| base + r.below(4 * per as u64)).collect();
            match r.below(3) {
                0 => v.sort(),
                1 => v.sort_by(|a, b| b.cmp(a)),
                _ => {}
            }
            v
        })
        .collect();
    let all: std::collections::HashSet<u64> = plans.iter().flatten().cloned().chain([0]).collect();
    let max = *all.iter().max().unwrap();
    let gate = Arc::new(Barrier::new(n + 2));
    let stop = Arc::new(AtomicBool::new(false));
    let emitters: Vec<_> = plans
        .iter()
        .cloned()
        .map(|plan| {
            let (bus, gate) = (bus.clone(), gate.clone());
            std::thread::spawn(move || {
                gate.wait();
                // (emitted, returned, value right after)
                plan.into_iter().map(|v| { let got = bus._emit::<true>(v); (v, got, bus.val()) }).collect::<Vec<_>>()
            })
        })
        .collect();
    let watchers: Vec<_> = (0..2)
        .map(|_| {
            let (bus, gate, stop) = (bus.clone(), gate.clone(), stop.clone());
            std::thread::spawn(move || {
                gate.wait();
                let mut seen = vec![bus.val()];
                while !stop.load(SeqCst) {
                    let v = bus.val();
                    if v != *seen.last().unwrap() {
                        seen.push(v)
                    }
                }
                seen.push(bus.val());
                seen
            })
        })
        .collect();
    let logs: Vec<_> = emitters.into_iter().map(|t| t.join()).collect();
    stop.store(true, SeqCst);
    let seen: Vec<_> = watchers.into_iter().map(|t| t.join().expect("watcher")).collect();
    let mut order = 0u64;
    for l in logs {
        let Ok(l) = l else { return viol("panic:emit", format!("an emitting thread panicked: {:?}", other_panics())) };
        let mut last = 0;
        for (v, got, after) in l {
            o.eval();
            ensure!(got >= v && all.contains(&got), "emit-return", "{n} threads: emit({v}) returned {got}");
            ensure!(after >= v && after >= got && all.contains(&after), "emit-lost", "{n} threads: after emit({v})={got} the value is {after}");
            ensure!(after >= last, "value-decreased", "{n} threads: a thread saw {last} and then {after}");
            last = after;
            order = order.wrapping_mul(31).wrapping_add(got ^ after);
            if got > v {
                o.count("superseded_emits")
            } else {
                o.count("raising_emits")
            }
        }
    }
    for sv in &seen {
        ensure!(sv.windows(2).all(|w| w[0] <= w[1]), "value-decreased", "an observer saw {sv:?}");
        ensure!(sv.iter().all(|x| all.contains(x)), "value-invented", "an observer saw {sv:?}");
        o.add("observed_changes", sv.len() as u64);
        o.distinct(sv);
    }
    o.distinct(order);
    ensure!(bus.val() == max, "value", "{n} threads: final value {} instead of {max}", bus.val());
    Ok(())
}
pub static I02: Prop = Prop {
    id: "I02",
    stages: &[
        Stage { name: "sequence", quick: 4000, thorough: 100000, run: i02_seq },
        Stage { name: "concurrent", quick: 4000, thorough: 60000, run: i02_conc },
    ],
    rule: "sequences of emits (boundary, equal, lower and higher values) on one bus, and 2-6 threads emitting 40-100 values each with two observers: every return value, every value read after an emit and every observed change checked against 'the maximum so far'. Non-trivial: distinct history, or distinct interleaving as seen in the logs.",
    assumptions: &[],
    floors: &["superseded_emits", "raising_emits", "observed_changes"],
    opts: OPTS,
};

struct CountWaker(AtomicUsize);
impl Wake for CountWaker {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, SeqCst);
    }
}
/// waiters registered before an emit wake with its value; exactly one emit, no retries
fn i03(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = Arc::new(new_bus(&s)?);
    let mut cur = 0u64;
    for round in 0..2 {
        let nt = r.usize(4);
        let na = if nt == 0 { 1 + r.usize(4) } else { r.usize(4) };
        // async waiters: polled once, so registered
        let mut futs: Vec<_> = (0..na)
            .map(|_| {
                let w = Arc::new(CountWaker(AtomicUsize::new(0)));
                (Box::pin(bus.next_async()) as Pin<Box<dyn Future<Output = u64> + '_>>, w)
            })
            .collect();
        for (f, w) in futs.iter_mut() {
            let wk: Waker = w.clone().into();
            let p = f.as_mut().poll(&mut Context::from_waker(&wk));
            ensure!(p.is_pending(), "woke-early", "round {round}: a waiter is ready before anything is emitted: {p:?}");
        }
        // blocking waiters: their thread is asleep, so registered
        let tids: Vec<_> = (0..nt).map(|_| Arc::new(AtomicU64::new(0))).collect();
        let threads: Vec<_> = tids
            .iter()
            .cloned()
            .map(|t| {
                let bus = bus.clone();
                std::thread::spawn(move || {
                    t.store(unsafe { libc::syscall(libc::SYS_gettid) } as u64, SeqCst);
                    let r = bus.next_deadline(None);
                    t.store(0, SeqCst);
                    r
                })
            })
            .collect();
        let pid = std::process::id() as i32;
        for t in &tids {
            let ok = until(20000, || {
                let t = t.load(SeqCst);
                t != 0 && blocked(pid, t as i32)
            });
            if !ok {
                inconclusive!(o, "a waiter did not get to sleep in 20 s")
            }
        }
        let v = match r.below(4) {
            0 => cur,
            1 => cur.saturating_add(1),
            _ => cur.saturating_add(value(r) >> 8),
        };
        let b2 = bus.clone();
        let got = if r.bool() { bus.emit(v) } else { std::thread::spawn(move || b2.emit(v)).join().unwrap_or(0) };
        ensure!(got == v, "emit-return", "emit({v}) over {cur} returned {got}");
        cur = v;
        for (k, (f, w)) in futs.iter_mut().enumerate() {
            o.eval();
            ensure!(until(10000, || w.0.load(SeqCst) > 0), "lost-wakeup", "async waiter {k} of {na} (and {nt} threads) was not woken by emit({v}) in 10 s");
            let wk: Waker = w.clone().into();
            match f.as_mut().poll(&mut Context::from_waker(&wk)) {
                Poll::Ready(x) => ensure!(x == v, "woke-value", "woken with {x} after emit({v})"),
                Poll::Pending => return viol("lost-wakeup", format!("async waiter {k} was woken by emit({v}) but is still pending")),
            }
            o.count("async_woken");
        }
        for (k, t) in tids.iter().enumerate() {
            o.eval();
            ensure!(until(20000, || t.load(SeqCst) == 0), "lost-wakeup", "blocked thread {k} of {nt} (and {na} futures) was not woken by emit({v}) in 20 s");
            o.count("threads_woken");
        }
        for t in threads {
            match t.join() {
                Ok(Some(x)) => ensure!(x == v, "woke-value", "a thread woke with {x} after emit({v})"),
                Ok(None) => return viol("lost-wakeup", format!("a thread timed out although {v} was emitted while it waited")),
                Err(_) => return viol("panic:next_deadline", "a waiting thread panicked"),
            }
        }
        o.distinct((na, nt, v, round));
    }
    Ok(())
}
/// racing waiters and emitters: every waiter that starts before the last emit gets out
fn i03_race(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = Arc::new(new_bus(&s)?);
    let n = 1 + r.usize(4) as u64;
    let target = 200 + r.below(400);
    let delay = r.below(3);
    let since = r.bool();
    let done = Arc::new(AtomicU64::new(0));
    let waiters: Vec<_> = (0..n)
        .map(|_| {
            let (bus, done) = (bus.clone(), done.clone());
            std::thread::spawn(move || {
                let mut seen = 0u64;
                let mut wakes = 0u64;
                let mut bad = None;
                while seen < target {
                    // a value already there needs no waiting: the usual check-then-wait loop
                    let v = bus.val();
                    if v > seen {
                        seen = v;
                        continue;
                    }
                    // an emit between the look and the wait is only noticed by the one that is told what was seen
                    let got = if since { bus.next_deadline_since(seen, Some(Instant::now() + Duration::from_secs(60))) } else { bus.next_deadline(Some(Instant::now() + Duration::from_millis(50))) };
                    match got {
                        Some(v) => {
                            if v < seen {
                                bad = Some((seen, v));
                            }
                            seen = seen.max(v);
                            wakes += 1
                        }
                        None => {}
                    }
                }
                done.fetch_add(1, SeqCst);
                (wakes, bad)
            })
        })
        .collect();
    for v in 1..=target {
        bus._emit::<true>(v);
        match delay {
            0 => {}
            1 => std::thread::yield_now(),
            _ => std::thread::sleep(Duration::from_micros(r.below(60))),
        }
    }
    o.eval();
    ensure!(until(20000, || done.load(SeqCst) == n), "lost-wakeup", "{} of {n} waiters never reached {target}", n - done.load(SeqCst));
    let mut log = vec![];
    for w in waiters {
        match w.join() {
            Ok((wakes, bad)) => {
                ensure!(bad.is_none(), "woke-value", "value went from {:?}", bad);
                o.add("race_wakes", wakes);
                log.push(wakes)
            }
            Err(_) => return viol("panic:next_deadline", "a waiting thread panicked"),
        }
    }
    o.count(if since { "races told what was seen" } else { "races with a deadline" });
    o.distinct((n, target, log));
    Ok(())
}
/// deadlines: never early, never long after
fn i03_deadline(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = new_bus(&s)?;
    let had = value(r);
    bus.emit(had);
    if r.bool() {
        // (the waiter spins in event-listener 3.1, so it can not be seen asleep: emit until it is out)
        let v = had.saturating_add(r.below(3));
        let bus = Arc::new(bus);
        let out = Arc::new(AtomicBool::new(false));
        let t = {
            let (bus, out) = (bus.clone(), out.clone());
            std::thread::spawn(move || {
                let x = bus.next_deadline(Some(Instant::now() + Duration::from_secs(60)));
                out.store(true, SeqCst);
                x
            })
        };
        let mut n = 0u64;
        let ok = until(20000, || {
            n += 1;
            bus._emit::<true>(v);
            out.load(SeqCst)
        });
        o.eval();
        ensure!(ok, "lost-wakeup", "a thread waiting with a deadline did not return after {n} emits of {v} in 20 s");
        match t.join() {
            Ok(Some(x)) => ensure!(x == v || x == had, "woke-value", "woke with {x} after emit({v}) over {had}"),
            Ok(None) => return viol("deadline-early", "a wait of 60 s timed out within 20 s"),
            Err(_) => return viol("panic:next_deadline", "a waiting thread panicked"),
        }
        o.count("deadline_waits_woken");
        o.distinct((had, v, n));
        return Ok(());
    }
    let ms = *r.pick(&[0, 0, 1, 5, 20, 60]);
    let start = Instant::now();
    let deadline = if r.chance(1, 5) { start.checked_sub(Duration::from_millis(ms)).unwrap_or(start) } else { start + Duration::from_millis(ms) };
    let got = no_panic("next_deadline", &|| format!("{ms}"), || bus.next_deadline(Some(deadline)))?;
    let end = Instant::now();
    o.eval();
    ensure!(got.is_none(), "woke-early", "nothing was emitted after the wait started, yet it returned {got:?}");
    ensure!(end >= deadline, "deadline-early", "returned {:?} before the deadline", deadline - end);
    ensure!(end < deadline + Duration::from_secs(10), "deadline-late", "returned {:?} after the deadline", end - deadline);
    o.count("deadlines");
    o.distinct((had, ms));
    Ok(())
}
pub static I03: Prop = Prop {
    id: "I03",
    stages: &[
        Stage { name: "registered", quick: 2000, thorough: 40000, run: i03 },
        Stage { name: "race", quick: 800, thorough: 20000, run: i03_race },
        Stage { name: "deadline", quick: 480, thorough: 8000, run: i03_deadline },
    ],
    rule: "0-3 futures (polled once) and 0-3 threads (seen asleep in the kernel) wait, then exactly one emit of an equal or higher value happens in the same or another thread: all wake with that value; check-then-wait loops racing 200-600 emits reach the last value, with a deadline of 50 ms, or in a single wait that is told what was seen; waits without an emit end at their deadline, not before. Non-trivial: distinct (waiters, value) or wake counts.",
    assumptions: &["10 to 20 s is enough for a runnable thread to be scheduled"],
    floors: &["async_woken", "threads_woken", "race_wakes", "races told what was seen", "races with a deadline", "deadlines", "deadline_waits_woken"],
    opts: Opts { stall_s: 90, ..OPTS },
};

fn gone<T>(g: Result<T, Gone>, o: &mut Obs, what: &str) -> Result<Option<T>, Viol> {
    match g {
        Ok(t) => Ok(Some(t)),
        Err(Gone::Slow) => {
            o.inconclusive(format!("{what}: a process did not answer in 20 s"));
            Ok(None)
        }
        Err(Gone::Died(s)) => viol("peer-died", format!("{what}: a process on the bus died: {s}")),
    }
}
macro_rules! got {
    ($e:expr, $o:expr, $w:expr) => {
        match gone($e, $o, $w)? {
            Some(x) => x,
            None => return Ok(()),
        }
    };
}
fn i04(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let np = 2 + r.usize(2);
    let mut ps = vec![];
    for _ in 0..np {
        ps.push(got!(Peer::start(&s.tmp, &s.dir), o, "start"));
    }
    // a stranger on the same port
    let other_id = s.id ^ 1 << r.below(64);
    let tmp2 = tmp_with_map(o, &format!("u{i}"), &record(other_id, s.port));
    let dir2 = id_dir(o, &format!("e{i}"), other_id);
    let mut stranger = if r.bool() { Some(got!(Peer::start(&tmp2, &dir2), o, "start")) } else { None };
    let mut max = 0u64;
    let mut hist = vec![];
    for _ in 0..3 + r.usize(6) {
        let k = r.usize(np);
        let v = match r.below(5) {
            0 => max.saturating_add(1),
            1 => max.saturating_sub(1 + r.below(5)),
            _ => max.saturating_add(value(r) >> r.below(40)),
        };
        // someone else may be waiting for it
        let waiter = if r.bool() && v > max { Some((k + 1 + r.usize(np - 1)) % np) } else { None };
        if let Some(w) = waiter {
            let l = got!(ps[w].ask("wait"), o, "wait");
            if l != "waiting" || !until(20000, || ps[w].sleeping()) {
                inconclusive!(o, "waiter did not get to sleep: {l}")
            }
        }
        let e = got!(ps[k].num(&format!("emit {v}")), o, "emit");
        hist.push((k, v, waiter));
        let w = format!("{np} processes, history (emitter, value, waiter) {hist:?}");
        o.eval();
        max = max.max(v);
        ensure!(e == max, "emit-return", "{w}: emit returned {e}, the maximum is {max}");
        if let Some(x) = waiter {
            let mut l = ps[x].try_line(Duration::from_secs(2));
            let mut again = 0;
            // (a datagram of an earlier emit may still have been on its way)
            let early = |l: &Option<String>| hist.iter().any(|h| h.1 < v && l.as_deref() == Some(&format!("woke {}", h.1)[..]));
            while (l.is_none() || early(&l)) && again < 8 {
                if early(&l) {
                    o.count("woken_by_an_earlier_emit");
                    let l = got!(ps[x].ask("wait"), o, "wait");
                    if l != "waiting" || !until(20000, || ps[x].sleeping()) {
                        inconclusive!(o, "waiter did not get to sleep: {l}")
                    }
                }
                again += 1;
                got!(ps[k].num(&format!("emit {v}")), o, "emit");
                l = ps[x].try_line(Duration::from_secs(2));
            }
            if again > 0 {
                o.count("resent")
            }
            ensure!(l.as_deref() == Some(&format!("woke {v}")[..]), "not-woken", "{w}: process {x} waited and reported {l:?} after {} emits", again + 1);
            o.count("woken_across_processes");
        }
        // everyone gets there
        for x in 0..np {
            let mut val = 0;
            let mut tries = 0;
            let end = Instant::now() + Duration::from_secs(16);
            loop {
                val = got!(ps[x].num("val"), o, "val").max(val);
                tries += 1;
                if val >= max || Instant::now() > end {
                    break;
                }
                std::thread::sleep(Duration::from_millis(if tries < 50 { 1 } else { 20 }));
                if tries % 100 == 0 {
                    o.count("resent");
                    let m = hist.iter().find(|h| h.1 == max).map(|h| h.0).unwrap_or(k);
                    got!(ps[m].num(&format!("emit {max}")), o, "emit");
                }
            }
            o.eval();
            ensure!(val == max, "not-delivered", "{w}: process {x} has {val}, the maximum is {max}");
            o.count("delivered");
        }
    }
    if let Some(st) = stranger.as_mut() {
        let v = got!(st.num("val"), o, "val");
        ensure!(v == 0, "leak", "history {hist:?}: a bus with another id on the same port has value {v}");
        o.count("strangers_unaffected");
        // and it does not reach back
        let big = max.saturating_add(1000);
        got!(st.num(&format!("emit {big}")), o, "emit");
        std::thread::sleep(Duration::from_millis(5));
        for p in ps.iter_mut() {
            let v = got!(p.num("val"), o, "val");
            ensure!(v == max, "leak", "history {hist:?}: another bus emitted {big} on the same port, and the value is {v}");
        }
    }
    o.distinct(&hist);
    let _ = std::fs::remove_dir_all(&tmp2);
    let _ = std::fs::remove_dir_all(&dir2);
    Ok(())
}
pub static I04: Prop = Prop {
    id: "I04",
    stages: &[Stage { name: "processes", quick: 2400, thorough: 60000, run: i04 }],
    rule: "2-3 processes on one bus plus, in half of the cases, one with another bus id on the same port: histories of 3-8 emits by random processes; every process reaches the maximum, a process waiting (seen asleep) is woken with the value, and nothing crosses between bus ids. Non-trivial: distinct history.",
    assumptions: &["a datagram the kernel drops is re-sent by the check; only values that never arrive in 16 s count", "10 to 20 s is enough for a runnable process to be scheduled"],
    floors: &["delivered", "woken_across_processes", "strangers_unaffected"],
    opts: Opts { stall_s: 120, ..OPTS },
};

fn i05(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = new_bus(&s)?;
    bus.init();
    if r.bool() {
        bus.init();
    }
    let start = value(r) >> 20;
    bus.emit(start);
    let tx = raw_tx().expect("socket");
    let to = std::net::SocketAddr::from(([239, 255, 50, 10], s.port)).into();
    let msg = |id: u64, pid: u32, v: u64| [&id.to_ne_bytes()[..], &pid.to_ne_bytes(), &v.to_ne_bytes()].concat();
    let me = std::process::id();
    let mut sent = vec![];
    let mut max = start;
    let _ = other_panics();
    for _ in 0..1 + r.usize(8) {
        let big = u64::MAX - r.below(1000);
        let (kind, m) = match r.below(8) {
            0 => ("empty", vec![]),
            1 => {
                let n = *r.pick(&[1, 7, 8, 9, 11, 12, 13, 19]);
                ("truncated", msg(s.id, me + 1, big)[..n].to_vec())
            }
            2 => {
                let n = *r.pick(&[1, 4, 1000, 60000]);
                ("extended", [msg(s.id, me + 1, big), vec![255; n]].concat())
            }
            3 => {
                let n = r.len(2000);
                ("random", r.bytes(n))
            }
            4 => ("other bus", msg(s.id ^ 1 << r.below(64), me + 1, big)),
            5 => ("own process", msg(s.id, me, big)),
            6 => ("lower", msg(s.id, me + 1, max.saturating_sub(r.below(10)))),
            _ => {
                max = max.saturating_add(r.below(1 << 20));
                ("valid", msg(s.id, me + 1 + r.below(100) as u32, max))
            }
        };
        if kind == "random" && m.len() == 20 {
            continue;
        }
        if tx.send_to(&m, &to).is_err() {
            continue;
        }
        o.count(&format!("sent_{}", kind.replace(' ', "_")));
        sent.push((kind, m.len()));
    }
    // a valid one still arrives
    let last = max + 1;
    let mut ok = false;
    for _ in 0..8 {
        let _ = tx.send_to(&msg(s.id, me + 7, last), &to);
        if until(2000, || bus.val() >= last) {
            ok = true;
            break;
        }
        o.count("resent");
    }
    o.eval();
    let p = other_panics();
    ensure!(p.is_empty(), format!("panic:rx-thread:{}", p.first().map(|p| p.split(" @ ").next().unwrap_or("").chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(40).collect::<String>()).unwrap_or_default()), "datagrams (kind, length) {sent:?} to a bus: its thread panicked: {p:?}");
    ensure!(ok, "deaf", "after datagrams (kind, length) {sent:?} a valid message is not received any more");
    ensure!(bus.val() == last, "poisoned", "after datagrams (kind, length) {sent:?} the value is {} instead of {last}", bus.val());
    o.distinct((sent, last));
    Ok(())
}
pub static I05: Prop = Prop {
    id: "I05",
    stages: &[Stage { name: "datagrams", quick: 8000, thorough: 200000, run: i05 }],
    rule: "1-8 datagrams per case sent to the group of a listening bus: empty, truncated, extended, random, for another bus id, with the own process id, with lower values, and valid ones; afterwards a valid message still raises the value, and the value is exactly the highest valid one. Non-trivial: distinct datagram sequence.",
    assumptions: &["a datagram the kernel drops is re-sent by the check"],
    floors: &["sent_empty", "sent_truncated", "sent_extended", "sent_random", "sent_other_bus", "sent_own_process", "sent_lower", "sent_valid"],
    opts: Opts { stall_s: 60, ..OPTS },
};

/// receiving thread, emitters, waiters and readers at once
fn i06_mixed(r: &mut Rng, i: u64, o: &mut Obs) -> Res {
    if !multicast_works() {
        inconclusive!(o, "no loopback multicast here")
    }
    let s = setup(r, i, o);
    let bus = Arc::new(new_bus(&s)?);
    let n = 2 + r.usize(3);
    let gate = Arc::new(Barrier::new(n * 2 + 1));
    let top = 60 + r.below(100);
    let stop = Arc::new(AtomicBool::new(false));
    let mut ts = vec![];
    for k in 0..n as u64 {
        let (b, g) = (bus.clone(), gate.clone());
        ts.push(std::thread::spawn(move || {
            g.wait();
            b.init();
            for v in 1..=top {
                b.emit(v * (k + 1));
            }
            0
        }));
        let (b, g, st) = (bus.clone(), gate.clone(), stop.clone());
        ts.push(std::thread::spawn(move || {
            g.wait();
            b.init();
            let mut n = 0;
            while !st.load(SeqCst) {
                let d = Instant::now() + Duration::from_millis(1);
                n += b.next_deadline(Some(d)).is_some() as u64;
                b.val();
            }
            n
        }));
    }
    let tx = raw_tx().expect("socket");
    let to = std::net::SocketAddr::from(([239, 255, 50, 10], s.port)).into();
    gate.wait();
    let me = std::process::id();
    let mut sent = 0;
    for v in 1..=top {
        let m = [&s.id.to_ne_bytes()[..], &(me + 1).to_ne_bytes(), &(v * n as u64).to_ne_bytes()].concat();
        sent += tx.send_to(&m, &to).is_ok() as u64;
    }
    let ok = until(20000, || bus.val() == top * n as u64);
    stop.store(true, SeqCst);
    let mut wakes = 0;
    for t in ts {
        match t.join() {
            Ok(n) => wakes += n,
            Err(_) => return viol("panic:bus", format!("a bus thread panicked: {:?}", other_panics())),
        }
    }
    o.eval();
    o.add("datagrams", sent);
    o.add("wakes_while_racing", wakes);
    ensure!(ok, "value", "{n} emitters up to {}: the value is {}", top * n as u64, bus.val());
    o.distinct((n, top, wakes));
    Ok(())
}
pub static I06: Prop = Prop {
    id: "I06",
    stages: &[
        Stage { name: "emitters", quick: 160, thorough: 4000, run: i02_conc },
        Stage { name: "waiters", quick: 160, thorough: 4000, run: i03 },
        Stage { name: "race", quick: 64, thorough: 2000, run: i03_race },
        Stage { name: "datagrams", quick: 160, thorough: 4000, run: i05 },
        Stage { name: "mixed", quick: 160, thorough: 4000, run: i06_mixed },
    ],
    rule: "the concurrent workloads of I02, I03 and I05, plus 2-4 emitters, as many waiters, racing init calls and the receiving thread at once, in a ThreadSanitizer build whose std is instrumented as well: any reported race is a violation. Non-trivial: distinct logs.",
    assumptions: &["the receiving loop is compiled from a copy in which one renamed std function is bridged"],
    floors: &["superseded_emits", "threads_woken", "async_woken", "sent_valid", "wakes_while_racing"],
    opts: Opts { stall_s: 120, as_mib: 0, ..OPTS },
};
