//! The wall clock as this process sees it. linkspace_pkt::now() ends in clock_gettime, which this
//! binary defines, so that a monitor can stop, step and rewind the clock.
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
/// -1: the real clock, otherwise microseconds since the epoch
static FIXED: AtomicI64 = AtomicI64::new(-1);
thread_local! {
    static JITTER: std::cell::Cell<(u64, u64)> = const { std::cell::Cell::new((0, 1)) };
}
/// from now on, looking at the clock takes this thread up to `ns` longer
pub fn jitter(ns: u64, seed: u64) {
    JITTER.with(|j| j.set((ns, seed | 1)))
}
unsafe fn raw() -> u64 {
    let mut ts: libc::timespec = std::mem::zeroed();
    libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts);
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
unsafe fn pause() {
    let (ns, mut s) = JITTER.with(|j| j.get());
    if ns > 0 {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        JITTER.with(|j| j.set((ns, s)));
        if s % 3 == 0 {
            let end = raw() + (s >> 8) % ns;
            while raw() < end {}
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    pause();
    let f = FIXED.load(SeqCst);
    if id == libc::CLOCK_REALTIME && f >= 0 {
        (*ts).tv_sec = f / 1_000_000;
        (*ts).tv_nsec = f % 1_000_000 * 1000;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}
pub fn set(us: u64) {
    FIXED.store(us as i64, SeqCst)
}
pub fn real() {
    FIXED.store(-1, SeqCst)
}
