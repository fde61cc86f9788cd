//! Runtime-monitoring driver shared by every check.
//!
//! A property is a list of stages; a stage is a deterministic function of (VERIF_SEED, property,
//! stage, index) that executes the real code once and lets an oracle judge what it observed.
//! A supervisor process spreads the cases over worker processes.  A worker publishes the case it
//! is about to run in a shared mapping, so that an abort, a stack overflow, a sanitizer report or
//! a runaway case is attributed to one case, which the supervisor then replays on its own before
//! it says anything about it.
pub mod alloc;
pub mod gen;
pub mod json;
pub mod rng;
mod sup;
mod worker;
pub use json::J;
pub use rng::Rng;
use std::collections::{BTreeMap, HashSet};

/// A refutation: `sig` identifies the kind of failure (used by the known-findings file), `msg`
/// carries the witness.
#[derive(Debug, Clone)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
}
pub type Res = Result<(), Viol>;

pub fn viol<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { sig: sig.into(), msg: msg.into() })
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::Viol{ sig: ($sig).into(), msg: format!($($arg)*) }); }
    };
}
/// Inconclusive: the case could not be judged (environment, resource, checker limit).
#[macro_export]
macro_rules! inconclusive {
    ($obs:expr, $($arg:tt)*) => {{ $obs.inconclusive(format!($($arg)*)); return Ok(()); }};
}

/// What the monitors saw.
#[derive(Default)]
pub struct Obs {
    pub evals: u64,
    pub counters: BTreeMap<String, u64>,
    pub distinct: HashSet<u64>,
    pub samples: Vec<(String, String)>,
    pub stage: &'static str,
    pub inconclusive: u64,
    pub inconclusive_notes: Vec<String>,
    pub verbose: bool,
    pub thorough: bool,
    /// scratch directory private to this worker process (created by the supervisor)
    pub scratch: std::path::PathBuf,
    /// violations that do not end the case
    pub soft: Vec<Viol>,
}
impl Obs {
    /// a violation that need not end the case (one a known finding may be about)
    pub fn soft(&mut self, sig: &str, msg: impl FnOnce() -> String) {
        if !self.soft.iter().any(|v| v.sig == sig) {
            self.soft.push(Viol { sig: sig.into(), msg: msg() })
        }
    }
    pub fn count(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) {
            *v += n
        } else {
            self.counters.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max:{k}");
        let e = self.counters.entry(k).or_default();
        *e = (*e).max(n)
    }
    /// one oracle decision
    pub fn eval(&mut self) {
        self.evals += 1
    }
    /// this case was non-trivial; `h` identifies what makes it distinct
    pub fn distinct(&mut self, h: impl std::hash::Hash) {
        let mut s = rng::Fnv::new(self.stage);
        h.hash(&mut s);
        if self.distinct.len() < 4_000_000 {
            self.distinct.insert(s.fin());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        let st = self.stage;
        if self.samples.iter().filter(|(s, _)| s == st).count() < 2 {
            let mut v = f();
            if v.len() > 600 {
                let mut n = 600;
                while !v.is_char_boundary(n) {
                    n -= 1
                }
                v.truncate(n);
                v.push('…');
            }
            self.samples.push((st.to_string(), v));
        }
    }
    pub fn inconclusive(&mut self, note: String) {
        self.inconclusive += 1;
        if self.inconclusive_notes.len() < 5 {
            self.inconclusive_notes.push(note)
        }
    }
}

/// Set by a case whose leftovers (threads the code under test never ends, say) should not pile up:
/// the worker process ends after the case and a new one goes on.
pub static RECYCLE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub type StageFn = fn(&mut Rng, u64, &mut Obs) -> Res;
pub struct Stage {
    pub name: &'static str,
    /// number of cases in the quick / thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub run: StageFn,
}
#[derive(Clone, Copy)]
pub struct Opts {
    /// worker processes
    pub workers: usize,
    /// address-space limit per worker in MiB (0: none)
    pub as_mib: u64,
    /// seconds without progress before a case is taken out and replayed alone
    pub stall_s: u64,
    /// CPU seconds a case may use when it is replayed alone
    pub cpu_s: u64,
    /// overall time cap, seconds (the remaining cases are dropped, and the evidence says so)
    pub quick_cap_s: u64,
    pub thorough_cap_s: u64,
    /// only memory errors count (sanitizer reports and wild accesses), not other ways to die
    pub mem_only: bool,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { workers: 8, as_mib: 6144, stall_s: 20, cpu_s: 60, quick_cap_s: 75, thorough_cap_s: 600, mem_only: false }
    }
}
pub struct Prop {
    pub id: &'static str,
    pub stages: &'static [Stage],
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// counters that must be non-zero for a run to count as having observed anything
    pub floors: &'static [&'static str],
    pub opts: Opts,
}
pub const OPTS: Opts =
    Opts { workers: 8, as_mib: 6144, stall_s: 20, cpu_s: 60, quick_cap_s: 75, thorough_cap_s: 600, mem_only: false };

pub fn main(props: &'static [&'static Prop]) -> ! {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| {
        *props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("no property {id} in this binary");
            std::process::exit(2)
        })
    };
    let rc = match a.get(1).map(|s| s.as_str()) {
        Some("check") => sup::check(find(&a[2]), &a[3..]),
        Some("worker") => worker::worker(find(&a[2]), &a[3..]),
        Some("solo") => worker::solo(find(&a[2]), &a[3..]),
        Some("list") => {
            for p in props {
                println!("{}", p.id)
            }
            0
        }
        _ => {
            eprintln!("usage: check ID [--replay FILE] | list");
            2
        }
    };
    std::process::exit(rc)
}

/// printable rendering of arbitrary bytes for messages
pub fn show(b: &[u8]) -> String {
    let mut s = String::from("b\"");
    for c in b.iter().take(400) {
        for e in std::ascii::escape_default(*c) {
            s.push(e as char)
        }
    }
    s.push('"');
    if b.len() > 400 {
        s.push_str(&format!("…({} bytes)", b.len()))
    }
    s
}
/// Run `f`, turning a panic of the code under test into Err(message).
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    worker::catch(f)
}
/// Like catch, but a panic is a violation with signature `panic:<what>`.
pub fn no_panic<T>(what: &str, input: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Viol> {
    match worker::catch(f) {
        Ok(v) => Ok(v),
        Err(m) => viol(format!("panic:{what}:{}", worker::short(&m)), format!("{what} panicked: {m}\n input: {}", input())),
    }
}
/// panics of threads that the code under test started itself, since the last call
pub fn other_panics() -> Vec<String> {
    worker::OTHER.lock().map(|mut o| std::mem::take(&mut *o)).unwrap_or_default()
}
