use crate::*;
use std::cell::RefCell;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

thread_local!(static LAST: RefCell<Option<(String, String)>> = RefCell::new(None));
/// panics of threads the code under test started itself
pub static OTHER: Mutex<Vec<String>> = Mutex::new(Vec::new());
thread_local!(static MINE: RefCell<bool> = RefCell::new(false));

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if MINE.with(|m| *m.borrow()) {
            LAST.with(|l| *l.borrow_mut() = Some((msg, loc)));
        } else if let Ok(mut o) = OTHER.lock() {
            o.push(format!("{msg} @ {loc}"))
        }
    }));
}
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = MINE.with(|m| m.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    MINE.with(|m| *m.borrow_mut() = was);
    r.map_err(|_| {
        let (m, l) = LAST.with(|l| l.borrow_mut().take()).unwrap_or_default();
        format!("{m} @ {l}")
    })
}
/// stable signature of a panic message: no digits (line numbers, values), no paths
pub fn short(m: &str) -> String {
    let (msg, loc) = m.rsplit_once(" @ ").unwrap_or((m, ""));
    let file = loc.rsplit('/').next().unwrap_or("").split(':').next().unwrap_or("");
    let mut s: String = msg.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').take(60).collect();
    s.push('@');
    s.push_str(file);
    s
}
/// A panic raised by the harness itself (workspace members are compiled with relative paths).
fn harness_panic(m: &str) -> bool {
    let loc = m.rsplit_once(" @ ").map(|x| x.1).unwrap_or("");
    !loc.starts_with('/') || loc.starts_with("/verif/")
}

pub struct Status(*mut u64);
impl Status {
    pub fn open(p: &std::path::Path) -> Status {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(p).unwrap();
        f.set_len(4096).unwrap();
        let m = unsafe { libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(m != libc::MAP_FAILED);
        Status(m.cast())
    }
    pub fn set(&self, i: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.0.add(i), v) }
    }
    pub fn get(&self, i: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.0.add(i)) }
    }
}
pub const ST_STAGE: usize = 0;
pub const ST_INDEX: usize = 1;
pub const ST_SEQ: usize = 2;
pub const ST_DONE: usize = 3;

pub fn tier() -> &'static str {
    if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") {
        "thorough"
    } else {
        "quick"
    }
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
pub fn unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c)
        }
    }
    o
}
pub enum Out {
    Ok,
    Viol(Viol),
    Harness(String),
}
pub fn run_case(p: &Prop, st: &Stage, index: u64, obs: &mut Obs) -> Out {
    let mut rng = Rng::case(seed(), p.id, st.name, index);
    obs.stage = st.name;
    obs.thorough = tier() == "thorough";
    match catch(|| (st.run)(&mut rng, index, obs)) {
        Ok(Ok(())) => Out::Ok,
        Ok(Err(v)) => Out::Viol(v),
        Err(m) if harness_panic(&m) => Out::Harness(m),
        Err(m) => Out::Viol(Viol { sig: format!("panic:{}:{}", st.name, short(&m)), msg: format!("the code under test panicked: {m}") }),
    }
}
fn limits(as_mib: u64, cpu: u64) {
    unsafe {
        if as_mib > 0 && !cfg!(feature = "asan") && std::env::var_os("VM_NO_AS").is_none() {
            let l = libc::rlimit { rlim_cur: as_mib << 20, rlim_max: as_mib << 20 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
        if cpu > 0 {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}
fn flush(obs: &Obs, dir: &std::path::Path, tag: &str) {
    let mut s = String::new();
    s.push_str(&format!("E {}\nI {}\n", obs.evals, obs.inconclusive));
    for n in &obs.inconclusive_notes {
        s.push_str(&format!("N {}\n", esc(n)));
    }
    for (k, v) in &obs.counters {
        s.push_str(&format!("C {v} {k}\n"));
    }
    for (k, v) in &obs.samples {
        s.push_str(&format!("S {}\t{}\n", k, esc(v)));
    }
    let _ = std::fs::write(dir.join(format!("{tag}.obs")), s);
    let mut d = Vec::with_capacity(obs.distinct.len() * 8);
    for h in &obs.distinct {
        d.extend_from_slice(&h.to_le_bytes())
    }
    let _ = std::fs::write(dir.join(format!("{tag}.dst")), d);
}
/// worker ID k W skip dir deadline
pub fn worker(p: &'static Prop, a: &[String]) -> i32 {
    let (k, w, skip): (u64, u64, u64) = (a[0].parse().unwrap(), a[1].parse().unwrap(), a[2].parse().unwrap());
    let dir = std::path::PathBuf::from(&a[3]);
    let deadline: u64 = a[4].parse().unwrap();
    limits(p.opts.as_mib, 0);
    install_hook();
    let st = Status::open(&dir.join(format!("w{k}.st")));
    let scratch = dir.join(format!("s{k}"));
    let _ = std::fs::create_dir_all(&scratch);
    let mut obs = Obs { scratch, ..Obs::default() };
    let tag = format!("w{k}.{skip}");
    let mut seq = 0u64;
    let mut sigs: Vec<String> = vec![];
    let known: Vec<String> = crate::sup::known(p.id).into_iter().map(|k| k.0).collect();
    const ROUNDS: u64 = 16;
    let mut dropped = 0u64;
    let mut first: Option<std::time::Instant> = None;
    for r in 0..ROUNDS {
        for (si, stage) in p.stages.iter().enumerate() {
            let n = if tier() == "thorough" { stage.thorough } else { stage.quick };
            for index in n * r / ROUNDS..n * (r + 1) / ROUNDS {
                if index % w != k {
                    continue;
                }
                seq += 1;
                if seq <= skip {
                    continue;
                }
                if seq & 15 == 0 || w < 8 || n < 1000 {
                    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs();
                    if now >= deadline {
                        dropped += 1;
                        continue;
                    }
                } else if dropped > 0 {
                    dropped += 1;
                    continue;
                }
                st.set(ST_STAGE, si as u64);
                st.set(ST_INDEX, index);
                st.set(ST_SEQ, seq);
                let out = run_case(p, stage, index, &mut obs);
                let soft = std::mem::take(&mut obs.soft);
                for out in soft.into_iter().map(Out::Viol).chain([out]) { match out {
                    Out::Ok => {}
                    Out::Viol(v) if known.contains(&v.sig) => {
                        if !sigs.contains(&v.sig) {
                            sigs.push(v.sig.clone());
                        }
                        obs.count(&format!("known finding: {}", v.sig));
                    }
                    Out::Viol(v) => {
                        let since = *first.get_or_insert_with(std::time::Instant::now);
                        if !sigs.contains(&v.sig) {
                            sigs.push(v.sig.clone());
                            let mut f = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("w{k}.viol"))).unwrap();
                            let _ = writeln!(f, "{}\t{}\t{}\t{}", stage.name, index, esc(&v.sig), esc(&v.msg));
                        } else {
                            obs.count("repeated_violations");
                        }
                        // a few more cases may show another kind; a slow failure need not be waited for again
                        if sigs.len() >= 6 + known.len() || since.elapsed().as_secs() >= 15 {
                            flush(&obs, &dir, &tag);
                            st.set(ST_DONE, 1);
                            return 0;
                        }
                    }
                    Out::Harness(m) => {
                        eprintln!("HARNESS-ERROR {} {} {}: {m}", p.id, stage.name, index);
                        flush(&obs, &dir, &tag);
                        return 4;
                    }
                } }
                if crate::RECYCLE.swap(false, std::sync::atomic::Ordering::Relaxed) {
                    flush(&obs, &dir, &tag);
                    unsafe { libc::_exit(5) }
                }
            }
        }
        obs.counters.insert("cases_dropped_at_time_cap".into(), dropped);
        flush(&obs, &dir, &tag);
    }
    st.set(ST_DONE, 1);
    // children or threads of the code under test must not keep us alive
    unsafe { libc::_exit(0) }
}
/// solo ID stage index [verbose]
pub fn solo(p: &'static Prop, a: &[String]) -> i32 {
    let stage = p.stages.iter().find(|s| s.name == a[0]).expect("stage");
    let index: u64 = a[1].parse().unwrap();
    limits(p.opts.as_mib, p.opts.cpu_s);
    install_hook();
    let scratch = std::env::temp_dir().join(format!("vm-solo-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let mut obs = Obs { verbose: true, scratch: scratch.clone(), ..Obs::default() };
    let o = match run_case(p, stage, index, &mut obs) {
        Out::Ok if !obs.soft.is_empty() => Out::Viol(obs.soft.remove(0)),
        o => o,
    };
    let _ = std::fs::remove_dir_all(&scratch);
    match o {
        Out::Ok => {
            println!("OK inconclusive={}", obs.inconclusive);
            0
        }
        Out::Viol(v) => {
            println!("VIOL\t{}\t{}", esc(&v.sig), esc(&v.msg));
            3
        }
        Out::Harness(m) => {
            println!("HARNESS\t{}", esc(&m));
            4
        }
    }
}
