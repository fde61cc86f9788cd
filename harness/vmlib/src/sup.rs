use crate::worker::*;
use crate::*;
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

struct W {
    k: u64,
    child: Option<Child>,
    st: Status,
    seq: u64,
    since: Instant,
    /// the time it had used, and when, as it was first seen to be late
    late: Option<(u64, Instant)>,
}
/// clock ticks used by one of our children
fn ticks(pid: u32) -> Option<u64> {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = s.rsplit_once(')')?.1.split_whitespace().collect();
    Some((11..15).filter_map(|i| f.get(i)?.parse::<u64>().ok()).sum())
}
/// one that uses no more than this in so long waits for what never comes
const IDLE_TICKS: u64 = 20;
const IDLE_S: u64 = 20;
#[derive(Clone)]
struct Found {
    stage: String,
    index: u64,
    sig: String,
    msg: String,
    how: String,
}
fn verif_dir() -> std::path::PathBuf {
    std::env::var_os("VERIF_DIR").map(Into::into).unwrap_or_else(|| "/verif".into())
}
fn solo_cmd(p: &Prop, stage: &str, index: u64) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("solo").arg(p.id).arg(stage).arg(index.to_string());
    c
}
enum Solo {
    Ok,
    Viol(String, String),
    Crash(String, String),
    Inconclusive(String),
}
fn run_solo(p: &Prop, stage: &str, index: u64) -> Solo {
    let mut c = solo_cmd(p, stage, index).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn solo");
    let (mut so, mut se) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let read = |s: &mut dyn std::io::Read| {
        let mut b = vec![];
        let _ = s.read_to_end(&mut b);
        String::from_utf8_lossy(&b).to_string()
    };
    let t1 = std::thread::spawn(move || read(&mut so));
    let t2 = std::thread::spawn(move || read(&mut se));
    let start = Instant::now();
    let cap = Duration::from_secs(p.opts.cpu_s * 3 + 60);
    let mut idle = (0, Instant::now());
    let mut blocked = false;
    let status = loop {
        if let Some(s) = c.try_wait().unwrap() {
            break Some(s);
        }
        let t = ticks(c.id()).unwrap_or(u64::MAX);
        if t.saturating_sub(idle.0) > IDLE_TICKS {
            idle = (t, Instant::now());
        } else if idle.1.elapsed() > Duration::from_secs(2 * IDLE_S) {
            blocked = true;
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        if start.elapsed() > cap {
            let _ = c.kill();
            let _ = c.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(10));
    };
    let (out, err) = (t1.join().unwrap(), t2.join().unwrap());
    let tail: String = {
        let l: Vec<_> = err.lines().collect();
        let from = l.iter().position(|x| x.contains("ERROR: AddressSanitizer") || x.contains("WARNING: ThreadSanitizer")).unwrap_or(l.len().saturating_sub(12));
        l[from..].iter().take(30).cloned().collect::<Vec<_>>().join("\n")
    };
    if blocked {
        return Solo::Crash("no-progress".into(), format!("still waiting after {} s without using any time", 2 * IDLE_S));
    }
    let Some(status) = status else { return Solo::Inconclusive("solo replay hit the wall-clock cap".into()) };
    match status.code() {
        Some(0) => Solo::Ok,
        Some(3) => {
            let l = out.lines().find(|l| l.starts_with("VIOL\t")).unwrap_or("VIOL\t?\t?");
            let mut f = l.split('\t').skip(1);
            Solo::Viol(unesc(f.next().unwrap_or("")), unesc(f.next().unwrap_or("")))
        }
        Some(4) => Solo::Inconclusive(format!("harness error: {out}")),
        Some(99) | None | Some(_) => {
            let (kind, what) = match status.signal() {
                Some(libc::SIGXCPU) | Some(libc::SIGKILL) => ("no-termination", format!("used more than {} s of CPU on one case", p.opts.cpu_s)),
                Some(libc::SIGSEGV) if err.contains("overflowed its stack") => ("stack-overflow", "stack overflow".to_string()),
                Some(libc::SIGABRT) if err.contains("overflowed its stack") => ("stack-overflow", "stack overflow".to_string()),
                Some(libc::SIGABRT) if err.contains("memory allocation of") => ("memory", format!("allocation failure under a {} MiB limit", p.opts.as_mib)),
                Some(s) => ("signal", format!("killed by signal {s}")),
                None => ("exit", format!("exit status {:?}", status.code())),
            };
            let kind = if err.contains("AddressSanitizer") { "asan" } else if err.contains("ThreadSanitizer") { "tsan" } else { kind };
            Solo::Crash(kind.into(), format!("{what}\n{tail}"))
        }
    }
}
pub fn check(p: &'static Prop, a: &[String]) -> i32 {
    if a.first().map(|s| s.as_str()) == Some("--replay") {
        return replay(p, &a[1]);
    }
    let t0 = Instant::now();
    let tier = tier();
    let cap = if tier == "thorough" { p.opts.thorough_cap_s } else { p.opts.quick_cap_s };
    let deadline = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() + cap;
    let dir = std::env::temp_dir().join(format!("vm-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch");
    // SAFETY-net: nobody else runs in this directory
    let nw = p.opts.workers;
    let exe = std::env::current_exe().unwrap();
    let spawn = |k: u64, skip: u64| -> Child {
        let log = std::fs::OpenOptions::new().append(true).create(true).open(dir.join(format!("w{k}.err"))).unwrap();
        Command::new(&exe)
            .args(["worker", p.id, &k.to_string(), &nw.to_string(), &skip.to_string()])
            .arg(&dir)
            .arg(deadline.to_string())
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .expect("spawn worker")
    };
    let mut ws: Vec<W> = (0..nw as u64)
        .map(|k| W { k, st: Status::open(&dir.join(format!("w{k}.st"))), child: Some(spawn(k, 0)), seq: 0, since: Instant::now(), late: None })
        .collect();
    let mut found: Vec<Found> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut harness_err: Option<String> = None;
    let mut takeouts = 0;
    let known_sigs: Vec<String> = known(p.id).into_iter().map(|k| k.0).collect();
    let viols = |d: &std::path::Path| (0..nw as u64).any(|k| std::fs::metadata(d.join(format!("w{k}.viol"))).is_ok_and(|m| m.len() > 0));
    let mut over: Option<Instant> = None;
    let mut polls = 0u64;
    while ws.iter().any(|w| w.child.is_some()) {
        std::thread::sleep(Duration::from_millis(5));
        polls += 1;
        // it is decided; the others may find more in what is left of the time, but are not waited for
        if polls % 64 == 0 && over.is_none() && (found.iter().any(|f| !known_sigs.contains(&f.sig)) || viols(&dir)) {
            over = Some(Instant::now());
        }
        if over.is_some_and(|t| t.elapsed() > Duration::from_secs(20)) {
            for w in ws.iter_mut() {
                if let Some(mut c) = w.child.take() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            break;
        }
        for w in ws.iter_mut() {
            let Some(ch) = w.child.as_mut() else { continue };
            let seq = w.st.get(ST_SEQ);
            if seq != w.seq {
                w.seq = seq;
                w.since = Instant::now();
                w.late = None;
            }
            let mut out: Option<String> = None;
            let mut blocked = false;
            match ch.try_wait().unwrap() {
                Some(s) => {
                    if w.st.get(ST_DONE) == 1 {
                        w.child = None;
                        continue;
                    }
                    if s.code() == Some(4) {
                        let log = std::fs::read_to_string(dir.join(format!("w{}.err", w.k))).unwrap_or_default();
                        harness_err = log.lines().find(|l| l.starts_with("HARNESS-ERROR")).map(|s| s.to_string());
                        w.child = None;
                        continue;
                    }
                    if s.code() == Some(5) {
                        w.seq = w.st.get(ST_SEQ);
                        w.child = Some(spawn(w.k, w.seq));
                        w.since = Instant::now();
                        continue;
                    }
                    out = Some(format!("worker died: {s}"));
                }
                None if w.since.elapsed() > Duration::from_secs(p.opts.stall_s) => {
                    let t = ticks(ch.id()).unwrap_or(u64::MAX);
                    let (t0, at) = *w.late.get_or_insert((t, Instant::now()));
                    let idle = t.saturating_sub(t0) <= IDLE_TICKS;
                    if idle && at.elapsed() < Duration::from_secs(IDLE_S) {
                        continue;
                    }
                    blocked = idle;
                    let _ = ch.kill();
                    let _ = ch.wait();
                    out = Some(format!("no progress for {} s", w.since.elapsed().as_secs()));
                }
                None => {}
            }
            if let Some(why) = out {
                let (si, index) = (w.st.get(ST_STAGE) as usize, w.st.get(ST_INDEX));
                let stage = p.stages[si.min(p.stages.len() - 1)].name;
                takeouts += 1;
                // a sanitizer report is its own evidence, and a race need not happen again
                let lp = dir.join(format!("w{}.err", w.k));
                let log = String::from_utf8_lossy(&std::fs::read(&lp).unwrap_or_default()).to_string();
                let rep = [("ERROR: AddressSanitizer", "asan"), ("WARNING: ThreadSanitizer", "tsan"), ("ERROR: MemorySanitizer", "msan")]
                    .into_iter()
                    .find_map(|(m, k)| log.find(m).map(|at| (k, log[at..].lines().take(40).collect::<Vec<_>>().join("\n"))));
                let _ = std::fs::File::create(&lp);
                let solo = match rep {
                    Some((k, text)) => Solo::Crash(k.into(), text),
                    None if viols(&dir) => Solo::Inconclusive("not repeated, there are violations already".into()),
                    // the schedule it got stuck in need not happen again
                    None if blocked => Solo::Crash("no-progress".into(), "waits without using any time".into()),
                    None => run_solo(p, stage, index),
                };
                let solo = match solo {
                    Solo::Crash(k, m)
                        if p.opts.mem_only
                            && (m.contains("AddressSanitizer: stack-overflow")
                                || m.contains("AddressSanitizer: requested allocation")
                                || m.contains("AddressSanitizer: out of memory")
                                || !(matches!(&k[..], "asan" | "tsan" | "msan") || k == "signal" && ["signal 11", "signal 4", "signal 7"].iter().any(|s| m.contains(s)))) =>
                    {
                        Solo::Inconclusive(format!("not a memory error: {k}: {}", m.lines().next().unwrap_or("")))
                    }
                    s => s,
                };
                match solo {
                    Solo::Ok => notes.push(format!("{stage}/{index}: {why}; the replay on its own was clean (inconclusive)")),
                    Solo::Inconclusive(m) => notes.push(format!("{stage}/{index}: {why}; {m}")),
                    Solo::Viol(sig, msg) => found.push(Found { stage: stage.into(), index, sig, msg, how: why }),
                    Solo::Crash(kind, msg) => found.push(Found { stage: stage.into(), index, sig: format!("{kind}:{stage}"), msg, how: why }),
                }
                let fresh = found.iter().any(|f| !known_sigs.contains(&f.sig));
                if takeouts > 6 || fresh || viols(&dir) {
                    w.child = None;
                    notes.push("a worker was retired after repeated take-outs".into());
                } else {
                    w.child = Some(spawn(w.k, w.seq));
                    w.since = Instant::now();
                    w.late = None;
                }
            }
        }
    }
    // gather
    let mut evals = 0u64;
    let mut inconc = 0u64;
    let mut counters: std::collections::BTreeMap<String, u64> = Default::default();
    let mut samples: Vec<(String, String)> = vec![];
    let mut hashes: Vec<u64> = vec![];
    let mut entries: Vec<_> = std::fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    entries.sort();
    for e in entries {
        match e.extension().and_then(|x| x.to_str()) {
            Some("obs") => {
                for l in std::fs::read_to_string(&e).unwrap_or_default().lines() {
                    let (k, v) = l.split_at(2);
                    match k {
                        "E " => evals += v.parse::<u64>().unwrap_or(0),
                        "I " => inconc += v.parse::<u64>().unwrap_or(0),
                        "N " => notes.push(unesc(v)),
                        "C " => {
                            let (n, k) = v.split_once(' ').unwrap();
                            let n: u64 = n.parse().unwrap_or(0);
                            let c = counters.entry(k.to_string()).or_default();
                            if k.starts_with("max:") {
                                *c = (*c).max(n)
                            } else {
                                *c += n
                            }
                        }
                        "S " => {
                            let (k, v) = v.split_once('\t').unwrap();
                            if samples.iter().filter(|(s, _)| s == k).count() < 2 {
                                samples.push((k.into(), unesc(v)))
                            }
                        }
                        _ => {}
                    }
                }
            }
            Some("dst") => {
                let b = std::fs::read(&e).unwrap_or_default();
                hashes.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
            }
            Some("viol") => {
                for l in std::fs::read_to_string(&e).unwrap_or_default().lines() {
                    let f: Vec<_> = l.split('\t').collect();
                    if f.len() == 4 {
                        found.push(Found { stage: f[0].into(), index: f[1].parse().unwrap_or(0), sig: unesc(f[2]), msg: unesc(f[3]), how: "oracle".into() });
                    }
                }
            }
            _ => {}
        }
    }
    hashes.sort_unstable();
    hashes.dedup();
    let _ = std::fs::remove_dir_all(&dir);

    let known = known(p.id);
    for (_, text) in &known {
        println!("KNOWN-FINDING: property={} {}", p.id, text);
    }
    found.sort_by(|a, b| (&a.sig, a.index).cmp(&(&b.sig, b.index)));
    found.dedup_by(|a, b| a.sig == b.sig);
    let fresh: Vec<Found> = found.iter().filter(|f| !known.iter().any(|(s, _)| *s == f.sig)).cloned().collect();
    let total: u64 = p.stages.iter().map(|s| if tier == "thorough" { s.thorough } else { s.quick }).sum();
    let mut cov = vec![
        ("evaluations", J::N(evals as i64)),
        ("distinct_nontrivial", J::N(hashes.len() as i64)),
        ("rule", J::s(p.rule)),
        ("samples", J::A(samples.iter().map(|(k, v)| J::s(format!("[{k}] {v}"))).collect())),
        ("stages", J::A(p.stages.iter().map(|s| J::s(format!("{}: {} cases scheduled", s.name, if tier == "thorough" { s.thorough } else { s.quick }))).collect())),
        ("cases_scheduled", J::N(total as i64)),
        ("observed", J::O(counters.iter().map(|(k, v)| (k.clone(), J::N(*v as i64))).collect())),
        ("inconclusive_cases", J::N(inconc as i64 + takeouts as i64 - found.iter().filter(|f| f.how != "oracle").count() as i64)),
        ("notes", J::A(notes.iter().take(12).map(|n| J::s(n.clone())).collect())),
    ];
    if let Ok(x) = std::env::var("VM_EXTRA_NOTE") {
        cov.push(("legs", J::s(x)));
    }
    let ev = J::o(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(tier)),
        ("seed", J::N(seed() as i64)),
        ("level", J::s("exploration")),
        ("coverage", J::o(cov)),
        ("assumptions", J::A(p.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s", J::F(t0.elapsed().as_secs_f64())),
        ("violations", J::N(fresh.len() as i64)),
    ]);
    let evp = std::env::var_os("VM_EVIDENCE").map(std::path::PathBuf::from).unwrap_or_else(|| verif_dir().join(format!("evidence/{}.json", p.id)));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    if let Err(e) = std::fs::write(&evp, ev.render(0) + "\n") {
        eprintln!("cannot write evidence: {e}");
        return 2;
    }
    println!(
        "{} tier={tier} seed={} evaluations={evals} distinct={} inconclusive={inconc} takeouts={takeouts} wall={:.1}s",
        p.id,
        seed(),
        hashes.len(),
        t0.elapsed().as_secs_f64()
    );
    if !fresh.is_empty() {
        let rd = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&rd);
        for (i, f) in fresh.iter().take(5).enumerate() {
            let leg = std::env::var("VM_LEG").unwrap_or_default();
            let path = rd.join(format!("{}{}-{}-{}.replay", p.id, leg, seed(), i));
            let body = format!("property={}\nleg={}\nstage={}\nindex={}\nseed={}\ntier={}\nsig={}\nhow={}\n\n{}\n", p.id, leg, f.stage, f.index, seed(), tier, esc(&f.sig), esc(&f.how), f.msg);
            let _ = std::fs::write(&path, body);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            println!("  stage {} case {}: [{}] {}", f.stage, f.index, f.sig, f.msg.lines().take(12).collect::<Vec<_>>().join("\n  "));
        }
        return 1;
    }
    if let Some(h) = harness_err {
        eprintln!("{h}");
        return 2;
    }
    for f in p.floors {
        if counters.get(*f).copied().unwrap_or(0) == 0 {
            eprintln!("INCONCLUSIVE: {} never observed '{f}'", p.id);
            return 2;
        }
    }
    0
}
fn replay(p: &Prop, file: &str) -> i32 {
    let body = match std::fs::read_to_string(file) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    let get = |k: &str| body.lines().find_map(|l| l.strip_prefix(&format!("{k}="))).unwrap_or("").to_string();
    std::env::set_var("VERIF_SEED", get("seed"));
    std::env::set_var("VERIF_TIER", get("tier"));
    match run_solo(p, &get("stage"), get("index").parse().unwrap_or(0)) {
        Solo::Ok => {
            println!("{}: the replayed case is clean", p.id);
            0
        }
        Solo::Inconclusive(m) => {
            println!("inconclusive: {m}");
            2
        }
        Solo::Viol(s, m) | Solo::Crash(s, m) => {
            println!("VIOLATION property={} replay={file}\n  [{s}] {m}", p.id);
            1
        }
    }
}

/// what the committed file lists for this property: signature and text
pub fn known(id: &str) -> Vec<(String, String)> {
    // known findings: "finding<TAB>property<TAB>signature<TAB>text"
    let known = std::fs::read_to_string(verif_dir().join("known_findings.tsv")).unwrap_or_default();
    known
        .lines()
        .filter(|l| l.starts_with("finding\t"))
        .filter_map(|l| {
            let f: Vec<_> = l.split('\t').collect();
            (f.len() >= 4 && f[1] == id).then(|| (f[2].to_string(), f[3].to_string()))
        })
        .collect()
}
