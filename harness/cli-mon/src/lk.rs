//! running the command line program in a directory of its own
use crate::refpkt::{self, Parsed};
use std::io::{Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use vmlib::{viol, Obs, Viol};

const LIMIT: Duration = Duration::from_secs(25);

/// the second: where the ports of instances are noted, else shared by all that runs here
pub struct Dir(pub PathBuf, PathBuf);
impl Dir {
    pub fn new(o: &Obs) -> Dir {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let p = o.scratch.join(format!("x{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Dir(p, o.scratch.clone())
    }
    pub fn file(&self, name: &str, bytes: &[u8]) -> String {
        std::fs::write(self.0.join(name), bytes).expect("scratch file");
        name.to_string()
    }
    pub fn read(&self, name: &str) -> Vec<u8> {
        std::fs::read(self.0.join(name)).unwrap_or_default()
    }
    /// what the command leaves behind; a crash or a hang is a violation
    pub fn lk(&self, args: &[String], input: &[u8]) -> Result<Out, Viol> {
        self.lk_env(args, input, &[])
    }
    pub fn lk_env(&self, args: &[String], input: &[u8], env: &[(&str, &str)]) -> Result<Out, Viol> {
        let mut p = self.spawn_env(args, env);
        p.input(input);
        p.finish()
    }
    /// a command that goes on
    pub fn spawn(&self, args: &[String]) -> Proc {
        self.spawn_env(args, &[])
    }
    pub fn spawn_env(&self, args: &[String], env: &[(&str, &str)]) -> Proc {
        self.spawn_prog("lk", args, env)
    }
    /// another of the programs
    pub fn prog(&self, prog: &str, args: &[String], input: &[u8]) -> Result<Out, Viol> {
        let mut p = self.spawn_prog(prog, args, &[]);
        p.input(input);
        p.finish()
    }
    pub fn spawn_prog(&self, prog: &str, args: &[String], env: &[(&str, &str)]) -> Proc {
        let exe = std::env::current_exe().unwrap().with_file_name(prog);
        let mut c = Command::new(exe);
        c.args(args).current_dir(&self.0).env_clear();
        c.env("HOME", &self.0).env("TMPDIR", &self.1).env("LK_DIR", self.0.join("inst")).env("LK_SHIM_PERSIST", "1").env("LK_FORCE_EMPTY", "1").env("RUST_BACKTRACE", "0");
        for (k, v) in env {
            c.env(k, v);
        }
        let mut c = match c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
            Ok(c) => c,
            Err(e) => panic!("cannot run {prog}: {e}"),
        };
        let stdin = c.stdin.take();
        let out: Shared = Default::default();
        let err: Shared = Default::default();
        let t = vec![collect(c.stdout.take().unwrap(), out.clone(), 64 << 20), collect(c.stderr.take().unwrap(), err.clone(), 4 << 20)];
        Proc { line: std::iter::once(prog.to_string()).chain(args.iter().map(|a| format!("'{a}'"))).collect::<Vec<_>>().join(" "), c, stdin, out, err, t, start: Instant::now() }
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        // (to look at a replay by hand)
        if let Some(to) = std::env::var_os("CLI_KEEP") {
            let _ = std::fs::rename(&self.0, to);
        }
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
type Shared = std::sync::Arc<std::sync::Mutex<Vec<u8>>>;
fn collect(mut f: impl Read + Send + 'static, to: Shared, limit: usize) -> std::thread::JoinHandle<()> {
    std::thread::spawn(move || {
        let mut b = [0; 1 << 14];
        loop {
            match f.read(&mut b) {
                Ok(0) | Err(_) => return,
                Ok(n) => {
                    let mut v = to.lock().unwrap();
                    if v.len() < limit {
                        v.extend(&b[..n])
                    }
                }
            }
        }
    })
}
/// a running command
pub struct Proc {
    pub line: String,
    c: std::process::Child,
    pub stdin: Option<std::process::ChildStdin>,
    out: Shared,
    err: Shared,
    t: Vec<std::thread::JoinHandle<()>>,
    start: Instant,
}
impl Proc {
    /// all of its input
    pub fn input(&mut self, input: &[u8]) {
        if let Some(mut i) = self.stdin.take() {
            let input = input.to_vec();
            std::thread::spawn(move || {
                // the command need not read it all
                let _ = i.write_all(&input);
            });
        }
    }
    /// more input, without the end of it
    pub fn send(&mut self, bytes: &[u8]) {
        if let Some(i) = &mut self.stdin {
            let _ = i.write_all(bytes).and_then(|_| i.flush());
        }
    }
    /// the packets it wrote, as soon as there are so many; less if it ends or takes too long
    pub fn wrote(&mut self, n: usize) -> Vec<u8> {
        let start = Instant::now();
        loop {
            let on = self.running();
            let b = self.so_far();
            if packets(&b).map_or(false, |p| p.len() >= n) || start.elapsed() > LIMIT {
                return b;
            }
            if !on {
                for t in self.t.drain(..) {
                    let _ = t.join();
                }
                return self.so_far();
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }
    /// what it wrote so far
    pub fn so_far(&self) -> Vec<u8> {
        self.out.lock().unwrap().clone()
    }
    pub fn running(&mut self) -> bool {
        self.c.try_wait().expect("wait").is_none()
    }
    pub fn kill(&mut self) {
        let _ = self.c.kill();
        let _ = self.c.wait();
    }
    /// killed, and what it wrote until then
    pub fn end(mut self) -> Out {
        self.kill();
        for t in self.t.drain(..) {
            let _ = t.join();
        }
        Out { code: None, out: self.so_far(), err: self.err.lock().unwrap().clone() }
    }
    pub fn finish(mut self) -> Result<Out, Viol> {
        let mut nap = 200;
        let status = loop {
            if let Some(s) = self.c.try_wait().expect("wait") {
                break Some(s);
            }
            if self.start.elapsed() > LIMIT {
                self.kill();
                break None;
            }
            std::thread::sleep(Duration::from_micros(nap));
            nap = (nap * 3 / 2).min(10_000);
        };
        for t in self.t.drain(..) {
            let _ = t.join();
        }
        let o = Out { code: status.and_then(|s| s.code()), out: self.so_far(), err: self.err.lock().unwrap().clone() };
        let cmd = &self.line;
        if status.is_none() {
            return viol("hang", format!("{cmd}: still running after {} s, wrote {} bytes", LIMIT.as_secs(), o.out.len()));
        }
        let e = o.errs();
        if o.code.is_none() || e.contains("panicked at") {
            return viol("crash", format!("{cmd}: {:?} {}", status, e.chars().take(500).collect::<String>()));
        }
        Ok(o)
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}
pub struct Out {
    pub code: Option<i32>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn errs(&self) -> String {
        String::from_utf8_lossy(&self.err).to_string()
    }
}
/// a stream of packets, each as it should be
pub fn packets(mut b: &[u8]) -> Result<Vec<Parsed>, String> {
    let mut v = vec![];
    while !b.is_empty() {
        let p = refpkt::parse(b).map_err(|e| format!("packet {}: {e}", v.len()))?;
        if !p.hash_ok() {
            return Err(format!("packet {}: hash", v.len()));
        }
        b = &b[p.size..];
        v.push(p)
    }
    Ok(v)
}
pub fn s(a: &[&str]) -> Vec<String> {
    a.iter().map(|a| a.to_string()).collect()
}
pub fn cmd(args: &[String]) -> String {
    args.iter().map(|a| if a.len() > 120 { format!("'{}…'", a.chars().take(120).collect::<String>()) } else { format!("'{a}'") }).collect::<Vec<_>>().join(" ")
}
pub const PW: &str = "hunter2";
/// the keys of refpkt, encrypted
pub fn enckeys() -> &'static [String] {
    static K: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    K.get_or_init(|| refpkt::keys().iter().map(|(k, _)| linkspace_argon2_identity::encrypt(k, PW.as_bytes(), Some(linkspace_argon2_identity::INSECURE_COST))).collect())
}
