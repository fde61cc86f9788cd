//! processes driven by a case: a bus participant, and a process asking for its port
use ipcbus::ProcBus;
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};
use vmlib::*;

/// the map record: id, port (native endian)
pub fn record(id: u64, port: u16) -> Vec<u8> {
    [&id.to_ne_bytes()[..], &port.to_ne_bytes()].concat()
}
/// a directory that plays the role of the temp dir, holding the port map
pub fn tmp_with_map(o: &Obs, name: &str, map: &[u8]) -> PathBuf {
    let d = o.scratch.join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("procbus.map"), map).unwrap();
    d
}
pub fn id_dir(o: &Obs, name: &str, id: u64) -> PathBuf {
    let d = o.scratch.join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("id"), id.to_be_bytes()).unwrap();
    d
}
pub fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}
/// getport TMP ID FSIZE: print the port; FSIZE limits what the process can write
pub fn getport() -> ! {
    let a: Vec<String> = std::env::args().collect();
    if let Ok(n) = a[3].parse::<u64>() {
        unsafe {
            let l = libc::rlimit { rlim_cur: n, rlim_max: n };
            libc::setrlimit(libc::RLIMIT_FSIZE, &l);
        }
    }
    let p = ipcbus::get_port(a[2].parse().unwrap());
    println!("{}", p.map(|x| x as i32).unwrap_or(-1));
    std::process::exit(0)
}
pub fn getport_cmd(tmp: &Path, id: u64, fsize: Option<u64>) -> Command {
    let mut c = Command::new(exe());
    c.args(["getport", &id.to_string(), &fsize.map(|x| x.to_string()).unwrap_or("-".into())])
        .env("TMPDIR", tmp)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null());
    c
}
/// peer DIR: commands on stdin, one reply line each
pub fn main() -> ! {
    let a: Vec<String> = std::env::args().collect();
    let bus = ProcBus::new(Path::new(&a[2])).expect("bus");
    bus.init();
    println!("ready {}", unsafe { libc::syscall(libc::SYS_gettid) });
    for l in std::io::stdin().lock().lines() {
        let Ok(l) = l else { break };
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "emit" => println!("emitted {}", bus.emit(f[1].parse().unwrap())),
            "val" => println!("val {}", bus.val()),
            "wait" => {
                println!("waiting");
                match bus.next_deadline(None) {
                    Some(v) => println!("woke {v}"),
                    None => println!("timeout"),
                }
            }
            _ => break,
        }
        let _ = std::io::stdout().flush();
    }
    std::process::exit(0)
}
pub struct Peer {
    ch: Child,
    stdin: ChildStdin,
    rx: Receiver<String>,
    pub tid: i32,
}
impl Drop for Peer {
    fn drop(&mut self) {
        let _ = self.ch.kill();
        let _ = self.ch.wait();
    }
}
pub enum Gone {
    Died(String),
    Slow,
}
impl Peer {
    pub fn start(tmp: &Path, dir: &Path) -> Result<Peer, Gone> {
        let mut ch = Command::new(exe())
            .arg("peer")
            .arg(dir)
            .env("TMPDIR", tmp)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("spawn peer");
        let out = BufReader::new(ch.stdout.take().unwrap());
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in out.lines().map_while(|l| l.ok()) {
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        let stdin = ch.stdin.take().unwrap();
        let mut p = Peer { ch, stdin, rx, tid: 0 };
        let l = p.line(20)?;
        p.tid = l.strip_prefix("ready ").and_then(|x| x.parse().ok()).unwrap_or(0);
        Ok(p)
    }
    pub fn send(&mut self, c: &str) {
        let _ = writeln!(self.stdin, "{c}");
        let _ = self.stdin.flush();
    }
    pub fn line(&mut self, secs: u64) -> Result<String, Gone> {
        match self.rx.recv_timeout(Duration::from_secs(secs)) {
            Ok(l) => Ok(l),
            Err(RecvTimeoutError::Timeout) => Err(Gone::Slow),
            Err(_) => Err(Gone::Died(format!("{:?}", self.ch.wait()))),
        }
    }
    pub fn try_line(&mut self, d: Duration) -> Option<String> {
        self.rx.recv_timeout(d).ok()
    }
    pub fn ask(&mut self, c: &str) -> Result<String, Gone> {
        self.send(c);
        self.line(20)
    }
    pub fn num(&mut self, c: &str) -> Result<u64, Gone> {
        let l = self.ask(c)?;
        Ok(l.split(' ').nth(1).and_then(|x| x.parse().ok()).expect("peer reply"))
    }
    /// the peer's main thread is blocked (it was told to wait)
    pub fn sleeping(&self) -> bool {
        blocked(self.ch.id() as i32, self.tid)
    }
}
/// thread state S in two samples a moment apart with no context switch in between
pub fn blocked(pid: i32, tid: i32) -> bool {
    let st = || {
        let s = std::fs::read_to_string(format!("/proc/{pid}/task/{tid}/stat")).unwrap_or_default();
        let sw = std::fs::read_to_string(format!("/proc/{pid}/task/{tid}/status")).unwrap_or_default();
        let n: String = sw.lines().filter(|l| l.contains("ctxt_switches")).collect();
        (s.rsplit(')').next().unwrap_or("").trim_start().starts_with('S'), n)
    };
    let a = st();
    std::thread::sleep(Duration::from_millis(2));
    let b = st();
    a.0 && a == b
}
pub fn until(ms: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = Instant::now() + Duration::from_millis(ms);
    loop {
        if f() {
            return true;
        }
        if Instant::now() > end {
            return false;
        }
        std::thread::sleep(Duration::from_micros(200));
    }
}
