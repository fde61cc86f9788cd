//! packets and stores for the core monitors
use crate::refpkt::{self, Parsed, Spec};
use linkspace_core::env::lmdb::BTreeEnv;
use linkspace_core::prelude::SaveState;
use linkspace_pkt::{NetPkt, NetPktBox};
use std::path::{Path, PathBuf};
use vmlib::{Obs, Rng};

pub struct Item {
    pub pkt: NetPktBox,
    pub x: Parsed,
    /// key of the tree index, as documented: group, domain, depth, spacename, pubkey
    pub tkey: Option<Vec<u8>>,
}
impl Item {
    pub fn new(s: &Spec) -> Item {
        Item::of(&s.bytes())
    }
    pub fn of(b: &[u8]) -> Item {
        let x = refpkt::parse(b).expect("reference packet");
        let tkey = x.lp.map(|(_, g, d)| [&g[..], &d, &[x.comps.len() as u8], &refpkt::sp(&x.comps), &x.signed.map(|s| s.0).unwrap_or([0; 32])].concat());
        let pkt = linkspace_pkt::read::read_pkt(b, false).expect("valid packet").into_owned();
        Item { pkt, x, tkey }
    }
    /// within a branch: create, then hash
    pub fn tval(&self) -> (u64, [u8; 32]) {
        (self.x.lp.map(|l| l.0).unwrap_or(0), self.x.hash)
    }
}
fn g(n: u8) -> [u8; 32] {
    let mut p = crate::refpkt::PUBLIC;
    match n {
        0 => [0; 32],
        1 => [255; 32],
        2 => p,
        3 => {
            p[31] ^= 1;
            p
        }
        4 => {
            p[0] ^= 0x80;
            p
        }
        _ => {
            let mut v = [0; 32];
            v[31] = n;
            v
        }
    }
}
fn d(n: u8) -> [u8; 16] {
    match n {
        0 => [0; 16],
        1 => [255; 16],
        2 => *b"\0\0\0\0\0\0\0\0\0\0\0\0test",
        3 => *b"\0\0\0\0\0\0\0\0\0\0\0\0tesu",
        _ => *b"\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0a",
    }
}
pub const COMPS: [&[u8]; 9] = [b"a", b"b", b"aa", b"\0", b"\xff", b"a\0", b"hello", b"\x01a", b"staticpkt"];
pub const CREATES: [u64; 9] = [0, 1, 2, 3, 1000, 1 << 40, 1_700_000_000_000_000, u64::MAX - 1, u64::MAX];
pub fn spec(r: &mut Rng) -> Spec {
    let kind = *r.pick(&[refpkt::DATA, refpkt::LINK, refpkt::LINK, refpkt::LINK, refpkt::KEY, refpkt::KEY]);
    let mut hdr = [0u8; 32];
    hdr[..3].copy_from_slice(b"LK1");
    if r.bool() {
        hdr[3] = r.u8() & 0x8f;
        for i in (7..32).step_by(4) {
            hdr[i] = r.below(6) as u8;
            if r.chance(1, 8) {
                for j in i - 3..=i {
                    hdr[j] = *r.pick(&[0, 255, 128])
                }
            }
        }
    }
    let depth = *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3, 4, 7, 8]);
    let few = r.range(2, COMPS.len() - 1);
    let mut s = Spec {
        kind,
        hdr,
        group: g(*r.pick(&[0, 1, 2, 2, 2, 3, 4, 5])),
        domain: d(*r.pick(&[0, 1, 2, 2, 2, 3, 4])),
        stamp: *r.pick(&CREATES),
        links: (0..*r.pick(&[0, 0, 0, 1, 2, 3])).map(|i| ([i as u8; 16], [7; 32])).collect(),
        comps: (0..depth).map(|_| COMPS[r.usize(few)].to_vec()).collect(),
        data: vec![b'x'; *r.pick(&[0, 0, 1, 1, 2, 8, 255, 256])],
        key: r.usize(3),
    };
    if let Some(c) = s.data.first_mut() {
        *c = r.below(6) as u8
    }
    if kind == refpkt::DATA {
        s.data = r.array::<8>()[..r.range(1, 3)].to_vec();
        s.links.clear();
        s.comps.clear();
        s.group = [0; 32];
        s.domain = [0; 16];
        s.stamp = 0;
    }
    s
}
/// every worker works with the same packets
pub fn pool() -> &'static [Item] {
    static P: std::sync::OnceLock<Vec<Item>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut r = Rng::new(0x706f6f6c);
        let mut v: Vec<Item> = vec![];
        let mut seen = std::collections::HashSet::new();
        while v.len() < 700 {
            let mut s = spec(&mut r);
            // whole branches
            for _ in 0..*r.pick(&[1, 1, 3, 6]) {
                let it = Item::new(&s);
                if seen.insert(it.x.hash) {
                    v.push(it)
                }
                s.stamp = *r.pick(&CREATES);
                if let Some(c) = s.data.first_mut() {
                    *c = r.below(6) as u8
                }
                if r.chance(1, 4) {
                    s.kind = *r.pick(&[refpkt::LINK, refpkt::KEY]);
                }
            }
        }
        v
    })
}
/// every open store leaves a listening thread behind
pub fn opened() {
    use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
    static N: AtomicU64 = AtomicU64::new(0);
    if N.fetch_add(1, Relaxed) == 100 {
        vmlib::RECYCLE.store(true, Relaxed)
    }
}
/// a store of its own, thrown away on drop
pub struct Store {
    pub path: PathBuf,
    pub env: Option<BTreeEnv>,
}
impl Store {
    pub fn new(o: &Obs, tag: &str) -> Store {
        static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
        let n = N.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let path = o.scratch.join(format!("{tag}{}-{n}", std::process::id()));
        std::fs::create_dir_all(&path).expect("scratch");
        let path = path.canonicalize().expect("scratch");
        // the file of ports, and one bus per process
        std::env::set_var("TMPDIR", o.scratch.parent().unwrap_or(&o.scratch));
        std::fs::write(path.join("id"), (std::process::id() as u64).to_be_bytes()).expect("scratch");
        opened();
        let env = BTreeEnv::open(path.clone(), true).expect("open");
        Store { path, env: Some(env) }
    }
    pub fn env(&self) -> &BTreeEnv {
        self.env.as_ref().unwrap()
    }
    pub fn reopen(&mut self) {
        self.env = None;
        opened();
        self.env = Some(BTreeEnv::open(self.path.clone(), true).expect("reopen"));
    }
    pub fn save(&self, items: &[&Item]) -> std::io::Result<(std::ops::Range<u64>, Vec<SaveState>)> {
        let mut l: Vec<(&dyn NetPkt, SaveState)> = items.iter().map(|i| (&i.pkt as &dyn NetPkt, SaveState::Pending)).collect();
        let r = self.env().save_dyn(&mut l)?;
        Ok((r, l.iter().map(|x| x.1).collect()))
    }
}
impl Drop for Store {
    fn drop(&mut self) {
        self.env = None;
        lmdb_sys::forget(&self.path);
        rmdir(&self.path);
    }
}
pub fn rmdir(p: &Path) {
    let _ = std::fs::remove_dir_all(p);
}
/// a random part of the pool, biased towards whole branches
pub fn pick(r: &mut Rng, max: usize) -> Vec<&'static Item> {
    let p = pool();
    let n = r.len(max).max(1);
    let mut out: Vec<&Item> = vec![];
    let mut used = vec![false; p.len()];
    let focus = p[r.usize(p.len())].x.lp;
    while out.len() < n {
        let i = r.usize(p.len());
        let near = p[i].x.lp.map(|l| l.1) == focus.map(|l| l.1);
        if used[i] || (!near && r.chance(1, 2)) {
            if !out.is_empty() && r.chance(1, 50) {
                break;
            }
            continue;
        }
        let k = r.range(1, 5);
        for j in i..(i + k).min(p.len()) {
            if !used[j] {
                used[j] = true;
                out.push(&p[j])
            }
        }
    }
    out
}
