//! An in-memory model of the part of LMDB's C interface that linkspace uses (the bindings are a
//! git dependency that cannot be fetched here). It keeps LMDB's documented semantics: one writer,
//! snapshot reads, sorted keys, sorted duplicates, cursors, MDB_APPEND and MDB_NOOVERWRITE rules,
//! nothing visible before commit. Committed data outlives the environment handle (a registry keyed
//! by path), so that closing and reopening stands for a process restart.
//! Faults can be injected: see `fault`.
#![allow(non_camel_case_types, non_upper_case_globals)]
use libc::{c_int, c_uint, c_void, size_t};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering as O};
use std::sync::{Arc, Condvar, Mutex, RwLock};

pub const MDB_SUCCESS: c_int = 0;
pub const MDB_KEYEXIST: c_int = -30799;
pub const MDB_NOTFOUND: c_int = -30798;
pub const MDB_MAP_FULL: c_int = -30792;
pub const MDB_BAD_VALSIZE: c_int = -30781;
pub const MDB_BAD_TXN: c_int = -30782;

pub const MDB_FIRST: c_uint = 0;
pub const MDB_FIRST_DUP: c_uint = 1;
pub const MDB_GET_BOTH: c_uint = 2;
pub const MDB_GET_BOTH_RANGE: c_uint = 3;
pub const MDB_GET_CURRENT: c_uint = 4;
pub const MDB_GET_MULTIPLE: c_uint = 5;
pub const MDB_LAST: c_uint = 6;
pub const MDB_LAST_DUP: c_uint = 7;
pub const MDB_NEXT: c_uint = 8;
pub const MDB_NEXT_DUP: c_uint = 9;
pub const MDB_NEXT_MULTIPLE: c_uint = 10;
pub const MDB_NEXT_NODUP: c_uint = 11;
pub const MDB_PREV: c_uint = 12;
pub const MDB_PREV_DUP: c_uint = 13;
pub const MDB_PREV_NODUP: c_uint = 14;
pub const MDB_SET: c_uint = 15;
pub const MDB_SET_KEY: c_uint = 16;
pub const MDB_SET_RANGE: c_uint = 17;

pub const MDB_REVERSEKEY: c_uint = 0x02;
pub const MDB_DUPSORT: c_uint = 0x04;
pub const MDB_INTEGERKEY: c_uint = 0x08;
pub const MDB_DUPFIXED: c_uint = 0x10;

pub const MDB_NOOVERWRITE: c_uint = 0x10;
pub const MDB_NODUPDATA: c_uint = 0x20;
pub const MDB_RESERVE: c_uint = 0x10000;
pub const MDB_APPEND: c_uint = 0x20000;
pub const MDB_WRITEMAP: c_uint = 0x80000;
pub const MDB_NOTLS: c_uint = 0x200000;

pub const MAX_KEY: usize = 511;

#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct MDB_val {
    pub mv_size: size_t,
    pub mv_data: *mut c_void,
}
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct MDB_stat {
    pub ms_psize: c_uint,
    pub ms_depth: c_uint,
    pub ms_branch_pages: size_t,
    pub ms_leaf_pages: size_t,
    pub ms_overflow_pages: size_t,
    pub ms_entries: size_t,
}
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct MDB_envinfo {
    pub me_mapaddr: *mut c_void,
    pub me_mapsize: size_t,
    pub me_last_pgno: size_t,
    pub me_last_txnid: size_t,
    pub me_maxreaders: c_uint,
    pub me_numreaders: c_uint,
}
pub type MDB_dbi = c_uint;

/// value bytes, 8-byte aligned
pub struct Val {
    buf: Box<[std::cell::UnsafeCell<u64>]>,
    len: usize,
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}
impl Val {
    fn new(len: usize) -> Val {
        let buf = (0..len.div_ceil(8)).map(|_| std::cell::UnsafeCell::new(0xA5A5_A5A5_A5A5_A5A5)).collect();
        Val { buf, len }
    }
    fn ptr(&self) -> *mut u8 {
        self.buf.as_ptr() as *mut u8
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.len) }
    }
}
#[derive(Clone, Default)]
pub struct Table {
    pub name: String,
    pub flags: c_uint,
    /// sorted by key, then by value in a DUPSORT table
    pub rows: Vec<(Arc<[u8]>, Arc<Val>)>,
}
impl Table {
    fn kcmp(&self, a: &[u8], b: &[u8]) -> std::cmp::Ordering {
        if self.flags & MDB_INTEGERKEY != 0 {
            let f = |x: &[u8]| u64::from_ne_bytes(x.try_into().expect("integer key of 8 bytes"));
            f(a).cmp(&f(b))
        } else {
            a.cmp(b)
        }
    }
    fn lower(&self, k: &[u8]) -> usize {
        self.rows.partition_point(|r| self.kcmp(&r.0, k).is_lt())
    }
    fn upper(&self, k: &[u8]) -> usize {
        self.rows.partition_point(|r| self.kcmp(&r.0, k).is_le())
    }
}
type Snap = Arc<Vec<Arc<Table>>>;
pub struct Store {
    cur: RwLock<Snap>,
    writer: Mutex<bool>,
    wcond: Condvar,
    pub commits: AtomicUsize,
    pub open: AtomicUsize,
    pub peak: AtomicUsize,
    /// where other processes find what is committed (only when LK_SHIM_PERSIST is set)
    disk: Option<Disk>,
}
struct Disk {
    dir: PathBuf,
    /// counts what was written; none: 0
    seen: Mutex<u64>,
    lock: Mutex<Option<std::fs::File>>,
}
impl Store {
    fn disk_lock(&self) {
        use std::os::fd::AsRawFd;
        if let Some(d) = &self.disk {
            let f = std::fs::OpenOptions::new().create(true).write(true).open(d.dir.join("shim.lock")).expect("lock file");
            unsafe { libc::flock(f.as_raw_fd(), libc::LOCK_EX) };
            *d.lock.lock().unwrap() = Some(f);
        }
    }
    fn disk_unlock(&self) {
        if let Some(d) = &self.disk {
            *d.lock.lock().unwrap() = None;
        }
    }
    fn disk_read(&self) {
        use std::io::Read;
        let d = match &self.disk {
            Some(d) => d,
            None => return,
        };
        let mut seen = d.seen.lock().unwrap();
        let mut tries = 0;
        let (id, b) = loop {
            let mut f = match std::fs::File::open(d.dir.join("shim.db")) {
                Ok(f) => f,
                Err(_) => return,
            };
            let mut id = [0; 16];
            let whole = f.read_exact(&mut id).is_ok();
            let (id, sum) = (u64::from_le_bytes(id[..8].try_into().unwrap()), u64::from_le_bytes(id[8..].try_into().unwrap()));
            if whole && *seen == id {
                return;
            }
            let mut b = vec![];
            f.read_to_end(&mut b).expect("read");
            if whole && sum == check(&b) {
                break (id, b);
            }
            tries += 1;
            assert!(tries < 200, "shim.db is torn");
            eprintln!("shim.db is torn, again");
            std::thread::sleep(std::time::Duration::from_micros(500));
        };
        let mut b = &b[..];
        let mut take = |n: usize| {
            let (a, r) = b.split_at(n);
            b = r;
            a.to_vec()
        };
        let mut num = || u64::from_le_bytes(take(8).try_into().unwrap()) as usize;
        let n = num();
        let mut v = vec![];
        // (numbers and bytes are read from the same place)
        let mut tables = vec![];
        for _ in 0..n {
            tables.push((num(), num(), num()));
        }
        drop(num);
        for (name, flags, rows) in tables {
            let name = String::from_utf8(take(name)).expect("name");
            let mut t = Table { name, flags: flags as c_uint, rows: vec![] };
            for _ in 0..rows {
                let k = u64::from_le_bytes(take(8).try_into().unwrap()) as usize;
                let k = take(k);
                let l = u64::from_le_bytes(take(8).try_into().unwrap()) as usize;
                let l = take(l);
                let val = Val::new(l.len());
                unsafe { std::ptr::copy_nonoverlapping(l.as_ptr(), val.ptr(), l.len()) };
                t.rows.push((k.into(), Arc::new(val)));
            }
            v.push(Arc::new(t));
        }
        *self.cur.write().unwrap() = Arc::new(v);
        *seen = id;
    }
    /// (with the lock, having read what was there)
    fn disk_write(&self) {
        let d = match &self.disk {
            Some(d) => d,
            None => return,
        };
        let mut seen = d.seen.lock().unwrap();
        let cur = self.cur.read().unwrap().clone();
        let mut b = (cur.len() as u64).to_le_bytes().to_vec();
        for t in cur.iter() {
            for n in [t.name.len(), t.flags as usize, t.rows.len()] {
                b.extend((n as u64).to_le_bytes());
            }
        }
        for t in cur.iter() {
            b.extend(t.name.as_bytes());
            for (k, v) in &t.rows {
                b.extend((k.len() as u64).to_le_bytes());
                b.extend(&k[..]);
                b.extend((v.len as u64).to_le_bytes());
                b.extend(v.bytes());
            }
        }
        // (its own: one that is killed may still be in a write when the next has the lock)
        let tmp = d.dir.join(format!("shim.{}.tmp", std::process::id()));
        let sum = check(&b);
        std::fs::write(&tmp, [&(*seen + 1).to_le_bytes()[..], &sum.to_le_bytes()[..], &b[..]].concat()).expect("write");
        std::fs::rename(&tmp, d.dir.join("shim.db")).expect("rename");
        *seen += 1;
    }
}
/// tells what was written whole
fn check(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h.rotate_left(5) ^ u64::from_le_bytes(w)).wrapping_mul(0x517cc1b727220a95);
    }
    h
}
fn registry() -> &'static Mutex<HashMap<PathBuf, Arc<Store>>> {
    static R: std::sync::OnceLock<Mutex<HashMap<PathBuf, Arc<Store>>>> = std::sync::OnceLock::new();
    R.get_or_init(Default::default)
}
/// forget the committed data of a path (a monitor's cleanup)
pub fn forget(path: &Path) {
    if let Ok(p) = path.canonicalize() {
        registry().lock().unwrap().remove(&p);
    }
    registry().lock().unwrap().remove(path);
}

/// how often the directories below `base` were open at the same time at most, and which most
pub fn opens(base: &Path) -> (usize, PathBuf) {
    registry().lock().unwrap().iter().filter(|x| x.0.starts_with(base)).map(|x| (x.1.peak.load(O::SeqCst), x.0.clone())).max().unwrap_or_default()
}

/// Fault injection: the n-th (0-based) matching call fails with the code.
pub mod fault {
    use super::*;
    static PUT: AtomicI64 = AtomicI64::new(-1);
    static COMMIT: AtomicI64 = AtomicI64::new(-1);
    static CODE: AtomicI64 = AtomicI64::new(MDB_MAP_FULL as i64);
    pub static PUTS: AtomicUsize = AtomicUsize::new(0);
    pub static INJECTED: AtomicUsize = AtomicUsize::new(0);
    pub fn at_put(n: i64, code: c_int) {
        CODE.store(code as i64, O::SeqCst);
        PUT.store(n, O::SeqCst);
    }
    pub fn at_commit(n: i64, code: c_int) {
        CODE.store(code as i64, O::SeqCst);
        COMMIT.store(n, O::SeqCst);
    }
    pub fn clear() {
        PUT.store(-1, O::SeqCst);
        COMMIT.store(-1, O::SeqCst);
    }
    fn hit(c: &AtomicI64) -> Option<c_int> {
        let v = c.load(O::SeqCst);
        if v < 0 {
            return None;
        }
        c.store(v - 1, O::SeqCst);
        if v == 0 {
            INJECTED.fetch_add(1, O::SeqCst);
            return Some(CODE.load(O::SeqCst) as c_int);
        }
        None
    }
    pub(crate) fn put() -> Option<c_int> {
        PUTS.fetch_add(1, O::SeqCst);
        hit(&PUT)
    }
    pub(crate) fn commit() -> Option<c_int> {
        hit(&COMMIT)
    }
}

pub struct MDB_env {
    pub store: Arc<Store>,
    file: std::fs::File,
    pub path: PathBuf,
}
pub struct MDB_txn {
    store: Arc<Store>,
    snap: Option<Snap>,
    write: bool,
    pub cursors: AtomicUsize,
}
pub struct MDB_cursor {
    txn: *mut MDB_txn,
    dbi: usize,
    /// the current row; None before it is positioned. `eof` after running off the end.
    at: std::cell::Cell<Option<usize>>,
    eof: std::cell::Cell<bool>,
}

impl MDB_env {
    pub fn open(path: &Path) -> std::io::Result<Box<MDB_env>> {
        let file = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path.join("data.mdb"))?;
        let path = path.canonicalize()?;
        let store = registry()
            .lock()
            .unwrap()
            .entry(path.clone())
            .or_insert_with(|| {
                Arc::new(Store {
                    cur: RwLock::new(Arc::new(vec![])),
                    writer: Mutex::new(false),
                    wcond: Condvar::new(),
                    commits: AtomicUsize::new(0),
                    open: AtomicUsize::new(0),
                    peak: AtomicUsize::new(0),
                    disk: std::env::var_os("LK_SHIM_PERSIST").map(|_| Disk { dir: path.clone(), seen: Default::default(), lock: Default::default() }),
                })
            })
            .clone();
        let n = store.open.fetch_add(1, O::SeqCst) + 1;
        store.peak.fetch_max(n, O::SeqCst);
        Ok(Box::new(MDB_env { store, file, path }))
    }
    pub fn create_db(&self, name: &str, flags: c_uint) -> MDB_dbi {
        let mut w = self.store.writer.lock().unwrap();
        while *w {
            w = self.store.wcond.wait(w).unwrap();
        }
        self.store.disk_lock();
        self.store.disk_read();
        let res = self.create_locked(name, flags);
        self.store.disk_write();
        self.store.disk_unlock();
        res
    }
    fn create_locked(&self, name: &str, flags: c_uint) -> MDB_dbi {
        let mut cur = self.store.cur.write().unwrap();
        if let Some(i) = cur.iter().position(|t| t.name == name) {
            return i as MDB_dbi;
        }
        let mut v = (**cur).clone();
        v.push(Arc::new(Table { name: name.into(), flags, rows: vec![] }));
        *cur = Arc::new(v);
        (cur.len() - 1) as MDB_dbi
    }
    pub fn begin(&self, write: bool) -> Box<MDB_txn> {
        if write {
            let mut w = self.store.writer.lock().unwrap();
            while *w {
                w = self.store.wcond.wait(w).unwrap();
            }
            *w = true;
            drop(w);
            self.store.disk_lock();
        }
        self.store.disk_read();
        let snap = Some(self.store.cur.read().unwrap().clone());
        Box::new(MDB_txn { store: self.store.clone(), snap, write, cursors: AtomicUsize::new(0) })
    }
}
impl Drop for MDB_env {
    fn drop(&mut self) {
        self.store.open.fetch_sub(1, O::SeqCst);
    }
}
impl MDB_txn {
    fn table(&self, dbi: usize) -> &Table {
        &self.snap.as_ref().expect("transaction not active")[dbi]
    }
    pub fn commit(mut self: Box<Self>) -> c_int {
        if self.write {
            if let Some(c) = fault::commit() {
                return c; // dropped: aborted
            }
            let snap = self.snap.take().unwrap();
            *self.store.cur.write().unwrap() = snap;
            self.store.disk_write();
            self.store.commits.fetch_add(1, O::SeqCst);
        }
        MDB_SUCCESS
    }
}
impl Drop for MDB_txn {
    fn drop(&mut self) {
        if self.write {
            self.store.disk_unlock();
            *self.store.writer.lock().unwrap() = false;
            self.store.wcond.notify_one();
        }
    }
}
impl MDB_cursor {
    pub fn open(txn: *mut MDB_txn, dbi: MDB_dbi) -> Box<MDB_cursor> {
        unsafe { (*txn).cursors.fetch_add(1, O::Relaxed) };
        Box::new(MDB_cursor { txn, dbi: dbi as usize, at: Default::default(), eof: Default::default() })
    }
    fn goto(&self, i: Option<usize>) -> Result<(*const [u8], *const [u8]), c_int> {
        unsafe {
            let t = (*self.txn).table(self.dbi);
            match i.and_then(|i| t.rows.get(i).map(|r| (i, r))) {
                Some((i, r)) => {
                    self.at.set(Some(i));
                    self.eof.set(false);
                    Ok((&*r.0 as *const [u8], r.1.bytes() as *const [u8]))
                }
                None => Err(MDB_NOTFOUND),
            }
        }
    }
    /// mdb_cursor_get
    pub fn get(&self, key: Option<&[u8]>, op: c_uint) -> Result<(*const [u8], *const [u8]), c_int> {
        let t = unsafe { (*self.txn).table(self.dbi) };
        let n = t.rows.len();
        let dup = t.flags & MDB_DUPSORT != 0;
        if let Some(k) = key {
            if k.is_empty() || k.len() > MAX_KEY {
                if matches!(op, MDB_SET | MDB_SET_KEY | MDB_SET_RANGE) {
                    return Err(MDB_BAD_VALSIZE);
                }
            }
        }
        // LMDB's own index for the current row in a table that may have been written to since
        let at = self.at.get();
        match op {
            MDB_FIRST => self.goto(Some(0)),
            MDB_LAST => {
                let r = self.goto(n.checked_sub(1));
                if r.is_ok() {
                    self.eof.set(true); // C_EOF: MDB_NEXT fails, MDB_PREV moves back
                }
                r
            }
            MDB_SET | MDB_SET_KEY => {
                let k = key.ok_or(libc::EINVAL)?;
                let i = t.lower(k);
                if i < n && t.kcmp(&t.rows[i].0, k).is_eq() {
                    self.goto(Some(i))
                } else {
                    self.at.set(None);
                    Err(MDB_NOTFOUND)
                }
            }
            MDB_SET_RANGE => {
                let k = key.ok_or(libc::EINVAL)?;
                let i = t.lower(k);
                if i >= n {
                    // like mdb.c: the cursor is left past the last entry
                    self.eof.set(n > 0);
                    self.at.set((n > 0).then_some(n));
                    return Err(MDB_NOTFOUND);
                }
                self.goto(Some(i))
            }
            MDB_GET_CURRENT => match at {
                None => Err(libc::EINVAL),
                Some(i) => self.goto(Some(i)),
            },
            MDB_NEXT | MDB_NEXT_DUP | MDB_NEXT_NODUP => {
                let Some(i) = at else {
                    // an uninitialised cursor: MDB_NEXT and MDB_NEXT_NODUP act as MDB_FIRST
                    return self.goto(Some(0));
                };
                if self.eof.get() && i + 1 >= n {
                    return Err(MDB_NOTFOUND);
                }
                let next = match op {
                    MDB_NEXT => i + 1,
                    MDB_NEXT_NODUP => t.upper(&t.rows[i].0),
                    _ => {
                        if !dup || i + 1 >= n || !t.kcmp(&t.rows[i].0, &t.rows[i + 1].0).is_eq() {
                            return Err(MDB_NOTFOUND);
                        }
                        i + 1
                    }
                };
                if next >= n {
                    self.eof.set(true);
                    return Err(MDB_NOTFOUND);
                }
                self.goto(Some(next))
            }
            MDB_PREV | MDB_PREV_DUP | MDB_PREV_NODUP => {
                let Some(i) = at else { return self.get(None, MDB_LAST) };
                if i >= n {
                    // past the end: mdb_cursor_prev steps back to the last entry whatever the operation
                    return self.goto(n.checked_sub(1));
                }
                let prev = match op {
                    MDB_PREV => i.checked_sub(1),
                    MDB_PREV_NODUP => t.lower(&t.rows[i].0).checked_sub(1),
                    _ => i.checked_sub(1).filter(|p| dup && t.kcmp(&t.rows[i].0, &t.rows[*p].0).is_eq()),
                };
                self.goto(prev)
            }
            MDB_FIRST_DUP | MDB_LAST_DUP => {
                let i = at.ok_or(libc::EINVAL)?;
                if !dup {
                    return Err(libc::EINVAL);
                }
                if i >= n {
                    return Err(MDB_NOTFOUND);
                }
                let k = &t.rows[i].0;
                self.goto(Some(if op == MDB_FIRST_DUP { t.lower(k) } else { t.upper(k) - 1 }))
            }
            _ => Err(libc::EINVAL),
        }
    }
    /// mdb_cursor_put; with MDB_RESERVE the pointer to fill in is returned
    pub fn put(&self, key: &[u8], data: Option<&[u8]>, len: usize, flags: c_uint) -> Result<*mut u8, c_int> {
        let txn = unsafe { &mut *self.txn };
        if !txn.write {
            return Err(libc::EACCES);
        }
        if key.is_empty() || key.len() > MAX_KEY {
            return Err(MDB_BAD_VALSIZE);
        }
        if let Some(c) = fault::put() {
            return Err(c);
        }
        let val = Val::new(len);
        if let Some(d) = data {
            unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), val.ptr(), len) };
        }
        let val = Arc::new(val);
        let p = val.ptr();
        let snap = Arc::make_mut(txn.snap.as_mut().expect("active"));
        let t = Arc::make_mut(&mut snap[self.dbi]);
        let i = t.lower(key);
        let exists = i < t.rows.len() && t.kcmp(&t.rows[i].0, key).is_eq();
        if flags & MDB_APPEND != 0 && i < t.rows.len() {
            return Err(MDB_KEYEXIST);
        }
        if exists && flags & MDB_NOOVERWRITE != 0 {
            return Err(MDB_KEYEXIST);
        }
        let row = (Arc::<[u8]>::from(key), val);
        if t.flags & MDB_DUPSORT != 0 {
            if t.flags & MDB_DUPFIXED != 0 && exists && t.rows[i].1.len != len {
                return Err(MDB_BAD_VALSIZE);
            }
            let end = t.upper(key);
            match t.rows[i..end].binary_search_by(|r| r.1.bytes().cmp(row.1.bytes())) {
                Ok(j) => {
                    if flags & MDB_NODUPDATA != 0 {
                        return Err(MDB_KEYEXIST);
                    }
                    t.rows[i + j] = row;
                    self.at.set(Some(i + j));
                }
                Err(j) => {
                    t.rows.insert(i + j, row);
                    self.at.set(Some(i + j));
                }
            }
        } else if exists {
            t.rows[i] = row;
            self.at.set(Some(i));
        } else {
            t.rows.insert(i, row);
            self.at.set(Some(i));
        }
        Ok(p)
    }
}

pub unsafe fn mdb_cursor_put(c: *mut MDB_cursor, key: *mut MDB_val, data: *mut MDB_val, flags: c_uint) -> c_int {
    let k = std::slice::from_raw_parts((*key).mv_data as *const u8, (*key).mv_size);
    let d = (flags & MDB_RESERVE == 0).then(|| std::slice::from_raw_parts((*data).mv_data as *const u8, (*data).mv_size));
    match (*c).put(k, d, (*data).mv_size, flags) {
        Ok(p) => {
            if flags & MDB_RESERVE != 0 {
                (*data).mv_data = p.cast();
            }
            MDB_SUCCESS
        }
        Err(e) => e,
    }
}
pub unsafe fn mdb_txn_reset(txn: *mut MDB_txn) {
    (*txn).snap = None;
}
pub unsafe fn mdb_txn_renew(txn: *mut MDB_txn) -> c_int {
    (*txn).store.disk_read();
    let s = (*txn).store.cur.read().unwrap().clone();
    (*txn).snap = Some(s);
    MDB_SUCCESS
}
pub unsafe fn mdb_env_get_fd(env: *mut MDB_env, fd: *mut c_int) -> c_int {
    use std::os::fd::AsRawFd;
    *fd = (*env).file.as_raw_fd();
    MDB_SUCCESS
}
pub unsafe fn mdb_env_info(env: *mut MDB_env, info: *mut MDB_envinfo) -> c_int {
    *info = MDB_envinfo {
        me_mapaddr: std::ptr::null_mut(),
        me_mapsize: 0,
        me_last_pgno: 0,
        me_last_txnid: (*env).store.commits.load(O::SeqCst),
        me_maxreaders: 126,
        me_numreaders: 0,
    };
    MDB_SUCCESS
}
pub unsafe fn mdb_stat(txn: *mut MDB_txn, dbi: MDB_dbi, stat: *mut MDB_stat) -> c_int {
    *stat = MDB_stat {
        ms_psize: 4096,
        ms_depth: 1,
        ms_branch_pages: 0,
        ms_leaf_pages: 1,
        ms_overflow_pages: 0,
        ms_entries: (*txn).table(dbi as usize).rows.len(),
    };
    MDB_SUCCESS
}
pub unsafe fn mdb_version(major: *mut c_int, minor: *mut c_int, patch: *mut c_int) {
    (*major, *minor, *patch) = (0, 9, 70);
}
