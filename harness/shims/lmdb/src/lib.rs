//! The safe wrapper over the in-memory LMDB model, with the interface of the author's lmdb-rs fork.
use lmdb_sys as ffi;
use std::marker::PhantomData;
use std::os::raw::{c_int, c_uint};
use std::path::Path;

bitflags::bitflags! {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct EnvironmentFlags: c_uint {
        const WRITE_MAP = ffi::MDB_WRITEMAP;
        const NO_TLS = ffi::MDB_NOTLS;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct DatabaseFlags: c_uint {
        const REVERSE_KEY = ffi::MDB_REVERSEKEY;
        const DUP_SORT = ffi::MDB_DUPSORT;
        const INTEGER_KEY = ffi::MDB_INTEGERKEY;
        const DUP_FIXED = ffi::MDB_DUPFIXED;
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
    pub struct WriteFlags: c_uint {
        const NO_OVERWRITE = ffi::MDB_NOOVERWRITE;
        const NO_DUP_DATA = ffi::MDB_NODUPDATA;
        const APPEND = ffi::MDB_APPEND;
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    KeyExist,
    NotFound,
    MapFull,
    BadValSize,
    BadTxn,
    Other(c_int),
}
impl Error {
    pub fn from_err_code(c: c_int) -> Error {
        match c {
            ffi::MDB_KEYEXIST => Error::KeyExist,
            ffi::MDB_NOTFOUND => Error::NotFound,
            ffi::MDB_MAP_FULL => Error::MapFull,
            ffi::MDB_BAD_VALSIZE => Error::BadValSize,
            ffi::MDB_BAD_TXN => Error::BadTxn,
            o => Error::Other(o),
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub fn lmdb_result(c: c_int) -> Result<()> {
    if c == 0 {
        Ok(())
    } else {
        Err(Error::from_err_code(c))
    }
}

#[derive(Debug, Clone, Copy)]
pub struct Database(ffi::MDB_dbi);
impl Database {
    pub fn dbi(&self) -> ffi::MDB_dbi {
        self.0
    }
}
pub struct Environment(*mut ffi::MDB_env);
unsafe impl Send for Environment {}
unsafe impl Sync for Environment {}
#[derive(Default)]
pub struct EnvironmentBuilder;
impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder {
        EnvironmentBuilder
    }
    pub fn env(&self) -> *mut ffi::MDB_env {
        self.0
    }
    pub fn create_db(&self, name: Option<&str>, flags: DatabaseFlags) -> Result<Database> {
        Ok(Database(unsafe { (*self.0).create_db(name.unwrap_or(""), flags.bits()) }))
    }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> {
        Ok(RoTransaction { txn: Box::into_raw(unsafe { (*self.0).begin(false) }), _p: PhantomData })
    }
    pub fn begin_rw_txn(&self) -> Result<RwTransaction<'_>> {
        Ok(RwTransaction { txn: Box::into_raw(unsafe { (*self.0).begin(true) }), _p: PhantomData })
    }
}
impl Drop for Environment {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.0) })
    }
}
impl EnvironmentBuilder {
    pub fn set_max_dbs(&mut self, _n: c_uint) -> &mut Self {
        self
    }
    pub fn set_flags(&mut self, _f: EnvironmentFlags) -> &mut Self {
        self
    }
    pub fn set_map_size(&mut self, _n: usize) -> &mut Self {
        self
    }
    pub fn open(&self, path: &Path) -> Result<Environment> {
        ffi::MDB_env::open(path)
            .map(|e| Environment(Box::into_raw(e)))
            .map_err(|e| Error::Other(e.raw_os_error().unwrap_or(5)))
    }
}
pub trait Transaction: Sized {
    fn txn(&self) -> *mut ffi::MDB_txn;
    fn open_ro_cursor(&self, db: Database) -> Result<RoCursor<'_>> {
        Ok(RoCursor { cur: Box::into_raw(ffi::MDB_cursor::open(self.txn(), db.0)), _p: PhantomData })
    }
    fn commit(self) -> Result<()>;
}
pub struct RoTransaction<'env> {
    txn: *mut ffi::MDB_txn,
    _p: PhantomData<&'env ()>,
}
pub struct RwTransaction<'env> {
    txn: *mut ffi::MDB_txn,
    _p: PhantomData<&'env ()>,
}
pub struct InactiveTransaction<'env>(RoTransaction<'env>);
impl<'env> RoTransaction<'env> {
    pub fn reset(self) -> InactiveTransaction<'env> {
        unsafe { ffi::mdb_txn_reset(self.txn) };
        InactiveTransaction(self)
    }
}
impl<'env> InactiveTransaction<'env> {
    pub fn renew(self) -> Result<RoTransaction<'env>> {
        unsafe { lmdb_result(ffi::mdb_txn_renew(self.0.txn))? };
        Ok(self.0)
    }
}
macro_rules! txn {
    ($t:ident) => {
        impl<'env> Transaction for $t<'env> {
            fn txn(&self) -> *mut ffi::MDB_txn {
                self.txn
            }
            fn commit(self) -> Result<()> {
                let t = unsafe { Box::from_raw(self.txn) };
                std::mem::forget(self);
                lmdb_result(t.commit())
            }
        }
        impl<'env> Drop for $t<'env> {
            fn drop(&mut self) {
                drop(unsafe { Box::from_raw(self.txn) })
            }
        }
    };
}
txn!(RoTransaction);
txn!(RwTransaction);

pub struct RoCursor<'txn> {
    cur: *mut ffi::MDB_cursor,
    _p: PhantomData<&'txn ()>,
}
impl<'txn> Drop for RoCursor<'txn> {
    fn drop(&mut self) {
        drop(unsafe { Box::from_raw(self.cur) })
    }
}
impl<'txn> RoCursor<'txn> {
    pub fn cursor(&self) -> *mut ffi::MDB_cursor {
        self.cur
    }
    pub fn get(&self, key: Option<&[u8]>, _data: Option<&[u8]>, op: c_uint) -> Result<(Option<&'txn [u8]>, &'txn [u8])> {
        match unsafe { (*self.cur).get(key, op) } {
            Ok((k, v)) => unsafe { Ok((Some(&*k), &*v)) },
            Err(e) => Err(Error::from_err_code(e)),
        }
    }
    /// from the first key at or after the given one
    pub fn iter_from<K: AsRef<[u8]>>(self, key: K) -> Iter<'txn> {
        match self.get(Some(key.as_ref()), None, ffi::MDB_SET_RANGE) {
            Ok(_) => Iter::Ok { cursor: self, op: ffi::MDB_GET_CURRENT, next_op: ffi::MDB_NEXT },
            Err(Error::NotFound) => Iter::End,
            Err(e) => Iter::Err(e),
        }
    }
}
pub enum Iter<'txn> {
    Err(Error),
    End,
    Ok { cursor: RoCursor<'txn>, op: c_uint, next_op: c_uint },
}
impl<'txn> Iterator for Iter<'txn> {
    type Item = Result<(&'txn [u8], &'txn [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        match self {
            Iter::Err(e) => Some(Err(*e)),
            Iter::End => None,
            Iter::Ok { cursor, op, next_op } => {
                let o = std::mem::replace(op, *next_op);
                match cursor.get(None, None, o) {
                    Ok((k, v)) => Some(Ok((k.unwrap(), v))),
                    // EINVAL: MDB_GET_CURRENT on a cursor that is not positioned
                    Err(Error::NotFound | Error::Other(libc::EINVAL)) => None,
                    Err(e) => Some(Err(e)),
                }
            }
        }
    }
}
pub struct RwCursor<'txn>(RoCursor<'txn>);
impl<'txn> RwCursor<'txn> {
    pub fn new<'env>(txn: &'txn RwTransaction<'env>, db: Database) -> Result<RwCursor<'txn>> {
        Ok(RwCursor(txn.open_ro_cursor(db)?))
    }
    pub fn ro(&self) -> &RoCursor<'txn> {
        &self.0
    }
    pub fn put<K: AsRef<[u8]> + ?Sized, D: AsRef<[u8]> + ?Sized>(&mut self, key: &K, data: &D, flags: WriteFlags) -> Result<()> {
        let d = data.as_ref();
        match unsafe { (*self.0.cur).put(key.as_ref(), Some(d), d.len(), flags.bits()) } {
            Ok(_) => Ok(()),
            Err(e) => Err(Error::from_err_code(e)),
        }
    }
}
