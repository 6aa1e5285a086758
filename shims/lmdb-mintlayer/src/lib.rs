//! In-memory emulation of the lmdb-mintlayer API that storage-lmdb uses: named databases, one writer at a time,
//! readers on a snapshot, commit = publish the new snapshot, drop = abort. Environments opened on the same path in
//! one process share their data, so "close and reopen" can be exercised. `set_map_full` injects MapFull errors.
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, OnceLock};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Error {
    KeyExist,
    NotFound,
    PageNotFound,
    Corrupted,
    Panic,
    VersionMismatch,
    Invalid,
    MapFull,
    DbsFull,
    ReadersFull,
    TlsFull,
    TxnFull,
    CursorFull,
    PageFull,
    MapResized,
    Incompatible,
    BadRslot,
    BadTxn,
    BadValSize,
    BadDbi,
    Other(i32),
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Debug, Clone)]
pub struct DatabaseResizeInfo {
    pub old_size: u64,
    pub new_size: u64,
    pub occupied_size_before_resize: u64,
}
#[derive(Debug, Clone)]
pub struct DatabaseResizeSettings {
    pub min_resize_step: u64,
    pub max_resize_step: u64,
    pub default_resize_step: u64,
    pub default_resize_ratio_percentage: u64,
}
impl Default for DatabaseResizeSettings {
    fn default() -> Self {
        Self { min_resize_step: 0, max_resize_step: 0, default_resize_step: 0, default_resize_ratio_percentage: 0 }
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct EnvironmentFlags(u32);
impl EnvironmentFlags {
    pub const WRITE_MAP: Self = Self(0x80000);
    pub const READ_ONLY: Self = Self(0x20000);
    pub fn is_empty(&self) -> bool {
        self.0 == 0
    }
}
impl std::ops::BitAnd for EnvironmentFlags {
    type Output = Self;
    fn bitand(self, o: Self) -> Self {
        Self(self.0 & o.0)
    }
}
impl std::ops::BitOrAssign for EnvironmentFlags {
    fn bitor_assign(&mut self, o: Self) {
        self.0 |= o.0
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct DatabaseFlags(u32);
#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub struct WriteFlags(u32);
impl WriteFlags {
    pub fn empty() -> Self {
        Self(0)
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Database(usize);

type Map = BTreeMap<Vec<u8>, Vec<u8>>;

#[derive(Default)]
struct Shared {
    names: Mutex<HashMap<String, usize>>,
    dbs: Mutex<Arc<Vec<Arc<Map>>>>,
    writer: Mutex<bool>,
    writer_free: Condvar,
    /// Every put/commit counted down; at 0 it fails with MapFull once.
    map_full_in: Mutex<Option<u32>>,
    map_size: Mutex<u64>,
}

fn registry() -> &'static Mutex<HashMap<PathBuf, Arc<Shared>>> {
    static R: OnceLock<Mutex<HashMap<PathBuf, Arc<Shared>>>> = OnceLock::new();
    R.get_or_init(Default::default)
}

/// Test control: the n-th put/del/commit from now (0 = the next) on `path` fails with MapFull.
pub fn set_map_full(path: &Path, n: Option<u32>) {
    if let Some(s) = registry().lock().unwrap().get(path) {
        *s.map_full_in.lock().unwrap() = n;
    }
}
/// Test control: forget what is stored at `path`.
pub fn forget(path: &Path) {
    registry().lock().unwrap().remove(path);
}

impl Shared {
    fn full(&self) -> Result<()> {
        let mut n = self.map_full_in.lock().unwrap();
        match *n {
            Some(0) => {
                *n = None;
                Err(Error::MapFull)
            }
            Some(k) => {
                *n = Some(k - 1);
                Ok(())
            }
            None => Ok(()),
        }
    }
}

type ResizeCb = Box<dyn Fn(DatabaseResizeInfo)>;

pub struct Environment {
    sh: Arc<Shared>,
    read_only: bool,
}
impl fmt::Debug for Environment {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Environment")
    }
}

#[derive(Default)]
pub struct EnvironmentBuilder {
    flags: EnvironmentFlags,
}
impl EnvironmentBuilder {
    pub fn set_map_size(self, _s: usize) -> Self {
        self
    }
    pub fn set_resize_settings(self, _s: DatabaseResizeSettings) -> Self {
        self
    }
    pub fn set_resize_callback(self, _cb: Option<ResizeCb>) -> Self {
        self
    }
    pub fn set_max_dbs(self, _n: u32) -> Self {
        self
    }
    pub fn set_flags(mut self, f: EnvironmentFlags) -> Self {
        self.flags = f;
        self
    }
    pub fn open(self, path: &Path) -> Result<Environment> {
        let sh = registry().lock().unwrap().entry(path.to_path_buf()).or_default().clone();
        Ok(Environment { sh, read_only: !(self.flags & EnvironmentFlags::READ_ONLY).is_empty() })
    }
}

impl Environment {
    #[allow(clippy::new_ret_no_self)]
    pub fn new() -> EnvironmentBuilder {
        EnvironmentBuilder::default()
    }
    pub fn open_db(&self, name: Option<&str>) -> Result<Database> {
        self.sh.names.lock().unwrap().get(name.unwrap_or("")).copied().map(Database).ok_or(Error::NotFound)
    }
    pub fn create_db(&self, name: Option<&str>, _f: DatabaseFlags) -> Result<Database> {
        let mut names = self.sh.names.lock().unwrap();
        let n = names.len();
        let i = *names.entry(name.unwrap_or("").to_owned()).or_insert(n);
        if i == n {
            let mut d = self.sh.dbs.lock().unwrap();
            let mut v = (**d).clone();
            v.push(Arc::new(Map::new()));
            *d = Arc::new(v);
        }
        Ok(Database(i))
    }
    pub fn begin_ro_txn(&self) -> Result<RoTransaction<'_>> {
        Ok(RoTransaction { snap: self.sh.dbs.lock().unwrap().clone(), _e: PhantomData })
    }
    pub fn begin_rw_txn_generic(&self, _size: Option<usize>, _no_sync: bool, _no_meta: bool) -> Result<RwTransaction<'_>> {
        if self.read_only {
            return Err(Error::Other(13));
        }
        let mut busy = self.sh.writer.lock().unwrap();
        while *busy {
            busy = self.sh.writer_free.wait(busy).unwrap();
        }
        *busy = true;
        Ok(RwTransaction { snap: (**self.sh.dbs.lock().unwrap()).clone(), env: self })
    }
    pub fn do_resize(&self, _by: Option<u64>) -> Result<()> {
        *self.sh.map_size.lock().unwrap() += 1;
        Ok(())
    }
    pub fn sync(&self, _force: bool) -> Result<()> {
        Ok(())
    }
}

pub struct RoTransaction<'e> {
    snap: Arc<Vec<Arc<Map>>>,
    _e: PhantomData<&'e ()>,
}
pub struct RwTransaction<'e> {
    snap: Vec<Arc<Map>>,
    env: &'e Environment,
}
impl Drop for RwTransaction<'_> {
    fn drop(&mut self) {
        *self.env.sh.writer.lock().unwrap() = false;
        self.env.sh.writer_free.notify_one();
    }
}

pub trait Transaction: Sized {
    #[doc(hidden)]
    fn db(&self, d: Database) -> &Map;
    fn commit(self) -> Result<()>;
    fn get<K: AsRef<[u8]>>(&self, d: Database, k: &K) -> Result<&[u8]> {
        self.db(d).get(k.as_ref()).map(|v| &v[..]).ok_or(Error::NotFound)
    }
    fn open_ro_cursor(&self, d: Database) -> Result<RoCursor<'_>> {
        Ok(RoCursor { map: self.db(d) })
    }
}
impl Transaction for RoTransaction<'_> {
    fn db(&self, d: Database) -> &Map {
        &self.snap[d.0]
    }
    fn commit(self) -> Result<()> {
        Ok(())
    }
}
impl Transaction for RwTransaction<'_> {
    fn db(&self, d: Database) -> &Map {
        &self.snap[d.0]
    }
    fn commit(self) -> Result<()> {
        self.env.sh.full()?;
        *self.env.sh.dbs.lock().unwrap() = Arc::new(self.snap.clone());
        Ok(())
    }
}
impl RwTransaction<'_> {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, d: Database, k: &K, v: &V, _f: WriteFlags) -> Result<()> {
        self.env.sh.full()?;
        // like LMDB: keys are 1..=511 bytes
        if k.as_ref().is_empty() || k.as_ref().len() > 511 {
            return Err(Error::BadValSize);
        }
        Arc::make_mut(&mut self.snap[d.0]).insert(k.as_ref().to_vec(), v.as_ref().to_vec());
        Ok(())
    }
    pub fn del<K: AsRef<[u8]>>(&mut self, d: Database, k: &K, _data: Option<&[u8]>) -> Result<()> {
        self.env.sh.full()?;
        Arc::make_mut(&mut self.snap[d.0]).remove(k.as_ref()).map(|_| ()).ok_or(Error::NotFound)
    }
}

pub struct RoCursor<'t> {
    map: &'t Map,
}
pub trait Cursor<'t>: Sized {
    #[doc(hidden)]
    fn map(&self) -> &'t Map;
    fn into_iter_start(self) -> Iter<'t, Self> {
        Iter { it: self.map().range::<[u8], _>(..), _c: PhantomData }
    }
    fn into_iter_from<K: AsRef<[u8]> + ?Sized>(self, k: &K) -> Iter<'t, Self> {
        use std::ops::Bound::*;
        Iter { it: self.map().range::<[u8], _>((Included(k.as_ref()), Unbounded)), _c: PhantomData }
    }
}
impl<'t> Cursor<'t> for RoCursor<'t> {
    fn map(&self) -> &'t Map {
        self.map
    }
}
pub struct Iter<'t, C> {
    it: std::collections::btree_map::Range<'t, Vec<u8>, Vec<u8>>,
    _c: PhantomData<C>,
}
impl<'t, C> Iterator for Iter<'t, C> {
    type Item = Result<(&'t [u8], &'t [u8])>;
    fn next(&mut self) -> Option<Self::Item> {
        self.it.next().map(|(k, v)| Ok((&k[..], &v[..])))
    }
}
