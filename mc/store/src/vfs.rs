//! A disk in memory, registered as SQLite's default VFS: it records every write, truncation, sync and deletion, so that
//! every state a crash could leave behind can be built, and it can fail the n-th operation.

use rusqlite::ffi::*;
use std::collections::{BTreeMap, HashMap};
use std::ffi::{CStr, c_char, c_int, c_void};
use std::sync::{Arc, Mutex, Once, OnceLock};

#[derive(Clone, Debug)]
pub enum Ev {
    Write(String, usize, Vec<u8>),
    Truncate(String, usize),
    Sync(String),
    Delete(String, bool),
    /// the application was told something
    Mark(usize),
}

pub type Image = BTreeMap<String, Vec<u8>>;

#[derive(Default)]
pub struct Disk {
    pub files: Image,
    pub log: Vec<Ev>,
    /// fail operation number `.0` (and all later ones when `.2`) with code `.1`
    pub fault: Option<(u64, c_int, bool)>,
    pub ops: u64,
    pub hits: u64,
    temp: u64,
}

impl Disk {
    fn fails(&mut self, code: c_int) -> Option<c_int> {
        let n = self.ops;
        self.ops += 1;
        match self.fault {
            Some((at, c, sticky)) if n == at || (sticky && n > at) => {
                self.hits += 1;
                Some(if c == 0 { code } else { c })
            }
            _ => None,
        }
    }
}

type Disks = Mutex<HashMap<String, Arc<Mutex<Disk>>>>;
fn disks() -> &'static Disks {
    static D: OnceLock<Disks> = OnceLock::new();
    D.get_or_init(Default::default)
}

/// Put a disk under directory `root`.
pub fn mount(root: &str, files: Image) -> Arc<Mutex<Disk>> {
    init();
    let d = Arc::new(Mutex::new(Disk { files, ..Default::default() }));
    disks().lock().unwrap().insert(root.to_string(), d.clone());
    d
}
pub fn unmount(root: &str) {
    disks().lock().unwrap().remove(root);
}

fn split(path: &str) -> (String, String) {
    let (a, b) = path.rsplit_once('/').unwrap_or(("", path));
    (a.into(), b.into())
}

fn find(path: &str) -> Option<(Arc<Mutex<Disk>>, String)> {
    let (root, name) = split(path);
    Some((disks().lock().unwrap().get(&root)?.clone(), name))
}

struct Open {
    disk: Arc<Mutex<Disk>>,
    name: String,
    temp: bool,
    delete: bool,
}
#[repr(C)]
struct McFile {
    base: sqlite3_file,
    open: *mut Open,
}
unsafe fn open_of<'a>(f: *mut sqlite3_file) -> &'a Open {
    unsafe { &*(*(f as *mut McFile)).open }
}

unsafe extern "C" fn x_open(_v: *mut sqlite3_vfs, name: *const c_char, f: *mut sqlite3_file, flags: c_int, out: *mut c_int) -> c_int {
    unsafe {
        let mf = f as *mut McFile;
        (*mf).base.pMethods = std::ptr::null();
        let (disk, name, temp) = if name.is_null() {
            (Arc::new(Mutex::new(Disk::default())), "temp".to_string(), true)
        } else {
            match find(&CStr::from_ptr(name).to_string_lossy()) {
                Some((d, n)) => (d, n, false),
                None => return SQLITE_CANTOPEN,
            }
        };
        {
            let mut d = disk.lock().unwrap();
            if let Some(c) = d.fails(SQLITE_CANTOPEN) {
                return c;
            }
            if !d.files.contains_key(&name) {
                if flags & SQLITE_OPEN_CREATE == 0 && !temp {
                    return SQLITE_CANTOPEN;
                }
                d.temp += 1;
                d.files.insert(name.clone(), vec![]);
                if !temp {
                    d.log.push(Ev::Truncate(name.clone(), 0));
                }
            }
        }
        (*mf).open = Box::into_raw(Box::new(Open { disk, name, temp, delete: flags & SQLITE_OPEN_DELETEONCLOSE != 0 }));
        (*mf).base.pMethods = methods();
        if !out.is_null() {
            *out = flags;
        }
        SQLITE_OK
    }
}
unsafe extern "C" fn x_close(f: *mut sqlite3_file) -> c_int {
    unsafe {
        let o = Box::from_raw((*(f as *mut McFile)).open);
        if o.delete && !o.temp {
            let mut d = o.disk.lock().unwrap();
            d.files.remove(&o.name);
            d.log.push(Ev::Delete(o.name.clone(), false));
        }
        (*f).pMethods = std::ptr::null();
        SQLITE_OK
    }
}
unsafe extern "C" fn x_read(f: *mut sqlite3_file, buf: *mut c_void, n: c_int, off: sqlite3_int64) -> c_int {
    unsafe {
        let o = open_of(f);
        let mut d = o.disk.lock().unwrap();
        if let Some(c) = d.fails(SQLITE_IOERR_READ) {
            return c;
        }
        let out = std::slice::from_raw_parts_mut(buf as *mut u8, n as usize);
        out.fill(0);
        let Some(data) = d.files.get(&o.name) else { return SQLITE_IOERR_SHORT_READ };
        let off = off as usize;
        if off >= data.len() {
            return SQLITE_IOERR_SHORT_READ;
        }
        let m = (data.len() - off).min(n as usize);
        out[..m].copy_from_slice(&data[off..off + m]);
        if m < n as usize { SQLITE_IOERR_SHORT_READ } else { SQLITE_OK }
    }
}
pub fn write_at(data: &mut Vec<u8>, off: usize, b: &[u8]) {
    if data.len() < off + b.len() {
        data.resize(off + b.len(), 0);
    }
    data[off..off + b.len()].copy_from_slice(b);
}
unsafe extern "C" fn x_write(f: *mut sqlite3_file, buf: *const c_void, n: c_int, off: sqlite3_int64) -> c_int {
    unsafe {
        let o = open_of(f);
        let mut d = o.disk.lock().unwrap();
        let b = std::slice::from_raw_parts(buf as *const u8, n as usize);
        if let Some(c) = d.fails(SQLITE_IOERR_WRITE) {
            return c;
        }
        write_at(d.files.entry(o.name.clone()).or_default(), off as usize, b);
        if !o.temp {
            d.log.push(Ev::Write(o.name.clone(), off as usize, b.to_vec()));
        }
        SQLITE_OK
    }
}
unsafe extern "C" fn x_truncate(f: *mut sqlite3_file, n: sqlite3_int64) -> c_int {
    unsafe {
        let o = open_of(f);
        let mut d = o.disk.lock().unwrap();
        if let Some(c) = d.fails(SQLITE_IOERR_TRUNCATE) {
            return c;
        }
        d.files.entry(o.name.clone()).or_default().resize(n as usize, 0);
        if !o.temp {
            d.log.push(Ev::Truncate(o.name.clone(), n as usize));
        }
        SQLITE_OK
    }
}
unsafe extern "C" fn x_sync(f: *mut sqlite3_file, _flags: c_int) -> c_int {
    unsafe {
        let o = open_of(f);
        let mut d = o.disk.lock().unwrap();
        if let Some(c) = d.fails(SQLITE_IOERR_FSYNC) {
            return c;
        }
        if !o.temp {
            d.log.push(Ev::Sync(o.name.clone()));
        }
        SQLITE_OK
    }
}
unsafe extern "C" fn x_size(f: *mut sqlite3_file, out: *mut sqlite3_int64) -> c_int {
    unsafe {
        let o = open_of(f);
        let d = o.disk.lock().unwrap();
        *out = d.files.get(&o.name).map_or(0, |x| x.len()) as sqlite3_int64;
        SQLITE_OK
    }
}
unsafe extern "C" fn x_lock(_f: *mut sqlite3_file, _l: c_int) -> c_int {
    SQLITE_OK
}
unsafe extern "C" fn x_check(_f: *mut sqlite3_file, out: *mut c_int) -> c_int {
    unsafe {
        *out = 0;
    }
    SQLITE_OK
}
unsafe extern "C" fn x_control(_f: *mut sqlite3_file, _op: c_int, _a: *mut c_void) -> c_int {
    SQLITE_NOTFOUND
}
unsafe extern "C" fn x_sector(_f: *mut sqlite3_file) -> c_int {
    4096
}
unsafe extern "C" fn x_device(_f: *mut sqlite3_file) -> c_int {
    SQLITE_IOCAP_POWERSAFE_OVERWRITE
}
unsafe extern "C" fn x_delete(_v: *mut sqlite3_vfs, name: *const c_char, dir: c_int) -> c_int {
    unsafe {
        let Some((disk, name)) = find(&CStr::from_ptr(name).to_string_lossy()) else { return SQLITE_IOERR_DELETE };
        let mut d = disk.lock().unwrap();
        if let Some(c) = d.fails(SQLITE_IOERR_DELETE) {
            return c;
        }
        if d.files.remove(&name).is_none() {
            return SQLITE_IOERR_DELETE_NOENT;
        }
        d.log.push(Ev::Delete(name, dir != 0));
        SQLITE_OK
    }
}
unsafe extern "C" fn x_access(_v: *mut sqlite3_vfs, name: *const c_char, _flags: c_int, out: *mut c_int) -> c_int {
    unsafe {
        *out = 0;
        if let Some((disk, name)) = find(&CStr::from_ptr(name).to_string_lossy()) {
            // an existing but empty journal counts as none, as in SQLite's own VFS
            *out = disk.lock().unwrap().files.get(&name).is_some_and(|f| !f.is_empty()) as c_int;
        }
        SQLITE_OK
    }
}
unsafe extern "C" fn x_full(_v: *mut sqlite3_vfs, name: *const c_char, n: c_int, out: *mut c_char) -> c_int {
    unsafe {
        let b = CStr::from_ptr(name).to_bytes_with_nul();
        if b.len() > n as usize {
            return SQLITE_CANTOPEN;
        }
        std::ptr::copy_nonoverlapping(b.as_ptr() as *const c_char, out, b.len());
        SQLITE_OK
    }
}
unsafe extern "C" fn x_random(_v: *mut sqlite3_vfs, n: c_int, out: *mut c_char) -> c_int {
    unsafe {
        for i in 0..n as usize {
            *out.add(i) = (i * 37 + 11) as c_char;
        }
        n
    }
}
unsafe extern "C" fn x_sleep(_v: *mut sqlite3_vfs, us: c_int) -> c_int {
    us
}
unsafe extern "C" fn x_time(_v: *mut sqlite3_vfs, out: *mut f64) -> c_int {
    unsafe {
        *out = 2460000.5;
    }
    SQLITE_OK
}
unsafe extern "C" fn x_err(_v: *mut sqlite3_vfs, _n: c_int, _o: *mut c_char) -> c_int {
    0
}

fn methods() -> *const sqlite3_io_methods {
    static M: OnceLock<usize> = OnceLock::new();
    *M.get_or_init(|| {
        let m: sqlite3_io_methods = unsafe { std::mem::zeroed() };
        Box::into_raw(Box::new(sqlite3_io_methods {
            iVersion: 1,
            xClose: Some(x_close),
            xRead: Some(x_read),
            xWrite: Some(x_write),
            xTruncate: Some(x_truncate),
            xSync: Some(x_sync),
            xFileSize: Some(x_size),
            xLock: Some(x_lock),
            xUnlock: Some(x_lock),
            xCheckReservedLock: Some(x_check),
            xFileControl: Some(x_control),
            xSectorSize: Some(x_sector),
            xDeviceCharacteristics: Some(x_device),
            ..m
        })) as usize
    }) as *const sqlite3_io_methods
}

fn init() {
    static O: Once = Once::new();
    O.call_once(|| unsafe {
        let v: sqlite3_vfs = std::mem::zeroed();
        let v = Box::into_raw(Box::new(sqlite3_vfs {
            iVersion: 1,
            szOsFile: std::mem::size_of::<McFile>() as c_int,
            mxPathname: 1024,
            zName: c"mc-disk".as_ptr(),
            xOpen: Some(x_open),
            xDelete: Some(x_delete),
            xAccess: Some(x_access),
            xFullPathname: Some(x_full),
            xRandomness: Some(x_random),
            xSleep: Some(x_sleep),
            xCurrentTime: Some(x_time),
            xGetLastError: Some(x_err),
            ..v
        }));
        assert_eq!(sqlite3_vfs_register(v, 1), SQLITE_OK);
    });
}

/// What is on the disk after a crash: `base` with the events of `log[..n]`, where the operations not yet synced
/// are given by `keep` (their indices in `pending`).
pub struct Crash<'a> {
    log: &'a [Ev],
    n: usize,
    pub pending: Vec<usize>,
}

impl<'a> Crash<'a> {
    pub fn at(log: &'a [Ev], n: usize) -> Self {
        let mut pending: Vec<usize> = vec![];
        for (i, e) in log[..n].iter().enumerate() {
            match e {
                Ev::Sync(f) => pending.retain(|p| match &log[*p] {
                    Ev::Write(g, ..) | Ev::Truncate(g, _) | Ev::Delete(g, _) => g != f,
                    _ => false,
                }),
                Ev::Delete(f, true) => pending.retain(|p| match &log[*p] {
                    Ev::Write(g, ..) | Ev::Truncate(g, _) | Ev::Delete(g, _) => g != f,
                    _ => false,
                }),
                Ev::Mark(_) => {}
                _ => pending.push(i),
            }
        }
        Self { log, n, pending }
    }
    /// `keep(i)`: how much of pending operation i survives: None nothing, Some(None) all, Some(Some(k)) the first k
    /// bytes (k > 0) or all but the first -k (k < 0).
    pub fn image(&self, base: &Image, keep: impl Fn(usize) -> Option<Option<isize>>) -> Image {
        let mut img = base.clone();
        for (i, e) in self.log[..self.n].iter().enumerate() {
            let mut part = None;
            if let Some(k) = self.pending.iter().position(|p| *p == i) {
                match keep(k) {
                    None => continue,
                    Some(p) => part = p,
                }
            }
            match e {
                Ev::Write(f, off, d) => {
                    let data = img.entry(f.clone()).or_default();
                    match part {
                        None => write_at(data, *off, d),
                        Some(k) if k > 0 => write_at(data, *off, &d[..(k as usize).min(d.len())]),
                        Some(k) => {
                            let s = ((-k) as usize).min(d.len());
                            write_at(data, *off + s, &d[s..]);
                        }
                    }
                }
                Ev::Truncate(f, n) => img.entry(f.clone()).or_default().resize(*n, 0),
                Ev::Delete(f, _) => {
                    img.remove(f);
                }
                _ => {}
            }
        }
        img
    }
}
