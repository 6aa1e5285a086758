//! A storage backend whose committed content can be taken, put back and compared in one step, and which fails at a
//! chosen operation.

use std::{
    borrow::Cow,
    collections::BTreeMap,
    sync::{Arc, Mutex},
};

use storage_core::{
    Data, DbDesc, DbMapId,
    backend::{Backend, BackendImpl, ReadOps, SharedBackend, SharedBackendImpl, TxRo, TxRw, WriteOps},
    error::{Error, Recoverable},
};
use utils::shallow_clone::ShallowClone;

pub type Map = Arc<BTreeMap<Data, Data>>;
/// Everything committed, by map.
pub type Image = Arc<Vec<Map>>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fail {
    /// Operation n fails in a way the caller may retry.
    Once(u64),
    /// Operation n fails in a way that retrying does not help.
    Hard(u64),
    /// Everything from operation n on fails: the process is as good as dead.
    Dead(u64),
}

#[derive(Default)]
struct Inner {
    image: Image,
    ops: u64,
    commits: u64,
    plan: Option<Fail>,
}

#[derive(Clone, Default)]
pub struct Spy(Arc<Mutex<Inner>>);

impl Spy {
    pub fn of(image: &Image) -> Self {
        Spy(Arc::new(Mutex::new(Inner { image: image.clone(), ..Default::default() })))
    }
    pub fn image(&self) -> Image {
        self.0.lock().unwrap().image.clone()
    }
    /// Count operations from now on and fail as told.
    pub fn plan(&self, plan: Option<Fail>) {
        let mut i = self.0.lock().unwrap();
        i.ops = 0;
        i.commits = 0;
        i.plan = plan;
    }
    pub fn ops(&self) -> u64 {
        self.0.lock().unwrap().ops
    }
    pub fn commits(&self) -> u64 {
        self.0.lock().unwrap().commits
    }
    fn op(&self) -> storage_core::Result<()> {
        let mut i = self.0.lock().unwrap();
        let n = i.ops;
        i.ops += 1;
        match i.plan {
            Some(Fail::Once(k)) if k == n => Err(Error::Recoverable(Recoverable::TransactionFailed)),
            Some(Fail::Hard(k)) if k == n => Err(Error::Recoverable(Recoverable::Io(std::io::ErrorKind::Other, "injected".into()))),
            Some(Fail::Dead(k)) if n >= k => Err(Error::Recoverable(Recoverable::Io(std::io::ErrorKind::Other, "injected".into()))),
            _ => Ok(()),
        }
    }
}

/// Names of the maps that differ.
pub fn diff(a: &Image, b: &Image, skip: &[usize]) -> Vec<String> {
    let mut out = vec![];
    for (i, (x, y)) in a.iter().zip(b.iter()).enumerate() {
        if skip.contains(&i) || Arc::ptr_eq(x, y) || x == y {
            continue;
        }
        let only_a = x.iter().filter(|(k, v)| y.get(*k) != Some(*v)).count();
        let only_b = y.iter().filter(|(k, v)| x.get(*k) != Some(*v)).count();
        out.push(format!("map {i}: {only_a} entries of the one and {only_b} of the other have no equal"));
    }
    out
}

impl ShallowClone for Spy {
    fn shallow_clone(&self) -> Self {
        Spy(self.0.clone())
    }
}

pub struct Ro {
    spy: Spy,
    image: Image,
}
pub struct Rw {
    spy: Spy,
    image: Image,
    over: Vec<BTreeMap<Data, Option<Data>>>,
}

fn after_prefix(prefix: &[u8], k: &[u8]) -> bool {
    k.starts_with(prefix)
}

impl ReadOps for Ro {
    fn get(&self, m: DbMapId, key: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> {
        self.spy.op()?;
        Ok(self.image[m.as_usize()].get(key).map(|v| v.into()))
    }
    fn prefix_iter(&self, m: DbMapId, prefix: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        self.spy.op()?;
        let p = prefix.clone();
        Ok(self.image[m.as_usize()].range(prefix..).take_while(move |(k, _)| after_prefix(&p, k)).map(|(k, v)| (k.clone(), v.clone())))
    }
    fn greater_equal_iter(&self, m: DbMapId, key: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        self.spy.op()?;
        Ok(self.image[m.as_usize()].range(key..).map(|(k, v)| (k.clone(), v.clone())))
    }
}
impl TxRo for Ro {}

impl Rw {
    fn merged(&self, m: usize, from: Data) -> BTreeMap<Data, Data> {
        let mut r: BTreeMap<Data, Data> = self.image[m].range(from.clone()..).map(|(k, v)| (k.clone(), v.clone())).collect();
        for (k, v) in self.over[m].range(from..) {
            match v {
                Some(v) => r.insert(k.clone(), v.clone()),
                None => r.remove(k),
            };
        }
        r
    }
}
impl ReadOps for Rw {
    fn get(&self, m: DbMapId, key: &[u8]) -> storage_core::Result<Option<Cow<'_, [u8]>>> {
        self.spy.op()?;
        Ok(match self.over[m.as_usize()].get(key) {
            Some(v) => v.as_ref().map(|v| v.as_slice().into()),
            None => self.image[m.as_usize()].get(key).map(|v| v.into()),
        })
    }
    fn prefix_iter(&self, m: DbMapId, prefix: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        self.spy.op()?;
        let p = prefix.clone();
        Ok(self.merged(m.as_usize(), prefix).into_iter().take_while(move |(k, _)| after_prefix(&p, k)))
    }
    fn greater_equal_iter(&self, m: DbMapId, key: Data) -> storage_core::Result<impl Iterator<Item = (Data, Data)> + '_> {
        self.spy.op()?;
        Ok(self.merged(m.as_usize(), key).into_iter())
    }
}
impl WriteOps for Rw {
    fn put(&mut self, m: DbMapId, key: Data, val: Data) -> storage_core::Result<()> {
        self.spy.op()?;
        self.over[m.as_usize()].insert(key, Some(val));
        Ok(())
    }
    fn del(&mut self, m: DbMapId, key: &[u8]) -> storage_core::Result<()> {
        self.spy.op()?;
        self.over[m.as_usize()].insert(key.to_vec(), None);
        Ok(())
    }
}
impl TxRw for Rw {
    fn commit(self) -> storage_core::Result<()> {
        self.spy.op()?;
        let mut maps: Vec<Map> = self.image.as_ref().clone();
        for (i, o) in self.over.into_iter().enumerate() {
            if o.is_empty() {
                continue;
            }
            let m = Arc::make_mut(&mut maps[i]);
            for (k, v) in o {
                match v {
                    Some(v) => m.insert(k, v),
                    None => m.remove(&k),
                };
            }
        }
        let mut i = self.spy.0.lock().unwrap();
        i.image = Arc::new(maps);
        i.commits += 1;
        Ok(())
    }
}

impl Backend for Spy {
    type Impl = Spy;
    fn open(self, desc: DbDesc) -> storage_core::Result<Spy> {
        let n = desc.db_map_count().as_usize();
        {
            let mut i = self.0.lock().unwrap();
            if i.image.is_empty() {
                i.image = Arc::new((0..n).map(|_| Map::default()).collect());
            }
        }
        Ok(self)
    }
}
impl BackendImpl for Spy {
    type TxRo<'a> = Ro;
    type TxRw<'a> = Rw;
    fn transaction_ro(&self) -> storage_core::Result<Ro> {
        self.op()?;
        Ok(Ro { spy: self.clone(), image: self.image() })
    }
    fn transaction_rw(&mut self, size: Option<usize>) -> storage_core::Result<Rw> {
        SharedBackendImpl::transaction_rw(self, size)
    }
}
impl SharedBackend for Spy {
    type ImplHelper = Spy;
}
impl SharedBackendImpl for Spy {
    fn transaction_rw(&self, _: Option<usize>) -> storage_core::Result<Rw> {
        self.op()?;
        let image = self.image();
        let over = vec![BTreeMap::new(); image.len()];
        Ok(Rw { spy: self.clone(), image, over })
    }
}
impl chainstate_storage::BlockchainStorageBackendImpl for Spy {
    fn set_reckless_mode(&self, _: bool) -> chainstate_storage::Result<()> {
        Ok(())
    }
    fn in_reckless_mode(&self) -> chainstate_storage::Result<bool> {
        Ok(false)
    }
}
impl chainstate_storage::BlockchainStorageBackend for Spy {
    type ImplHelper = Spy;
}
