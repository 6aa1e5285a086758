//! A node's chainstate and memory pool, driven one call at a time.

use std::{
    sync::{
        Arc,
        atomic::{AtomicU64, Ordering::SeqCst},
        mpsc,
    },
    time::Duration,
};

use chainstate::{BlockSource, ChainstateEvent, ChainstateHandle};
use common::{
    chain::{Block, GenBlock},
    primitives::{BlockHeight, Id, time::Time},
    time_getter::{TimeGetter, TimeGetterFn},
};
use mempool::{MempoolConfig, MempoolInit, MempoolInterface};
use subsystem::{Manager, ShutdownTrigger, SubmitOnlyHandle, Subsystem, blocking::BlockingHandle};
use utils::shallow_clone::ShallowClone;

use crate::{sim::World, spy::Spy};

/// The pool with the work it does in the background.
pub trait Pool: MempoolInterface {
    fn step(&mut self) -> bool;
}
impl<T: MempoolInterface + Subsystem<Interface = dyn MempoolInterface>> Pool for T {
    fn step(&mut self) -> bool {
        let more = self.has_background_work();
        if more {
            self.perform_background_work_unit();
        }
        more
    }
}

pub struct Clock(AtomicU64);
impl TimeGetterFn for Clock {
    fn get_time(&self) -> Time {
        Time::from_duration_since_epoch(Duration::from_secs(self.0.load(SeqCst)))
    }
}
impl Clock {
    pub fn add(&self, s: u64) {
        self.0.fetch_add(s, SeqCst);
    }
    pub fn now(&self) -> u64 {
        self.0.load(SeqCst)
    }
}

pub struct Node {
    pub spy: Spy,
    pub chain: BlockingHandle<dyn chainstate::chainstate_interface::ChainstateInterface>,
    pub pool: Box<dyn Pool>,
    pub clock: Arc<Clock>,
    stop: ShutdownTrigger,
}

#[derive(Debug)]
struct Never;
impl std::fmt::Display for Never {
    fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Never {}

enum Nothing {}
impl Subsystem for Nothing {
    type Interface = dyn MempoolInterface;
    fn interface_ref(&self) -> &Self::Interface {
        match *self {}
    }
    fn interface_mut(&mut self) -> &mut Self::Interface {
        match *self {}
    }
}

/// The runtime the chainstates live in, and a handle to hand to pools: events sent to it go nowhere, since the model
/// delivers them itself.
pub struct Host {
    rt: tokio::runtime::Runtime,
    nowhere: SubmitOnlyHandle<dyn MempoolInterface>,
}

impl Host {
    pub fn new() -> Host {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(8).enable_all().build().expect("a runtime");
        let (to, from) = mpsc::channel();
        let mut man = Manager::new("nowhere");
        man.add_custom_subsystem("mempool", move |h: SubmitOnlyHandle<dyn MempoolInterface>, _| async move {
            let _ = to.send(h);
            Err::<Nothing, _>(Never)
        });
        rt.spawn(man.main());
        Host { nowhere: from.recv().expect("a handle"), rt }
    }
}

impl Node {
    pub fn new(host: &Host, w: &World, config: MempoolConfig, now: u64) -> Result<Node, String> {
        let spy = Spy::of(&w.start);
        let chain = w.open(&spy)?;
        let clock = Arc::new(Clock(AtomicU64::new(now)));
        let mut man = Manager::new("model");
        let handle: ChainstateHandle = man.add_subsystem("chainstate", chain);
        let stop = man.make_shutdown_trigger();
        host.rt.spawn(man.main());
        let init = MempoolInit::new(w.config.clone(), config, handle.clone(), TimeGetter::new(clock.clone())).map_err(|e| e.to_string())?;
        let pool = futures::executor::block_on(init.init(host.nowhere.shallow_clone())).map_err(|e| e.to_string())?;
        Ok(Node { spy, chain: BlockingHandle::new(handle), pool: Box::new(pool), clock, stop })
    }
    pub fn mine(&self, b: Block) -> Result<bool, String> {
        let r = self.chain.call_mut(move |c| c.process_block(b, BlockSource::Local)).map_err(|e| e.to_string())?;
        r.map(|i| i.is_some()).map_err(|e| e.to_string())
    }
    pub fn notify(&mut self, id: Id<GenBlock>, height: u64) {
        self.pool.notify_chainstate_event(ChainstateEvent::NewTip { id, height: BlockHeight::new(height), is_initial_block_download: false });
    }
    pub fn drain(&mut self) -> usize {
        let mut n = 0;
        while self.pool.step() {
            n += 1;
            assert!(n < 100_000, "the pool's work does not end");
        }
        n
    }
}

impl Drop for Node {
    fn drop(&mut self) {
        self.stop.clone().initiate();
    }
}
