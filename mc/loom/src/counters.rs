use crate::explore;
use loom::{
    cell::UnsafeCell,
    sync::{
        Arc,
        atomic::{AtomicI32, Ordering},
    },
    thread,
};
use mc_kit::{Check, Ctx};
use std::any::TypeId;
use utils::{
    atomics::{self as named, AcqRelAtomic, AtomicNumTrait, AtomicTrait, RelaxedAtomic, SeqCstAtomic},
    blockuntilzero::BlockUntilZero,
};

pub const CHECK: Check = Check {
    id: "U04",
    level: "model_checking",
    rule: "every interleaving and every value the memory model allows a load to see",
    assumptions: &["loom's C11 model (no load buffering); waiting sleeps are replaced by blocking until the counter changes"],
    run,
};

/// An atomic counter whose load waits for progress of other threads instead of being polled endlessly.
struct Counter(AtomicI32, std::sync::atomic::AtomicU32);
impl From<i32> for Counter {
    fn from(v: i32) -> Self {
        Counter(v.into(), Default::default())
    }
}
impl AtomicTrait for Counter {
    type Type = i32;
    fn load(&self, order: Ordering) -> i32 {
        let v = self.0.load(order);
        if v == 0 || self.1.fetch_add(1, Ordering::Relaxed) == 0 {
            return v;
        }
        // later loads of a waiting loop: see the change
        loop {
            thread::yield_now();
            let v = self.0.load(order);
            if v == 0 {
                return v;
            }
        }
    }
    fn store(&self, val: i32, order: Ordering) {
        self.0.store(val, order)
    }
    fn swap(&self, val: i32, order: Ordering) -> i32 {
        self.0.swap(val, order)
    }
    fn compare_exchange(&self, c: i32, n: i32, s: Ordering, f: Ordering) -> Result<i32, i32> {
        self.0.compare_exchange(c, n, s, f)
    }
    fn compare_exchange_weak(&self, c: i32, n: i32, s: Ordering, f: Ordering) -> Result<i32, i32> {
        self.0.compare_exchange_weak(c, n, s, f)
    }
    fn fetch_update<F: FnMut(i32) -> Option<i32>>(&self, a: Ordering, b: Ordering, f: F) -> Result<i32, i32> {
        self.0.fetch_update(a, b, f)
    }
    fn fetch_and(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_and(v, o)
    }
    fn fetch_nand(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_update(o, Ordering::Relaxed, |x| Some(!(x & v))).unwrap()
    }
    fn fetch_or(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_or(v, o)
    }
    fn fetch_xor(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_xor(v, o)
    }
}
impl AtomicNumTrait for Counter {
    fn fetch_add(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_add(v, o)
    }
    fn fetch_sub(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_sub(v, o)
    }
    fn fetch_max(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_max(v, o)
    }
    fn fetch_min(&self, v: i32, o: Ordering) -> i32 {
        self.0.fetch_min(v, o)
    }
}

/// Plain memory: loom reports an access that is not ordered after another thread's.
struct Plain(UnsafeCell<u32>);
unsafe impl Sync for Plain {}
unsafe impl Send for Plain {}
impl Plain {
    fn new() -> Arc<Self> {
        Arc::new(Plain(UnsafeCell::new(0)))
    }
    fn add(&self) {
        self.0.with_mut(|p| unsafe { *p += 1 })
    }
    fn get(&self) -> u32 {
        self.0.with(|p| unsafe { *p })
    }
}

macro_rules! counting {
    ($c:ident, $name:literal, $kind:ident) => {
        explore($c, $name, Some(3), || {
            let n = Arc::new($kind::<u32>::new(5));
            let hs: Vec<_> = (0..2)
                .map(|i| {
                    let n = Arc::clone(&n);
                    thread::spawn(move || match i {
                        0 => (n.fetch_add(3), n.fetch_update(|x| Some(x + 7)).unwrap()),
                        _ => (n.fetch_sub(1), n.fetch_add(20)),
                    })
                })
                .collect();
            let seen = loop {
                let v = n.load();
                match n.compare_exchange(v, v + 100) {
                    Ok(was) => break (v, was),
                    Err(now) => assert_ne!(v, now),
                }
            };
            assert_eq!(seen.0, seen.1);
            for h in hs {
                h.join().unwrap();
            }
            assert_eq!(n.load(), 5 + 3 + 7 - 1 + 20 + 100);
            assert_eq!(n.swap(9), 134);
            assert_eq!((n.fetch_max(12), n.fetch_min(10), n.load()), (9, 12, 10));
        });
    };
}
macro_rules! publishing {
    ($c:ident, $name:literal, $kind:ident) => {
        explore($c, $name, None, || {
            let (flag, data) = (Arc::new($kind::<u32>::new(0)), Plain::new());
            let (f, d) = (Arc::clone(&flag), Arc::clone(&data));
            let h = thread::spawn(move || {
                d.add();
                f.store(1);
            });
            if flag.load() == 1 {
                assert_eq!(data.get(), 1);
            }
            h.join().unwrap();
        });
        explore($c, concat!($name, "-rmw"), Some(3), || {
            // every read-modify-write both takes over and passes on what came before
            let (flag, data) = (Arc::new($kind::<u32>::new(0)), Plain::new());
            let hs: Vec<_> = (0..2)
                .map(|i| {
                    let (f, d) = (Arc::clone(&flag), Arc::clone(&data));
                    thread::spawn(move || {
                        if i == 0 {
                            d.add();
                            f.fetch_add(1);
                        } else if f.compare_exchange(1, 2).is_ok() {
                            d.add();
                            f.fetch_or(4);
                        }
                    })
                })
                .collect();
            if flag.fetch_add(0) >= 6 {
                assert_eq!(data.get(), 2);
            }
            for h in hs {
                h.join().unwrap();
            }
        });
    };
}

fn run(ctx: &Ctx) {
    ctx.part("wait", "waiting for a counter: returns once all trackers are gone, after everything their holders did", |c| {
        c.par(6, |i| match i {
            5 => explore(c, "count-polled", Some(3), || {
                let b = BlockUntilZero::<Counter>::new();
                let d = Plain::new();
                let (t, d2) = (b.count_one(), Arc::clone(&d));
                let h = thread::spawn(move || {
                    d2.add();
                    drop(t);
                });
                if b.value() == 0 {
                    assert_eq!(d.get(), 1, "the count fell early");
                }
                h.join().unwrap();
            }),
            0 | 1 => {
                // i+1 workers, each tracked by the waiting thread
                explore(c, &format!("wait-{i}"), Some(3), move || {
                    let b = BlockUntilZero::<Counter>::new();
                    let data: Vec<_> = (0..=i).map(|_| Plain::new()).collect();
                    let hs: Vec<_> = data
                        .iter()
                        .map(|d| {
                            let (t, d) = (b.count_one(), Arc::clone(d));
                            thread::spawn(move || {
                                d.add();
                                drop(t);
                            })
                        })
                        .collect();
                    b.wait_for_zero();
                    for d in &data {
                        assert_eq!(d.get(), 1, "waiting returned early");
                    }
                    assert_eq!(b.value(), 0);
                    for h in hs {
                        h.join().unwrap();
                    }
                });
            }
            2 => explore(c, "wait-on-drop", Some(3), || {
                let b = BlockUntilZero::<Counter>::new();
                let d = Plain::new();
                let (t, d2) = (b.count_one(), Arc::clone(&d));
                let h = thread::spawn(move || {
                    d2.add();
                    drop(t);
                });
                drop(b);
                assert_eq!(d.get(), 1, "dropping did not wait");
                h.join().unwrap();
            }),
            3 => explore(c, "count-publishes", Some(3), || {
                // whoever sees by the count that the other is done sees what it did
                let b = BlockUntilZero::<Counter>::new();
                let d = Plain::new();
                let (mine, other, d2) = (b.count_one(), b.count_one(), Arc::clone(&d));
                let h = thread::spawn(move || {
                    d2.add();
                    drop(other);
                });
                if mine.value() == 1 {
                    assert_eq!(d.get(), 1, "the count fell early");
                }
                h.join().unwrap();
                drop(mine);
            }),
            _ => explore(c, "nested-trackers", Some(3), || {
                // a worker that hands a new tracker on before giving up its own
                let b = Arc::new(BlockUntilZero::<Counter>::new());
                let d = Plain::new();
                let (t, d2, b2) = (b.count_one(), Arc::clone(&d), Arc::clone(&b));
                let h = thread::spawn(move || {
                    let t2 = b2.count_one();
                    drop(b2);
                    drop(t);
                    thread::yield_now();
                    d2.add();
                    drop(t2);
                });
                b.wait_for_zero();
                assert_eq!(d.get(), 1, "waiting returned early");
                h.join().unwrap();
            }),
        });
    });
    ctx.part("atomics", "no lost updates with any ordering; acquire/release and sequentially consistent ones publish", |c| {
        counting!(c, "relaxed", RelaxedAtomic);
        counting!(c, "acqrel", AcqRelAtomic);
        counting!(c, "seqcst", SeqCstAtomic);
        publishing!(c, "acqrel-publish", AcqRelAtomic);
        publishing!(c, "seqcst-publish", SeqCstAtomic);
        // each named type has the ordering it is named after
        for (name, is, of) in [
            ("RelaxedAtomicBool", TypeId::of::<named::RelaxedAtomicBool>(), TypeId::of::<RelaxedAtomic<bool>>()),
            ("RelaxedAtomicI8", TypeId::of::<named::RelaxedAtomicI8>(), TypeId::of::<RelaxedAtomic<i8>>()),
            ("RelaxedAtomicU8", TypeId::of::<named::RelaxedAtomicU8>(), TypeId::of::<RelaxedAtomic<u8>>()),
            ("RelaxedAtomicI16", TypeId::of::<named::RelaxedAtomicI16>(), TypeId::of::<RelaxedAtomic<i16>>()),
            ("RelaxedAtomicU16", TypeId::of::<named::RelaxedAtomicU16>(), TypeId::of::<RelaxedAtomic<u16>>()),
            ("RelaxedAtomicI32", TypeId::of::<named::RelaxedAtomicI32>(), TypeId::of::<RelaxedAtomic<i32>>()),
            ("RelaxedAtomicU32", TypeId::of::<named::RelaxedAtomicU32>(), TypeId::of::<RelaxedAtomic<u32>>()),
            ("RelaxedAtomicI64", TypeId::of::<named::RelaxedAtomicI64>(), TypeId::of::<RelaxedAtomic<i64>>()),
            ("RelaxedAtomicU64", TypeId::of::<named::RelaxedAtomicU64>(), TypeId::of::<RelaxedAtomic<u64>>()),
            ("RelaxedAtomicIsize", TypeId::of::<named::RelaxedAtomicIsize>(), TypeId::of::<RelaxedAtomic<isize>>()),
            ("RelaxedAtomicUsize", TypeId::of::<named::RelaxedAtomicUsize>(), TypeId::of::<RelaxedAtomic<usize>>()),
            ("AcqRelAtomicBool", TypeId::of::<named::AcqRelAtomicBool>(), TypeId::of::<AcqRelAtomic<bool>>()),
            ("AcqRelAtomicI8", TypeId::of::<named::AcqRelAtomicI8>(), TypeId::of::<AcqRelAtomic<i8>>()),
            ("AcqRelAtomicU8", TypeId::of::<named::AcqRelAtomicU8>(), TypeId::of::<AcqRelAtomic<u8>>()),
            ("AcqRelAtomicI16", TypeId::of::<named::AcqRelAtomicI16>(), TypeId::of::<AcqRelAtomic<i16>>()),
            ("AcqRelAtomicU16", TypeId::of::<named::AcqRelAtomicU16>(), TypeId::of::<AcqRelAtomic<u16>>()),
            ("AcqRelAtomicI32", TypeId::of::<named::AcqRelAtomicI32>(), TypeId::of::<AcqRelAtomic<i32>>()),
            ("AcqRelAtomicU32", TypeId::of::<named::AcqRelAtomicU32>(), TypeId::of::<AcqRelAtomic<u32>>()),
            ("AcqRelAtomicI64", TypeId::of::<named::AcqRelAtomicI64>(), TypeId::of::<AcqRelAtomic<i64>>()),
            ("AcqRelAtomicU64", TypeId::of::<named::AcqRelAtomicU64>(), TypeId::of::<AcqRelAtomic<u64>>()),
            ("AcqRelAtomicIsize", TypeId::of::<named::AcqRelAtomicIsize>(), TypeId::of::<AcqRelAtomic<isize>>()),
            ("AcqRelAtomicUsize", TypeId::of::<named::AcqRelAtomicUsize>(), TypeId::of::<AcqRelAtomic<usize>>()),
            ("SeqCstAtomicBool", TypeId::of::<named::SeqCstAtomicBool>(), TypeId::of::<SeqCstAtomic<bool>>()),
            ("SeqCstAtomicI8", TypeId::of::<named::SeqCstAtomicI8>(), TypeId::of::<SeqCstAtomic<i8>>()),
            ("SeqCstAtomicU8", TypeId::of::<named::SeqCstAtomicU8>(), TypeId::of::<SeqCstAtomic<u8>>()),
            ("SeqCstAtomicI16", TypeId::of::<named::SeqCstAtomicI16>(), TypeId::of::<SeqCstAtomic<i16>>()),
            ("SeqCstAtomicU16", TypeId::of::<named::SeqCstAtomicU16>(), TypeId::of::<SeqCstAtomic<u16>>()),
            ("SeqCstAtomicI32", TypeId::of::<named::SeqCstAtomicI32>(), TypeId::of::<SeqCstAtomic<i32>>()),
            ("SeqCstAtomicU32", TypeId::of::<named::SeqCstAtomicU32>(), TypeId::of::<SeqCstAtomic<u32>>()),
            ("SeqCstAtomicI64", TypeId::of::<named::SeqCstAtomicI64>(), TypeId::of::<SeqCstAtomic<i64>>()),
            ("SeqCstAtomicU64", TypeId::of::<named::SeqCstAtomicU64>(), TypeId::of::<SeqCstAtomic<u64>>()),
            ("SeqCstAtomicIsize", TypeId::of::<named::SeqCstAtomicIsize>(), TypeId::of::<SeqCstAtomic<isize>>()),
            ("SeqCstAtomicUsize", TypeId::of::<named::SeqCstAtomicUsize>(), TypeId::of::<SeqCstAtomic<usize>>()),
        ] {
            c.evals(1);
            c.eq(|| format!("{name} is of its order"), &(is == of), &true);
        }
        explore(c, "seqcst-order", None, || {
            // two flags: at least one thread sees the other's (Dekker)
            let (a, b) = (Arc::new(SeqCstAtomic::<u32>::new(0)), Arc::new(SeqCstAtomic::<u32>::new(0)));
            let (a2, b2) = (Arc::clone(&a), Arc::clone(&b));
            let h = thread::spawn(move || {
                a2.swap(1);
                b2.swap(2)
            });
            b.swap(1);
            let y = a.swap(2);
            let x = h.join().unwrap();
            assert!(x == 1 || y == 1, "neither saw the other");
        });
    });
}
