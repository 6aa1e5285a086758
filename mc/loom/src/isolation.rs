use crate::explore;
use loom::thread;
use mc_kit::{Check, Ctx};
use storage_core::{
    Backend, DbMapDesc, DbMapId,
    backend::{ReadOps, SharedBackendImpl, BackendImpl, TxRw, WriteOps},
};
use storage_inmemory::{InMemory, InMemoryImpl};

pub const CHECK: Check = Check {
    id: "S03",
    level: "model_checking",
    rule: "every interleaving, up to the stated number of preemptions, of transactions on the shared in-memory backend",
    assumptions: &["loom's scheduler replaces std::sync under cfg(loom); the lock algorithm inside the OS/std RwLock is not part of it"],
    run,
};

fn desc() -> storage_core::DbDesc {
    storage_core::types::construct::db_desc(["one", "two"].into_iter().map(DbMapDesc::new))
}
fn ids() -> [DbMapId; 2] {
    let mut i = desc().db_map_count().indices();
    [i.next().unwrap(), i.next().unwrap()]
}
fn open() -> InMemoryImpl {
    let s = InMemory::new().open(desc()).unwrap();
    let mut tx = SharedBackendImpl::transaction_rw(&s, None).unwrap();
    for id in ids() {
        tx.put(id, b"k".to_vec(), vec![0]).unwrap();
    }
    tx.commit().unwrap();
    s
}
fn num(tx: &impl ReadOps, m: usize) -> u8 {
    tx.get(ids()[m], b"k").unwrap().unwrap()[0]
}
fn iterated(tx: &impl ReadOps, m: usize) -> Vec<(Vec<u8>, Vec<u8>)> {
    let a: Vec<_> = tx.prefix_iter(ids()[m], vec![]).unwrap().collect();
    let b: Vec<_> = tx.greater_equal_iter(ids()[m], vec![]).unwrap().collect();
    assert_eq!(a, b, "the two iterations of one transaction differ");
    a
}

/// What one thread does.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Job {
    /// adds to both maps, in one transaction
    Add(u8),
    /// the same, but dropped without committing
    Abort(u8),
    /// deletes from both maps / puts back
    Del,
    /// reads both maps twice in one transaction
    Read,
    /// two transactions one after another: what is read never goes back
    ReadTwice,
    /// a transaction with a write followed by a read transaction that has to see it
    AddThenRead(u8),
}
use Job::*;

fn add(s: &InMemoryImpl, n: u8, commit: bool) -> u8 {
    let mut tx = SharedBackendImpl::transaction_rw(s, None).unwrap();
    let get = |tx: &dyn Fn(usize) -> Option<Vec<u8>>, m| tx(m).map_or(0, |v| v[0]);
    let a = get(&|m| tx.get(ids()[m], b"k").unwrap().map(|v| v.to_vec()), 0);
    tx.put(ids()[0], b"k".to_vec(), vec![a + n]).unwrap();
    let b = get(&|m| tx.get(ids()[m], b"k").unwrap().map(|v| v.to_vec()), 1);
    assert_eq!(a, b, "a writer saw half of another transaction");
    tx.put(ids()[1], b"k".to_vec(), vec![b + n]).unwrap();
    assert_eq!(num(&tx, 0), a + n, "a writer does not see its own write");
    if commit {
        tx.commit().unwrap();
    }
    a
}
fn read(s: &InMemoryImpl) -> Option<u8> {
    let tx = s.transaction_ro().unwrap();
    let all = [0, 1].map(|m| iterated(&tx, m));
    let got = [0, 1, 0].map(|m| tx.get(ids()[m], b"k").unwrap().map(|v| v[0]));
    assert_eq!(got[0], got[1], "a reader saw half of a transaction");
    assert_eq!(got[0], got[2], "what a reader sees changed inside its transaction");
    assert_eq!(all[0], all[1], "a reader iterated over half of a transaction");
    assert_eq!(all[0].first().map(|(_, v)| v[0]), got[0], "iteration and lookup of one reader differ");
    got[0]
}
fn job(s: &InMemoryImpl, j: Job, deleted: bool) {
    match j {
        Add(n) => {
            add(s, n, true);
        }
        Abort(n) => {
            add(s, n, false);
        }
        Del => {
            let mut tx = SharedBackendImpl::transaction_rw(s, None).unwrap();
            for id in ids() {
                tx.del(id, b"k").unwrap();
            }
            tx.commit().unwrap();
        }
        Read => {
            read(s);
        }
        ReadTwice => {
            let a = read(s);
            let b = read(s);
            assert!(deleted || a <= b, "a later reader saw an earlier state: {a:?} then {b:?}");
        }
        AddThenRead(n) => {
            let a = add(s, n, true);
            let b = read(s);
            assert!(deleted || b >= Some(a + n), "a committed write is not seen afterwards");
        }
    }
}

fn run(ctx: &Ctx) {
    let jobs: Vec<Vec<Job>> = vec![
        vec![Add(1), Add(2)],
        vec![Add(1), Read],
        vec![Add(1), ReadTwice],
        vec![Add(1), Abort(2)],
        vec![Abort(4), Read],
        vec![AddThenRead(1), AddThenRead(2)],
        vec![Del, Read],
        vec![Del, Add(1)],
        vec![Add(1), Add(2), Read],
        vec![Add(1), Abort(2), ReadTwice],
        vec![Add(1), AddThenRead(2), Abort(4)],
        vec![Del, Add(1), Read],
        vec![Add(1), Add(2), Add(4)],
        vec![Read, ReadTwice, Add(1)],
        vec![AddThenRead(1), AddThenRead(2), ReadTwice],
        vec![AddThenRead(1), AddThenRead(2), AddThenRead(4)],
        vec![AddThenRead(1), Del, AddThenRead(4)],
    ];
    let three = ctx.pick(Some(4), None);
    ctx.part("shared-backend", "all interleavings of two threads, of three with a preemption bound", |c| {
        c.par(jobs.len(), |i| {
            let js = jobs[i].clone();
            let name = format!("{js:?}");
            let bound = if js.len() == 2 { None } else { three };
            explore(c, &name, bound, move || {
                let s = open();
                let js = js.clone();
                let deleted = js.contains(&Del);
                let hs: Vec<_> = js[1..]
                    .iter()
                    .map(|j| {
                        let (s, j) = (s.clone(), *j);
                        thread::spawn(move || job(&s, j, deleted))
                    })
                    .collect();
                job(&s, js[0], deleted);
                for h in hs {
                    h.join().unwrap();
                }
                let got = read(&s);
                let adds: u8 = js.iter().map(|j| if let Add(n) | AddThenRead(n) = j { *n } else { 0 }).sum();
                let sum = adds;
                if deleted {
                    // the additions are powers of two: those after the deletion remain
                    assert!(got != Some(0) && got.unwrap_or(0) & !adds == 0, "after {js:?}: {got:?}");
                } else {
                    assert_eq!(got, Some(sum), "lost or duplicated write");
                }
            });
        });
    });
}
