//! S02: what SQLite-backed storage holds after a crash or an I/O error, over every crash point and every fault.

use crate::vfs::{self, Crash, Ev, Image};
use mc_kit::{Ctx, PartCtx, Scratch, guard, hash128};
use rusqlite::ffi;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use storage_core::{
    Backend, DbDesc, DbMapDesc, DbMapId,
    backend::{BackendImpl, ReadOps, TxRw, WriteOps},
};
use storage_sqlite::{Options, Sqlite};

pub type Map = BTreeMap<Vec<u8>, Vec<u8>>;
pub type Model = Vec<Map>;

fn desc() -> DbDesc {
    storage_core::types::construct::db_desc(["one", "two"].into_iter().map(DbMapDesc::new))
}

#[derive(Clone, Debug)]
enum Op {
    Put(usize, Vec<u8>, Vec<u8>),
    Del(usize, Vec<u8>),
}
use Op::*;

#[derive(Clone, Debug)]
struct Tx {
    ops: Vec<Op>,
    commit: bool,
}

fn apply(m: &mut Model, ops: &[Op]) {
    for o in ops {
        match o {
            Put(i, k, v) => {
                m[*i].insert(k.clone(), v.clone());
            }
            Del(i, k) => {
                m[*i].remove(k);
            }
        }
    }
}

fn tx(commit: bool, ops: Vec<Op>) -> Tx {
    Tx { ops, commit }
}

fn histories(thorough: bool) -> Vec<(&'static str, Vec<Tx>)> {
    let big = |c: u8, n: usize| vec![c; n];
    let k = |s: &str| s.as_bytes().to_vec();
    let mut h = vec![
        (
            "small",
            vec![
                tx(true, vec![Put(0, k("a"), k("1")), Put(1, k("a"), k("x"))]),
                tx(true, vec![Put(0, k("a"), k("2")), Del(1, k("a")), Put(1, k("b"), k("y"))]),
                tx(false, vec![Del(0, k("a")), Put(0, k("c"), k("3"))]),
                tx(true, vec![Del(0, k("a")), Put(0, k("b"), k("4"))]),
            ],
        ),
        (
            "pages",
            vec![
                tx(true, vec![Put(0, k("a"), big(1, 9000)), Put(1, k("b"), big(2, 3000))]),
                tx(true, vec![Put(0, k("a"), big(3, 5000)), Put(0, k("b"), big(4, 5000)), Put(1, k("b"), big(5, 100))]),
                tx(true, vec![Del(0, k("a")), Del(0, k("b")), Put(1, k("c"), big(6, 4500))]),
            ],
        ),
        (
            "delete-all",
            vec![
                tx(true, (0..4).map(|i| Put(0, vec![i], big(i, 1500))).collect()),
                tx(true, (0..4).map(|i| Del(0, vec![i])).chain([Put(1, vec![0], vec![])]).collect()),
                tx(true, (0..4).map(|i| Put(1, vec![i], big(7, 1500))).collect()),
            ],
        ),
    ];
    if thorough {
        h.push((
            "spill",
            vec![
                tx(true, (0..40).map(|i| Put(0, vec![i], big(i, 4000))).collect()),
                tx(true, (0..40).map(|i| Put((i % 2) as usize, vec![i], big(i + 100, 4000))).collect()),
                tx(true, (0..40).step_by(3).map(|i| Del(0, vec![i])).collect()),
            ],
        ));
    }
    h
}

fn read_all(imp: &storage_sqlite::SqliteImpl) -> Result<Model, String> {
    let ro = imp.transaction_ro().map_err(|e| format!("cannot read: {e}"))?;
    (0..2)
        .map(|i| {
            let it = ro.prefix_iter(DbMapId::new(i), vec![]).map_err(|e| format!("cannot read: {e}"))?;
            Ok(it.collect::<Map>())
        })
        .collect()
}

fn run_tx(imp: &mut storage_sqlite::SqliteImpl, t: &Tx) -> storage_core::Result<()> {
    let mut w = imp.transaction_rw(None)?;
    for o in &t.ops {
        match o {
            Put(i, k, v) => w.put(DbMapId::new(*i), k.clone(), v.clone())?,
            Del(i, k) => w.del(DbMapId::new(*i), k)?,
        }
    }
    if t.commit { w.commit() } else { Ok(()) }
}

/// The same by a caller that goes on after an error; what it was told is in the transaction.
fn run_careless(imp: &mut storage_sqlite::SqliteImpl, t: &Tx, model: &Model) -> Result<(storage_core::Result<()>, Vec<Op>), String> {
    let mut done = vec![];
    let mut now = model.clone();
    let mut w = match imp.transaction_rw(None) {
        Ok(w) => w,
        Err(e) => return Ok((Err(e), done)),
    };
    for o in &t.ops {
        let r = match o {
            Put(i, k, v) => w.put(DbMapId::new(*i), k.clone(), v.clone()),
            Del(i, k) => w.del(DbMapId::new(*i), k),
        };
        if r.is_ok() {
            done.push(o.clone());
            apply(&mut now, std::slice::from_ref(o));
        }
        for (i, m) in now.iter().enumerate() {
            if let Ok(it) = w.prefix_iter(DbMapId::new(i), vec![]) {
                if !it.eq(m.clone()) {
                    return Err(format!("the transaction does not see its own contents after {} operations, without an error", done.len()));
                }
            }
            for (k, v) in m {
                if w.get(DbMapId::new(i), k).is_ok_and(|got| got.as_deref() != Some(&v[..])) {
                    return Err(format!("the transaction does not see its own value of {k:?} after {} operations, without an error", done.len()));
                }
            }
        }
    }
    Ok((if t.commit { w.commit() } else { Ok(()) }, done))
}

struct Root {
    scratch: Scratch,
    n: AtomicU64,
}
impl Root {
    fn fresh(&self) -> String {
        // the directory must exist for the code under test; the files are only in the simulated disk
        let p = self.scratch.path().join(format!("d{}", self.n.fetch_add(1, Relaxed)));
        p.to_string_lossy().into_owned()
    }
}

fn backend(root: &str, fsync: bool) -> Sqlite {
    let s = Sqlite::new(format!("{root}/db"));
    // the default options are the ones with syncing
    if fsync { s } else { s.with_options(Options { disable_fsync: true }) }
}

/// Open what a crash left, check it is one of `allowed`, and that it can still be written.
fn recover(root: &Root, img: Image, fsync: bool, allowed: &[&Model]) -> Result<Vec<Ev>, String> {
    let dir = root.fresh();
    let disk = vfs::mount(&dir, img);
    let r = guard(|| -> Result<(), String> {
        let mut imp = backend(&dir, fsync).open(desc()).map_err(|e| format!("does not open: {e}"))?;
        let got = read_all(&imp)?;
        if !allowed.iter().any(|m| **m == got) {
            return Err(format!("contents {} are none of {}", show(&got), allowed.iter().map(|m| show(m)).collect::<Vec<_>>().join(" or ")));
        }
        run_tx(&mut imp, &tx(true, vec![Put(0, b"after".to_vec(), b"z".to_vec())])).map_err(|e| format!("cannot write after recovery: {e}"))?;
        let mut want = got;
        want[0].insert(b"after".to_vec(), b"z".to_vec());
        let got = read_all(&imp)?;
        if got != want {
            return Err(format!("after recovery and one more write: {} instead of {}", show(&got), show(&want)));
        }
        Ok(())
    });
    vfs::unmount(&dir);
    let _ = std::fs::remove_dir(&dir);
    match r {
        Ok(Ok(())) => Ok(std::mem::take(&mut disk.lock().unwrap().log)),
        Ok(Err(e)) | Err(e) => Err(e),
    }
}

fn show(m: &Model) -> String {
    let s: Vec<String> = m
        .iter()
        .map(|m| m.iter().map(|(k, v)| format!("{}={}x{}", mc_kit::hex(k), v.first().map_or("".into(), |b| format!("{b:02x}")), v.len())).collect::<Vec<_>>().join(","))
        .collect();
    format!("[{}]", s.join(" | "))
}

/// All sets of surviving operations of a crash point that are tried.
fn survivors(pending: usize, all: usize) -> Vec<Vec<Option<Option<isize>>>> {
    let mut out = vec![];
    if pending <= all {
        for m in 0u32..1 << pending {
            out.push((0..pending).map(|i| (m >> i & 1 == 1).then_some(None)).collect());
        }
    } else {
        for i in 0..=pending {
            out.push((0..pending).map(|j| (j < i).then_some(None)).collect());
        }
        for i in 0..pending {
            out.push((0..pending).map(|j| (j != i).then_some(None)).collect());
            out.push((0..pending).map(|j| (j == i).then_some(None)).collect());
            for l in i + 1..pending {
                out.push((0..pending).map(|j| (j != i && j != l).then_some(None)).collect());
            }
        }
    }
    // torn: one operation half done, those before it done or not
    for i in 0..pending {
        for half in [512, -512, 2048] {
            for before in [true, false] {
                out.push((0..pending).map(|j| if j == i { Some(Some(half)) } else { (j < i && before).then_some(None) }).collect());
            }
        }
    }
    out
}

fn crash_points(p: &PartCtx, name: &str, hist: &[Tx], fsync: bool, all: usize) {
    let root = Root { scratch: Scratch::new("sqlite"), n: AtomicU64::new(0) };
    let dir = root.fresh();
    let disk = vfs::mount(&dir, Image::new());
    // models[i]: contents after i marks
    let mut models: Vec<Model> = vec![vec![Map::new(); 2]];
    {
        let mut imp = match backend(&dir, fsync).open(desc()) {
            Ok(i) => i,
            Err(e) => return p.fail(format!("{name}: open"), e.to_string()),
        };
        for t in hist {
            let mut m = models.last().unwrap().clone();
            if t.commit {
                apply(&mut m, &t.ops);
            }
            if let Err(e) = run_tx(&mut imp, t) {
                return p.fail(format!("{name}: fault-free run"), e.to_string());
            }
            models.push(m);
            disk.lock().unwrap().log.push(Ev::Mark(models.len() - 1));
            match read_all(&imp) {
                Ok(got) => {
                    p.eq(|| format!("{name}: contents after transaction {}", models.len() - 1), &show(&got), &show(models.last().unwrap()));
                }
                Err(e) => p.fail(format!("{name}: read"), e),
            }
        }
    }
    vfs::unmount(&dir);
    let log = std::mem::take(&mut disk.lock().unwrap().log);
    let _ = std::fs::remove_dir(&dir);
    let base = Image::new();
    let seen: Mutex<HashSet<u128>> = Mutex::new(HashSet::new());
    p.par(log.len() + 1, |n| {
        let marks = log[..n].iter().filter(|e| matches!(e, Ev::Mark(_))).count();
        let mut allowed = vec![&models[marks]];
        if marks + 1 < models.len() {
            allowed.push(&models[marks + 1]);
        }
        let c = Crash::at(&log, n);
        let sets = if fsync { survivors(c.pending.len(), all) } else { vec![vec![Some(None); c.pending.len()]] };
        for keep in sets {
            if p.stop() {
                return;
            }
            let img = c.image(&base, |i| keep[i]);
            p.evals(1);
            if !seen.lock().unwrap().insert(hash128(&(&img, marks))) {
                continue;
            }
            p.states(1);
            p.nontrivial((keep.iter().any(|k| !matches!(k, Some(None)))) as u64);
            match recover(&root, img.clone(), fsync, &allowed) {
                Err(e) => {
                    let last = log[..n].iter().rev().take(3).map(brief).collect::<Vec<_>>();
                    p.fail(
                        format!("{name}: crash after operation {n}, survivors {keep:?}"),
                        format!("{e}\nthe last operations before the crash (newest first): {last:?}"),
                    );
                    return;
                }
                Ok(rec) => {
                    p.outcome(if keep.iter().all(|k| k.is_some()) { "all survived" } else { "some lost" });
                    // a second crash while recovering from the first: in order only
                    let mark = rec.len();
                    for k in 1..mark {
                        let c2 = Crash::at(&rec, k);
                        let img2 = if fsync { c2.image(&img, |_| None) } else { c2.image(&img, |_| Some(None)) };
                        p.evals(1);
                        if !seen.lock().unwrap().insert(hash128(&(&img2, marks, 2))) {
                            continue;
                        }
                        p.states(1);
                        let extra: Vec<Model> = allowed
                            .iter()
                            .map(|m| {
                                let mut m = (*m).clone();
                                m[0].insert(b"after".to_vec(), b"z".to_vec());
                                m
                            })
                            .collect();
                        let mut ok = allowed.clone();
                        ok.extend(extra.iter());
                        if let Err(e) = recover(&root, img2, fsync, &ok) {
                            p.fail(format!("{name}: crash after operation {n}, survivors {keep:?}, then after operation {k} of the recovery"), e);
                            return;
                        }
                    }
                }
            }
        }
    });
    p.transitions(log.len() as u64);
    p.sample(|| format!("{name}: {} disk operations, e.g. {:?}", log.len(), log.iter().rev().take(8).map(brief).collect::<Vec<_>>()));
}

fn brief(e: &Ev) -> String {
    match e {
        Ev::Write(f, o, d) => format!("write {f} {o}+{}", d.len()),
        Ev::Truncate(f, n) => format!("truncate {f} {n}"),
        Ev::Sync(f) => format!("sync {f}"),
        Ev::Delete(f, d) => format!("delete {f} {d}"),
        Ev::Mark(i) => format!("transaction {i} done"),
    }
}

/// Every single failing disk operation of a history (once, or from then on): no transaction is half applied, one that
/// reported success is there, and the storage is usable again when the disk is.
fn faults(p: &PartCtx, name: &str, hist: &[Tx], code: i32, sticky: bool, cold: bool, careless: bool) {
    let root = Root { scratch: Scratch::new("sqlite"), n: AtomicU64::new(0) };
    // how many operations a fault-free run takes
    let total = {
        let dir = root.fresh();
        let disk = vfs::mount(&dir, Image::new());
        let mut imp = backend(&dir, true).open(desc()).unwrap();
        for t in hist {
            if cold {
                drop(imp);
                imp = backend(&dir, true).open(desc()).unwrap();
                read_all(&imp).unwrap();
                drop(imp);
                imp = backend(&dir, true).open(desc()).unwrap();
            }
            run_tx(&mut imp, t).unwrap();
        }
        drop(imp);
        vfs::unmount(&dir);
        let n = disk.lock().unwrap().ops;
        n
    };
    p.par(total as usize, |at| {
        let key = || format!("{name}: operation {at} fails with {code}{}", if sticky { " and all later ones" } else { "" });
        let dir = root.fresh();
        let disk = vfs::mount(&dir, Image::new());
        disk.lock().unwrap().fault = Some((at as u64, code, sticky));
        p.evals(1);
        p.traces(1);
        let r = guard(|| -> Result<(), String> {
            let mut model: Model = vec![Map::new(); 2];
            let mut imp = match backend(&dir, true).open(desc()) {
                Ok(i) => i,
                Err(_) => {
                    p.outcome("open refused");
                    disk.lock().unwrap().fault = None;
                    backend(&dir, true).open(desc()).map_err(|e| format!("does not open again: {e}"))?
                }
            };
            // contents possible now: exactly one, unless a commit reported an error
            for t in hist {
                let mut next = model.clone();
                if t.commit {
                    apply(&mut next, &t.ops);
                }
                if cold {
                    // nothing is in memory: reads and the transaction go to the disk
                    for last in [false, true] {
                        drop(imp);
                        imp = match backend(&dir, true).open(desc()) {
                            Ok(i) => i,
                            Err(_) => {
                                p.outcome("open refused");
                                disk.lock().unwrap().fault = None;
                                backend(&dir, true).open(desc()).map_err(|e| format!("does not open again: {e}"))?
                            }
                        };
                        if last {
                            break;
                        }
                        match read_all(&imp) {
                            Ok(got) if got == model => {}
                            Ok(got) => return Err(format!("read {} instead of {}, without an error", show(&got), show(&model))),
                            Err(_) => p.outcome("read refused"),
                        }
                        let ro = imp.transaction_ro();
                        for (i, m) in model.iter().enumerate() {
                            for (k, v) in m.iter() {
                                if let Ok(ro) = &ro {
                                    match ro.get(DbMapId::new(i), k) {
                                        Ok(got) if got.as_deref() == Some(&v[..]) => {}
                                        Ok(_) => return Err(format!("map {i} gives another value for {k:?}, without an error")),
                                        Err(_) => p.outcome("read refused"),
                                    }
                                    match ro.greater_equal_iter(DbMapId::new(i), k.clone()).map(|it| it.count()) {
                                        Ok(got) if got == m.range(k.clone()..).count() => {}
                                        Ok(got) => return Err(format!("map {i} gives {got} entries from {k:?} on, without an error")),
                                        Err(_) => p.outcome("read refused"),
                                    }
                                }
                            }
                        }
                    }
                }
                let r = if careless {
                    let (r, done) = run_careless(&mut imp, t, &model)?;
                    if t.commit {
                        next = model.clone();
                        apply(&mut next, &done);
                    }
                    r
                } else {
                    run_tx(&mut imp, t)
                };
                match r {
                    Ok(()) => {
                        p.outcome("ok");
                        model = next;
                    }
                    Err(_) => {
                        p.outcome("reported");
                        p.nontrivial(1);
                        disk.lock().unwrap().fault = None;
                        let got = read_all(&imp)?;
                        if got != model && got != next {
                            return Err(format!("after a failed transaction: {} is neither {} nor {}", show(&got), show(&model), show(&next)));
                        }
                        model = got;
                    }
                }
            }
            disk.lock().unwrap().fault = None;
            let got = read_all(&imp)?;
            if got != model {
                return Err(format!("at the end: {} instead of {}", show(&got), show(&model)));
            }
            drop(imp);
            let imp = backend(&dir, true).open(desc()).map_err(|e| format!("does not open again: {e}"))?;
            let got = read_all(&imp)?;
            if got != model {
                return Err(format!("after reopening: {} instead of {}", show(&got), show(&model)));
            }
            Ok(())
        });
        vfs::unmount(&dir);
        let _ = std::fs::remove_dir(&dir);
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => p.fail(key(), e),
        }
    });
}

pub fn run(ctx: &Ctx) {
    let hs = histories(!ctx.quick());
    let all = ctx.pick(8, 11);
    for (name, h) in &hs {
        ctx.part(
            &format!("power-loss-{name}"),
            &format!("every crash point of the history x every subset of the operations not yet synced (all if <= {all}, else prefixes and single or double losses), torn writes, then every crash point of the recovery"),
            |p| crash_points(p, name, h, true, all),
        );
    }
    for (name, h) in &hs {
        ctx.part(&format!("process-crash-{name}"), "with syncing switched off: every crash point of the process alone, everything written so far stays", |p| crash_points(p, name, h, false, 0));
    }
    for (name, h) in &hs {
        ctx.part(&format!("io-errors-{name}"), "every disk operation of the history failing once with its own I/O error or a full disk, or it and all later ones", |p| {
            for code in [0, ffi::SQLITE_FULL] {
                for sticky in [false, true] {
                    faults(p, name, h, code, sticky, false, false);
                }
            }
        });
        ctx.part(&format!("io-errors-cold-{name}"), "the same with the store opened, read and opened again before every transaction: no read gives less than there is without an error; then by a caller that goes on with the transaction after an error", |p| {
            for code in [0, ffi::SQLITE_FULL] {
                for sticky in [false, true] {
                    faults(p, name, h, code, sticky, true, false);
                    faults(p, name, h, code, sticky, true, true);
                    faults(p, name, h, code, sticky, false, true);
                }
            }
        });
    }
}
