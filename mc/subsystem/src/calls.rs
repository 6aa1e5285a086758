//! X01: every short program of client actions against real subsystems on a deterministic runtime.
use mc_kit::{Check, Ctx, PartCtx, guard};
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use subsystem::{Handle, Manager, ManagerConfig, Subsystem};
use tokio::sync::Notify;
use tokio::task::JoinHandle;

pub const CHECK: Check = Check {
    id: "X01",
    level: "model_checking",
    rule: "every sequence of client actions up to the stated length, with every placement of yields and full settling, on tokio's single-threaded runtime with paused time",
    assumptions: &[
        "tokio's current-thread scheduler polls ready tasks in a fixed order; other orders are reached through yields and gates",
    ],
    run,
};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ev {
    /// A modifying call is about to be submitted.
    Sub(usize),
    Start(usize),
    End(usize),
    Work,
    Down,
}

#[derive(Default)]
struct Shared {
    log: Mutex<Vec<Ev>>,
    readers: Mutex<i32>,
}
impl Shared {
    fn ev(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }
}

/// The subsystem: a counter with background work.
struct Sys {
    n: u64,
    work: AtomicU32,
    s: Arc<Shared>,
}
#[async_trait::async_trait]
impl Subsystem for Sys {
    type Interface = Sys;
    fn interface_ref(&self) -> &Sys {
        self
    }
    fn interface_mut(&mut self) -> &mut Sys {
        self
    }
    fn perform_background_work_unit(&mut self) {
        *self.work.get_mut() -= 1;
        self.s.ev(Ev::Work);
    }
    fn has_background_work(&self) -> bool {
        self.work.load(Relaxed) > 0
    }
    async fn shutdown(self) {
        self.s.ev(Ev::Down);
    }
}
impl Clone for Sys {
    fn clone(&self) -> Self {
        Sys { n: self.n, work: self.work.load(Relaxed).into(), s: Arc::clone(&self.s) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Ref,
    RefGated,
    Mut,
    MutGated,
    Submit,
    Cross,
    Work,
    RefWork,
    OpenOld,
    OpenNew,
    Drop,
    Trigger,
    Yield,
    Settle,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Ref,
    Mut,
}

struct Call {
    kind: Kind,
    gate: Option<usize>,
    /// None: nobody waits for the result
    resp: Option<JoinHandle<Result<u64, subsystem::error::CallError>>>,
    work: bool,
    /// on which subsystem: 0 or 1
    sys: usize,
}

fn gate_wait(g: &Arc<Gate>) -> futures::future::BoxFuture<'static, ()> {
    let g = Arc::clone(g);
    Box::pin(async move { g.wait().await })
}
#[derive(Default)]
struct Gate {
    open: Mutex<bool>,
    n: Notify,
}
impl Gate {
    fn open(&self) {
        *self.open.lock().unwrap() = true;
        self.n.notify_waiters();
    }
    async fn wait(&self) {
        loop {
            let f = self.n.notified();
            if *self.open.lock().unwrap() {
                return;
            }
            f.await;
        }
    }
}

async fn settle() {
    // with paused time a sleep only ends when every task is idle
    tokio::time::sleep(Duration::from_millis(1)).await;
}

struct Run {
    calls: Vec<Call>,
    gates: Vec<(Arc<Gate>, bool)>,
    shared: [Arc<Shared>; 2],
    handles: [Handle<Sys>; 2],
    problems: Vec<String>,
    shut: bool,
}

impl Run {
    fn spawn(&mut self, sys: usize, kind: Kind, gate: Option<usize>, work: bool, r: subsystem::CallResult<u64>, keep: bool) {
        let resp = match r.response() {
            Ok(resp) if keep => Some(tokio::spawn(async move { Ok(resp.await?) })),
            Ok(_) => None,
            Err(e) => {
                if !self.shut {
                    self.problems.push(format!("a running subsystem refused a call: {e}"));
                }
                Some(tokio::spawn(async move { Err(e.into()) }))
            }
        };
        self.calls.push(Call { kind, gate, resp, work, sys });
    }

    fn submit(&mut self, op: Op) {
        let id = self.calls.len();
        let h = self.handles[0].clone();
        if matches!(op, Mut | Work | MutGated | Submit) {
            self.shared[0].ev(Ev::Sub(id));
        }
        match op {
            Ref | RefWork => {
                let r = h.call(move |s| {
                    s.s.ev(Ev::Start(id));
                    if op == RefWork {
                        s.work.fetch_add(2, Relaxed);
                    }
                    s.s.ev(Ev::End(id));
                    s.n
                });
                self.spawn(0, Kind::Ref, None, op == RefWork, r, true);
            }
            Mut | Work => {
                let r = h.call_mut(move |s| {
                    s.s.ev(Ev::Start(id));
                    s.n += 1;
                    if op == Work {
                        s.work.fetch_add(2, Relaxed);
                    }
                    s.s.ev(Ev::End(id));
                    s.n
                });
                self.spawn(0, Kind::Mut, None, op == Work, r, true);
            }
            Submit => {
                let r = h.as_submit_only().submit_mut(move |s| {
                    s.s.ev(Ev::Start(id));
                    s.n += 1;
                    s.s.ev(Ev::End(id));
                });
                if r.is_err() && !self.shut {
                    self.problems.push("a running subsystem refused a submission".into());
                }
                self.calls.push(Call { kind: Kind::Mut, gate: None, resp: None, work: false, sys: 0 });
            }
            RefGated | MutGated => {
                let g = Arc::new(Gate::default());
                self.gates.push((Arc::clone(&g), false));
                let gate = Some(self.gates.len() - 1);
                if op == RefGated {
                    let r = h.call_async(move |s| {
                        // the future must not borrow: what it needs is captured up front
                        let (sh, n, w) = (Arc::clone(&s.s), s.n, gate_wait(&g));
                        sh.ev(Ev::Start(id));
                        *sh.readers.lock().unwrap() += 1;
                        Box::pin(async move {
                            w.await;
                            *sh.readers.lock().unwrap() -= 1;
                            sh.ev(Ev::End(id));
                            n
                        })
                    });
                    self.spawn(0, Kind::Ref, gate, false, r, true);
                } else {
                    let r = h.call_async_mut(move |s| {
                        let (sh, w) = (Arc::clone(&s.s), gate_wait(&g));
                        sh.ev(Ev::Start(id));
                        s.n += 1;
                        let n = s.n;
                        Box::pin(async move {
                            w.await;
                            sh.ev(Ev::End(id));
                            n
                        })
                    });
                    self.spawn(0, Kind::Mut, gate, false, r, true);
                }
            }
            Cross => {
                // a call on the second subsystem that calls the first one
                let (inner, a) = (Arc::clone(&self.shared[0]), h);
                let r = self.handles[1].call_async_mut(move |s| {
                    let sh = Arc::clone(&s.s);
                    sh.ev(Ev::Start(id));
                    s.n += 1;
                    let n = s.n;
                    Box::pin(async move {
                        let r = a
                            .call_mut(move |s| {
                                inner.ev(Ev::Start(1000 + id));
                                s.n += 1;
                                inner.ev(Ev::End(1000 + id));
                                s.n
                            })
                            .await;
                        // the first subsystem outlives this one
                        assert!(r.is_ok(), "the subsystem registered earlier was down already: {r:?}");
                        sh.ev(Ev::End(id));
                        n
                    })
                });
                self.spawn(1, Kind::Mut, None, false, r, true);
            }
            _ => unreachable!(),
        }
    }

    /// What has to be finished once everything is idle (calls without a closed gate before them).
    fn expected_done(&self) -> Vec<bool> {
        let mut out = Vec::new();
        let (mut blocked, mut open_refs) = (false, false);
        // a reading call may be overtaken by a modifying one that was submitted after it and now runs or waits
        let closed = |c: &Call| c.gate.is_some_and(|g| !self.gates[g].1);
        let mut closed_mut = false;
        let mut closed_ref = false;
        for c in self.calls.iter().filter(|c| c.sys == 0) {
            closed_mut |= c.kind == Kind::Mut && (closed(c) || closed_ref);
            closed_ref |= c.kind == Kind::Ref && closed(c);
        }
        for c in &self.calls {
            if c.sys == 1 {
                out.push(false); // depends on the first one; checked at the end
                continue;
            }
            let closed = c.gate.is_some_and(|g| !self.gates[g].1);
            let done = !blocked && !closed && (c.kind == Kind::Mut && !open_refs || c.kind == Kind::Ref && !closed_mut);
            if !blocked && c.kind == Kind::Ref && closed {
                open_refs = true;
            }
            if !done && c.kind == Kind::Mut {
                blocked = true;
            }
            out.push(done);
        }
        out
    }

    fn check_progress(&mut self, point: &str) {
        if self.shut {
            return;
        }
        let log = self.shared[0].log.lock().unwrap().clone();
        let added: u32 = self.calls.iter().map(|c| if c.work { 2 } else { 0 }).sum();
        let done = log.iter().filter(|e| **e == Ev::Work).count() as u32;
        // a unit of work that waits for a reading call holds up what comes after it, as a modification would
        if added > done && self.calls.iter().any(|c| c.kind == Kind::Ref && c.gate.is_some_and(|g| !self.gates[g].1)) {
            return;
        }
        let exp = self.expected_done();
        for (i, e) in exp.iter().enumerate() {
            if *e && !log.contains(&Ev::End(i)) {
                self.problems.push(format!("{point}: call {i} ({:?}) is not done although nothing is in its way", self.calls[i].kind));
            }
            let resp_done = self.calls[i].resp.as_ref().is_none_or(|r| r.is_finished());
            if *e && !resp_done {
                self.problems.push(format!("{point}: call {i} is done but its caller has no answer"));
            }
        }
        if exp.iter().all(|e| *e) {
            if added != done {
                self.problems.push(format!("{point}: {added} units of background work, {done} done while idle"));
            }
        }
    }
}

/// Exclusion and ordering over the log of one subsystem.
fn judge_log(log: &[Ev], calls: &[Call], sys: usize, problems: &mut Vec<String>) {
    let kind = |id: usize| if id >= 1000 { Kind::Mut } else { calls[id].kind };
    let mut running: Vec<usize> = vec![];
    let (mut started, mut ended) = (vec![], vec![]);
    let mut pending_work = 0u32;
    // modifying calls that wait, and whether a unit of work was done since they do
    let mut waiting: Vec<(usize, bool)> = vec![];
    for (at, e) in log.iter().enumerate() {
        if log[..at].contains(&Ev::Down) && !matches!(e, Ev::Sub(_)) {
            problems.push(format!("subsystem {sys}: {e:?} after its shutdown"));
        }
        match e {
            Ev::Sub(i) => waiting.push((*i, false)),
            Ev::Start(i) => {
                waiting.retain(|w| w.0 != *i);
                if started.contains(i) {
                    problems.push(format!("call {i} ran twice"));
                }
                if kind(*i) == Kind::Mut && !running.is_empty() || running.iter().any(|r| kind(*r) == Kind::Mut) {
                    problems.push(format!("call {i} runs at the same time as {running:?}"));
                }
                if *i < 1000 {
                    for j in 0..*i {
                        if calls[j].sys == sys && calls[j].kind == Kind::Mut && !ended.contains(&j) {
                            problems.push(format!("call {i} started before the earlier modifying call {j} was done"));
                        }
                    }
                }
                started.push(*i);
                running.push(*i);
            }
            Ev::End(i) => {
                running.retain(|r| r != i);
                ended.push(*i);
                if *i < 1000 && calls[*i].work {
                    pending_work += 2;
                }
            }
            Ev::Work => {
                // one unit may have been chosen before the call came; the next is chosen with the call waiting
                for w in &mut waiting {
                    if std::mem::replace(&mut w.1, true) {
                        problems.push(format!("background work while call {} waits", w.0));
                    }
                }
                if !running.is_empty() {
                    problems.push(format!("background work while {running:?} run"));
                }
                if pending_work == 0 {
                    problems.push("background work that is not there".into());
                } else {
                    pending_work -= 1;
                }
            }
            Ev::Down => {
                if !running.is_empty() {
                    problems.push(format!("subsystem {sys} shut down while {running:?} run"));
                }
            }
        }
    }
}

async fn program(ops: &[Op]) -> Vec<String> {
    let mut man = Manager::new_with_config(ManagerConfig::new("m").with_shutdown_timeout_per_subsystem(Duration::from_secs(1000)));
    let shared: [Arc<Shared>; 2] = Default::default();
    let handles = [0, 1].map(|i| {
        let s = Arc::clone(&shared[i]);
        man.add_subsystem(["a", "b"][i], Sys { n: 0, work: 0.into(), s })
    });
    let trigger = man.make_shutdown_trigger();
    let join = man.main_in_task();
    let mut join = Some(tokio::spawn(async move { join.join().await }));
    let mut r = Run { calls: vec![], gates: vec![], shared, handles, problems: vec![], shut: false };
    for op in ops {
        match op {
            OpenOld | OpenNew => {
                let mut closed: Vec<usize> = (0..r.gates.len()).filter(|g| !r.gates[*g].1).collect();
                if *op == OpenNew {
                    closed.reverse();
                }
                if let Some(g) = closed.first() {
                    r.gates[*g].1 = true;
                    r.gates[*g].0.open();
                }
            }
            Drop => {
                // the caller gives up waiting
                if let Some(c) = r.calls.last_mut()
                    && let Some(h) = c.resp.take()
                {
                    h.abort();
                }
            }
            Trigger => {
                r.shut = true;
                trigger.clone().initiate();
            }
            Yield => tokio::task::yield_now().await,
            Settle => {
                settle().await;
                r.check_progress("settled");
            }
            _ => r.submit(*op),
        }
    }
    for (g, open) in &mut r.gates {
        *open = true;
        g.open();
    }
    settle().await;
    r.check_progress("all gates open");
    if !r.shut {
        for (i, c) in r.calls.iter().enumerate() {
            let log = r.shared[c.sys].log.lock().unwrap();
            if !log.contains(&Ev::End(i)) {
                r.problems.push(format!("call {i} was never carried out"));
            }
        }
        trigger.initiate();
        r.shut = true;
        settle().await;
    }
    if !join.as_ref().unwrap().is_finished() {
        r.problems.push("the manager does not end although nothing is running".into());
        join.take().unwrap().abort();
    } else if let Err(e) = join.take().unwrap().await {
        r.problems.push(format!("waiting for the manager failed: {e}"));
    }
    for h in &r.handles {
        if h.call(|s| s.n).await.is_ok() {
            r.problems.push("a call was answered after the shutdown".into());
        }
    }
    settle().await;
    let logs = [0, 1].map(|s| r.shared[s].log.lock().unwrap().clone());
    for s in [0, 1] {
        judge_log(&logs[s], &r.calls, s, &mut r.problems);
        if logs[s].iter().rfind(|e| !matches!(e, Ev::Sub(_))) != Some(&Ev::Down) {
            r.problems.push(format!("subsystem {s} was not shut down properly"));
        }
    }
    for i in 0..r.calls.len() {
        let c = &mut r.calls[i];
        let log = &logs[c.sys];
        let pos = |e: Ev| log.iter().position(|x| *x == e);
        if let (Some(_), None) = (pos(Ev::Start(i)), pos(Ev::End(i))) {
            r.problems.push(format!("call {i} was cut short"));
        }
        let Some(h) = c.resp.take() else { continue };
        if !h.is_finished() {
            r.problems.push(format!("the caller of {i} waits forever"));
            continue;
        }
        let got = h.await;
        // the value: the number of modifications before (and including) it
        let muts = |upto: usize| {
            let kinds = |id: usize| id >= 1000 || r.calls[id].kind == Kind::Mut;
            log[..=upto].iter().filter(|e| matches!(e, Ev::Start(j) if kinds(*j))).count() as u64
        };
        let want = pos(Ev::Start(i)).map(muts);
        match (got, want) {
            (Ok(Ok(v)), Some(w)) if v == w => {}
            (Ok(Err(_)), None) => {}
            (got, want) => r.problems.push(format!("call {i}: the caller got {got:?} for {want:?}")),
        }
    }
    r.problems
}

fn execute(ops: &[Op]) -> Result<Vec<String>, String> {
    guard(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        rt.block_on(program(ops))
    })
}

fn sensible(ops: &[Op]) -> bool {
    let mut gates = 0;
    let (mut calls, mut trig) = (0, false);
    for (i, o) in ops.iter().enumerate() {
        let prev = i.checked_sub(1).map(|p| ops[p]);
        match o {
            OpenOld if gates < 1 => return false,
            OpenNew if gates < 2 => return false,
            OpenOld | OpenNew => gates -= 1,
            RefGated | MutGated => gates += 1,
            Drop if calls == 0 || matches!(prev, Some(Drop | Submit)) => return false,
            Settle if matches!(prev, None | Some(Settle | Yield)) => return false,
            Yield if matches!(prev, None | Some(Settle)) => return false,
            Trigger if trig => return false,
            Trigger => trig = true,
            _ => {}
        }
        if matches!(o, Ref | RefGated | Mut | MutGated | Submit | Cross | Work | RefWork) {
            calls += 1;
        }
    }
    calls > 0
}

fn explore(c: &PartCtx, alphabet: &[Op], len: usize) {
    let n = alphabet.len();
    c.par(n * n, |p| {
        for l in 1..=len {
            if l < 2 && p % n != 0 {
                continue;
            }
            for tail in mc_kit::sequences(n, l.saturating_sub(2)) {
                if c.stop() {
                    return;
                }
                let mut ops = vec![alphabet[p / n]];
                if l >= 2 {
                    ops.push(alphabet[p % n]);
                }
                ops.extend(tail.iter().map(|t| alphabet[*t]));
                if !sensible(&ops) {
                    continue;
                }
                c.evals(1);
                c.traces(1);
                c.transitions(ops.len() as u64);
                match execute(&ops) {
                    Ok(p) if p.is_empty() => {}
                    Ok(p) => c.fail(format!("{ops:?}"), p.join("\n")),
                    Err(e) => c.fail(format!("{ops:?}"), e),
                }
            }
        }
    });
}

fn run(ctx: &Ctx) {
    let len = ctx.pick(7, 8);
    ctx.part("calls", "calls, gates, background work and shutdown in every order", |c| {
        explore(c, &[Ref, RefGated, Mut, MutGated, Work, OpenOld, OpenNew, Trigger, Yield, Settle], len);
    });
    ctx.part("work", "background work that modifying and reading calls bring, with calls waiting for it and it waiting for calls", |c| {
        explore(c, &[Ref, RefGated, Mut, MutGated, Submit, Work, RefWork, OpenOld, Yield, Settle], len - 1);
    });
    ctx.part("crowds", "1 to 20 and up to 520 calls at once: all reading at the same time, each waiting for all; modifying and reading in turns; all running or all waiting when the end comes; as many units of background work, calls in between", |c| {
        let counts: Vec<usize> = (1..=20).chain((5..=9).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).chain([100, 200, 300, 520]).collect();
        c.par(counts.len() * 5, |w| {
            let (n, v) = (counts[w / 5], w % 5);
            c.evals(1);
            c.traces(1);
            c.nontrivial(1);
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            let r = guard(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(3600), crowd(n, v)).await.unwrap_or_else(|_| Err("does not end".to_string())) })).and_then(|r| r);
            if let Err(e) = r {
                c.fail(format!("{n} calls, {}", ["each waiting for all", "modifying and reading in turns", "running at the end", "waiting at the end", "background work"][v]), e);
            }
        });
    });
    ctx.part("ways", "a plain value as a subsystem, the handles made in every way, the manager run in every way", ways);
    ctx.part("blocking", "every sequence of three blocking calls from three kinds of threads", blocking);
    ctx.part("cross-calls", "calls from subsystem to subsystem, submissions, callers that give up", |c| {
        explore(c, &[RefGated, MutGated, Cross, Submit, Drop, OpenOld, Trigger, Yield, Settle], len);
    });
}

/// The blocking handle from a plain thread, from a blocking task and from inside the runtime.
fn blocking(c: &PartCtx) {
    use subsystem::blocking::BlockingHandle;
    let drive = |b: &BlockingHandle<Sys>, ops: &[usize], n0: u64| {
        let mut n = n0;
        for o in ops {
            let (got, add) = match o {
                0 => (b.call(|s| s.n), 0),
                1 => (b.call_mut(|s| { s.n += 1; s.n }), 1),
                2 => (b.call_async(|s| { let n = s.n; Box::pin(async move { tokio::task::yield_now().await; n }) }), 0),
                _ => (b.call_async_mut(|s| { s.n += 10; let n = s.n; Box::pin(async move { tokio::task::yield_now().await; n }) }), 10),
            };
            n += add;
            if got != Ok(n) {
                return Err(format!("operation {o}: {got:?} instead of {n}"));
            }
        }
        Ok(n)
    };
    for ops in mc_kit::sequences(4, 3) {
        let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_time().build().unwrap();
        let r = guard(|| {
            let mut man = Manager::new("m");
            let h = man.add_subsystem("a", Sys { n: 0, work: 0.into(), s: Default::default() });
            let trigger = man.make_shutdown_trigger();
            let b = BlockingHandle::new(h);
            let main = rt.spawn(man.main());
            let n = drive(&b, &ops, 0)?;
            let (b2, o2) = (b.clone(), ops.clone());
            let n = rt.block_on(async move { tokio::task::spawn_blocking(move || drive(&b2, &o2, n)).await.unwrap() })?;
            let (b2, o2) = (b.clone(), ops.clone());
            rt.block_on(async move { tokio::spawn(async move { drive(&b2, &o2, n) }).await.unwrap() })?;
            trigger.initiate();
            rt.block_on(main).unwrap();
            if b.call(|s| s.n).is_ok() {
                return Err("answered after the shutdown".to_string());
            }
            Ok(())
        });
        c.evals(1);
        c.traces(1);
        if let Err(e) = r.and_then(|r| r) {
            c.fail(format!("{ops:?}"), e);
        }
    }
}

/// Every way to register a subsystem, to make its handles and to run the manager.
struct Crowd {
    log: Vec<usize>,
    work: usize,
    done: Arc<Mutex<Vec<usize>>>,
}
impl Subsystem for Crowd {
    type Interface = Self;
    fn interface_ref(&self) -> &Self {
        self
    }
    fn interface_mut(&mut self) -> &mut Self {
        self
    }
    fn perform_background_work_unit(&mut self) {
        self.work -= 1;
        self.done.lock().unwrap().push(self.log.len());
    }
    fn has_background_work(&self) -> bool {
        self.work > 0
    }
}

async fn crowd(n: usize, variant: usize) -> Result<(), String> {
    let mut man = Manager::new_with_config(ManagerConfig::new("m").disable_shutdown_timeout());
    let done: Arc<Mutex<Vec<usize>>> = Default::default();
    let h = man.add_subsystem("a", Crowd { log: vec![], work: if variant == 4 { n } else { 0 }, done: Arc::clone(&done) });
    let trigger = man.make_shutdown_trigger();
    let join = man.main_in_task();
    // the clock only moves when nothing else does
    let settle = || tokio::time::sleep(Duration::from_millis(1));
    let gate = Arc::new(tokio::sync::Semaphore::new(0));
    let mut wait: Vec<(usize, JoinHandle<Result<usize, subsystem::error::CallError>>)> = vec![];
    match variant {
        0 => {
            let all = Arc::new(tokio::sync::Barrier::new(n));
            for i in 0..n {
                let all = Arc::clone(&all);
                wait.push((i, tokio::spawn(h.call_async(move |_| Box::pin(async move { all.wait().await; i })))));
            }
        }
        1 => {
            for i in 0..n {
                wait.push((i, tokio::spawn(h.call_mut(move |s| { s.log.push(i); i }))));
                let r = h.call(move |s| if s.log.len() > i && s.log.iter().copied().eq(0..s.log.len()) { i } else { usize::MAX });
                wait.push((i, tokio::spawn(r)));
            }
        }
        2 => {
            for i in 0..n {
                let gate = Arc::clone(&gate);
                wait.push((i, tokio::spawn(h.call_async(move |_| Box::pin(async move { gate.acquire().await.unwrap().forget(); i })))));
            }
            settle().await;
            trigger.clone().initiate();
            settle().await;
            if let Some((i, _)) = wait.iter().find(|(_, j)| j.is_finished()) {
                return Err(format!("call {i} ended before it could"));
            }
            gate.add_permits(n);
        }
        3 => {
            let first = Arc::clone(&gate);
            wait.push((n, tokio::spawn(h.call_async_mut(move |_| Box::pin(async move { first.acquire().await.unwrap().forget(); n })))));
            let refused: Vec<_> = (0..n).map(|i| if i % 2 == 0 { tokio::spawn(h.call_mut(move |_| i)) } else { tokio::spawn(h.call(move |_| i)) }).collect();
            settle().await;
            trigger.clone().initiate();
            settle().await;
            if wait[0].1.is_finished() || refused.iter().any(|j| j.is_finished()) {
                return Err("a call ended before the one it waits for".to_string());
            }
            gate.add_permits(1);
            for (i, j) in refused.into_iter().enumerate() {
                // answered or refused, but not forgotten
                match j.await.map_err(|e| e.to_string())? {
                    Ok(got) if got != i => return Err(format!("call {i} gave {got}")),
                    _ => {}
                }
            }
        }
        _ => {
            for i in 0..n {
                wait.push((i, tokio::spawn(h.call_mut(move |s| { s.log.push(i); i }))));
            }
            settle().await;
        }
    }
    for (i, j) in wait {
        let got = j.await.map_err(|e| e.to_string())?;
        if got != Ok(i) {
            return Err(format!("call {i} of {n} gave {got:?}"));
        }
    }
    if variant == 4 {
        settle().await;
        let got = done.lock().unwrap().clone();
        if got.len() != n {
            return Err(format!("{} units of work of {n}", got.len()));
        }
        if h.call(|s| s.log.len()).await != Ok(n) {
            return Err("calls were lost".to_string());
        }
    }
    trigger.initiate();
    join.join().await;
    Ok(())
}

fn ways(c: &PartCtx) {
    use subsystem::blocking::BlockingHandle;
    use utils::shallow_clone::ShallowClone;
    for direct in [false, true] {
        for run in 0..3 {
            for hold in 0..3 {
                let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
                let r = guard(|| {
                    let mut man = Manager::new("m");
                    let mut n = 7u64;
                    let h: Handle<Sys> = man.add_subsystem("a", Sys { n, work: 0.into(), s: Default::default() });
                    let d: Handle<u64> = man.add_direct_subsystem("d", n);
                    let trigger = man.make_shutdown_trigger();
                    let main = match run {
                        0 => rt.spawn(man.main()),
                        1 => rt.block_on(async { let j = man.main_in_task(); tokio::spawn(j.join()) }),
                        _ => rt.block_on(async { let j = man.main_in_task_in_tracing_span(tracing::Span::none()); tokio::spawn(j.join()) }),
                    };
                    macro_rules! drive {
                        ($h:expr, $n:expr) => {{
                            let b = match hold {
                                0 => BlockingHandle::new($h.clone()),
                                1 => BlockingHandle::from($h.shallow_clone()),
                                _ => BlockingHandle::from($h).clone().shallow_clone(),
                            };
                            for add in 1..4u64 {
                                n += add;
                                let got = b.call_mut(move |s| { $n(s, add); $n(s, 0) });
                                let read = b.call_async(move |s| { let v = $n(&mut s.clone(), 0); Box::pin(async move { v }) });
                                if (&got, &read) != (&Ok(n), &Ok(n)) {
                                    return Err(format!("{got:?} and {read:?} instead of {n}"));
                                }
                            }
                            trigger.initiate();
                            rt.block_on(main).map_err(|e| e.to_string())?;
                            if b.call(|_| ()).is_ok() || b.handle().as_submit_only().submit(|_| ()).is_ok() {
                                return Err("answered after the shutdown".to_string());
                            }
                        }};
                    }
                    if direct {
                        drive!(d, |s: &mut u64, a: u64| { *s += a; *s });
                    } else {
                        drive!(h, |s: &mut Sys, a: u64| { s.n += a; s.n });
                    }
                    Ok(())
                });
                c.evals(1);
                c.traces(1);
                if let Err(e) = r.and_then(|r| r) {
                    c.fail(format!("direct {direct} run {run} hold {hold}"), e);
                }
            }
        }
    }
}
