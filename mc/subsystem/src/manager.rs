//! X02: every configuration of a few subsystems and every way to bring them down.
use mc_kit::{Check, Ctx, PartCtx, guard};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use subsystem::{Handle, Manager, ManagerConfig, Subsystem};
use tokio::time::Instant;

pub const CHECK: Check = Check {
    id: "X02",
    level: "model_checking",
    rule: "every combination of start-up, shutdown and failure behaviours of up to three subsystems, every cause of shutdown and every timeout setting, in virtual time",
    assumptions: &["tokio's paused clock stands for time"],
    run,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Init {
    Ok,
    /// ready after 3 s
    Slow,
    Fails,
    FailsLater,
    Never,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Down {
    Quick,
    /// takes 2 s
    Slow,
    Hangs,
    /// calls the subsystem registered before it
    CallsEarlier,
    /// waits for the shutdown flag first
    WaitsForFlag,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Cause {
    Before,
    AtOnce,
    Later,
    Twice,
    /// the first, second.. subsystem panics in a modifying / reading call
    PanicMut(usize),
    PanicRef(usize),
    /// a call that runs for 5 s while the shutdown begins
    BusyRef(usize),
    BusyMut(usize),
}

type Log = Arc<Mutex<Vec<(String, u128)>>>;
#[derive(Clone)]
struct Clock(Instant, Log);
impl Clock {
    fn ev(&self, s: String) {
        let t = self.0.elapsed().as_millis();
        self.1.lock().unwrap().push((s, t));
    }
}

struct Sys {
    i: usize,
    down: Down,
    earlier: Option<Handle<Sys>>,
    flag: tokio::sync::watch::Receiver<utils::set_flag::SetFlag>,
    c: Clock,
    drop: DropLog,
}
/// records that the value is gone
struct DropLog(usize, Clock);
impl Drop for DropLog {
    fn drop(&mut self) {
        self.1.ev(format!("gone {}", self.0));
    }
}
#[async_trait::async_trait]
impl Subsystem for Sys {
    type Interface = Sys;
    fn interface_ref(&self) -> &Sys {
        self
    }
    fn interface_mut(&mut self) -> &mut Sys {
        self
    }
    async fn shutdown(mut self) {
        let i = self.i;
        self.c.ev(format!("down {i}"));
        if !self.flag.borrow().test() && self.down != Down::WaitsForFlag {
            self.c.ev(format!("noflag {i}"));
        }
        match self.down {
            Down::Quick => {}
            Down::Slow => tokio::time::sleep(Duration::from_secs(2)).await,
            Down::Hangs => std::future::pending().await,
            Down::CallsEarlier => {
                if let Some(e) = &self.earlier {
                    let r = e.call(|s| s.i).await;
                    self.c.ev(format!("answer {i} {}", r.is_ok()));
                }
            }
            Down::WaitsForFlag => {
                self.flag.wait_for(|f| f.test()).await.unwrap();
            }
        }
        self.c.ev(format!("end {i}"));
        let _ = &self.drop;
    }
}

#[derive(Clone, Debug)]
struct Config {
    subs: Vec<(Init, Down)>,
    cause: Cause,
    timeout: Option<u64>,
}

#[derive(Debug)]
struct Outcome {
    /// None: still running after an hour
    ended: Option<(u128, bool)>,
    log: Vec<(String, u128)>,
    after: Vec<bool>,
}

async fn simulate(cfg: &Config) -> Outcome {
    let c = Clock(Instant::now(), Default::default());
    let mut conf = ManagerConfig::new("m");
    conf = match cfg.timeout {
        Some(t) => conf.with_shutdown_timeout_per_subsystem(Duration::from_secs(t)),
        None => conf.disable_shutdown_timeout(),
    };
    let mut man = Manager::new_with_config(conf);
    let mut handles: Vec<Handle<Sys>> = vec![];
    for (i, (init, down)) in cfg.subs.iter().copied().enumerate() {
        let earlier = handles.last().cloned();
        let c = c.clone();
        let h = man.add_custom_subsystem(["a", "b", "c"][i], move |_me, flag| async move {
            match init {
                Init::Ok | Init::Fails => {}
                Init::Slow | Init::FailsLater => tokio::time::sleep(Duration::from_secs(3)).await,
                Init::Never => std::future::pending().await,
            }
            if matches!(init, Init::Fails | Init::FailsLater) {
                c.ev(format!("failed {i}"));
                return Err(std::io::Error::other("no"));
            }
            c.ev(format!("up {i}"));
            Ok(Sys { i, down, earlier, flag, drop: DropLog(i, c.clone()), c })
        });
        handles.push(h);
    }
    let trigger = man.make_shutdown_trigger();
    if cfg.cause == Cause::Before {
        trigger.clone().initiate();
    }
    let c2 = c.clone();
    let main = tokio::spawn(async move {
        let r = tokio::spawn(man.main()).await;
        c2.ev("manager".into());
        (c2.0.elapsed().as_millis(), r.is_err())
    });
    let mut waiting = vec![];
    match cfg.cause {
        Cause::Before => {}
        Cause::AtOnce => trigger.clone().initiate(),
        Cause::Later | Cause::Twice => {
            tokio::time::sleep(Duration::from_millis(1000)).await;
            trigger.clone().initiate();
            if cfg.cause == Cause::Twice {
                trigger.clone().initiate();
            }
        }
        Cause::PanicMut(i) => {
            let _ = handles[i].as_submit_only().submit_mut(|s| {
                s.c.ev(format!("panic {}", s.i));
                panic!("planned")
            });
        }
        Cause::PanicRef(i) => {
            let _ = handles[i].as_submit_only().submit(|s| {
                s.c.ev(format!("panic {}", s.i));
                panic!("planned")
            });
        }
        Cause::BusyRef(i) | Cause::BusyMut(i) => {
            let (cl, busy) = (c.clone(), || Box::pin(tokio::time::sleep(Duration::from_secs(5))));
            let r = if matches!(cfg.cause, Cause::BusyRef(_)) {
                handles[i].call_async(move |_| {
                    cl.ev(format!("busy {i}"));
                    Box::pin(async move {
                        busy().await;
                        cl.ev(format!("busy done {i}"));
                    })
                })
            } else {
                handles[i].call_async_mut(move |_| {
                    cl.ev(format!("busy {i}"));
                    Box::pin(async move {
                        busy().await;
                        cl.ev(format!("busy done {i}"));
                    })
                })
            };
            waiting.push(tokio::spawn(r));
            tokio::time::sleep(Duration::from_millis(1000)).await;
            trigger.clone().initiate();
        }
    }
    let ended = match tokio::time::timeout(Duration::from_secs(3600), main).await {
        Ok(r) => Some(r.unwrap()),
        Err(_) => None,
    };
    let mut after = vec![];
    if ended.is_some() {
        for w in waiting {
            let r = tokio::time::timeout(Duration::from_secs(100), w).await;
            after.push(r.is_ok());
        }
        tokio::time::sleep(Duration::from_secs(100)).await;
        // the trigger is harmless now
        trigger.initiate();
    }
    let log = c.1.lock().unwrap().clone();
    Outcome { ended, log, after }
}

/// What has to come out, in virtual milliseconds: the subsystems go down one after another in reverse order, each
/// for as long as it needs or until its timeout.
fn judge(cfg: &Config, o: &Outcome) -> Vec<String> {
    let mut bad = vec![];
    let n = cfg.subs.len();
    let timeout = cfg.timeout.map(|t| t as u128 * 1000);
    let up = |i: usize| match cfg.subs[i].0 {
        Init::Ok => Some(0u128),
        Init::Slow => Some(3000),
        _ => None,
    };
    let at = |what: String| o.log.iter().find(|(e, _)| *e == what).map(|(_, t)| *t);
    // when the task is over by itself
    let failed = |i: usize| match cfg.subs[i].0 {
        Init::Fails => Some(0u128),
        Init::FailsLater => Some(3000),
        _ => None,
    };
    let panics = |i: usize| match cfg.cause {
        Cause::PanicMut(j) | Cause::PanicRef(j) if i == j => at(format!("panic {i}")),
        _ => None,
    };
    let busy = |i: usize| match cfg.cause {
        Cause::BusyRef(j) | Cause::BusyMut(j) if i == j => at(format!("busy {i}")).map(|u| u + 5000),
        _ => None,
    };
    let mut causes: Vec<u128> = (0..n).filter_map(failed).collect();
    causes.extend((0..n).filter_map(panics));
    match cfg.cause {
        Cause::Before | Cause::AtOnce => causes.push(0),
        Cause::Later | Cause::Twice | Cause::BusyRef(_) | Cause::BusyMut(_) => causes.push(1000),
        _ => {}
    }
    if n == 0 {
        // with no subsystem left there is nothing to wait for
        causes.push(0);
    }
    let Some(t0) = causes.into_iter().min() else {
        // nothing ever ends it
        if n > 0 && o.ended.is_some() {
            bad.push("the manager ended without a cause".into());
        }
        return bad;
    };
    for i in 0..n {
        // a call that was submitted at the start runs as soon as its subsystem is up, unless the shutdown was first
        if let (Some(u), Cause::PanicMut(j) | Cause::PanicRef(j) | Cause::BusyRef(j) | Cause::BusyMut(j)) = (up(i), cfg.cause)
            && i == j
        {
            let ran = at(format!("panic {i}")).or(at(format!("busy {i}")));
            if ran != Some(u) && (ran.is_some() || u < t0) {
                bad.push(format!("the call on {i} ran at {ran:?}, its subsystem was up at {u}"));
            }
        }
    }
    let mut t = t0;
    let mut expect_panic = false;
    let mut hang = false;
    let mut given_up = vec![];
    for i in (0..n).rev() {
        // from t on the subsystem is told to go down
        let mut finish = if let Some(f) = failed(i) {
            Some(f.max(t))
        } else if let Some(u) = up(i) {
            if let Some(p) = panics(i) && p <= t {
                expect_panic = true;
                break;
            }
            // a busy call that has started is finished first; one that has not is not started any more
            let begin = match busy(i) {
                Some(b) => b.max(t),
                _ => u.max(t),
            };
            let d = at(format!("down {i}"));
            let cut = timeout.map(|x| t + x);
            // even if the manager has stopped waiting, the order within the subsystem stands
            if cut.is_none_or(|c| begin <= c) && d != Some(begin) {
                bad.push(format!("shutdown of {i} began at {d:?}, not at {begin}"));
            }
            match cfg.subs[i].1 {
                Down::Slow => Some(begin + 2000),
                Down::Hangs => None,
                // the answer comes when that subsystem is up and not busy
                Down::CallsEarlier if i > 0 => {
                    let busy = if let Cause::BusyMut(_) = cfg.cause { busy(i - 1) } else { None };
                    up(i - 1).or(failed(i - 1)).map(|r| r.max(begin).max(busy.unwrap_or(0)))
                }
                _ => Some(begin),
            }
        } else {
            None
        };
        if let Some(x) = timeout {
            if finish.is_none_or(|f| f >= t + x) {
                given_up.push(i);
            }
            finish = Some(finish.map_or(t + x, |f| f.min(t + x)));
        }
        match finish {
            Some(f) => t = f,
            None => {
                hang = true;
                break;
            }
        }
    }
    match o.ended {
        None if hang => {}
        None => bad.push(format!("the manager did not end; expected at {t} ms")),
        Some(e) if hang => bad.push(format!("the manager ended at {e:?} although a subsystem without timeout was not down")),
        Some((at, panicked)) => {
            if panicked != expect_panic {
                bad.push(format!("the manager panicked: {panicked}, a subsystem had panicked: {expect_panic}"));
            }
            if at != t {
                bad.push(format!("the manager ended at {at} ms, not at {t} ms"));
            }
        }
    }
    for (e, _) in &o.log {
        if e.starts_with("noflag") {
            bad.push(format!("{e}: shut down before the flag was set"));
        }
        if e.starts_with("answer") && e.ends_with("false") {
            // the earlier subsystem may be unusable for reasons of its own
            let i: usize = e.split(' ').nth(1).unwrap().parse().unwrap();
            if !expect_panic && !given_up.contains(&i) && failed(i - 1).is_none() && panics(i - 1).is_none() && up(i - 1).is_some() {
                bad.push(format!("{e}: the subsystem registered earlier was gone already"));
            }
        }
    }
    for i in 0..n {
        let count = o.log.iter().filter(|(e, _)| *e == format!("down {i}")).count();
        if o.ended.is_some() && up(i).is_some() && panics(i).is_none() && count == 0 {
            bad.push(format!("{i} was never shut down"));
        }
        if count > 1 {
            bad.push(format!("{i} was shut down {count} times"));
        }
    }
    // reverse order, one at a time (unless the manager gave up on one)
    if timeout.is_none() && !expect_panic {
        for i in 1..n {
            let (d, e) = (at(format!("down {}", i - 1)), at(format!("gone {i}")));
            let pos = |w: String| o.log.iter().position(|(e, _)| *e == w);
            if d.is_some() && up(i).is_some() && (e.is_none() || pos(format!("down {}", i - 1)) < pos(format!("gone {i}"))) {
                bad.push(format!("{} went down before {i} was gone", i - 1));
            }
        }
    }
    // (the task of a subsystem that hangs still holds its unanswered calls)
    let over = |i: usize| at(format!("gone {i}")).is_some() || failed(i).is_some();
    if let Cause::BusyRef(i) | Cause::BusyMut(i) = cfg.cause
        && over(i)
        && o.after.iter().any(|ok| !ok)
    {
        bad.push("a caller waits forever".into());
    }
    bad
}

fn one(c: &PartCtx, cfg: Config) {
    c.evals(1);
    c.traces(1);
    c.states(1);
    let r = guard(|| {
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let o = rt.block_on(simulate(&cfg));
        let b = judge(&cfg, &o);
        (o, b)
    });
    match r {
        Ok((o, b)) => {
            c.outcome(match o.ended {
                None => "runs on",
                Some((_, true)) => "panic",
                Some(_) => "ended",
            });
            if !b.is_empty() {
                c.fail(format!("{cfg:?}"), format!("{}\n{o:?}", b.join("\n")));
            }
        }
        Err(e) => c.fail(format!("{cfg:?}"), e),
    }
}

fn run(ctx: &Ctx) {
    let inits = [Init::Ok, Init::Slow, Init::Fails, Init::FailsLater, Init::Never];
    let downs = [Down::Quick, Down::Slow, Down::Hangs, Down::CallsEarlier, Down::WaitsForFlag];
    let kinds: Vec<(Init, Down)> = inits
        .iter()
        .flat_map(|i| downs.iter().map(move |d| (*i, *d)))
        .filter(|(i, d)| matches!(i, Init::Ok | Init::Slow) || *d == Down::Quick)
        .collect();
    let max = ctx.pick(2, 3);
    for n in 0..=3usize {
        let name = ["none", "one", "two", "three"][n];
        ctx.part(name, "start-up, shutdown and failure behaviours, causes, timeouts", |c| {
            let kinds: Vec<_> = if n > max {
                kinds.iter().copied().filter(|(i, d)| !matches!(i, Init::Never | Init::FailsLater) && *d != Down::WaitsForFlag).collect()
            } else {
                kinds.clone()
            };
            let mut causes = vec![Cause::Before, Cause::AtOnce, Cause::Later, Cause::Twice];
            for i in 0..n {
                causes.extend([Cause::PanicMut(i), Cause::PanicRef(i), Cause::BusyRef(i), Cause::BusyMut(i)]);
            }
            let seqs: Vec<Vec<usize>> = mc_kit::sequences(kinds.len(), n).collect();
            c.par(seqs.len(), |s| {
                for cause in &causes {
                    for timeout in [None, Some(1), Some(30)] {
                        let subs = seqs[s].iter().map(|k| kinds[*k]).collect();
                        one(c, Config { subs, cause: *cause, timeout });
                    }
                }
            });
        });
    }
    ctx.part("crowds", "1 to 20 and up to 260 subsystems, each taking its time to end, with and without a timeout, some ending late or never, the end caused from outside or by any of three: one after the other, last first, each given its own time", |c| {
        let counts: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 127, 128, 129, 260]).collect();
        c.par(counts.len() * 4 * 4, |w| {
            let (n, late, cause) = (counts[w / 16], w / 4 % 4, w % 4);
            c.evals(1);
            c.traces(1);
            c.nontrivial(1);
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
            let r = guard(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(1_000_000), crowd(n, late, cause)).await.unwrap_or_else(|_| Err("does not end".to_string())) })).and_then(|r| r);
            if let Err(e) = r {
                c.fail(format!("{n} subsystems, lateness {late}, cause {cause}"), e);
            }
        });
    });
    ctx.part("signals", "handlers on or off, no signal, TERM, INT or both: a process of its own, told to end by signals or by the trigger", crate::signals::run);
}

struct Member {
    i: usize,
    secs: u64,
    log: Arc<Mutex<Vec<(usize, bool, u64)>>>,
    start: tokio::time::Instant,
}
#[async_trait::async_trait]
impl Subsystem for Member {
    type Interface = Self;
    fn interface_ref(&self) -> &Self {
        self
    }
    fn interface_mut(&mut self) -> &mut Self {
        self
    }
    async fn shutdown(self) {
        self.log.lock().unwrap().push((self.i, false, self.start.elapsed().as_secs()));
        tokio::time::sleep(Duration::from_secs(self.secs)).await;
        self.log.lock().unwrap().push((self.i, true, self.start.elapsed().as_secs()));
    }
}

/// Lateness 0: all take a second; 1: every third takes 29 of 30; 2: every third takes 31 of 30; 3: no timeout, every
/// third takes 1000.
async fn crowd(n: usize, late: usize, cause: usize) -> Result<(), String> {
    let mut config = ManagerConfig::new("m");
    config = if late == 3 { config.disable_shutdown_timeout() } else { config.with_shutdown_timeout_per_subsystem(Duration::from_secs(30)) };
    let mut man = Manager::new_with_config(config);
    let log: Arc<Mutex<Vec<(usize, bool, u64)>>> = Default::default();
    let start = tokio::time::Instant::now();
    let secs = move |i: usize| if i % 3 == 1 { [1, 29, 31, 1000][late] } else { 1 };
    // the one that comes down by itself before the others
    let first = [None, Some(0), Some(n / 2), Some(n - 1)][cause];
    for i in 0..n {
        let log = Arc::clone(&log);
        man.add_custom_subsystem("a", move |_, _| async move {
            if first == Some(i) {
                return Err(std::fmt::Error);
            }
            Ok(Member { i, secs: secs(i), log, start })
        });
    }
    let trigger = man.make_shutdown_trigger();
    let join = man.main_in_task();
    tokio::time::sleep(Duration::from_secs(10)).await;
    trigger.initiate();
    join.join().await;
    let end = start.elapsed().as_secs();
    let mut at = if first.is_some() { 0 } else { 10 };
    // one that is given up goes on while the others are shut down
    let mut want = vec![];
    for i in (0..n).rev().filter(|i| first != Some(*i)) {
        want.push((i, false, at));
        want.push((i, true, at + secs(i)));
        at += if late == 3 { secs(i) } else { secs(i).min(30) };
    }
    if end != at.max(10) {
        return Err(format!("ended at {end} instead of {}", at.max(10)));
    }
    want.retain(|w| w.2 < end);
    let mut got: Vec<_> = log.lock().unwrap().iter().copied().filter(|w| w.2 < end).collect();
    want.sort_by_key(|w| (w.2, w.0, w.1));
    got.sort_by_key(|w| (w.2, w.0, w.1));
    if got != want {
        let at = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Err(format!("(subsystem, ended, second): {:?} instead of {:?} at {at}", got.get(at), want.get(at)));
    }
    Ok(())
}
