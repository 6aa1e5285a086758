//! Shared machinery of the checks: explicit-state search over real objects, counters, verdicts, evidence.
//!
//! A check is a function `fn(&Ctx)`.  It enumerates a bounded space completely, calls the real code on every
//! element and reports with [`Ctx::violation`] whatever disagrees with its oracle.  A panic that is not caught by
//! the check itself counts as a violation too (on the unchanged tree nothing may panic).

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed},
    },
    time::{Duration, Instant},
};


#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Part {
    evaluations: u64,
    nontrivial: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    note: String,
    exhaustive: bool,
    wall: f64,
}

pub struct Check {
    pub id: &'static str,
    /// "model_checking", "exploration" or "fault_enumeration"
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    pub seed: u64,
    start: Instant,
    budget: Duration,
    parts: Mutex<Vec<(String, Part)>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<(String, String)>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<HashSet<String>>,
    capped: AtomicBool,
    replay: Option<String>,
    pub dir: String,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Run `f`, turning a panic into an `Err` with its message and place.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let text = format!("{msg} at {loc}");
        if !QUIET.try_with(|q| *q.borrow()).unwrap_or(false) {
            eprintln!("thread panicked: {text}");
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = text);
    }));
}

static NOW: Mutex<String> = Mutex::new(String::new());

impl Ctx {
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// A bound: `q` in the quick tier, `t` in the thorough one.
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.quick() { q } else { t }
    }
    pub fn out_of_time(&self) -> bool {
        let o = self.start.elapsed() > self.budget;
        if o {
            self.capped.store(true, Relaxed);
        }
        o
    }
    pub fn failed(&self) -> bool {
        self.violations.lock().unwrap().len() >= 5
    }

    /// Run one named part of the check.
    pub fn part(&self, name: &str, note: &str, f: impl FnOnce(&PartCtx)) {
        if self.failed() {
            return;
        }
        let t = Instant::now();
        *NOW.lock().unwrap() = name.to_string();
        let pc = PartCtx {
            ctx: self,
            name: name.into(),
            evaluations: AtomicU64::new(0),
            nontrivial: AtomicU64::new(0),
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            exhaustive: AtomicBool::new(true),
            sampled: AtomicUsize::new(0),
        };
        if let Err(e) = guard(|| f(&pc)) {
            self.violation(&format!("{name}: {e}"), "an uncaught panic while exploring this part");
        }
        let p = Part {
            evaluations: pc.evaluations.load(Relaxed),
            nontrivial: pc.nontrivial.load(Relaxed),
            states: pc.states.load(Relaxed),
            transitions: pc.transitions.load(Relaxed),
            traces: pc.traces.load(Relaxed),
            outcomes: pc.outcomes.into_inner().unwrap(),
            note: note.into(),
            exhaustive: pc.exhaustive.load(Relaxed),
            wall: t.elapsed().as_secs_f64(),
        };
        eprintln!(
            "[{}] {name}: evaluations={} states={} transitions={} traces={} outcomes={} {:.1}s",
            self.id, p.evaluations, p.states, p.transitions, p.traces, p.outcomes.len(), p.wall
        );
        self.parts.lock().unwrap().push((name.into(), p));
    }

    /// `key` identifies the failing input / history; `detail` is what went into the replay artefact.
    pub fn violation(&self, key: &str, detail: &str) {
        if let Some(want) = &self.replay {
            if want == key {
                println!("REPRODUCED: {key}\n{detail}");
            } else {
                return;
            }
        }
        if let Some((k, d)) = self.known.iter().find(|(k, _)| key == k || (k.ends_with('*') && key.starts_with(k.trim_end_matches('*')))) {
            if self.known_hit.lock().unwrap().insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {}", self.id, d);
            }
            return;
        }
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5 {
            v.push((key.into(), detail.into()));
        }
    }

    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            let mut s = s;
            if s.len() > 1500 {
                let mut e = 1500;
                while !s.is_char_boundary(e) {
                    e -= 1;
                }
                s.truncate(e);
            }
            v.push(s);
        }
    }
}

pub struct PartCtx<'a> {
    pub ctx: &'a Ctx,
    pub name: String,
    evaluations: AtomicU64,
    nontrivial: AtomicU64,
    states: AtomicU64,
    transitions: AtomicU64,
    traces: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    exhaustive: AtomicBool,
    sampled: AtomicUsize,
}

impl PartCtx<'_> {
    pub fn evals(&self, n: u64) {
        self.evaluations.fetch_add(n, Relaxed);
    }
    pub fn nontrivial(&self, n: u64) {
        self.nontrivial.fetch_add(n, Relaxed);
    }
    pub fn states(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn transitions(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn traces(&self, n: u64) {
        self.traces.fetch_add(n, Relaxed);
    }
    pub fn outcome(&self, o: &str) {
        self.outcome_n(o, 1);
    }
    pub fn outcome_n(&self, o: &str, n: u64) {
        let mut m = self.outcomes.lock().unwrap();
        if let Some(c) = m.get_mut(o) {
            *c += n;
        } else if m.len() < 200 {
            m.insert(o.into(), n);
        }
    }
    pub fn fail(&self, key: impl AsRef<str>, detail: impl AsRef<str>) {
        self.ctx.violation(&format!("{}: {}", self.name, key.as_ref()), detail.as_ref());
    }
    pub fn capped(&self) {
        self.exhaustive.store(false, Relaxed);
    }
    pub fn stop(&self) -> bool {
        if self.ctx.out_of_time() {
            self.capped();
            return true;
        }
        self.ctx.failed()
    }
    /// At most three samples per part are kept.
    pub fn sample(&self, f: impl FnOnce() -> String) {
        if self.sampled.load(Relaxed) < 3 && self.sampled.fetch_add(1, Relaxed) < 3 {
            self.ctx.sample(format!("{}: {}", self.name, f()));
        }
    }
    /// Compare; a difference is a violation.  Returns whether they agreed.
    pub fn eq<T: PartialEq + Debug>(&self, key: impl FnOnce() -> String, got: &T, want: &T) -> bool {
        if got == want {
            true
        } else {
            let k = key();
            self.fail(&k, format!("case: {k}\n got: {got:?}\nwant: {want:?}"));
            false
        }
    }

    /// Run `f(i)` for every i in 0..n on all cores; stops early on violations or when out of time.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        let workers = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(n.max(1));
        let panics = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for _ in 0..workers {
                s.spawn(|| {
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stop() {
                            break;
                        }
                        if let Err(e) = guard(|| f(i)) {
                            panics.lock().unwrap().push((i, e));
                        }
                    }
                });
            }
        });
        for (i, e) in panics.into_inner().unwrap() {
            self.fail(format!("item {i}: {e}"), "uncaught panic");
        }
    }

    /// Breadth-first search.  Every transition calls the real code (`step` applies one operation to a clone of the
    /// state, which holds both the real object and its reference model, and returns what disagreed).
    /// `key` canonicalises a state for deduplication.  Explores completely to `depth`.
    pub fn bfs<S, O, K>(
        &self,
        init: Vec<(String, S)>,
        depth: usize,
        ops: impl Fn(&S) -> Vec<O> + Sync,
        step: impl Fn(&mut S, &O) -> Result<String, String> + Sync,
        key: impl Fn(&S) -> K + Sync,
    ) where
        S: Clone + Send + Sync,
        O: Clone + Debug + Send + Sync,
        K: Hash,
    {
        let mut seen: HashSet<u128> = HashSet::new();
        // (parent, op) of every discovered state
        let mut trail: Vec<(usize, String)> = vec![];
        let mut frontier: Vec<(usize, S)> = vec![];
        for (n, s) in init {
            if seen.insert(hash128(&key(&s))) {
                trail.push((usize::MAX, format!("init({n})")));
                frontier.push((trail.len() - 1, s));
                self.states(1);
            }
        }
        let path = |trail: &Vec<(usize, String)>, mut i: usize| {
            let mut v = vec![];
            while i != usize::MAX {
                v.push(trail[i].1.clone());
                i = trail[i].0;
            }
            v.reverse();
            v.join(" ; ")
        };
        let mut sampled_depth = 0;
        for d in 0..depth {
            if frontier.is_empty() || self.stop() {
                break;
            }
            let results: Mutex<Vec<(usize, usize, String, S, u128)>> = Mutex::new(vec![]);
            let outcomes: Mutex<HashMap<String, u64>> = Mutex::new(HashMap::new());
            let fails: Mutex<Vec<(usize, String, String)>> = Mutex::new(vec![]);
            let fr = &frontier;
            let seen_ref = &seen;
            let chunk = (fr.len() / 64).clamp(1, 256);
            let chunks = fr.len().div_ceil(chunk);
            self.par(chunks, |c| {
                let mut local = vec![];
                let mut lout: HashMap<String, u64> = HashMap::new();
                let mut n = 0;
                for (fi, (pi, s)) in fr.iter().enumerate().skip(c * chunk).take(chunk) {
                    for (oi, o) in ops(s).into_iter().enumerate() {
                        let mut t = s.clone();
                        n += 1;
                        match guard(|| step(&mut t, &o)) {
                            Ok(Ok(out)) => {
                                *lout.entry(out).or_default() += 1;
                                let h = hash128(&key(&t));
                                if !seen_ref.contains(&h) {
                                    local.push((fi, oi, format!("{o:?}"), t, h));
                                }
                            }
                            Ok(Err(e)) | Err(e) => {
                                fails.lock().unwrap().push((*pi, format!("{o:?}"), e));
                            }
                        }
                    }
                }
                self.transitions(n);
                self.evals(n);
                let mut o = outcomes.lock().unwrap();
                for (k, v) in lout {
                    *o.entry(k).or_default() += v;
                }
                results.lock().unwrap().append(&mut local);
            });
            for (k, v) in outcomes.into_inner().unwrap() {
                self.outcome_n(&k, v);
            }
            let mut fails = fails.into_inner().unwrap();
            fails.sort();
            for (pi, o, e) in fails.into_iter().take(3) {
                let p = path(&trail, pi);
                self.fail(format!("{p} ; {o}"), format!("history: {p} ; {o}\ndisagreement: {e}"));
            }
            let mut res = results.into_inner().unwrap();
            res.sort_by_key(|r| (r.0, r.1));
            let mut next = vec![];
            for (fi, _, o, s, h) in res {
                if seen.insert(h) {
                    trail.push((fr[fi].0, o));
                    next.push((trail.len() - 1, s));
                }
            }
            self.states(next.len() as u64);
            self.traces(next.len() as u64);
            self.nontrivial(next.len() as u64);
            if let Some(l) = next.last() {
                if d + 1 > sampled_depth {
                    sampled_depth = d + 1;
                    if d + 1 >= 2 {
                        let p = path(&trail, l.0);
                        self.sample(|| p);
                    }
                }
            }
            frontier = next;
        }
    }
}

pub fn hash128<K: Hash>(k: &K) -> u128 {
    let mut a = std::collections::hash_map::DefaultHasher::new();
    0x9e37u64.hash(&mut a);
    k.hash(&mut a);
    let mut b = std::collections::hash_map::DefaultHasher::new();
    0x51edu64.hash(&mut b);
    k.hash(&mut b);
    ((a.finish() as u128) << 64) | b.finish() as u128
}

/// All sequences over `0..n` of length exactly `len`, as mixed-radix counting.
pub fn sequences(n: usize, len: usize) -> impl Iterator<Item = Vec<usize>> {
    let total = n.checked_pow(len as u32).expect("too many sequences");
    (0..total).map(move |mut i| {
        (0..len)
            .map(|_| {
                let d = i % n;
                i /= n;
                d
            })
            .collect()
    })
}

/// All subsets of 0..n as bit masks.
pub fn subsets(n: usize) -> std::ops::Range<u32> {
    0..(1 << n)
}

/// All permutations of 0..n.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out.sort();
    out
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A scratch directory that is removed on drop.
pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let base = if std::path::Path::new("/dev/shm").is_dir() && std::fs::metadata("/dev/shm").map(|m| !m.permissions().readonly()).unwrap_or(false) {
            "/dev/shm"
        } else {
            "/tmp"
        };
        let p = std::path::PathBuf::from(format!("{base}/verif-mc-{tag}-{}-{}", std::process::id(), N.fetch_add(1, Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Self(p)
    }
    pub fn path(&self) -> &std::path::Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub fn main(checks: &[Check]) {
    install_hook();
    let mut args = std::env::args().skip(1);
    let id = args.next().unwrap_or_default();
    let mut replay = None;
    while let Some(a) = args.next() {
        if a == "--replay" {
            let f = args.next().expect("--replay FILE");
            let t = std::fs::read_to_string(f).expect("replay file");
            replay = t.lines().find_map(|l| l.strip_prefix("key: ").map(|s| s.to_string()));
        }
    }
    let Some(check) = checks.iter().find(|c| c.id == id) else {
        eprintln!("unknown property {id}; known: {:?}", checks.iter().map(|c| c.id).collect::<Vec<_>>());
        std::process::exit(3);
    };
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let dir = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let budget = std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(match tier {
        Tier::Quick => 420u64,
        Tier::Thorough => 6 * 3600,
    });
    let known = std::fs::read_to_string(format!("{dir}/known-findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // finding: property=<id> key=<key> :: <what fails>
            let l = l.strip_prefix(&format!("finding: property={} key=", check.id))?;
            let (k, d) = l.split_once(" :: ")?;
            Some((k.to_string(), d.to_string()))
        })
        .collect();
    let ctx = Ctx {
        id: check.id,
        tier,
        seed,
        start: Instant::now(),
        budget: Duration::from_secs(budget),
        parts: Default::default(),
        samples: Default::default(),
        violations: Default::default(),
        known,
        known_hit: Default::default(),
        capped: AtomicBool::new(false),
        replay,
        dir: dir.clone(),
    };
    if tier == Tier::Quick {
        // what takes ten times as long as it should has stopped for good: nothing in it may wait for ever
        let (id, dir) = (check.id, dir.clone());
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(budget + 100));
            let part = NOW.lock().unwrap().clone();
            let path = format!("{dir}/evidence/replays/{id}-0.txt");
            let _ = std::fs::create_dir_all(format!("{dir}/evidence/replays"));
            let _ = std::fs::write(&path, format!("{part}: does not end\n"));
            println!("VIOLATION property={id} replay={path}\n  {part}: does not end");
            std::process::exit(1);
        });
    }
    if let Err(e) = guard(|| (check.run)(&ctx)) {
        ctx.violation(&format!("uncaught {e}"), "an uncaught panic in the check");
    }
    let parts = ctx.parts.into_inner().unwrap();
    let sum = |f: fn(&Part) -> u64| parts.iter().map(|p| f(&p.1)).sum::<u64>();
    let capped = ctx.capped.load(Relaxed) || parts.iter().any(|p| !p.1.exhaustive);
    let violations = ctx.violations.into_inner().unwrap();
    let mut cov = serde_json::Map::new();
    let mut put = |k: &str, v: serde_json::Value| {
        cov.insert(k.into(), v);
    };
    if check.level == "model_checking" {
        put("states", sum(|p| p.states).into());
        put("transitions", sum(|p| p.transitions).into());
        put("traces_validated_against_impl", sum(|p| p.traces).into());
        let e = sum(|p| p.evaluations);
        if e != sum(|p| p.transitions) {
            put("evaluations", e.into());
        }
    } else {
        put("evaluations", sum(|p| p.evaluations).into());
        put("distinct_nontrivial", sum(|p| p.nontrivial).into());
        if sum(|p| p.states) > 0 {
            put("states", sum(|p| p.states).into());
            put("transitions", sum(|p| p.transitions).into());
        }
    }
    put("rule", check.rule.into());
    put("samples", ctx.samples.into_inner().unwrap().into());
    put("exhaustive", (!capped && violations.is_empty()).into());
    put(
        "parts",
        serde_json::Value::Array(
            parts
                .iter()
                .map(|(n, p)| {
                    let top: serde_json::Map<String, serde_json::Value> =
                        p.outcomes.iter().take(16).map(|(k, v)| (k.chars().take(80).collect(), (*v).into())).collect();
                    let mut m = serde_json::Map::new();
                    m.insert("part".into(), n.as_str().into());
                    m.insert("bounds".into(), p.note.as_str().into());
                    for (k, v) in [
                        ("evaluations", p.evaluations),
                        ("nontrivial", p.nontrivial),
                        ("states", p.states),
                        ("transitions", p.transitions),
                        ("traces", p.traces),
                    ] {
                        if v > 0 {
                            m.insert(k.into(), v.into());
                        }
                    }
                    m.insert("distinct_outcomes".into(), p.outcomes.len().into());
                    m.insert("outcomes".into(), top.into());
                    m.insert("completed".into(), p.exhaustive.into());
                    m.insert("wall_s".into(), ((p.wall * 10.0).round() / 10.0).into());
                    m.into()
                })
                .collect(),
        ),
    );
    let ev = serde_json::json!({
        "property": check.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": check.level,
        "coverage": cov,
        "assumptions": check.assumptions,
        "wall_s": ctx.start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence/replays"));
    std::fs::write(format!("{dir}/evidence/{}.json", check.id), serde_json::to_string_pretty(&ev).unwrap() + "\n").unwrap();
    if violations.is_empty() {
        if capped {
            println!("{}: time cap hit; no violation in what was explored", check.id);
        } else {
            println!("{}: held on everything explored", check.id);
        }
        std::process::exit(0);
    }
    for (i, (key, detail)) in violations.iter().enumerate() {
        let key1: String = key.replace('\n', " ");
        let path = format!("{dir}/evidence/replays/{}-{i}.txt", check.id);
        let _ = std::fs::write(
            &path,
            format!("property: {}\nkey: {key1}\n\n{detail}\n\nreplay: ./check {} --replay {path}\n", check.id, check.id),
        );
        println!("  {}", key1.chars().take(600).collect::<String>());
        println!("VIOLATION property={} replay={path}", check.id);
    }
    std::process::exit(1);
}
