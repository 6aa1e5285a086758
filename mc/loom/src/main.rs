//! The code of /repo compiled with `--cfg loom`: every interleaving of its lock and atomic operations up to a
//! preemption bound, with loom's memory model for the orderings.
mod counters;
mod isolation;

fn main() {
    mc_kit::main(&[isolation::CHECK, counters::CHECK]);
}

/// Runs one loom model; a panic of any thread in any interleaving is the violation.
pub fn explore(
    c: &mc_kit::PartCtx,
    name: &str,
    bound: Option<usize>,
    body: impl Fn() + Send + Sync + 'static,
) {
    use std::sync::{Arc, atomic::*};
    let runs = Arc::new(AtomicU64::new(0));
    let r = Arc::clone(&runs);
    let mut b = loom::model::Builder::new();
    b.preemption_bound = bound;
    b.max_branches = 20_000;
    let res = mc_kit::guard(move || {
        b.check(move || {
            r.fetch_add(1, Ordering::Relaxed);
            body();
        })
    });
    let n = runs.load(Ordering::Relaxed);
    c.evals(n);
    c.traces(n);
    c.states(n);
    if let Err(e) = res {
        c.fail(name, format!("execution {n} of {name}: {e}"));
    }
}
