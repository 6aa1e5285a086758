use mc_kit::{Ctx, guard, sequences};
use utils::bloom_filters::{bloom_filter::BloomFilter, rolling_bloom_filter::RollingBloomFilter};

use crate::Chosen;

const FINE: f64 = 1e-9;

/// The last `size` insertions.
fn tail(seq: &[u64], size: usize) -> &[u64] {
    &seq[seq.len().saturating_sub(size)..]
}

pub fn run(ctx: &Ctx) {
    ctx.part("recent items", "sizes 1 to 40 (thorough 120) and around powers of two, 4 rates, 3 seeds: after each of many insertions, the last `size` items are all known and what was never inserted is not", |c| {
        let mut sizes: Vec<usize> = (1..=ctx.pick(40, 120)).collect();
        sizes.extend([127, 128, 129, 255, 256, 257, 1000]);
        c.par(sizes.len(), |i| {
            let size = sizes[i];
            for (f, fpp) in [0.9, 0.1, 0.001, FINE].into_iter().enumerate() {
                for seed in 0..3u64 {
                    if c.stop() {
                        return;
                    }
                    let key = || format!("size {size} rate {fpp} seed {seed}");
                    let mut rng = Chosen(seed * 77 + size as u64);
                    let Ok(mut filter) = guard(|| RollingBloomFilter::<u64>::new(size, fpp, &mut Chosen(seed))) else {
                        c.fail(key(), "could not be made");
                        return;
                    };
                    let n = 5 * size.min(260) as u64 + 12;
                    let mut seq = vec![];
                    for v in 0..n {
                        if guard(|| filter.insert(&v, &mut rng)).is_err() {
                            c.fail(key(), format!("insertion {v} panicked"));
                            return;
                        }
                        seq.push(v);
                        c.transitions(1);
                        let step = if size > 64 && v % 16 != 0 { size.saturating_sub(1).max(1) } else { 1 };
                        for r in tail(&seq, size).iter().step_by(step) {
                            c.evals(1);
                            if !filter.contains(r) {
                                c.fail(format!("{} forgot {r} after {v}", key()), format!("inserted 0..={v}, {r} is among the last {size}"));
                                return;
                            }
                        }
                    }
                    c.states(n);
                    c.nontrivial(1);
                    c.outcome(["rate 0.9", "rate 0.1", "rate 0.001", "rate 1e-9"][f]);
                    // forgotten in the end: three subfilters of about half the size each
                    if fpp == FINE {
                        for v in 0..n {
                            let gone = n - v > 3 * (size as u64).div_ceil(2).max(1) + 3;
                            c.evals(1);
                            if gone && filter.contains(&v) {
                                c.fail(format!("{} still knows {v} of {n}", key()), "should have been forgotten");
                                return;
                            }
                        }
                        for v in n..n + 500 {
                            c.evals(1);
                            if filter.contains(&v) {
                                c.fail(format!("{} knows {v}, never inserted", key()), "one in a billion is promised");
                                return;
                            }
                        }
                    }
                }
            }
        });
    });

    ctx.part("histories", "every sequence of up to 8 (thorough 9) insertions of 3 values for sizes 1 to 6: what is among the last `size` is known, the rest after a whole turn is not", |c| {
        let depth = ctx.pick(8, 9);
        c.par(18, |i| {
            let (size, seed) = (i / 3 + 1, i as u64 % 3);
            for s in (1..=depth).flat_map(|n| sequences(3, n)) {
                let mut rng = Chosen(seed + 5);
                let mut filter = RollingBloomFilter::<u64>::new(size, FINE, &mut Chosen(seed));
                let seq: Vec<u64> = s.iter().map(|v| *v as u64 * 1000).collect();
                for v in &seq {
                    filter.insert(v, &mut rng);
                }
                c.evals(1);
                c.traces(1);
                c.nontrivial(1);
                for v in [0u64, 1000, 2000] {
                    let recent = tail(&seq, size).contains(&v);
                    let ever = seq.contains(&v);
                    let got = filter.contains(&v);
                    c.outcome(if recent { "recent" } else if ever { "older" } else { "never" });
                    if (recent && !got) || (!ever && got) {
                        c.fail(format!("size {size} inserted {seq:?} asked {v}"), format!("answered {got}"));
                        return;
                    }
                }
            }
        });
    });

    ctx.part("rates", "sizes 50 to 2000, 3 rates, 4 seeds: the share of unknown items reported as known stays near the rate asked for", |c| {
        let sizes = [50usize, 100, 333, 1000, 2000];
        c.par(sizes.len() * 3, |i| {
            let (size, fpp) = (sizes[i / 3], [0.1, 0.01, 0.002][i % 3]);
            for seed in 0..4u64 {
                let mut rng = Chosen(seed + 99);
                let mut filter = RollingBloomFilter::<u64>::new(size, fpp, &mut Chosen(seed));
                for v in 0..(4 * size) as u64 {
                    filter.insert(&v, &mut rng);
                }
                let asked = 20_000;
                let wrong = (0..asked).filter(|v| filter.contains(&(1_000_000 + *v as u64))).count();
                c.evals(asked);
                c.nontrivial(1);
                c.outcome("measured");
                if wrong as f64 > 3.0 * fpp * asked as f64 + 30.0 {
                    c.fail(format!("size {size} rate {fpp} seed {seed}"), format!("{wrong} of {asked} unknown items reported as known"));
                }
            }
        });
    });

    ctx.part("rates after repeats", "sizes 50 to 1000, 2 rates, 3 seeds, items inserted again soon, late, or over and over: the rate of unknown items reported as known stays near the one asked for all the while", |c| {
        let sizes = [50usize, 101, 400, 1000];
        c.par(sizes.len() * 2 * 6, |i| {
            let (size, fpp, how) = (sizes[i % 4], [0.02, 0.002][i / 4 % 2], i / 8);
            let m = size as u64;
            let seq: Vec<u64> = match how {
                // each again at once, after half a window, after a window
                0 => (0..4 * m).flat_map(|v| [v, v]).collect(),
                1 => (0..4 * m).flat_map(|v| [v, v.saturating_sub(m / 2)]).collect(),
                2 => (0..4 * m).flat_map(|v| [v, v.saturating_sub(m)]).collect(),
                // the same ones round and round, with a new one now and then
                3 => (0..6 * m).map(|v| v % m).collect(),
                4 => (0..6 * m).map(|v| if v % 5 == 0 { 100_000 + v } else { v % m }).collect(),
                _ => (0..6 * m).map(|v| if (v / m) % 2 == 0 { v } else { v % (m / 2) }).collect(),
            };
            for seed in 0..3u64 {
                let mut rng = Chosen(seed + 41);
                let mut filter = RollingBloomFilter::<u64>::new(size, fpp, &mut Chosen(seed));
                for (n, v) in seq.iter().enumerate() {
                    filter.insert(v, &mut rng);
                    if (n + 1) % (size / 4) == 0 {
                        let asked = 1500;
                        let wrong = (0..asked).filter(|v| filter.contains(&(1_000_000 + *v as u64))).count();
                        c.evals(asked);
                        c.outcome("measured");
                        if wrong as f64 > 3.0 * fpp * asked as f64 + 25.0 {
                            c.fail(format!("size {size} rate {fpp} seed {seed} repeats {how} after {}", n + 1), format!("{wrong} of {asked} unknown items reported as known"));
                            return;
                        }
                        for r in tail(&seq[..n + 1], size) {
                            if !filter.contains(r) {
                                c.fail(format!("size {size} rate {fpp} seed {seed} repeats {how} forgot {r} after {}", n + 1), "among the last");
                                return;
                            }
                        }
                    }
                }
                c.nontrivial(1);
            }
        });
    });

    ctx.part("sizes and rates that make no sense", "no items, and rates of nothing, of everything and beyond", |c| {
        for (size, fpp) in [(0usize, 0.1), (0, 0.001), (10, 0.0), (10, -0.1), (10, 1.0), (10, 1.5), (10, f64::NAN), (1, 1.0), (1, 0.0)] {
            let plain = guard(|| BloomFilter::<u64>::new(size, fpp, &mut Chosen(1)).contains(&1)).is_ok();
            let rolling = guard(|| RollingBloomFilter::<u64>::new(size, fpp, &mut Chosen(1)).contains(&1)).is_ok();
            c.evals(2);
            c.nontrivial(1);
            c.eq(|| format!("{size} items, rate {fpp}"), &(plain, rolling), &(false, false));
        }
    });

    ctx.part("plain filter", "every sequence of up to 7 insertions of 3 values and clearings", |c| {
        for s in (0..=7).flat_map(|n| sequences(4, n)) {
            let mut filter = BloomFilter::<u64>::new(5, FINE, &mut Chosen(3));
            let mut set = std::collections::BTreeSet::new();
            for o in &s {
                if *o == 3 {
                    filter.clear();
                    set.clear();
                } else {
                    filter.insert(&(*o as u64));
                    set.insert(*o as u64);
                }
            }
            c.evals(1);
            c.traces(1);
            c.nontrivial(1);
            let got: Vec<bool> = (0..4).map(|v| filter.contains(&v)).collect();
            let want: Vec<bool> = (0..4).map(|v| set.contains(&v)).collect();
            c.outcome(if set.is_empty() { "empty" } else { "holding" });
            if !c.eq(|| format!("history {s:?}, 3 = clear"), &got, &want) {
                return;
            }
        }
    });
}
