use std::collections::BTreeSet;

use mc_kit::{Ctx, guard, permutations, sequences};
use randomness::CryptoRng;
use utils::{
    array_2d::Array2d,
    graph_traversals::{dag_depth_postorder, dag_depth_postorder_multiroot},
    shuffled::Shuffled,
    sorted::Sorted,
};

use crate::Chosen;

fn visit(g: &[Vec<usize>], n: usize, seen: &mut BTreeSet<usize>, out: &mut Vec<usize>) {
    if seen.insert(n) {
        for k in &g[n] {
            visit(g, *k, seen, out);
        }
        out.push(n);
    }
}

pub fn run(ctx: &Ctx) {
    ctx.part("walks", "every acyclic graph on up to 4 nodes (thorough: 5) under every order of its nodes, from every list of up to 3 roots, children listed up or down or twice: nine large shapes of up to 4095 nodes from seven lists of roots: every node reached once, after all it leads to, in depth-first order", |c| {
        let max = ctx.pick(4, 5);
        for n in 1..=max {
            let pairs: Vec<(usize, usize)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).collect();
            let perms = permutations(n);
            let lists: Vec<Vec<usize>> = (0..=if n < 5 { 3 } else { 2 }).flat_map(|k| sequences(n, k)).collect();
            c.par(1 << pairs.len(), |edges| {
                for p in &perms {
                    for style in 0..3 {
                        let mut g = vec![vec![]; n];
                        for (b, (i, j)) in pairs.iter().enumerate() {
                            if edges >> b & 1 == 1 {
                                g[p[*i]].push(p[*j]);
                            }
                        }
                        for k in &mut g {
                            k.sort();
                            match style {
                                0 => {}
                                1 => k.reverse(),
                                _ => *k = k.iter().flat_map(|x| [*x, *x]).collect(),
                            }
                        }
                        c.states(1);
                        for roots in &lists {
                            let (mut seen, mut want) = Default::default();
                            for r in roots {
                                visit(&g, *r, &mut seen, &mut want);
                            }
                            let got = guard(|| dag_depth_postorder_multiroot(roots.clone(), |x: &usize| g[*x].clone()).take(50).collect::<Vec<_>>());
                            c.evals(1);
                            c.transitions(want.len() as u64);
                            if !c.eq(|| format!("children {g:?} roots {roots:?}"), &got, &Ok(want.clone())) {
                                return;
                            }
                            if roots.len() == 1 {
                                let one = dag_depth_postorder(roots[0], |x: &usize| g[*x].clone()).take(50).collect::<Vec<_>>();
                                c.eq(|| format!("children {g:?} root {}", roots[0]), &one, &want);
                            }
                        }
                        c.nontrivial(1);
                    }
                }
            });
            c.outcome_n("graphs", 1 << pairs.len());
        }
        // wide, deep and tangled ones, from many roots
        let shapes: Vec<(&str, Vec<Vec<usize>>)> = {
            let n = 3000;
            let mut star = vec![vec![]; n];
            star[0] = (1..n).collect();
            let mut back = vec![vec![]; n];
            back[0] = (1..n).rev().collect();
            let tree = (0..4095).map(|i| [2 * i + 1, 2 * i + 2].into_iter().filter(|k| *k < 4095).collect()).collect();
            let full = (0..200usize).map(|i| (i + 1..200).collect()).collect();
            let full_back = (0..200usize).map(|i| (i + 1..200).rev().collect()).collect();
            // layers of 30, each of a layer leading to all of the next
            let layers = (0..600usize).map(|i| ((i / 30 + 1) * 30..(i / 30 + 2) * 30).filter(|k| *k < 600).collect()).collect();
            let comb = (0..2000usize).map(|i| if i < 1000 { [i + 1000].into_iter().chain((i + 1 < 1000).then_some(i + 1)).collect() } else { vec![] }).collect();
            let comb_back = (0..2000usize).map(|i| if i < 1000 { (i + 1 < 1000).then_some(i + 1).into_iter().chain([i + 1000]).collect() } else { vec![] }).collect();
            vec![("star", star), ("star the other way", back), ("tree", tree), ("all to all after", full), ("all to all after, last first", full_back), ("layers", layers), ("comb", comb), ("comb, deep first", comb_back), ("no lines", vec![vec![]; 2000])]
        };
        c.par(shapes.len(), |i| {
            let (name, g) = &shapes[i];
            let n = g.len();
            let all: Vec<usize> = (0..n).collect();
            let rev: Vec<usize> = (0..n).rev().collect();
            let twice: Vec<usize> = all.iter().chain(&all).copied().collect();
            let mixed: Vec<usize> = (0..n).map(|i| i * 7919 % n).collect();
            for (how, roots) in [("the first", vec![0]), ("the last", vec![n - 1]), ("all", all), ("all backwards", rev), ("all twice", twice), ("all mixed", mixed), ("every third", (0..n).step_by(3).collect())] {
                let (mut seen, mut want) = Default::default();
                for r in &roots {
                    visit(g, *r, &mut seen, &mut want);
                }
                let got = guard(|| dag_depth_postorder_multiroot(roots.clone(), |x: &usize| g[*x].clone()).take(2 * n + 5).collect::<Vec<_>>());
                c.evals(1);
                c.nontrivial(1);
                c.states(want.len() as u64);
                c.outcome("large");
                let same = got.as_ref().is_ok_and(|g| *g == want);
                if !same {
                    let at = got.as_ref().ok().map(|g| g.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(g.len().min(want.len())));
                    c.fail(format!("{name} of {n} nodes from {how}"), format!("{} nodes are to be reached, {:?} were; the first difference is at {at:?}", want.len(), got.map(|g| g.len())));
                    return;
                }
            }
        });
        // a long chain does not exhaust the stack
        let long = dag_depth_postorder(0usize, |x: &usize| (*x < 200_000).then(|| *x + 1)).collect::<Vec<_>>();
        c.evals(1);
        c.eq(|| "chain of 200001".into(), &(long.len(), long[0], long[200_000]), &(200_001, 200_000, 0));
    });

    ctx.part("tables", "every table of up to 5 by 5, every cell written in every way: only that cell changes, rows are rows, and what is outside is refused", |c| {
        for rows in 0..=5usize {
            for cols in 1..=5usize {
                let mut t = Array2d::new(rows, cols, 0u32);
                let mut model = vec![vec![0u32; cols]; rows];
                c.eq(|| format!("{rows} by {cols} size"), &(t.rows_count(), t.cols_count()), &(rows, cols));
                for (n, (r, k)) in (0..rows).flat_map(|r| (0..cols).map(move |k| (r, k))).enumerate() {
                    if n % 2 == 0 {
                        t[r][k] = n as u32 + 1;
                    } else {
                        t.rows_mut().nth(r).unwrap()[k] = n as u32 + 1;
                    }
                    model[r][k] = n as u32 + 1;
                    c.evals(1);
                    c.nontrivial(1);
                    let a: Vec<Vec<u32>> = t.rows().map(|r| r.to_vec()).collect();
                    let b: Vec<Vec<u32>> = (0..rows).map(|r| t[r].to_vec()).collect();
                    let m: Vec<Vec<u32>> = t.rows_mut().map(|r| r.to_vec()).collect();
                    c.eq(|| format!("{rows} by {cols} after {r} {k}"), &(a, b, m), &(model.clone(), model.clone(), model.clone()));
                }
                for r in rows..rows + 3 {
                    c.eq(|| format!("{rows} by {cols} row {r}"), &guard(|| t[r].len()).is_err(), &true);
                }
                c.eq(|| format!("{rows} by {cols} column"), &guard(|| rows > 0 && t[0][cols] == 0).is_err(), &(rows > 0));
                c.outcome("table");
            }
        }
    });

    ctx.part("orders", "every list of up to 7 of 4 values: sorting keeps the elements and their order among equals, shuffling keeps the elements", |c| {
        for n in 0..=7 {
            for s in sequences(4, n) {
                let v: Vec<(usize, usize)> = s.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
                let mut want = v.clone();
                want.sort();
                c.evals(1);
                c.nontrivial(1);
                let by = v.clone().sorted_by(|a, b| a.0.cmp(&b.0));
                let all = v.clone().sorted();
                let mut back = want.clone();
                back.sort_by(|a, b| b.0.cmp(&a.0));
                let down = v.clone().sorted_by(|a, b| b.0.cmp(&a.0));
                if !c.eq(|| format!("list {s:?}"), &(by, all, down), &(want.clone(), want.clone(), back)) {
                    return;
                }
                let mut rng = Chosen(n as u64);
                let mut mixed = shuffle(v.clone(), &mut rng);
                mixed.sort();
                c.eq(|| format!("list {s:?} shuffled"), &mixed, &want);
            }
        }
        // every order can come out
        let seen: BTreeSet<Vec<usize>> = (0..2000).map(|s| shuffle(vec![0, 1, 2, 3], &mut Chosen(s * 7919 + 1))).collect();
        c.eq(|| "orders reached by shuffling 4".into(), &seen.len(), &24);
        c.outcome("ordered");
    });
}
fn shuffle<T>(v: Vec<T>, rng: &mut impl CryptoRng) -> Vec<T> {
    v.shuffled(rng)
}
