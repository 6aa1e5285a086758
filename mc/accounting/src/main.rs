//! A01: the delta algebra of the `accounting` crate.

use accounting::{
    DataDelta, DataDeltaUndo, DeltaAmountCollection, DeltaDataCollection, DeltaDataUndoCollection, GetDataResult,
    combine_amount_delta, combine_data_with_delta,
};
use common::primitives::{Amount, amount::SignedAmount};
use mc_kit::{Check, Ctx, guard};
use std::collections::BTreeMap;

type Val = Option<char>;
type Coll = DeltaDataCollection<u8, char>;
type Layer = BTreeMap<u8, (Val, Val)>;

const VALS: [Val; 3] = [None, Some('a'), Some('b')];

fn deltas() -> Vec<(Val, Val)> {
    VALS.iter().flat_map(|o| VALS.iter().map(|n| (*o, *n))).collect()
}

fn to_coll(l: &Layer) -> Coll {
    l.iter().map(|(k, (o, n))| (*k, DataDelta::new(*o, *n))).collect()
}

fn from_coll(c: &Coll) -> Layer {
    c.data().iter().map(|(k, d)| (*k, d.clone().consume())).collect()
}

/// Merge `b` over `a` element by element; None when some element is not consecutive.
fn model_merge(a: &Layer, b: &Layer) -> Option<Layer> {
    let mut r = a.clone();
    for (k, (o, n)) in b {
        match r.get(k) {
            None => {
                r.insert(*k, (*o, *n));
            }
            Some((oo, on)) => {
                if on != o {
                    return None;
                }
                let oo = *oo;
                r.insert(*k, (oo, *n));
            }
        }
    }
    Some(r)
}

/// Apply to a base value; None = must be an error.
fn model_apply(base: Val, d: Option<(Val, Val)>) -> Option<Val> {
    match d {
        None => Some(base),
        // an empty change of something absent is a no-op
        Some((o, n)) if o == base => Some(n),
        _ => None,
    }
}

fn layers(keys: &[u8]) -> Vec<Layer> {
    let mut out = vec![Layer::new()];
    for k in keys {
        let mut next = out.clone();
        for l in &out {
            for d in deltas() {
                let mut m = l.clone();
                m.insert(*k, d);
                next.push(m);
            }
        }
        out = next;
    }
    out
}

fn check_views(c: &Coll, m: &Layer) -> Result<(), String> {
    if from_coll(c) != *m {
        return Err(format!("collection is {:?}, must be {m:?}", from_coll(c)));
    }
    for k in 0..4u8 {
        let want = match m.get(&k) {
            None => GetDataResult::Missing,
            Some((_, None)) => GetDataResult::Deleted,
            Some((_, Some(v))) => GetDataResult::Present(v),
        };
        if c.get_data(&k) != want {
            return Err(format!("lookup of key {k} gives {:?}, must give {want:?}", c.get_data(&k)));
        }
    }
    if c.clone().consume().into_iter().map(|(k, d)| (k, d.consume())).collect::<Layer>() != *m {
        return Err("consumed collection differs from the collection".into());
    }
    // flushing to every base state
    for k in m.keys() {
        for base in VALS {
            let want = model_apply(base, m.get(k).copied());
            let got = combine_data_with_delta(base, c.data().get(k).cloned()).ok();
            if got != want {
                return Err(format!("flush of key {k} = {:?} over {base:?} gives {got:?}, must give {want:?}", m[k]));
            }
        }
    }
    Ok(())
}

#[derive(Clone)]
enum Undo {
    El(u8, DataDeltaUndo<char>),
    All(DeltaDataUndoCollection<u8, char>),
}

#[derive(Clone)]
struct DataState {
    real: Coll,
    model: Layer,
    undos: Vec<(Undo, Layer)>,
}

#[derive(Clone, Debug)]
enum DataOp {
    El(u8, Val, Val),
    All(Layer),
    Undo,
}

fn undo_one(s: &mut DataState) -> Result<(), String> {
    let (u, before) = s.undos.pop().unwrap();
    match u {
        Undo::El(k, u) => s.real.undo_merge_delta_data_element(k, u).map_err(|e| format!("undo failed: {e:?}"))?,
        Undo::All(u) => s.real.undo_merge_delta_data(u).map_err(|e| format!("undo failed: {e:?}"))?,
    }
    // what was untouched before stays as an empty change (x -> x)
    let mut want = before.clone();
    for (k, (o, n)) in from_coll(&s.real) {
        if !before.contains_key(&k) {
            if o != n {
                return Err(format!("after the undo key {k} carries the change {o:?} -> {n:?}; it was untouched before"));
            }
            want.insert(k, (o, n));
        }
    }
    s.model = want;
    check_views(&s.real, &s.model)
}

fn data(ctx: &Ctx) {
    let depth = ctx.pick(4, 6);
    ctx.part(
        "data-deltas",
        &format!("all operation sequences of length <= {depth}: element merges (2 keys, values -, a, b: all 9 changes), 2-key layer merges, undo of the last merge; in every state all lookups, all flushes and a full undo"),
        |p| {
            let two: Vec<Layer> = layers(&[1, 2]).into_iter().filter(|l| l.len() == 2).collect();
            let mut ops: Vec<DataOp> = vec![];
            for k in [1, 2] {
                for (o, n) in deltas() {
                    ops.push(DataOp::El(k, o, n));
                }
            }
            ops.extend(two.iter().filter(|l| l.values().all(|(o, n)| o != n)).cloned().map(DataOp::All));
            p.bfs(
                vec![("empty".into(), DataState { real: Coll::new(), model: Layer::new(), undos: vec![] })],
                depth,
                |s| {
                    let mut v = ops.clone();
                    if !s.undos.is_empty() {
                        v.push(DataOp::Undo);
                    }
                    v
                },
                |s, op| {
                    let r = match op {
                        DataOp::El(k, o, n) => {
                            let want = model_merge(&s.model, &[(*k, (*o, *n))].into());
                            let got = s.real.merge_delta_data_element(*k, DataDelta::new(*o, *n));
                            match (want, got) {
                                (None, Err(_)) => None,
                                (Some(w), Ok(u)) => {
                                    let before = std::mem::replace(&mut s.model, w);
                                    if u.as_delta().clone().consume() != (*n, *o) {
                                        return Err(format!("undo of {o:?}->{n:?} is {:?}", u));
                                    }
                                    s.undos.push((Undo::El(*k, u), before));
                                    Some(())
                                }
                                (w, g) => return Err(format!("merge must give {w:?}, gave {g:?}")),
                            }
                        }
                        DataOp::All(l) => {
                            let want = model_merge(&s.model, l);
                            let got = s.real.merge_delta_data(to_coll(l));
                            match (want, got) {
                                (None, Err(_)) => None,
                                (Some(w), Ok(u)) => {
                                    let before = std::mem::replace(&mut s.model, w);
                                    s.undos.push((Undo::All(u), before));
                                    Some(())
                                }
                                (w, g) => return Err(format!("merge must give {w:?}, gave {g:?}")),
                            }
                        }
                        DataOp::Undo => {
                            undo_one(s)?;
                            Some(())
                        }
                    };
                    if r.is_none() {
                        // a refused merge leaves the collection unspecified: this history ends here
                        *s = DataState { real: Coll::new(), model: Layer::new(), undos: vec![] };
                        return Ok("refused".into());
                    }
                    check_views(&s.real, &s.model)?;
                    let mut t = s.clone();
                    while !t.undos.is_empty() {
                        undo_one(&mut t)?;
                    }
                    if t.model.values().any(|(o, n)| o != n) {
                        return Err(format!("undoing everything leaves {:?}", t.model));
                    }
                    Ok(match op {
                        DataOp::Undo => "undone".into(),
                        _ => "merged".into(),
                    })
                },
                |s| {
                    (
                        s.model.clone(),
                        s.undos
                            .iter()
                            .map(|(u, b)| match u {
                                Undo::El(k, u) => (Some((*k, u.as_delta().clone().consume())), None, b.clone()),
                                Undo::All(u) => (
                                    None,
                                    Some(u.data().iter().map(|(k, d)| (*k, d.as_delta().clone().consume())).collect::<Layer>()),
                                    b.clone(),
                                ),
                            })
                            .collect::<Vec<_>>(),
                    )
                },
            );
        },
    );

    ctx.part(
        "grouping",
        "all triples of layers over 2 keys (1,000,000): (A+B)+C against A+(B+C), against flushing one by one on every base state, and undo of each layer from the merged whole",
        |p| {
            let ls = layers(&[1, 2]);
            p.par(ls.len(), |i| {
                let a = &ls[i];
                let (mut ok, mut no) = (0, 0);
                for b in &ls {
                    let ab = model_merge(a, b);
                    let mut rab = to_coll(a);
                    let rab_ok = rab.merge_delta_data(to_coll(b));
                    if rab_ok.is_ok() != ab.is_some() {
                        p.fail(format!("{a:?} + {b:?}"), format!("merge gave {rab_ok:?}, must give {ab:?}"));
                        return;
                    }
                    for c in &ls {
                        let mut rbc = to_coll(b);
                        let rbc_ok = rbc.merge_delta_data(to_coll(c)).is_ok();
                        if rbc_ok != model_merge(b, c).is_some() {
                            p.fail(format!("{b:?} + {c:?}"), "wrong acceptance of a merge");
                            return;
                        }
                        let left = ab.as_ref().and_then(|ab| model_merge(ab, c));
                        let mut l = rab.clone();
                        let lu = if rab_ok.is_ok() { l.merge_delta_data(to_coll(c)).ok() } else { None };
                        let mut r = to_coll(a);
                        let r_ok = rbc_ok && r.merge_delta_data(rbc).is_ok();
                        if lu.is_some() != left.is_some() || (left.is_some() && !r_ok) {
                            p.fail(format!("{a:?} + {b:?} + {c:?}"), format!("acceptance differs: left {} right {r_ok} model {left:?}", lu.is_some()));
                            return;
                        }
                        if let (Some(m), Some(lu)) = (left, lu) {
                            ok += 1;
                            if from_coll(&l) != m || from_coll(&r) != m {
                                p.fail(format!("{a:?} + {b:?} + {c:?}"), format!("left {l:?} right {r:?} must be {m:?}"));
                                return;
                            }
                            for k in [1u8, 2] {
                                for base in VALS {
                                    let one = [a, b, c].iter().try_fold(base, |v, x| {
                                        combine_data_with_delta(v, x.get(&k).map(|(o, n)| DataDelta::new(*o, *n)))
                                    });
                                    let all = combine_data_with_delta(base, l.data().get(&k).cloned());
                                    let want = model_apply(base, m.get(&k).copied());
                                    if one.as_ref().ok().copied() != want || all.as_ref().ok().copied() != want {
                                        p.fail(
                                            format!("{a:?} + {b:?} + {c:?} over {base:?}"),
                                            format!("key {k}: one by one {one:?}, merged {all:?}, must be {want:?}"),
                                        );
                                        return;
                                    }
                                }
                            }
                            // undo C then B
                            if l.undo_merge_delta_data(lu).is_err() {
                                p.fail(format!("{a:?} + {b:?} + {c:?} - C"), "undo refused");
                                return;
                            }
                            let un = l.undo_merge_delta_data(rab_ok.clone().unwrap());
                            let back = from_coll(&l);
                            if un.is_err() || !back.iter().all(|(k, d)| a.get(k) == Some(d) || (!a.contains_key(k) && d.0 == d.1)) || !a.keys().all(|k| back.contains_key(k)) {
                                p.fail(format!("{a:?} + {b:?} + {c:?} - C - B"), format!("{un:?} {back:?}"));
                                return;
                            }
                        } else {
                            no += 1;
                        }
                    }
                }
                p.evals(ok + no);
                p.transitions(ok + no);
                p.traces(ok);
                p.nontrivial(ok);
                p.outcome_n("consecutive", ok);
                p.outcome_n("refused", no);
            });
        },
    );
}

// ---------------------------------------------------------------------------------------------------------------

type Amounts = BTreeMap<u8, i128>;

fn to_amounts(m: &Amounts) -> DeltaAmountCollection<u8> {
    m.iter().map(|(k, v)| (*k, SignedAmount::from_atoms(*v))).collect()
}

fn from_amounts(m: &DeltaAmountCollection<u8>) -> Amounts {
    m.data().iter().map(|(k, v)| (*k, v.into_atoms())).collect()
}

fn add_at(m: &mut Amounts, k: u8, v: i128) -> Option<()> {
    let sum = m.get(&k).copied().unwrap_or(0).checked_add(v)?;
    if sum == 0 {
        m.remove(&k);
    } else {
        m.insert(k, sum);
    }
    Some(())
}

#[derive(Clone, Debug)]
enum AmOp {
    El(u8, i128),
    Add(u8, u128),
    Sub(u8, u128),
    Merge(Amounts),
    UndoMerge(Amounts),
}

fn amounts(ctx: &Ctx) {
    let depth = ctx.pick(4, 5);
    ctx.part(
        "amount-deltas",
        &format!("all sequences of length <= {depth} of element merges, unsigned additions and subtractions, layer merges and layer undos with amounts at and around 0, +-1 and the ends of the range"),
        |p| {
            const M: i128 = i128::MAX;
            let els = [0, 1, -1, 2, M, M - 1, -M, i128::MIN];
            let uns = [0u128, 1, 5, M as u128, M as u128 + 1, u128::MAX];
            let mut ops = vec![];
            for k in [1u8, 2] {
                ops.extend(els.iter().map(|v| AmOp::El(k, *v)));
                ops.extend(uns.iter().map(|v| AmOp::Add(k, *v)));
                ops.extend(uns.iter().map(|v| AmOp::Sub(k, *v)));
            }
            for (a, b) in [(1, 1), (-1, 1), (M, -M), (1, M), (i128::MIN, 3), (0, 4)] {
                for both in [true, false] {
                    let m: Amounts = if both { [(1u8, a), (2u8, b)].into() } else { [(2u8, b)].into() };
                    ops.push(AmOp::Merge(m.clone()));
                    ops.push(AmOp::UndoMerge(m));
                }
            }
            p.bfs(
                vec![("empty".into(), (DeltaAmountCollection::<u8>::new(), Amounts::new()))],
                depth,
                |_| ops.clone(),
                |(real, model), op| {
                    let mut m = model.clone();
                    let (want, got) = match op {
                        AmOp::El(k, v) => (add_at(&mut m, *k, *v), real.merge_delta_amount_element(*k, SignedAmount::from_atoms(*v))),
                        AmOp::Add(k, v) => (
                            i128::try_from(*v).ok().and_then(|v| add_at(&mut m, *k, v)),
                            real.add_unsigned(*k, Amount::from_atoms(*v)),
                        ),
                        AmOp::Sub(k, v) => (
                            i128::try_from(*v).ok().and_then(|v| add_at(&mut m, *k, -v)),
                            real.sub_unsigned(*k, Amount::from_atoms(*v)),
                        ),
                        AmOp::Merge(l) => (
                            l.iter().try_for_each(|(k, v)| add_at(&mut m, *k, *v)),
                            real.merge_delta_amounts(to_amounts(l)),
                        ),
                        AmOp::UndoMerge(l) => (
                            l.iter().try_for_each(|(k, v)| add_at(&mut m, *k, v.checked_neg()?)),
                            real.undo_merge_delta_amounts(to_amounts(l)),
                        ),
                    };
                    if want.is_some() != got.is_ok() {
                        return Err(format!("gave {got:?}, must {}", if want.is_some() { "succeed" } else { "be refused" }));
                    }
                    if want.is_none() {
                        if !matches!(op, AmOp::Merge(_) | AmOp::UndoMerge(_)) && from_amounts(real) != *model {
                            return Err(format!("a refused operation changed {model:?} to {:?}", from_amounts(real)));
                        }
                        *real = to_amounts(model);
                        return Ok("refused".into());
                    }
                    // a zero entry is the same as none
                    let seen: Amounts = from_amounts(real);
                    if seen != m || real.clone().consume().iter().map(|(k, v)| (*k, v.into_atoms())).collect::<Amounts>() != m {
                        return Err(format!("is {seen:?}, must be {m:?}"));
                    }
                    // flush
                    for k in [1u8, 2, 3] {
                        for base in [0u128, 1, 7, M as u128, M as u128 + 1, u128::MAX] {
                            let d = m.get(&k).copied();
                            let want = match d {
                                None => Some(base),
                                Some(d) => i128::try_from(base).ok().and_then(|b| b.checked_add(d)).and_then(|s| u128::try_from(s).ok()),
                            };
                            let got = combine_amount_delta(Amount::from_atoms(base), real.data().get(&k).copied());
                            if got.as_ref().ok().map(|x| x.into_atoms()) != want {
                                return Err(format!("flushing {d:?} over {base} gives {got:?}, must give {want:?}"));
                            }
                        }
                    }
                    // a layer and its undo cancel out
                    let mut t = real.clone();
                    if t.undo_merge_delta_amounts(real.clone()).is_ok() && !t.data().is_empty() {
                        return Err(format!("undoing itself leaves {t:?}"));
                    }
                    *model = m;
                    Ok("applied".into())
                },
                |(_, m)| m.clone(),
            );
        },
    );
    ctx.part(
        "amount-flush",
        "all pairs (base amount, delta) over 40 boundary values each",
        |p| {
            let mut us = vec![];
            for s in [0u32, 1, 31, 32, 63, 64, 65, 126, 127] {
                for d in [-1i8, 0, 1] {
                    let b = 1u128 << s;
                    us.push(if d < 0 { b - 1 } else { b + d as u128 });
                }
            }
            us.extend([u128::MAX, u128::MAX - 1, 0]);
            us.sort();
            us.dedup();
            for &b in &us {
                for &d in &us {
                    for neg in [false, true] {
                        let ds = if neg { (d as i128).wrapping_neg() } else { d as i128 };
                        let want = i128::try_from(b).ok().and_then(|x| x.checked_add(ds)).and_then(|s| u128::try_from(s).ok());
                        let got = guard(|| combine_amount_delta(Amount::from_atoms(b), Some(SignedAmount::from_atoms(ds))));
                        p.evals(1);
                        p.transitions(1);
                        p.traces(1);
                        p.outcome(if want.is_some() { "sum" } else { "refused" });
                        match got {
                            Ok(g) if g.as_ref().ok().map(|x| x.into_atoms()) == want => {}
                            g => p.fail(format!("{b} + {ds}"), format!("gave {g:?}, must give {want:?}")),
                        }
                    }
                }
                if combine_amount_delta(Amount::from_atoms(b), None) != Ok(Amount::from_atoms(b)) {
                    p.fail(format!("{b} + nothing"), "changed");
                }
            }
        },
    );
}

fn main() {
    mc_kit::main(&[Check {
        id: "A01",
        level: "model_checking",
        rule: "breadth-first search: every operation of the alphabet in every reached state; a state is non-trivial when it was not seen before; every transition runs the real code and is compared with the map model",
        assumptions: &["keys and values outside the alphabet behave like those in it (the code is generic in both)"],
        run: |c| {
            data(c);
            amounts(c);
        },
    }]);
}
