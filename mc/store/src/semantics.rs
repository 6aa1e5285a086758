//! S01: what the key-value storage shows, for every backend, against maps.

use mc_kit::{Ctx, PartCtx, Scratch, guard, hex, sequences};
use std::collections::BTreeMap;
use storage_core::{
    Backend, DbDesc, DbMapDesc, DbMapId,
    backend::{BackendImpl, ReadOps, SharedBackendImpl, TxRw, WriteOps},
};

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
type Model = [Map; 2];

fn desc() -> DbDesc {
    storage_core::types::construct::db_desc(["DBOne", "DBOne2"].into_iter().map(DbMapDesc::new))
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Put(usize, usize, usize),
    Del(usize, usize),
}

struct Space {
    keys: Vec<Vec<u8>>,
    vals: Vec<Vec<u8>>,
    probes: Vec<Vec<u8>>,
    maps: usize,
}

impl Space {
    fn ops(&self) -> Vec<Op> {
        let mut v = vec![];
        for m in 0..self.maps {
            for k in 0..self.keys.len() {
                for x in 0..self.vals.len() {
                    v.push(Op::Put(m, k, x));
                }
                v.push(Op::Del(m, k));
            }
        }
        v
    }
    fn model(&self, m: &mut Model, o: Op) {
        match o {
            Op::Put(i, k, v) => {
                m[i].insert(self.keys[k].clone(), self.vals[v].clone());
            }
            Op::Del(i, k) => {
                m[i].remove(&self.keys[k]);
            }
        }
    }
    fn real<W: WriteOps>(&self, w: &mut W, o: Op) -> Result<(), String> {
        match o {
            Op::Put(i, k, v) => w.put(DbMapId::new(i), self.keys[k].clone(), self.vals[v].clone()),
            Op::Del(i, k) => w.del(DbMapId::new(i), &self.keys[k]),
        }
        .map_err(|e| format!("{o:?} is refused: {e}"))
    }
}

fn reads<R: ReadOps>(r: &R, m: &Model, probes: &[Vec<u8>], what: &str) -> Result<(), String> {
    let e = |e: storage_core::Error| format!("{what}: cannot read: {e}");
    for i in 0..2 {
        let id = DbMapId::new(i);
        for k in probes {
            let got = r.get(id, k).map_err(e)?.map(|c| c.into_owned());
            if got.as_ref() != m[i].get(k) {
                return Err(format!("{what}: key {} of map {i} is {got:?} instead of {:?}", hex(k), m[i].get(k)));
            }
            let got: Vec<_> = r.prefix_iter(id, k.clone()).map_err(e)?.collect();
            let want: Vec<_> = m[i].iter().filter(|(x, _)| x.starts_with(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            if got != want {
                return Err(format!("{what}: prefix {} of map {i} is {got:02x?} instead of {want:02x?}", hex(k)));
            }
            let got: Vec<_> = r.greater_equal_iter(id, k.clone()).map_err(e)?.collect();
            let want: Vec<_> = m[i].range(k.clone()..).map(|(k, v)| (k.clone(), v.clone())).collect();
            if got != want {
                return Err(format!("{what}: from {} in map {i} on is {got:02x?} instead of {want:02x?}", hex(k)));
            }
        }
    }
    Ok(())
}

fn reset<I: BackendImpl>(imp: &mut I, base: &Model) -> Result<(), String> {
    let e = |e: storage_core::Error| format!("reset: {e}");
    let old: Vec<Vec<Vec<u8>>> = {
        let ro = imp.transaction_ro().map_err(e)?;
        let mut v = vec![];
        for i in 0..2 {
            v.push(ro.prefix_iter(DbMapId::new(i), vec![]).map_err(e)?.map(|(k, _)| k).collect());
        }
        v
    };
    let mut w = imp.transaction_rw(None).map_err(e)?;
    for i in 0..2 {
        for k in &old[i] {
            if !base[i].contains_key(k) {
                w.del(DbMapId::new(i), k).map_err(e)?;
            }
        }
        for (k, v) in &base[i] {
            w.put(DbMapId::new(i), k.clone(), v.clone()).map_err(e)?;
        }
    }
    w.commit().map_err(e)
}

/// One transaction on a given content, watched from inside and afterwards.
fn case<I: BackendImpl>(imp: &mut I, s: &Space, base: &Model, seq: &[Op], commit: bool, watch: bool) -> Result<(), String> {
    let mut now = base.clone();
    {
        let mut w = imp.transaction_rw(None).map_err(|e| e.to_string())?;
        for o in seq {
            s.real(&mut w, *o)?;
            s.model(&mut now, *o);
            if watch {
                reads(&w, &now, &s.probes, "inside the transaction")?;
            }
        }
        if !watch {
            reads(&w, &now, &s.probes, "inside the transaction")?;
        }
        if commit {
            w.commit().map_err(|e| format!("commit: {e}"))?;
        } else {
            drop(w);
        }
    }
    let want = if commit { &now } else { base };
    let ro = imp.transaction_ro().map_err(|e| e.to_string())?;
    reads(&ro, want, &s.probes, if commit { "after the commit" } else { "after the abort" })
}

fn single<I: BackendImpl>(p: &PartCtx, open: impl Fn() -> I + Sync, s: &Space, bases: &[Model], len: usize, watch: bool) {
    let ops = s.ops();
    let mut work = vec![];
    for b in 0..bases.len() {
        work.push((b, None));
        for f in 0..ops.len() {
            work.push((b, Some(f)));
        }
    }
    p.par(work.len(), |w| {
        let (b, first) = work[w];
        let base = &bases[b];
        let mut n = 0;
        let mut changed = 0;
        let mut imp = open();
        let mut one = |seq: &[Op]| {
            for commit in [true, false] {
                n += 1;
                let mut m = base.clone();
                seq.iter().for_each(|o| s.model(&mut m, *o));
                changed += (m != *base) as u64;
                let r = guard(|| {
                    reset(&mut imp, base)?;
                    case(&mut imp, s, base, seq, commit, watch)
                })
                .and_then(|r| r);
                if let Err(e) = r {
                    p.fail(format!("base {b}, {}, {}", seq.iter().map(|o| format!("{o:?}")).collect::<Vec<_>>().join(" "), if commit { "commit" } else { "abort" }), format!("{e}\nbase: {base:02x?}\nkeys: {:02x?}", s.keys));
                    return false;
                }
            }
            true
        };
        match first {
            None => {
                one(&[]);
            }
            Some(f) => {
                'out: for l in 0..len {
                    for rest in sequences(ops.len(), l) {
                        let seq: Vec<Op> = std::iter::once(ops[f]).chain(rest.iter().map(|i| ops[*i])).collect();
                        if !one(&seq) || p.stop() {
                            break 'out;
                        }
                    }
                }
            }
        }
        p.evals(n);
        p.traces(n);
        p.nontrivial(changed);
    });
    p.states(bases.len() as u64);
    p.sample(|| format!("{:?} on {:02x?}", ops.iter().step_by(ops.len() / 3).collect::<Vec<_>>(), bases.last().unwrap()));
}

/// All subsets of `n` keys in the first map (values alternate), a fixed second map.
fn bases(s: &Space, n: usize) -> Vec<Model> {
    mc_kit::subsets(n)
        .map(|m| {
            let one: Map = (0..n).filter(|i| m >> i & 1 == 1).map(|i| (s.keys[i].clone(), s.vals[i % s.vals.len()].clone())).collect();
            let two: Map = [(s.keys[n - 1].clone(), b"other".to_vec())].into();
            [one, two]
        })
        .collect()
}

/// Histories of several transactions, the model carried along; `reopen` makes a new handle in between.
fn histories<I: BackendImpl>(p: &PartCtx, make: impl Fn(usize) -> Box<dyn FnMut() -> I> + Sync, s: &Space, txs: usize, reopen: bool) {
    let ops = s.ops();
    // a transaction: 0 to 2 operations, then commit or abort
    let mut kinds: Vec<(Vec<Op>, bool)> = vec![];
    for l in 1..=2 {
        for seq in sequences(ops.len(), l) {
            for c in [true, false] {
                kinds.push((seq.iter().map(|i| ops[*i]).collect(), c));
            }
        }
    }
    p.par(kinds.len(), |first| {
        let mut open = make(first);
        for rest in sequences(kinds.len(), txs - 1) {
            if p.stop() {
                return;
            }
            p.evals(1);
            p.traces(1);
            let mut model: Model = Default::default();
            let r = guard(|| -> Result<(), String> {
                let mut imp = open();
                reset(&mut imp, &model)?;
                for k in std::iter::once(&first).chain(rest.iter()) {
                    let (seq, commit) = &kinds[*k];
                    case(&mut imp, s, &model, seq, *commit, false)?;
                    if *commit {
                        seq.iter().for_each(|o| s.model(&mut model, *o));
                    }
                    if reopen {
                        drop(imp);
                        imp = open();
                        let ro = imp.transaction_ro().map_err(|e| e.to_string())?;
                        reads(&ro, &model, &s.probes, "after reopening")?;
                    }
                }
                Ok(())
            })
            .and_then(|r| r);
            if let Err(e) = r {
                p.fail(format!("{:?}", std::iter::once(&first).chain(rest.iter()).map(|k| &kinds[*k]).collect::<Vec<_>>()), e);
                return;
            }
            p.nontrivial(!model[0].is_empty() as u64);
        }
    });
}

/// Several read-only transactions open at once, in every order of opening, reading and closing, with a write in between
/// whenever none is open.
fn overlapping<I: BackendImpl>(p: &PartCtx, open: impl Fn() -> I + Sync, s: &Space, depth: usize) {
    // events: 0 open, 1..=3 close the i-th open, 4..=6 read in the i-th open, 7 write and commit, 8 write and abort
    p.par(9, |first| {
        let mut imp = open();
        for rest in sequences(9, depth - 1) {
            let seq: Vec<usize> = std::iter::once(first).chain(rest).collect();
            let mut model: Model = Default::default();
            let mut valid = true;
            let mut n = 0usize;
            // validity first: it does not depend on the implementation
            for e in &seq {
                match e {
                    0 if n < 3 => n += 1,
                    1..=3 if *e <= n => n -= 1,
                    4..=6 if *e - 3 <= n => {}
                    7 | 8 if n == 0 => {}
                    _ => {
                        valid = false;
                        break;
                    }
                }
            }
            if !valid {
                continue;
            }
            p.evals(1);
            p.traces(1);
            let r = guard(|| -> Result<(), String> {
                reset(&mut imp, &model)?;
                let mut i = 0;
                let mut c = 0u8;
                while i < seq.len() {
                    if seq[i] >= 7 {
                        c += 1;
                        let mut w = imp.transaction_rw(None).map_err(|e| e.to_string())?;
                        w.put(DbMapId::new(0), s.keys[0].clone(), vec![c]).map_err(|e| e.to_string())?;
                        if seq[i] == 7 {
                            w.commit().map_err(|e| e.to_string())?;
                            model[0].insert(s.keys[0].clone(), vec![c]);
                        }
                        i += 1;
                        continue;
                    }
                    // a stretch of read-only events
                    let r = &imp;
                    let mut ros = vec![];
                    while i < seq.len() && seq[i] < 7 {
                        match seq[i] {
                            0 => ros.push(r.transaction_ro().map_err(|e| e.to_string())?),
                            k @ 1..=3 => drop(ros.remove(k - 1)),
                            k => reads(&ros[k - 4], &model, &s.probes, "overlapping read")?,
                        }
                        i += 1;
                    }
                }
                let ro = imp.transaction_ro().map_err(|e| e.to_string())?;
                reads(&ro, &model, &s.probes, "at the end")
            })
            .and_then(|r| r);
            p.nontrivial(!model[0].is_empty() as u64);
            if let Err(e) = r {
                p.fail(format!("{seq:?} (0 open, 1-3 close, 4-6 read, 7 write, 8 abort)"), e);
                return;
            }
        }
    });
}

fn readers<I: BackendImpl>(mut imp: I, s: &Space, n: usize, order: usize) -> Result<(), String> {
    let e = |e: storage_core::Error| e.to_string();
    let mut model: Model = Default::default();
    for round in 0..2u8 {
        let mut w = imp.transaction_rw(None).map_err(e)?;
        w.put(DbMapId::new(0), s.keys[0].clone(), vec![round]).map_err(e)?;
        w.commit().map_err(e)?;
        model[0].insert(s.keys[0].clone(), vec![round]);
        let mut open: Vec<_> = (0..n).map(|_| imp.transaction_ro()).collect::<Result<_, _>>().map_err(e)?;
        while !open.is_empty() {
            let i = match order {
                0 => 0,
                1 => open.len() - 1,
                2 => open.len() / 2,
                _ => (open.len() * 7 + 3) % open.len().max(2) % open.len(),
            };
            drop(open.remove(i));
            for t in &open {
                reads(t, &model, &s.probes, &format!("round {round}, {} of {n} still open", open.len()))?;
            }
        }
        // one more after all of them
        reads(&imp.transaction_ro().map_err(e)?, &model, &s.probes, "afterwards")?;
    }
    Ok(())
}

fn small() -> Space {
    let keys: Vec<Vec<u8>> = vec![vec![0], vec![0, 0xff], vec![0xff, 0xff], vec![0x7f], vec![0xff]];
    let mut probes = keys.clone();
    probes.extend([vec![], vec![0, 0], vec![0, 0xfe], vec![1], vec![0x80], vec![0xff, 0xff, 0]]);
    Space { keys, vals: vec![b"v".to_vec(), vec![]], probes, maps: 1 }
}

fn tiny(maps: usize) -> Space {
    let keys: Vec<Vec<u8>> = vec![vec![0x27, 0x00], vec![0xff]];
    let mut probes = keys.clone();
    probes.extend([vec![], vec![0x27]]);
    Space { keys, vals: vec![b"v".to_vec(), vec![0; 5000]], probes, maps }
}

fn with_empty_key(mut s: Space) -> Space {
    s.keys.insert(0, vec![]);
    s
}

/// A long transaction after another, each operation chosen by a counter; the whole content is compared.
fn big<I: BackendImpl>(mut imp: I, n: usize, commit: bool) -> Result<(), String> {
    let e = |e: storage_core::Error| e.to_string();
    let key = |i: usize| -> Vec<u8> {
        let mut k = vec![(i % 7) as u8 * 0x2a; i % 401];
        k.extend_from_slice(&(i / 3).to_be_bytes()[5..]);
        k
    };
    let val = |i: usize| -> Vec<u8> { vec![i as u8; [0, 1, 3, 40, 600, 5, 7, 9][i % 8] + if i % 331 == 0 { 100_000 } else { 0 }] };
    let mut model: Model = Default::default();
    let full = |r: &dyn Fn(usize) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String>, model: &Model, what: &str| -> Result<(), String> {
        for m in 0..2 {
            let got = r(m)?;
            if !got.iter().map(|x| (&x.0, &x.1)).eq(model[m].iter()) {
                let i = got.iter().zip(model[m].iter()).position(|(a, b)| &a.0 != b.0 || &a.1 != b.1);
                return Err(format!("{what}: map {m} has {} entries instead of {}, first difference at {i:?}", got.len(), model[m].len()));
            }
        }
        Ok(())
    };
    for round in 0..2usize {
        let mut next = model.clone();
        {
            let mut w = imp.transaction_rw(None).map_err(e)?;
            for j in 0..n {
                let i = (j * 17 + round * 5) % (n * 2 / 3 + 1);
                let m = (j / 2) % 2;
                if (j * 7 + round) % 5 == 4 {
                    w.del(DbMapId::new(m), &key(i)).map_err(e)?;
                    next[m].remove(&key(i));
                } else {
                    w.put(DbMapId::new(m), key(i), val(i + j)).map_err(e)?;
                    next[m].insert(key(i), val(i + j));
                }
                if j % 97 == 0 {
                    let k = key((i * 3) % n);
                    if w.get(DbMapId::new(m), &k).map_err(e)?.map(|c| c.into_owned()).as_ref() != next[m].get(&k) {
                        return Err(format!("round {round}: wrong value after {j} operations"));
                    }
                }
            }
            full(&|m| Ok(w.prefix_iter(DbMapId::new(m), vec![]).map_err(e)?.collect()), &next, "inside")?;
            if round == 0 || commit {
                w.commit().map_err(e)?;
                model = next;
            }
        }
        let ro = imp.transaction_ro().map_err(e)?;
        full(&|m| Ok(ro.prefix_iter(DbMapId::new(m), vec![]).map_err(e)?.collect()), &model, "afterwards, by prefix")?;
        full(&|m| Ok(ro.greater_equal_iter(DbMapId::new(m), vec![]).map_err(e)?.collect()), &model, "afterwards, in order")?;
        for i in 0..n {
            let k = key(i);
            for m in 0..2 {
                if i % 11 == 0 && ro.get(DbMapId::new(m), &k).map_err(e)?.map(|c| c.into_owned()).as_ref() != model[m].get(&k) {
                    return Err(format!("round {round}: key {i} of map {m} is wrong"));
                }
            }
        }
        for i in [0, n / 2, n - 1] {
            for cut in [1, 3] {
                let mut pre = key(i);
                pre.truncate(pre.len().saturating_sub(cut));
                let got: Vec<_> = ro.prefix_iter(DbMapId::new(0), pre.clone()).map_err(e)?.collect();
                let want: Vec<_> = model[0].iter().filter(|x| x.0.starts_with(&pre)).map(|(a, b)| (a.clone(), b.clone())).collect();
                if got != want {
                    return Err(format!("round {round}: prefix of key {i}: {} instead of {} entries", got.len(), want.len()));
                }
                let got = ro.greater_equal_iter(DbMapId::new(0), pre.clone()).map_err(e)?.count();
                if got != model[0].range(pre..).count() {
                    return Err(format!("round {round}: {got} entries from key {i} on"));
                }
            }
        }
    }
    Ok(())
}

/// One opening of a database with some maps: what is there, and a new value in each.
fn schema_round<I: BackendImpl>(mut imp: I, schema: &[&'static str], round: usize, model: &mut BTreeMap<&'static str, Map>) -> Result<(), String> {
    let e = |e: storage_core::Error| format!("round {round}: {e}");
    {
        let ro = imp.transaction_ro().map_err(e)?;
        for (i, name) in schema.iter().enumerate() {
            let got: Map = ro.prefix_iter(DbMapId::new(i), vec![]).map_err(e)?.collect();
            let want = model.get(name).cloned().unwrap_or_default();
            if got != want {
                return Err(format!("round {round}: map {name} holds {got:02x?} instead of {want:02x?}"));
            }
        }
    }
    let mut w = imp.transaction_rw(None).map_err(e)?;
    for (i, name) in schema.iter().enumerate() {
        w.put(DbMapId::new(i), vec![round as u8], name.as_bytes().to_vec()).map_err(e)?;
        model.entry(name).or_default().insert(vec![round as u8], name.as_bytes().to_vec());
    }
    w.commit().map_err(e)
}

type Probes = std::collections::BTreeSet<Vec<u8>>;
fn all_reads<T: ReadOps>(t: &T, model: &Map, probes: &Probes, what: &str) -> Result<(), String> {
    let e = |e: storage_core::Error| format!("{what}: {e}");
    let short = |k: &[u8]| format!("key of {} bytes ending {:02x?}", k.len(), k.last());
    for k in probes {
        if t.get(DbMapId::new(0), k).map_err(e)?.as_deref() != model.get(k).map(|v| &v[..]) {
            return Err(format!("{what}: value of the {}", short(k)));
        }
        let got: Vec<_> = t.prefix_iter(DbMapId::new(0), k.clone()).map_err(e)?.collect();
        let want = model.iter().filter(|x| x.0.starts_with(k));
        if !got.iter().map(|x| (&x.0, &x.1)).eq(want) {
            return Err(format!("{what}: {} entries under the {}", got.len(), short(k)));
        }
        let got: Vec<_> = t.greater_equal_iter(DbMapId::new(0), k.clone()).map_err(e)?.collect();
        if !got.iter().map(|x| (&x.0, &x.1)).eq(model.range(k.clone()..)) {
            return Err(format!("{what}: {} entries from the {} on", got.len(), short(k)));
        }
    }
    Ok(())
}
fn long_keys<I: BackendImpl>(mut imp: I, keys: &[Vec<u8>], probes: &Probes, ops: &dyn Fn(usize) -> (bool, usize), commit: bool) -> Result<(), String> {
    let e = |e: storage_core::Error| e.to_string();
    let mut model = Map::new();
    let mut w = imp.transaction_rw(None).map_err(e)?;
    for (i, k) in keys.iter().enumerate() {
        if ops(i).0 {
            w.put(DbMapId::new(0), k.clone(), vec![1, i as u8]).map_err(e)?;
            model.insert(k.clone(), vec![1, i as u8]);
        }
    }
    all_reads(&w, &model, probes, "first transaction")?;
    w.commit().map_err(e)?;
    let mut next = model.clone();
    let mut w = imp.transaction_rw(None).map_err(e)?;
    for (i, k) in keys.iter().enumerate() {
        match ops(i).1 {
            0 => {
                w.put(DbMapId::new(0), k.clone(), vec![2, i as u8]).map_err(e)?;
                next.insert(k.clone(), vec![2, i as u8]);
            }
            1 => {
                w.del(DbMapId::new(0), k).map_err(e)?;
                next.remove(k);
            }
            _ => {}
        }
    }
    all_reads(&w, &next, probes, "second transaction")?;
    if commit {
        w.commit().map_err(e)?;
        model = next;
    } else {
        drop(w);
    }
    all_reads(&imp.transaction_ro().map_err(e)?, &model, probes, "afterwards")
}

/// One look at all maps and one transaction over all of them; the second (of 0, 1, 2, ..) is abandoned.
fn maps_round<I: BackendImpl>(imp: &mut I, round: usize, model: &mut Vec<Map>) -> Result<(), String> {
    let e = |e: storage_core::Error| format!("round {round}: {e}");
    let look = |t: &dyn Fn(usize) -> Result<Map, String>, model: &[Map], what: &str| -> Result<(), String> {
        for (i, m) in model.iter().enumerate() {
            let got = t(i)?;
            if got != *m {
                return Err(format!("round {round}, {what}: map {i} of {} holds {got:02x?} instead of {m:02x?}", model.len()));
            }
        }
        Ok(())
    };
    {
        let ro = imp.transaction_ro().map_err(e)?;
        look(&|i| Ok(ro.prefix_iter(DbMapId::new(i), vec![]).map_err(e)?.collect()), model, "before")?;
    }
    let mut next = model.clone();
    let n = next.len();
    {
        let mut w = imp.transaction_rw(None).map_err(e)?;
        for j in 0..n {
            let i = (j * 7 + round) % n;
            for k in 0..3u8 {
                if (i + round + k as usize) % 4 == 3 {
                    w.del(DbMapId::new(i), &[k]).map_err(e)?;
                    next[i].remove(&vec![k]);
                } else {
                    // values of some maps are empty
                    let v = if (i + k as usize) % 3 == 0 { vec![] } else { vec![round as u8, i as u8] };
                    w.put(DbMapId::new(i), vec![k], v.clone()).map_err(e)?;
                    next[i].insert(vec![k], v);
                }
            }
        }
        look(&|i| Ok(w.prefix_iter(DbMapId::new(i), vec![]).map_err(e)?.collect()), &next, "inside")?;
        if round != 1 {
            w.commit().map_err(e)?;
            *model = next;
        }
    }
    let ro = imp.transaction_ro().map_err(e)?;
    look(&|i| Ok(ro.greater_equal_iter(DbMapId::new(i), vec![]).map_err(e)?.collect()), model, "after")
}

fn many<I: BackendImpl>(mut imp: I, n: usize) -> Result<(), String> {
    let e = |e: storage_core::Error| e.to_string();
    let key = |i: usize| vec![7, (i >> 16) as u8, (i >> 8) as u8, i as u8];
    let model: Map = (0..n).map(|i| (key(i), vec![i as u8])).collect();
    let probes: Vec<Vec<u8>> = vec![vec![], vec![7], vec![7, 0], key(n / 2), key(n - 2)];
    let check = |t: &dyn Fn(bool, Vec<u8>) -> Result<Vec<(Vec<u8>, Vec<u8>)>, String>, what: &str| -> Result<(), String> {
        for k in &probes {
            let got = t(true, k.clone())?;
            if !got.iter().map(|x| (&x.0, &x.1)).eq(model.iter().filter(|x| x.0.starts_with(k))) {
                return Err(format!("{what}: {} entries under {k:?}", got.len()));
            }
            let got = t(false, k.clone())?;
            if !got.iter().map(|x| (&x.0, &x.1)).eq(model.range(k.clone()..)) {
                return Err(format!("{what}: {} entries from {k:?} on", got.len()));
            }
        }
        Ok(())
    };
    let m = DbMapId::new(1);
    {
        let mut w = imp.transaction_rw(None).map_err(e)?;
        for j in 0..n {
            let i = (j * 7919) % n;
            w.put(m, key(i), vec![i as u8]).map_err(e)?;
        }
        check(&|pre, k| Ok(if pre { w.prefix_iter(m, k).map_err(e)?.collect() } else { w.greater_equal_iter(m, k).map_err(e)?.collect() }), "inside")?;
        w.commit().map_err(e)?;
    }
    let ro = imp.transaction_ro().map_err(e)?;
    check(&|pre, k| Ok(if pre { ro.prefix_iter(m, k).map_err(e)?.collect() } else { ro.greater_equal_iter(m, k).map_err(e)?.collect() }), "after")
}

fn unwinding<I: BackendImpl>(mut imp: I, n: usize) -> Result<(), String> {
    let e = |e: storage_core::Error| e.to_string();
    let m = DbMapId::new(0);
    let mut model = Map::new();
    for round in 0..3u8 {
        let r = guard(|| {
            let mut w = imp.transaction_rw(None).unwrap();
            for i in 0..n as u8 {
                w.put(m, vec![i], vec![99]).unwrap();
                if i == 2 {
                    w.del(m, &[0]).unwrap();
                }
            }
            if w.get(m, &[77]).is_ok() {
                panic!("the caller gives up");
            }
        });
        if !matches!(&r, Err(t) if t.contains("gives up")) {
            return Err(format!("round {round}: {r:?} instead of the panic of the caller"));
        }
        let r = guard(|| {
            let a = imp.transaction_ro().unwrap();
            let b = imp.transaction_ro().unwrap();
            if a.get(m, &[77]).is_ok() && b.get(m, &[77]).is_ok() {
                panic!("the caller gives up");
            }
        });
        if !matches!(&r, Err(t) if t.contains("gives up")) {
            return Err(format!("round {round}: {r:?} instead of the panic of the reader"));
        }
        for i in 0..2 {
            let got: Map = imp.transaction_ro().map_err(e)?.prefix_iter(m, vec![]).map_err(e)?.collect();
            if got != model {
                return Err(format!("round {round}: {got:?} instead of {model:?}"));
            }
            let mut w = imp.transaction_rw(None).map_err(e)?;
            w.put(m, vec![round, i], vec![i]).map_err(e)?;
            w.commit().map_err(e)?;
            model.insert(vec![round, i], vec![i]);
        }
    }
    Ok(())
}

fn inmem() -> <storage_inmemory::InMemory as Backend>::Impl {
    storage_inmemory::InMemory::new().open(desc()).unwrap()
}
fn sqlite() -> <storage_sqlite::Sqlite as Backend>::Impl {
    storage_sqlite::Sqlite::new_in_memory().open(desc()).unwrap()
}
fn lmdb(path: &std::path::Path) -> <storage_lmdb::Lmdb as Backend>::Impl {
    storage_lmdb::Lmdb::new(path.to_path_buf(), Default::default(), Default::default(), Default::default()).open(desc()).unwrap()
}

pub fn run(ctx: &Ctx) {
    let q = ctx.quick();
    ctx.part("memory-tx", "in-memory backend: all 16 contents of 4 keys x every sequence of <= 3 puts and deletes of 6 keys x commit or abort; every probe read", |p| {
        let s = with_empty_key(small());
        single(p, inmem, &s, &bases(&s, 4), 3, false);
    });
    ctx.part("memory-maps", "in-memory backend, both maps written: sequences of <= 4 operations (thorough 5) on 2 keys x 2 maps", |p| {
        let s = tiny(2);
        single(p, inmem, &s, &bases(&s, 2), if q { 4 } else { 5 }, false);
    });
    ctx.part("memory-histories", "in-memory backend: every history of 2 transactions of <= 2 operations (thorough 3 with one map) with commits and aborts", |p| {
        let s = tiny(if q { 2 } else { 1 });
        histories(p, |_| Box::new(inmem), &s, if q { 2 } else { 3 }, false);
    });
    ctx.part("sqlite-tx", "SQLite backend in memory: all 8 contents of 3 keys x every sequence of <= 2 puts and deletes of 6 keys (thorough 3) x commit or abort; every probe read", |p| {
        let s = with_empty_key(small());
        single(p, sqlite, &s, &bases(&s, 3), if q { 2 } else { 3 }, false);
    });
    ctx.part("sqlite-maps", "SQLite backend, both maps written: sequences of <= 2 operations (thorough 4) on 2 keys x 2 maps", |p| {
        let s = tiny(2);
        single(p, sqlite, &s, &bases(&s, 2), if q { 2 } else { 4 }, false);
    });
    ctx.part("sqlite-overlapping-reads", "SQLite backend: every order of <= 6 events (thorough 7) opening, reading and closing up to 3 read-only transactions, with writes and aborts when none is open", |p| {
        for d in 1..=if q { 6 } else { 7 } {
            overlapping(p, sqlite, &tiny(1), d);
        }
    });
    ctx.part("many-readers", "every backend: 1 to 20 and up to 130 read-only transactions open at once, closed in each of 4 orders; those still open read everything after each", |p| {
        let scratch = Scratch::new("kv");
        let counts: Vec<usize> = (1..=20).chain([31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 130]).collect();
        p.par(12 * counts.len(), |w| {
            // LMDB bounds the number of readers
            let (n, order, b) = (counts[w / 12], w % 12 / 3, w % 3);
            if b == 2 && n > 100 {
                return;
            }
            p.evals(1);
            p.traces(1);
            p.nontrivial(1);
            let s = tiny(1);
            let r = guard(|| match b {
                0 => readers(inmem(), &s, n, order),
                1 => readers(sqlite(), &s, n, order),
                _ => readers(lmdb(&scratch.path().join(format!("ro{w}"))), &s, n, order),
            })
            .and_then(|r| r);
            if let Err(e) = r {
                p.fail(format!("backend {b}: {n} readers closed in order {order}"), e);
            }
        });
    });
    ctx.part("sqlite-file-histories", "SQLite files: every history of 2 transactions of <= 2 operations with commits and aborts, reopened after each", |p| {
        let scratch = Scratch::new("kv");
        let mut s = tiny(1);
        s.vals.truncate(if q { 1 } else { 2 });
        histories(
            p,
            |i| {
                let f = scratch.path().join(format!("{i}")).join("db");
                Box::new(move || {
                    storage_sqlite::Sqlite::new(&f).with_options(storage_sqlite::Options { disable_fsync: true }).open(desc()).unwrap()
                })
            },
            &s,
            2,
            true,
        );
    });
    ctx.part("lmdb-tx", "LMDB wrapper over an in-memory emulation: all 8 contents of 3 keys x every sequence of <= 3 puts and deletes of 5 keys x commit or abort", |p| {
        let scratch = Scratch::new("kv");
        let n = std::sync::atomic::AtomicUsize::new(0);
        let s = small();
        single(p, || lmdb(&scratch.path().join(n.fetch_add(1, std::sync::atomic::Ordering::Relaxed).to_string())), &s, &bases(&s, 3), if q { 2 } else { 3 }, false);
    });
    ctx.part("lmdb-map-full", "LMDB wrapper: the memory map is full at every operation of every sequence of <= 3: the error is recoverable, nothing of the transaction stays, a retry works", |p| {
        let scratch = Scratch::new("kv");
        let s = tiny(1);
        let ops = s.ops();
        let base = &bases(&s, 2)[1];
        p.par(ops.len(), |f| {
            let dir = scratch.path().join(format!("full{f}"));
            let mut imp = lmdb(&dir);
            for l in 0..3 {
                for rest in sequences(ops.len(), l) {
                    for at in 0..=rest.len() as u32 + 1 {
                        let seq: Vec<Op> = std::iter::once(ops[f]).chain(rest.iter().map(|i| ops[*i])).collect();
                        p.evals(1);
                        p.traces(1);
                        let r = guard(|| -> Result<bool, String> {
                            reset(&mut imp, base)?;
                            lmdb::set_map_full(&dir, Some(at));
                            let mut run = || -> storage_core::Result<()> {
                                let mut w = SharedBackendImpl::transaction_rw(&imp, None)?;
                                for o in &seq {
                                    match *o {
                                        Op::Put(i, k, v) => w.put(DbMapId::new(i), s.keys[k].clone(), s.vals[v].clone())?,
                                        Op::Del(i, k) => w.del(DbMapId::new(i), &s.keys[k])?,
                                    }
                                }
                                w.commit()
                            };
                            let mut want = base.clone();
                            match run() {
                                Ok(()) => return Err("the full map went unnoticed".into()),
                                Err(e) if e != storage_core::Error::Recoverable(storage_core::error::Recoverable::MemMapFull) => {
                                    return Err(format!("reported as {e:?}"));
                                }
                                Err(_) => {}
                            }
                            reads(&imp.transaction_ro().unwrap(), &want, &s.probes, "after the full map")?;
                            run().map_err(|e| format!("retry: {e}"))?;
                            seq.iter().for_each(|o| s.model(&mut want, *o));
                            reads(&imp.transaction_ro().unwrap(), &want, &s.probes, "after the retry")?;
                            Ok(true)
                        })
                        .and_then(|r| r);
                        lmdb::set_map_full(&dir, None);
                        match r {
                            Ok(_) => p.nontrivial(1),
                            Err(e) => {
                                p.fail(format!("full at operation {at} of {seq:?}"), e);
                                return;
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.part("reads-between", "every backend: sequences of operations as above (memory <= 3, SQLite and LMDB <= 2, thorough 3), every probe read after each operation of the transaction", |p| {
        let s = tiny(1);
        single(p, inmem, &with_empty_key(small()), &bases(&with_empty_key(small()), 2), if q { 2 } else { 3 }, true);
        single(p, inmem, &s, &bases(&s, 2), if q { 4 } else { 6 }, true);
        single(p, sqlite, &s, &bases(&s, 2), if q { 2 } else { 4 }, true);
        let scratch = Scratch::new("kv");
        let n = std::sync::atomic::AtomicUsize::new(0);
        single(p, || lmdb(&scratch.path().join(n.fetch_add(1, std::sync::atomic::Ordering::Relaxed).to_string())), &s, &bases(&s, 2), if q { 2 } else { 4 }, true);
    });
    ctx.part("big-transactions", "every backend: 2 transactions of 1, 40, 700 and 5000 operations (thorough 40000) on keys of 0 to 400 bytes with values up to 100 kB, the first committed, the second committed or aborted", |p| {
        let sizes: &[usize] = if q { &[1, 40, 700, 5000] } else { &[1, 40, 700, 5000, 40_000] };
        let work: Vec<(usize, usize, bool)> = (0..3).flat_map(|b| sizes.iter().flat_map(move |n| [true, false].map(|c| (b, *n, c)))).collect();
        let scratch = Scratch::new("kv");
        p.par(work.len(), |w| {
            let (b, n, commit) = work[w];
            let r = guard(|| match b {
                0 => big(inmem(), n, commit),
                1 => big(sqlite(), n, commit),
                _ => big(lmdb(&scratch.path().join(format!("big{w}"))), n, commit),
            })
            .and_then(|r| r);
            p.evals(1);
            p.traces(1);
            p.nontrivial(1);
            if let Err(e) = r {
                p.fail(format!("backend {b}, {n} operations, {}", if commit { "commit" } else { "abort" }), e);
            }
        });
    });
    ctx.part("schemas", "SQLite files and LMDB: every sequence of 2 (thorough 3) of 28 orderings of map names, some matching each other as patterns: a map keeps its content under its name, a new one is empty", |p| {
        let names = ["a_b", "axb", "ab", "a_b_c"];
        let mut schemas: Vec<Vec<&'static str>> = vec![];
        for n in 1..=3 {
            for s in sequences(names.len(), n) {
                if (1..n).all(|i| !s[..i].contains(&s[i])) {
                    schemas.push(s.iter().map(|i| names[*i]).collect());
                }
            }
        }
        schemas.retain(|s| s.len() != 3 || s[0] < s[2]);
        p.states(schemas.len() as u64);
        let scratch = Scratch::new("kv");
        p.par(2 * schemas.len(), |w| {
            let (first, lm) = (w / 2, w % 2 == 1);
            for (j, rest) in sequences(schemas.len(), if q { 1 } else { 2 }).enumerate() {
                let seq: Vec<&Vec<&'static str>> = std::iter::once(first).chain(rest.iter().copied()).map(|i| &schemas[i]).collect();
                p.evals(1);
                p.traces(1);
                p.nontrivial(1);
                let f = scratch.path().join(format!("s{w}-{j}")).join("db");
                let r = guard(|| -> Result<(), String> {
                    let mut model: BTreeMap<&str, Map> = Default::default();
                    for (round, schema) in seq.iter().chain(seq.iter().rev().take(1)).enumerate() {
                        let desc = storage_core::types::construct::db_desc(schema.iter().map(|n| DbMapDesc::new(*n)));
                        if lm {
                            let i = storage_lmdb::Lmdb::new(f.clone(), Default::default(), Default::default(), Default::default()).open(desc).map_err(|e| format!("round {round}: {e}"))?;
                            schema_round(i, schema, round, &mut model)?;
                        } else {
                            let i = storage_sqlite::Sqlite::new(&f).with_options(storage_sqlite::Options { disable_fsync: true }).open(desc).map_err(|e| format!("round {round}: {e}"))?;
                            schema_round(i, schema, round, &mut model)?;
                        }
                    }
                    Ok(())
                })
                .and_then(|r| r);
                if let Err(e) = r {
                    p.fail(format!("{}: {seq:?}", if lm { "LMDB" } else { "SQLite" }), e);
                    return;
                }
                let _ = std::fs::remove_dir_all(f.parent().unwrap());
            }
        });
    });
    ctx.part("long-keys", "every backend: keys of every length from 0 to 9 and around each power of two to 2048, all beginning alike; some stored, some overwritten, some deleted in the open transaction; every key and every key cut or continued read, as a value, a prefix and a start", |p| {
        let lens: Vec<usize> = (0..10).chain((4..=11).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1])).collect();
        let key = |l: usize, last: u8| {
            let mut k: Vec<u8> = (0..l).map(|i| (i / 7) as u8).collect();
            if let Some(b) = k.last_mut() {
                *b = last;
            }
            k
        };
        let ends = [0u8, 0x40, 0xff];
        let scratch = Scratch::new("kv");
        // stored before, changed in the transaction: 4 x 3 ways for every key, over 12 shifts
        p.par(3 * 12 * 2, |w| {
            let (b, shift, commit) = (w % 3, w / 3 % 12, w / 36 == 0);
            let ops = |n: usize| {
                let n = n * 5 + shift;
                (n % 4 != 0, n / 4 % 3)
            };
            let keys: Vec<Vec<u8>> = lens.iter().flat_map(|l| ends.map(|e| key(*l, e))).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            let mut probes: std::collections::BTreeSet<Vec<u8>> = keys.iter().cloned().collect();
            for k in &keys {
                probes.insert(k[..k.len().saturating_sub(1)].to_vec());
                probes.insert(k[..k.len() / 2].to_vec());
                probes.insert([&k[..], &[0]].concat());
            }
            p.evals(probes.len() as u64);
            p.traces(1);
            p.nontrivial(probes.len() as u64);
            let r = guard(|| match b {
                0 => long_keys(inmem(), &keys, &probes, &ops, commit),
                1 => long_keys(sqlite(), &keys, &probes, &ops, commit),
                _ => {
                    // LMDB bounds the length of keys
                    let keys: Vec<_> = keys.iter().filter(|k| !k.is_empty() && k.len() <= 511).cloned().collect();
                    let probes = probes.iter().filter(|k| !k.is_empty() && k.len() <= 511).cloned().collect();
                    long_keys(lmdb(&scratch.path().join(format!("long{w}"))), &keys, &probes, &ops, commit)
                }
            })
            .and_then(|r| r);
            if let Err(e) = r {
                p.fail(format!("backend {b}, contents {shift}, {}", if commit { "commit" } else { "abort" }), e);
            }
        });
    });
    ctx.part("many-maps", "every backend with 1 to 40 maps: 3 transactions writing, deleting from and, the second, abandoning all of them, SQLite files opened again after each", |p| {
        let scratch = Scratch::new("kv");
        let counts = [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40];
        p.par(4 * counts.len(), |w| {
            let (b, n) = (w % 4, counts[w / 4]);
            let desc = || storage_core::types::construct::db_desc((0..n).map(|i| DbMapDesc::new(format!("map_{i}"))));
            p.evals(1);
            p.traces(1);
            p.nontrivial(1);
            let r = guard(|| -> Result<(), String> {
                let e = |e: storage_core::Error| e.to_string();
                let mut model: Vec<Map> = vec![Map::new(); n];
                let f = scratch.path().join(format!("maps{w}")).join("db");
                match b {
                    0 => {
                        let mut i = storage_inmemory::InMemory::new().open(desc()).map_err(e)?;
                        (0..3).try_for_each(|r| maps_round(&mut i, r, &mut model))
                    }
                    1 => {
                        let mut i = storage_sqlite::Sqlite::new_in_memory().open(desc()).map_err(e)?;
                        (0..3).try_for_each(|r| maps_round(&mut i, r, &mut model))
                    }
                    2 => (0..4).try_for_each(|r| {
                        let mut i = storage_sqlite::Sqlite::new(&f).with_options(storage_sqlite::Options { disable_fsync: true }).open(desc()).map_err(e)?;
                        maps_round(&mut i, r, &mut model)
                    }),
                    _ => {
                        let mut i = storage_lmdb::Lmdb::new(f, Default::default(), Default::default(), Default::default()).open(desc()).map_err(e)?;
                        (0..3).try_for_each(|r| maps_round(&mut i, r, &mut model))
                    }
                }
            })
            .and_then(|r| r);
            if let Err(e) = r {
                p.fail(format!("backend {b} with {n} maps"), e);
            }
        });
    });
    ctx.part("many-entries", "every backend with 3000, 12000 and 40000 (thorough 150000) small entries: all of them, those under each of 3 prefixes and from each of 4 keys on, inside the transaction and after it", |p| {
        let scratch = Scratch::new("kv");
        let sizes: &[usize] = if q { &[3000, 12_000, 40_000] } else { &[3000, 12_000, 40_000, 150_000] };
        p.par(3 * sizes.len(), |w| {
            let (b, n) = (w % 3, sizes[w / 3]);
            p.evals(1);
            p.traces(1);
            p.nontrivial(1);
            let r = guard(|| match b {
                0 => many(inmem(), n),
                1 => many(sqlite(), n),
                _ => many(lmdb(&scratch.path().join(format!("many{w}"))), n),
            })
            .and_then(|r| r);
            if let Err(e) = r {
                p.fail(format!("backend {b} with {n} entries"), e);
            }
        });
    });
    ctx.part("unwinding", "SQLite and LMDB: a panic leaves each of 4 sequences of operations open, or readers, and the store goes on as if the transaction had been abandoned", |p| {
        let scratch = Scratch::new("kv");
        for w in 0..8 {
            let (lm, n) = (w % 2 == 1, w / 2);
            p.evals(1);
            p.traces(1);
            p.nontrivial(1);
            let r = guard(|| if lm { unwinding(lmdb(&scratch.path().join(format!("unw{w}"))), n) } else { unwinding(sqlite(), n) }).and_then(|r| r);
            if let Err(e) = r {
                p.fail(format!("{} abandoned by a panic after {n} operations", if lm { "LMDB" } else { "SQLite" }), e);
            }
        }
    });
    ctx.part("places", "SQLite stores in memory, named and not, and in files whose folders are missing or cannot be: every pair is apart, files stay, memory goes", |p| {
        use storage_sqlite::Sqlite;
        let scratch = Scratch::new("kv");
        let dir = scratch.path().to_path_buf();
        let place = |i: usize| match i {
            0 | 1 => Sqlite::new_in_memory(),
            2 => Sqlite::new_named_in_memory("a"),
            3 => Sqlite::new_named_in_memory("b"),
            4 => Sqlite::new_named_in_memory("ab"),
            5 => Sqlite::new(dir.join("a")),
            6 => Sqlite::new(dir.join("b/c/d/a")),
            7 => Sqlite::new(dir.join("b/c/a")),
            _ => Sqlite::new(dir.join("b").join("c").join("d e").join("ä")),
        };
        let s = tiny(1);
        let put = |imp: &mut <Sqlite as Backend>::Impl, v: u8| -> Result<(), String> {
            let mut w = imp.transaction_rw(None).map_err(|e| e.to_string())?;
            w.put(DbMapId::new(0), s.keys[0].clone(), vec![v]).map_err(|e| e.to_string())?;
            w.commit().map_err(|e| e.to_string())
        };
        let get = |imp: &<Sqlite as Backend>::Impl| -> Result<Option<Vec<u8>>, String> {
            let r = imp.transaction_ro().map_err(|e| e.to_string())?;
            let v = r.get(DbMapId::new(0), &s.keys[0]).map_err(|e| e.to_string())?.map(|v| v.to_vec());
            Ok(v)
        };
        let open = |i: usize| place(i).open(desc()).map_err(|e| format!("place {i}: {e}"));
        let mut held: BTreeMap<usize, u8> = Default::default();
        for i in 0..9 {
            for j in 0..9 {
                if i == j {
                    continue;
                }
                p.evals(1);
                p.traces(1);
                p.nontrivial(1);
                let r = guard(|| -> Result<(), String> {
                    let (mut a, mut b) = (open(i)?, open(j)?);
                    for (n, imp) in [(i, &a), (j, &b)] {
                        let want = held.get(&n).map(|v| vec![*v]);
                        if get(imp)? != want {
                            return Err(format!("place {n} holds {:?} when opened, not {want:?}", get(imp)?));
                        }
                    }
                    put(&mut a, (10 * i + j) as u8)?;
                    put(&mut b, (100 + 10 * i + j) as u8)?;
                    let got = (get(&a)?, get(&b)?);
                    let want = (Some(vec![(10 * i + j) as u8]), Some(vec![(100 + 10 * i + j) as u8]));
                    if got != want {
                        return Err(format!("{got:?} instead of {want:?}"));
                    }
                    Ok(())
                })
                .and_then(|r| r);
                if let Err(e) = r {
                    p.fail(format!("places {i} and {j}"), e);
                    return;
                }
                for (n, v) in [(i, 10 * i + j), (j, 100 + 10 * i + j)] {
                    if n >= 5 {
                        held.insert(n, v as u8);
                    }
                }
            }
        }
        // where no file can be, the error is given and nothing is left
        std::fs::write(dir.join("plain"), [b'x'; 5000]).unwrap();
        for bad in ["/", "", "plain/db", "plain", "b/c"] {
            p.evals(1);
            let path = if bad.is_empty() || bad == "/" { bad.into() } else { dir.join(bad) };
            let r = guard(|| Sqlite::new(&path).open(desc()).is_ok());
            p.eq(|| format!("opening {bad:?}"), &r, &Ok(false));
        }
        p.eq(|| "the plain file".into(), &std::fs::read(dir.join("plain")).ok(), &Some(vec![b'x'; 5000]));
    });
    crate::typed::run(ctx);
}
