//! The typed layer: schemas, encoded keys and values, dumps.

use mc_kit::{Ctx, guard};
use std::collections::BTreeMap;
use storage::{Backend, MakeMapRef, OrderPreservingValue, Storage};

storage::decl_schema! {
    pub Sch {
        pub Numbers: Map<OrderPreservingValue<u32>, u64>,
        pub Pairs: Map<(u16, u8), Vec<u8>>,
        pub Texts: Map<String, String>,
    }
}

fn check<B: Backend + Clone>(backend: B, fresh: impl Fn() -> B) -> Result<u64, String> {
    let e = |e: storage::Error| e.to_string();
    let nums: Vec<u32> = vec![0, 1, 0xff, 0x100, 0xffff, 0x10000, 0x00ff_ffff, 0x0100_0000, u32::MAX - 1, u32::MAX];
    let pairs: Vec<(u16, u8)> = vec![(0, 0), (0, 1), (1, 0), (1, 255), (0x100, 3), (0x101, 0), (0xffff, 0xff)];
    let texts = ["", "a", "ab", "b", "é"];
    let mut n = 0;
    let mut st: Storage<B, Sch> = Storage::new(backend).map_err(e)?;
    // every subset of the three maps is filled, in one transaction each
    let mut m1 = BTreeMap::new();
    let mut m2 = BTreeMap::new();
    let mut m3 = BTreeMap::new();
    for round in 0..8u32 {
        let mut tx = st.transaction_rw(None).map_err(e)?;
        if round & 1 == 1 {
            for (i, x) in nums.iter().enumerate().filter(|(i, _)| (round >> 1 ^ *i as u32) & 1 == 0) {
                tx.get_mut::<Numbers, _>().put(&OrderPreservingValue::new(*x), i as u64 * u64::from(round)).map_err(e)?;
                m1.insert(*x, i as u64 * u64::from(round));
            }
        }
        if round & 2 == 2 {
            for (i, x) in pairs.iter().enumerate() {
                tx.get_mut::<Pairs, _>().put(*x, vec![round as u8; i]).map_err(e)?;
                m2.insert(*x, vec![round as u8; i]);
            }
        }
        if round & 4 == 4 {
            for x in texts {
                tx.get_mut::<Texts, _>().put(x, x.repeat(round as usize)).map_err(e)?;
                m3.insert(x.to_string(), x.repeat(round as usize));
            }
        }
        if round == 6 {
            tx.get_mut::<Numbers, _>().del(&OrderPreservingValue::new(0xff)).map_err(e)?;
            m1.remove(&0xff);
        }
        tx.commit().map_err(e)?;
        let tx = st.transaction_ro().map_err(e)?;
        for probe in nums.iter().copied().chain([2, 0x101, 0x8000_0000]) {
            n += 1;
            let got: Vec<(u32, u64)> = tx.get::<Numbers, _>().greater_equal_iter_decoded(&OrderPreservingValue::new(probe)).map_err(e)?.map(|(k, v)| (k.inner(), v)).collect();
            let want: Vec<(u32, u64)> = m1.range(probe..).map(|(k, v)| (*k, *v)).collect();
            if got != want {
                return Err(format!("round {round}: numbers from {probe:#x} on: {got:?} instead of {want:?}"));
            }
            let keys: Vec<u32> = tx.get::<Numbers, _>().greater_equal_iter_keys(&OrderPreservingValue::new(probe)).map_err(e)?.map(|k| k.inner()).collect();
            if keys != want.iter().map(|x| x.0).collect::<Vec<_>>() {
                return Err(format!("round {round}: keys from {probe:#x} on: {keys:?}"));
            }
            let got = tx.get::<Numbers, _>().get(&OrderPreservingValue::new(probe)).map_err(e)?.map(|x| x.decode());
            if got != m1.get(&probe).copied() {
                return Err(format!("round {round}: number {probe:#x} is {got:?}"));
            }
        }
        for first in [0u16, 1, 2, 0x100, 0x101, 0xffff] {
            n += 1;
            let got: BTreeMap<(u16, u8), Vec<u8>> = tx.get::<Pairs, _>().prefix_iter_decoded(&(first,)).map_err(e)?.collect();
            let want: BTreeMap<(u16, u8), Vec<u8>> = m2.iter().filter(|(k, _)| k.0 == first).map(|(k, v)| (*k, v.clone())).collect();
            if got != want {
                return Err(format!("round {round}: pairs with {first}: {got:?} instead of {want:?}"));
            }
            let keys: std::collections::BTreeSet<(u16, u8)> = tx.get::<Pairs, _>().prefix_iter_keys(&(first,)).map_err(e)?.collect();
            if keys != want.keys().copied().collect() {
                return Err(format!("round {round}: keys of pairs with {first}: {keys:?}"));
            }
        }
        let got: BTreeMap<String, String> = tx.get::<Texts, _>().prefix_iter_decoded(&()).map_err(e)?.collect();
        if got != m3 {
            return Err(format!("round {round}: texts {got:?} instead of {m3:?}"));
        }
        // a dump restores the same contents, in either backend
        let dump = tx.dump_raw().map_err(e)?;
        drop(tx);
        let st2: Storage<B, Sch> = Storage::new_from_dump(fresh(), dump.clone()).map_err(e)?;
        let back = st2.transaction_ro().map_err(e)?.dump_raw().map_err(e)?;
        if back != dump {
            return Err(format!("round {round}: a dump restores to something else"));
        }
        if dump.values().map(|m| m.len()).sum::<usize>() != m1.len() + m2.len() + m3.len() {
            return Err(format!("round {round}: the dump is incomplete"));
        }
    }
    Ok(n)
}

pub fn run(ctx: &Ctx) {
    ctx.part("typed", "typed maps on both backends: order-preserving number keys, pair prefixes, texts, dump and restore, over 8 rounds of partial updates and every probe", |p| {
        let mem = guard(|| check(storage_inmemory::InMemory::new(), storage_inmemory::InMemory::new)).and_then(|r| r);
        let sql = guard(|| check(storage_sqlite::Sqlite::new_in_memory(), storage_sqlite::Sqlite::new_in_memory)).and_then(|r| r);
        for (name, r) in [("memory", mem), ("sqlite", sql)] {
            match r {
                Ok(n) => {
                    p.evals(n);
                    p.nontrivial(n);
                }
                Err(e) => p.fail(name, e),
            }
        }
    });
    ctx.part("order", "order-preserving keys: encoding keeps the order of all pairs of 40 boundary numbers of each width, and decodes back", |p| {
        use serialization::{DecodeAll, Encode};
        macro_rules! width {
            ($t:ty) => {{
                let mut v: Vec<$t> = vec![];
                for s in 0..<$t>::BITS / 4 {
                    for d in [0, 1] {
                        v.push(((1 as $t) << (s * 4)).wrapping_sub(d));
                        v.push(!((1 as $t) << (s * 4)).wrapping_sub(d));
                    }
                }
                for a in &v {
                    let ea = OrderPreservingValue::new(*a).encode();
                    p.eq(|| format!("{a} decodes"), &OrderPreservingValue::<$t>::decode_all(&mut &ea[..]).ok().map(|x| x.inner()), &Some(*a));
                    for b in &v {
                        p.evals(1);
                        p.nontrivial((a != b) as u64);
                        p.eq(|| format!("{a} against {b}"), &ea.cmp(&OrderPreservingValue::new(*b).encode()), &a.cmp(b));
                    }
                }
            }};
        }
        width!(u16);
        width!(u32);
        width!(u64);
    });
}
