//! How a block's reward is shared out, and how the coins that exist grow with the height.
use std::collections::BTreeMap;

use common::{
    chain::{
        CoinUnit, DelegationId, Destination, PoolId, RewardDistributionVersion,
        config::{Builder, ChainType, emission_schedule::EmissionScheduleTabular},
    },
    primitives::{Amount, BlockHeight, H256, per_thousand::PerThousand},
};
use mc_kit::{Ctx, guard, sequences};
use num::BigUint;
use pos_accounting::{
    DelegationData, FlushablePoSAccountingView, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoSAccountingOperations,
    PoSAccountingView, PoolData,
};
use tx_verifier::transaction_verifier::distribute_pos_reward;

use crate::stakes::vrf_key;

fn amt(n: u128) -> Amount {
    Amount::from_atoms(n)
}

#[derive(Clone, Debug)]
pub struct Pool {
    pub pledge: u128,
    pub earned: u128,
    pub balance: u128,
    pub cost: u128,
    pub margin: u16,
    pub shares: Vec<u128>,
}

/// what the staker gets and what each delegation
pub fn share(p: &Pool, total: u128, v1: bool) -> Option<(u128, Vec<u128>)> {
    let b = |n: u128| BigUint::from(n);
    let n = |x: BigUint| u128::try_from(x).unwrap();
    let staker = p.pledge + p.earned;
    if v1 && (staker > p.balance || p.balance == 0) {
        return None;
    }
    let own = if total < p.cost {
        total
    } else {
        let left = total - p.cost;
        if v1 {
            let part = n(b(left) * staker / p.balance);
            p.cost + part + n(b(left - part) * p.margin / 1000u32)
        } else {
            let m = b(left) * p.margin;
            if m.bits() > 128 {
                return None;
            }
            p.cost + n(m / 1000u32)
        }
    };
    let rest = total - own;
    let all: u128 = p.shares.iter().sum();
    let each: Vec<u128> = p.shares.iter().map(|s| if all == 0 { 0 } else { n(b(rest) * *s / all) }).collect();
    Some((total - each.iter().sum::<u128>(), each))
}

fn id(n: u8) -> DelegationId {
    DelegationId::new(H256::repeat_byte(n))
}

fn holding(p: &Pool) -> InMemoryPoSAccounting {
    let pool = PoolId::new(H256::repeat_byte(1));
    let other = PoolId::new(H256::repeat_byte(2));
    let data = |p: &Pool, k: u8| {
        PoolData::new(Destination::AnyoneCanSpend, amt(p.pledge), amt(p.earned), vrf_key(k).1, PerThousand::new(p.margin).unwrap(), amt(p.cost))
    };
    let far = Pool { pledge: 5, earned: 1, balance: 10, cost: 1, margin: 10, shares: vec![4] };
    let mut shares: BTreeMap<_, _> = p.shares.iter().enumerate().map(|(i, s)| ((pool, id(i as u8 + 10)), amt(*s))).collect();
    shares.insert((other, id(99)), amt(4));
    let mut held: BTreeMap<_, _> = p.shares.iter().enumerate().map(|(i, s)| (id(i as u8 + 10), amt(*s))).collect();
    held.insert(id(99), amt(4));
    let mut ids: BTreeMap<_, _> = (0..p.shares.len()).map(|i| (id(i as u8 + 10), DelegationData::new(pool, Destination::AnyoneCanSpend))).collect();
    ids.insert(id(99), DelegationData::new(other, Destination::AnyoneCanSpend));
    InMemoryPoSAccounting::from_values(
        [(pool, data(p, 31)), (other, data(&far, 32))].into(),
        [(pool, amt(p.balance)), (other, amt(10))].into(),
        shares,
        held,
        ids,
    )
}

/// everything there is to read
type Seen = Vec<(String, Option<u128>)>;

fn read<V: PoSAccountingView<Error = pos_accounting::Error>>(v: &V, n: usize) -> Seen {
    let mut all = vec![];
    for (i, d) in [1u8, 2].into_iter().enumerate() {
        let pool = PoolId::new(H256::repeat_byte(d));
        all.push((format!("balance of pool {i}"), Some(v.get_pool_balance(pool).unwrap().into_atoms())));
        let data = v.get_pool_data(pool).unwrap();
        all.push((format!("pledge of pool {i}"), data.as_ref().map(|d| d.pledge_amount().into_atoms())));
        all.push((format!("earnings of pool {i}"), data.map(|d| d.staker_rewards().into_atoms())));
        for k in (0..n as u8).map(|i| i + 10).chain([99]) {
            all.push((format!("share of {k} in pool {i}"), Some(v.get_pool_delegation_share(pool, id(k)).unwrap().into_atoms())));
        }
    }
    for k in (0..n as u8).map(|i| i + 10).chain([99]) {
        all.push((format!("delegation {k}"), Some(v.get_delegation_balance(id(k)).unwrap().into_atoms())));
    }
    all
}

fn rewards(ctx: &Ctx) {
    let huge = 1u128 << 120;
    let mut pools = vec![];
    let sizes = [0u128, 1, 2, 7, 1000];
    let mut lists: Vec<Vec<u128>> = vec![];
    for n in 0..=3 {
        lists.extend(sequences(sizes.len(), n).map(|s| s.iter().map(|i| sizes[*i]).collect()));
    }
    lists.push(vec![huge, 1, huge - 1]);
    lists.push(vec![huge, huge, huge]);
    lists.push((1..=9).collect());
    for shares in &lists {
        for (pledge, earned) in [(0, 0), (1, 0), (3, 2), (10, 0), (1000, 500), (huge, 7)] {
            for cost in [0, 1, 5, 100] {
                for margin in [0u16, 1, 333, 999, 1000] {
                    let balance = pledge + earned + shares.iter().sum::<u128>();
                    pools.push(Pool { pledge, earned, balance, cost, margin, shares: shares.clone() });
                }
            }
        }
    }
    // books that do not add up
    for (pledge, earned, balance) in [(5, 0, 0), (5, 5, 9), (0, 0, 0), (5, 5, 10), (5, 5, 1000)] {
        pools.push(Pool { pledge, earned, balance, cost: 1, margin: 100, shares: vec![3, 4] });
    }
    let mut totals: Vec<u128> = ctx.pick(vec![0, 1, 2, 3, 4, 5, 6, 7, 11, 99, 100, 101, 1000], (0..=130).collect());
    totals.extend([12_345, huge, huge * 2 + 3]);
    ctx.part(
        "how a reward is shared out",
        "every pool of these pledges, earnings, costs, margins and up to three delegations, every reward, both rules: each balance after it, what is left over, and the way back",
        |c| {
            c.par(pools.len(), |i| {
                let p = &pools[i];
                let pool = PoolId::new(H256::repeat_byte(1));
                let mut base = holding(p);
                let n = p.shares.len();
                for total in &totals {
                    for v1 in [false, true] {
                        let version = if v1 { RewardDistributionVersion::V1 } else { RewardDistributionVersion::V0 };
                        let k = || format!("{p:?} reward {total} version {}", u8::from(v1));
                        let before = read(&PoSAccountingDB::new(&base), n);
                        let run = || -> Result<Option<(Seen, Seen)>, String> {
                            let db = PoSAccountingDB::new(&base);
                            let mut d = PoSAccountingDelta::new(&db);
                            let undo = match distribute_pos_reward(&mut d, H256::repeat_byte(8).into(), pool, amt(*total), version) {
                                Ok(u) => u,
                                Err(_) => return Ok(None),
                            };
                            let after = read(&d, n);
                            for u in undo.into_iter().rev() {
                                d.undo(u).map_err(|e| e.to_string())?;
                            }
                            Ok(Some((after, read(&d, n))))
                        };
                        let got = guard(run).and_then(|r| r);
                        let want = share(p, *total, v1).map(|(own, each)| {
                            let mut after = before.clone();
                            let mut add = |what: &str, by: u128| {
                                if by > 0 {
                                    let e = after.iter_mut().find(|(w, _)| w == what).unwrap();
                                    e.1 = Some(e.1.unwrap_or(0) + by);
                                }
                            };
                            add("balance of pool 0", *total);
                            add("earnings of pool 0", own);
                            for (i, e) in each.iter().enumerate() {
                                add(&format!("share of {} in pool 0", i + 10), *e);
                                add(&format!("delegation {}", i + 10), *e);
                            }
                            (after, before.clone())
                        });
                        c.eq(k, &got, &Ok(want.clone()));
                        c.evals(1);
                        c.nontrivial(u64::from(want.is_some() && *total > 0));
                        c.outcome(match share(p, *total, v1) {
                            None => "refused",
                            Some((own, _)) if own == *total => "all to the staker",
                            Some((0, _)) => "all to the delegations",
                            Some(_) => "shared",
                        });
                        if c.stop() {
                            return;
                        }
                    }
                }
                // one after the other, written down each time
                let mut model = p.clone();
                for total in [7u128, 100, 1, 1000] {
                    let Some((own, each)) = share(&model, total, true) else { return };
                    let wrote = guard(|| -> Result<(), String> {
                        let change = {
                            let db = PoSAccountingDB::new(&base);
                            let mut d = PoSAccountingDelta::new(&db);
                            distribute_pos_reward(&mut d, H256::repeat_byte(8).into(), pool, amt(total), RewardDistributionVersion::V1).map_err(|e| e.to_string())?;
                            d.consume()
                        };
                        PoSAccountingDB::new(&mut base).batch_write_delta(change).map_err(|e| e.to_string())?;
                        Ok(())
                    })
                    .and_then(|r| r);
                    c.eq(|| format!("{p:?} in a row"), &wrote, &Ok(()));
                    model.earned += own;
                    model.balance += total;
                    for (s, e) in model.shares.iter_mut().zip(each) {
                        *s += e;
                    }
                    let db = PoSAccountingDB::new(&base);
                    let got = (
                        db.get_pool_balance(pool).unwrap().into_atoms(),
                        db.get_pool_data(pool).unwrap().unwrap().staker_rewards().into_atoms(),
                        (0..n as u8).map(|k| db.get_delegation_balance(id(k + 10)).unwrap().into_atoms()).collect::<Vec<_>>(),
                    );
                    c.eq(|| format!("{p:?} in a row, after {total}"), &got, &(model.balance, model.earned, model.shares.clone()));
                    c.evals(1);
                    c.transitions(1);
                }
                c.traces(1);
            });
        },
    );
}

fn emission(ctx: &Ctx) {
    ctx.part("how the coins grow", "every table of up to three changes at heights up to 7, every height up to 12: what exists, what each block adds, how it ends, and the table written out and read again", |c| {
        let subsidies = [0u128, 1, 5, CoinUnit::ATOMS_PER_COIN * 3 + 7];
        for n in 0..=3usize {
            let places: Vec<Vec<usize>> = sequences(7, n).filter(|h| h.windows(2).all(|w| w[0] < w[1])).collect();
            for hs in &places {
                for ss in sequences(subsidies.len(), n + 1) {
                    for start in [0u128, 1000, CoinUnit::ATOMS_PER_COIN * 9] {
                        let table: BTreeMap<BlockHeight, CoinUnit> =
                            hs.iter().zip(&ss[1..]).map(|(h, s)| (BlockHeight::new(*h as u64 + 1), CoinUnit::from_atoms(subsidies[*s]))).collect();
                        let t = EmissionScheduleTabular::new(CoinUnit::from_atoms(start), CoinUnit::from_atoms(subsidies[ss[0]]), table);
                        let key = || format!("{t}");
                        // a change at a height shows in the blocks after it
                        let rate = |h: u64| {
                            let i = hs.iter().filter(|a| (**a as u64 + 1) < h).count();
                            subsidies[ss[i]]
                        };
                        let s = t.schedule();
                        let mut sum = start;
                        c.eq(|| key() + " at the start", &s.initial_supply(), &CoinUnit::from_atoms(start));
                        for h in 1..13u64 {
                            sum += rate(h);
                            let got = guard(|| (s.amount_at(BlockHeight::new(h)), s.subsidy(BlockHeight::new(h))));
                            c.eq(|| format!("{} at {h}", key()), &got, &Ok((CoinUnit::from_atoms(sum), CoinUnit::from_atoms(rate(h)))));
                            c.evals(1);
                            c.nontrivial(1);
                        }
                        let end = (subsidies[*ss.last().unwrap()] == 0).then(|| CoinUnit::from_atoms(start + (1..=7).map(rate).sum::<u128>()));
                        c.eq(|| key() + " in the end", &t.final_supply(), &end);
                        c.eq(|| key() + " read again", &t.to_string().parse::<EmissionScheduleTabular>().map_err(|e| e.to_string()), &Ok(t.clone()));
                        let cfg = guard(|| {
                            let b = Builder::new(ChainType::Regtest).emission_schedule_tabular(t.clone()).build();
                            (1..13u64).map(|h| b.block_subsidy_at_height(&BlockHeight::new(h))).collect::<Vec<_>>()
                        });
                        if n < 2 {
                            c.eq(|| key() + " in a configuration", &cfg, &Ok((1..13).map(|h| amt(rate(h))).collect()));
                        }
                        c.evals(3);
                        c.states(1);
                    }
                }
            }
        }
        for (s, good) in [
            ("1+2", true), (" 1 +2", true), ("1+2,3:+4", true), ("1+2, 3:+4 ,5:+0", true), ("", false), ("+", false), ("1", false), ("1+", false), ("+1", false),
            ("1+2,", false), ("1+2,3", false), ("1+2,3:4", false), ("1+2,x:+4", false), ("1+2,3:+x", false), ("1+2,,3:+4", false), ("1+2,-3:+4", false), ("1.5+0.25", true), ("1+2,3.5:+4", false), ("1.123456789012+1", false),
        ] {
            c.eq(|| format!("reading {s:?}"), &guard(|| s.parse::<EmissionScheduleTabular>().is_ok()), &Ok(good));
            c.evals(1);
        }
    });
    ctx.part("the coins of each network", "every block of the first eleven years on the main network and the others: no more coins than the final supply, and a year's blocks by the published rate", |c| {
        for kind in [ChainType::Mainnet, ChainType::Testnet, ChainType::Signet, ChainType::Regtest] {
            let cfg = Builder::new(kind).build();
            let year = 365 * 24 * 60 * 60 / 120u64;
            let coin = CoinUnit::ATOMS_PER_COIN;
            let rates = [202u128, 151, 113, 85, 64, 48, 36, 27, 20, 15, 0, 0];
            let mut sum = 400_000_000 * coin;
            for (y, rate) in rates.iter().enumerate() {
                let first = y as u64 * year + 1;
                let last = (y as u64 + 1) * year;
                let step = ctx.pick(97, 1);
                for h in (first..first + 50).chain((first..last).step_by(step)).chain(last - 50..=last) {
                    let got = guard(|| cfg.block_subsidy_at_height(&BlockHeight::new(h)));
                    c.eq(|| format!("{kind:?} at {h}"), &got, &Ok(amt(rate * coin)));
                    c.evals(1);
                    c.nontrivial(u64::from(*rate > 0));
                }
                sum += rate * coin * u128::from(year);
            }
            c.eq(|| format!("{kind:?} in the end"), &cfg.final_supply(), &Some(CoinUnit::from_atoms(sum)));
        }
    });
}

pub fn run(ctx: &Ctx) {
    rewards(ctx);
    emission(ctx);
}
