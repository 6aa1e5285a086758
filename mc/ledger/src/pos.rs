use crate::book::{Act, Book, explore};
use common::chain::{DelegationId, Destination, PoolId};
use common::primitives::per_thousand::PerThousand;
use common::primitives::{Amount, H256};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey};
use mc_kit::Ctx;
use pos_accounting::{DefaultStorageTag, FlushablePoSAccountingView, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoSAccountingDeltaData, PoSAccountingOperations, PoSAccountingUndo, PoSAccountingView, PoolData};
use std::collections::BTreeMap;
use std::sync::OnceLock;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Flat {
    /// pledge and rewards of the pools there are
    pools: BTreeMap<u8, (u128, u128)>,
    /// pool and balance of the delegations there are
    delegations: BTreeMap<u8, (u8, u128)>,
    /// pools that were decommissioned
    gone: Vec<u8>,
}
#[derive(Clone, Debug)]
pub enum Op {
    CreatePool(u8, u128),
    Decommission(u8),
    Reward(u8, u128),
    CreateDelegation(u8, u8),
    DeleteDelegation(u8),
    Delegate(u8, u128),
    Spend(u8, u128),
}
fn pool(i: u8) -> PoolId {
    PoolId::new(H256::repeat_byte(i + 1))
}
fn delegation(i: u8) -> DelegationId {
    // the smallest and the largest identifiers among them
    DelegationId::new(H256::repeat_byte([0, 0xff, 7][i as usize]))
}
pub fn vrf() -> VRFPublicKey {
    static K: OnceLock<VRFPublicKey> = OnceLock::new();
    K.get_or_init(|| VRFPrivateKey::new_from_entropy(VRFKeyKind::Schnorrkel).1).clone()
}
fn destination(i: u8) -> Destination {
    Destination::ScriptHash(common::primitives::Id::new(H256::repeat_byte(i)))
}
fn data(i: u8, pledge: u128, rewards: u128) -> PoolData {
    PoolData::new(destination(i), Amount::from_atoms(pledge), Amount::from_atoms(rewards), vrf(), PerThousand::new(u16::from(i)).unwrap(), Amount::from_atoms(u128::from(i)))
}

#[derive(Clone)]
pub struct Pos {
    pools: u8,
    delegations: u8,
    pledges: &'static [u128],
    amounts: &'static [u128],
}
fn layer<P: PoSAccountingView>(parent: P, delta: &PoSAccountingDeltaData) -> PoSAccountingDelta<P> {
    PoSAccountingDelta::from_data(parent, delta.clone())
}
fn apply<P: PoSAccountingView>(c: &mut PoSAccountingDelta<P>, act: Act<Op, PoSAccountingUndo>) -> Result<Option<PoSAccountingUndo>, String> {
    let a = Amount::from_atoms;
    let r = match act {
        Act::Undo(u) => c.undo(u).map(|_| None),
        Act::Do(op) => match op {
            Op::CreatePool(i, p) => c.create_pool(pool(i), data(i, p, 0)),
            Op::Decommission(i) => c.decommission_pool(pool(i)),
            Op::Reward(i, x) => c.increase_staker_rewards(pool(i), a(x)),
            Op::CreateDelegation(p, d) => c.create_delegation_id(pool(p), delegation(d), destination(100 + d)),
            Op::DeleteDelegation(d) => c.delete_delegation_id(delegation(d)),
            Op::Delegate(d, x) => c.delegate_staking(delegation(d), a(x)),
            // who spends has to ask for the balance afterwards: an overspent one has none
            Op::Spend(d, x) => c.spend_share_from_delegation_id(delegation(d), a(x)).and_then(|u| c.get_delegation_balance(delegation(d)).map(|_| u)),
        }
        .map(Some),
    };
    r.map_err(|e| e.to_string())
}
impl Pos {
    fn look<V: PoSAccountingView>(&self, v: &V) -> Result<Flat, String> {
        let e = |e: V::Error| e.to_string();
        let mut f = Flat::default();
        for d in 0..self.delegations {
            let balance = v.get_delegation_balance(delegation(d)).map_err(e)?.into_atoms();
            match v.get_delegation_data(delegation(d)).map_err(e)? {
                Some(x) => {
                    let p = (0..self.pools).find(|p| pool(*p) == *x.source_pool()).ok_or("a delegation to no pool")?;
                    if x.spend_destination() != &destination(100 + d) {
                        return Err(format!("delegation {d} belongs to {:?}", x.spend_destination()));
                    }
                    f.delegations.insert(d, (p, balance));
                }
                None if balance != 0 => return Err(format!("balance {balance} of no delegation")),
                None => {}
            }
            for p in 0..self.pools {
                let share = v.get_pool_delegation_share(pool(p), delegation(d)).map_err(e)?.into_atoms();
                let want = f.delegations.get(&d).filter(|x| x.0 == p).map_or(0, |x| x.1);
                if share != want {
                    return Err(format!("delegation {d} has share {share} in pool {p} and balance {want}"));
                }
            }
        }
        for p in 0..self.pools {
            let shares: BTreeMap<DelegationId, u128> = v.get_pool_delegations_shares(pool(p)).map_err(e)?.unwrap_or_default().into_iter().map(|(d, a)| (d, a.into_atoms())).filter(|x| x.1 != 0).collect();
            let want: BTreeMap<DelegationId, u128> = f.delegations.iter().filter(|(_, x)| x.0 == p && x.1 != 0).map(|(d, x)| (delegation(*d), x.1)).collect();
            if shares != want {
                return Err(format!("the shares in pool {p} are {shares:?}, want {want:?}"));
            }
            let found = v.get_pool_data(pool(p)).map_err(e)?;
            if v.pool_exists(pool(p)).map_err(e)? != found.is_some() {
                return Err(format!("pool {p} exists or not"));
            }
            if let Some(x) = found {
                let (pledge, rewards) = (x.pledge_amount().into_atoms(), x.staker_rewards().into_atoms());
                if x != data(p, pledge, rewards) {
                    return Err(format!("pool {p} is {x:?}"));
                }
                let balance = v.get_pool_balance(pool(p)).map_err(e)?.into_atoms();
                if balance != pledge + rewards + want.values().sum::<u128>() {
                    return Err(format!("pool {p} has {balance}, its staker {pledge} + {rewards} and its delegations {want:?}"));
                }
                f.pools.insert(p, (pledge, rewards));
            }
        }
        Ok(f)
    }
}
type Db<S> = PoSAccountingDB<S, DefaultStorageTag>;
impl Book for Pos {
    type Store = InMemoryPoSAccounting;
    type Delta = PoSAccountingDeltaData;
    type Undo = PoSAccountingUndo;
    type Flat = Flat;
    type Op = Op;
    fn empty(&self) -> (Self::Store, Flat) {
        (InMemoryPoSAccounting::new(), Flat::default())
    }
    fn layer(&self, _store: &Self::Store, _layers: &[Self::Delta]) -> Self::Delta {
        PoSAccountingDeltaData::new()
    }
    fn same(&self, view: &Flat, flat: &Flat) -> bool {
        view.pools == flat.pools && view.delegations == flat.delegations
    }
    fn ops(&self, flat: &Flat) -> Vec<Op> {
        let mut v = vec![];
        for p in 0..self.pools {
            if !flat.gone.contains(&p) {
                // identifiers of pools are never used again
                v.extend(self.pledges.iter().map(|x| Op::CreatePool(p, *x)));
            }
            v.push(Op::Decommission(p));
            v.extend(self.amounts.iter().map(|x| Op::Reward(p, *x)));
        }
        for d in 0..self.delegations {
            v.push(Op::CreateDelegation(d % self.pools, d));
            v.push(Op::DeleteDelegation(d));
            let have = flat.delegations.get(&d).map_or(0, |x| x.1);
            v.extend(self.amounts.iter().map(|x| Op::Delegate(d, *x)));
            v.push(Op::Spend(d, 1));
            v.push(Op::Spend(d, have));
            v.push(Op::Spend(d, have + 1));
        }
        v
    }
    fn model(&self, flat: &Flat, op: &Op) -> Option<Flat> {
        let mut f = flat.clone();
        match op {
            Op::CreatePool(p, x) => {
                if f.pools.contains_key(p) {
                    return None;
                }
                f.pools.insert(*p, (*x, 0));
            }
            Op::Decommission(p) => {
                f.pools.remove(p)?;
                f.gone.push(*p);
            }
            Op::Reward(p, x) => f.pools.get_mut(p)?.1 += x,
            Op::CreateDelegation(p, d) => {
                if !f.pools.contains_key(p) || f.delegations.contains_key(d) {
                    return None;
                }
                f.delegations.insert(*d, (*p, 0));
            }
            Op::DeleteDelegation(d) => {
                let (p, x) = f.delegations.remove(d)?;
                if x != 0 || f.pools.contains_key(&p) {
                    return None;
                }
            }
            Op::Delegate(d, x) => f.delegations.get_mut(d)?.1 += x,
            Op::Spend(d, x) => {
                let have = &mut f.delegations.get_mut(d)?.1;
                *have = have.checked_sub(*x)?;
            }
        }
        Some(f)
    }
    fn may_spoil(&self, flat: &Flat, op: &Op) -> bool {
        matches!(op, Op::Spend(d, x) if flat.delegations.get(d).is_some_and(|have| have.1 < *x))
    }
    fn act(&self, store: &Self::Store, layers: &mut [Self::Delta], act: Act<Op, Self::Undo>) -> Result<Option<Self::Undo>, String> {
        let db = Db::new(store);
        let (r, d) = match layers {
            [a] => {
                let mut l = layer(&db, a);
                let r = apply(&mut l, act);
                (r, l.consume())
            }
            [a, b] => {
                let lower = layer(&db, a);
                let mut l = layer(&lower, b);
                let r = apply(&mut l, act);
                (r, l.consume())
            }
            _ => unreachable!(),
        };
        *layers.last_mut().unwrap() = d;
        r
    }
    fn view(&self, store: &Self::Store, layers: &[Self::Delta]) -> Result<Flat, String> {
        let db = Db::new(store);
        match layers {
            [] => self.look(&db),
            [a] => self.look(&layer(&db, a)),
            [a, b] => self.look(&layer(&layer(&db, a), b)),
            _ => unreachable!(),
        }
    }
    fn commit(&self, store: &mut Self::Store, delta: Self::Delta) -> Result<(), String> {
        let before = store.clone();
        let undo = Db::new(&mut *store).merge_with_delta(delta.clone()).map_err(|e| e.to_string())?;
        // the whole commit can be undone
        let mut back = store.clone();
        Db::new(&mut back).undo_merge_with_delta(undo).map_err(|e| format!("undoing the commit: {e}"))?;
        if back != before {
            return Err(format!("undoing the commit gave {back:?}"));
        }
        // the trait does the same
        let mut other = before.clone();
        let _ = Db::new(&mut other).batch_write_delta(delta).map_err(|e| e.to_string())?;
        if other != *store { Err(format!("writing the batch gave {other:?}")) } else { Ok(()) }
    }
    fn merge(&self, store: &Self::Store, lower: &mut Self::Delta, upper: Self::Delta) -> Result<(), String> {
        let before = lower.clone();
        let undo = lower.merge_with_delta(upper).map_err(|e| e.to_string())?;
        let mut back = lower.clone();
        back.undo_delta_merge(undo).map_err(|e| format!("undoing the merge: {e}"))?;
        let (got, want) = (self.view(store, &[back]), self.view(store, &[before]));
        if got != want { Err(format!("undoing the merge gave {got:?}, want {want:?}")) } else { Ok(()) }
    }
    fn store_is(&self, store: &Self::Store, flat: &Flat) -> Result<(), String> {
        let pools: BTreeMap<PoolId, PoolData> = flat.pools.iter().map(|(p, (x, y))| (pool(*p), data(*p, *x, *y))).collect();
        let balances: BTreeMap<DelegationId, Amount> = flat.delegations.iter().filter(|(_, x)| x.1 != 0).map(|(d, x)| (delegation(*d), Amount::from_atoms(x.1))).collect();
        if store.all_pool_data() != &pools || store.all_delegation_balances() != &balances || store.all_delegation_data().len() != flat.delegations.len() {
            return Err(format!("the store holds {store:?}"));
        }
        match self.look(&Db::new(store)) {
            Ok(v) if self.same(&v, flat) => Ok(()),
            other => Err(format!("the store says {other:?}")),
        }
    }
}

pub fn run(ctx: &Ctx) {
    ctx.part("one pool", "every history of up to 8 (thorough 10) steps of creating, rewarding and decommissioning a pool, creating and deleting a delegation to it, delegating and spending, opening, merging and dropping layers over the store, and undoing single steps and whole layers: the views against a flat book, the store against what was committed, and every pool's balance the sum of its staker's and its delegations'", |c| {
        explore(c, &Pos { pools: 1, delegations: 1, pledges: &[0, 5], amounts: &[0, 3] }, ctx.pick(8, 10));
    });
    ctx.part("two delegations", "every history of up to 8 (thorough 9) steps with two delegations to one pool", |c| {
        explore(c, &Pos { pools: 1, delegations: 2, pledges: &[5], amounts: &[3] }, ctx.pick(8, 9));
    });
    ctx.part("two pools", "every history of up to 7 (thorough 8) steps with two pools and three delegations", |c| {
        explore(c, &Pos { pools: 2, delegations: 3, pledges: &[5], amounts: &[3] }, ctx.pick(7, 8));
    });
}
