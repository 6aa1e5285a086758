use crate::book::{Act, Book, explore};
use common::chain::output_value::OutputValue;
use common::chain::tokens::TokenId;
use common::chain::{Destination, OrderId, OrdersVersion};
use common::primitives::{Amount, H256};
use mc_kit::{Ctx, guard};
use orders_accounting::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Order {
    ask: u128,
    give: u128,
    ask_left: u128,
    give_left: u128,
    frozen: bool,
}
pub type Flat = BTreeMap<u8, Order>;
#[derive(Clone, Debug)]
pub enum Op {
    Create(u8, u128, u128),
    Conclude(u8),
    Fill(u8, u128, bool),
    Freeze(u8),
}
fn id(i: u8) -> OrderId {
    OrderId::new(H256::repeat_byte(i + 1))
}
fn token() -> TokenId {
    TokenId::new(H256::repeat_byte(9))
}
/// Even orders sell coins, odd ones tokens.
fn real(i: u8, ask: u128, give: u128, frozen: bool) -> OrderData {
    let coin = |a| OutputValue::Coin(Amount::from_atoms(a));
    let token = |a| OutputValue::TokenV1(token(), Amount::from_atoms(a));
    let (a, g) = if i % 2 == 0 { (token(ask), coin(give)) } else { (coin(ask), token(give)) };
    OrderData::new_generic(Destination::AnyoneCanSpend, a, g, frozen)
}

/// floor(a * b / c) in 256 bits; None if c is zero or the result exceeds 128 bits.
pub fn muldiv(a: u128, b: u128, c: u128) -> Option<u128> {
    fn wide(a: u128, b: u128) -> (u128, u128) {
        let m = u64::MAX as u128;
        let (ah, al, bh, bl) = (a >> 64, a & m, b >> 64, b & m);
        let (ll, lh, hl, hh) = (al * bl, al * bh, ah * bl, ah * bh);
        let mid = (ll >> 64) + (lh & m) + (hl & m);
        (hh + (lh >> 64) + (hl >> 64) + (mid >> 64), (mid << 64) | (ll & m))
    }
    if c == 0 {
        return None;
    }
    let product = wide(a, b);
    // the quotient is over 128 bits iff c << 128 <= product
    if product.0 >= c {
        return None;
    }
    let mut q = 0u128;
    for bit in (0..128).rev() {
        let t = q | 1 << bit;
        if wide(t, c) <= product {
            q = t;
        }
    }
    Some(q)
}

#[derive(Clone)]
pub struct Orders {
    ids: u8,
    sizes: &'static [(u128, u128)],
    fills: &'static [u128],
}
fn cache<P: OrdersAccountingView>(parent: P, delta: &OrdersAccountingDeltaData) -> OrdersAccountingCache<P> {
    let mut c = OrdersAccountingCache::new(parent);
    let _ = c.batch_write_orders_data(delta.clone()).expect("into an empty cache");
    assert_eq!(c.data(), delta, "writing into an empty cache changed what was written");
    c
}
fn version(v1: bool) -> OrdersVersion {
    if v1 { OrdersVersion::V1 } else { OrdersVersion::V0 }
}
fn apply(c: &mut impl OrdersAccountingOperations, act: Act<Op, OrdersAccountingUndo>) -> Result<Option<OrdersAccountingUndo>, String> {
    match act {
        Act::Undo(u) => c.undo(u).map(|_| None),
        Act::Do(op) => match op {
            Op::Create(i, a, g) => c.create_order(id(i), real(i, a, g, false)),
            Op::Conclude(i) => c.conclude_order(id(i)),
            Op::Fill(i, a, v1) => c.fill_order(id(i), Amount::from_atoms(a), version(v1)),
            Op::Freeze(i) => c.freeze_order(id(i)),
        }
        .map(Some),
    }
    .map_err(|e| e.to_string())
}
impl Orders {
    fn look<V: OrdersAccountingView>(&self, v: &V) -> Result<Flat, String> {
        let e = |e: V::Error| e.to_string();
        let mut f = Flat::default();
        for i in 0..self.ids {
            let (a, g) = (v.get_ask_balance(&id(i)).map_err(e)?.into_atoms(), v.get_give_balance(&id(i)).map_err(e)?.into_atoms());
            match v.get_order_data(&id(i)).map_err(e)? {
                Some(d) => {
                    let val = |v: &OutputValue| match v {
                        OutputValue::Coin(a) | OutputValue::TokenV1(_, a) => a.into_atoms(),
                        _ => panic!("neither coins nor tokens"),
                    };
                    let (ask, give) = (val(d.ask()), val(d.give()));
                    if d != real(i, ask, give, d.is_frozen()) {
                        return Err(format!("order {i} is {d:?}"));
                    }
                    f.insert(i, Order { ask, give, ask_left: a, give_left: g, frozen: d.is_frozen() });
                }
                None if a != 0 || g != 0 => return Err(format!("balances {a} and {g} of no order")),
                None => {}
            }
        }
        let all = v.get_all_order_ids().map_err(e)?;
        let want: BTreeSet<OrderId> = f.keys().map(|i| id(*i)).collect();
        if all != want {
            return Err(format!("orders listed: {all:?}"));
        }
        Ok(f)
    }
}
impl Book for Orders {
    type Store = InMemoryOrdersAccounting;
    type Delta = OrdersAccountingDeltaData;
    type Undo = OrdersAccountingUndo;
    type Flat = Flat;
    type Op = Op;
    fn empty(&self) -> (Self::Store, Flat) {
        (InMemoryOrdersAccounting::new(), Flat::default())
    }
    fn layer(&self, _store: &Self::Store, _layers: &[Self::Delta]) -> Self::Delta {
        OrdersAccountingDeltaData::new()
    }
    fn ops(&self, flat: &Flat) -> Vec<Op> {
        let mut v = vec![];
        for i in 0..self.ids {
            v.extend(self.sizes.iter().map(|(a, g)| Op::Create(i, *a, *g)));
            v.push(Op::Conclude(i));
            v.push(Op::Freeze(i));
            let left = flat.get(&i).map_or(1, |o| o.ask_left);
            for v1 in [false, true] {
                v.extend(self.fills.iter().map(|f| Op::Fill(i, *f, v1)));
                v.push(Op::Fill(i, left, v1));
                v.push(Op::Fill(i, left.saturating_add(1), v1));
            }
        }
        v
    }
    fn model(&self, flat: &Flat, op: &Op) -> Option<Flat> {
        let mut f = flat.clone();
        match op {
            Op::Create(i, a, g) => {
                if f.contains_key(i) || *a == 0 || *g == 0 || *a > i128::MAX as u128 || *g > i128::MAX as u128 {
                    return None;
                }
                f.insert(*i, Order { ask: *a, give: *g, ask_left: *a, give_left: *g, frozen: false });
            }
            Op::Conclude(i) => {
                f.remove(i)?;
            }
            Op::Freeze(i) => {
                let o = f.get_mut(i)?;
                if o.frozen {
                    return None;
                }
                o.frozen = true;
            }
            Op::Fill(i, a, v1) => {
                let o = f.get_mut(i)?;
                if o.frozen || *a > o.ask_left {
                    return None;
                }
                let given = if *v1 { muldiv(o.give, *a, o.ask) } else { muldiv(o.give_left, *a, o.ask_left) }?;
                if *v1 && given == 0 {
                    return None;
                }
                // V1 after V0 may ask for more than is left; the versions are never mixed within a chain's rules
                o.give_left = o.give_left.checked_sub(given)?;
                o.ask_left -= a;
            }
        }
        Some(f)
    }
    fn may_spoil(&self, _: &Flat, op: &Op) -> bool {
        matches!(op, Op::Create(_, a, g) if *a > i128::MAX as u128 || *g > i128::MAX as u128)
    }
    fn act(&self, store: &Self::Store, layers: &mut [Self::Delta], act: Act<Op, Self::Undo>) -> Result<Option<Self::Undo>, String> {
        let db = OrdersAccountingDB::new(store);
        let (r, d) = match layers {
            [a] => {
                let mut l = cache(&db, a);
                let r = apply(&mut l, act);
                (r, l.consume())
            }
            [a, b] => {
                let lower = cache(&db, a);
                let mut l = cache(&lower, b);
                let r = apply(&mut l, act);
                (r, l.consume())
            }
            _ => unreachable!(),
        };
        *layers.last_mut().unwrap() = d;
        r
    }
    fn view(&self, store: &Self::Store, layers: &[Self::Delta]) -> Result<Flat, String> {
        let db = OrdersAccountingDB::new(store);
        match layers {
            [] => self.look(&db),
            [a] => self.look(&cache(&db, a)),
            [a, b] => self.look(&cache(&cache(&db, a), b)),
            _ => unreachable!(),
        }
    }
    fn commit(&self, store: &mut Self::Store, delta: Self::Delta) -> Result<(), String> {
        OrdersAccountingDB::new(store).batch_write_orders_data(delta).map(|_| ()).map_err(|e| e.to_string())
    }
    fn merge(&self, _store: &Self::Store, lower: &mut Self::Delta, upper: Self::Delta) -> Result<(), String> {
        lower.merge_with_delta(upper).map(|_| ()).map_err(|e| e.to_string())
    }
    fn store_is(&self, store: &Self::Store, flat: &Flat) -> Result<(), String> {
        let orders: BTreeMap<_, _> = flat.iter().map(|(i, o)| (id(*i), real(*i, o.ask, o.give, o.frozen))).collect();
        let left = |f: fn(&Order) -> u128| flat.iter().filter(|(_, o)| f(o) != 0).map(|(i, o)| (id(*i), Amount::from_atoms(f(o)))).collect::<BTreeMap<_, _>>();
        if store.orders_data() == &orders && store.ask_balances() == &left(|o| o.ask_left) && store.give_balances() == &left(|o| o.give_left) {
            Ok(())
        } else {
            Err(format!("the store holds {store:?}"))
        }
    }
    fn invariant(&self, flat: &Flat) -> Result<(), String> {
        for o in flat.values() {
            if o.give_left > o.give || o.ask_left > o.ask {
                return Err(format!("more is left than there was: {o:?}"));
            }
        }
        Ok(())
    }
}

pub fn run(ctx: &Ctx) {
    ctx.part("one order", "every history of up to 9 (thorough 11) steps of creating, filling by either rule and any part, freezing and concluding an order, opening, merging and dropping layers over the store, and undoing: the views against a flat book, and the store against what was committed", |c| {
        explore(c, &Orders { ids: 1, sizes: &[(3, 7), (7, 3), (0, 1), (1, 0)], fills: &[0, 1, 2] }, ctx.pick(9, 11));
    });
    ctx.part("large orders", "the same with amounts up to the largest", |c| {
        const M: u128 = i128::MAX as u128;
        explore(c, &Orders { ids: 1, sizes: &[(M, M), (1, M), (M, 1), (M - 1, M), (M + 1, 1), (1, u128::MAX)], fills: &[1, M / 2, M - 1] }, ctx.pick(8, 10));
    });
    ctx.part("two orders", "every history of up to 8 (thorough 10) steps with two orders", |c| {
        explore(c, &Orders { ids: 2, sizes: &[(3, 7)], fills: &[2] }, ctx.pick(8, 10));
    });
    ctx.part("filled amounts", "every triple from some 300 amounts: the amount given for a fill is the exact quotient rounded down, or none if it does not fit", |c| {
        let mut vals: BTreeSet<u128> = (0..=ctx.pick(40, 80)).collect();
        for s in 0..128 {
            let p = 1u128 << s;
            vals.extend([p - 1, p, p + 1]);
        }
        vals.extend([u128::MAX, u128::MAX - 1, u128::MAX / 3, u128::MAX / 10, 10u128.pow(18), 10u128.pow(38)]);
        let vals: Vec<u128> = vals.into_iter().collect();
        c.par(vals.len(), |k| {
            for give in &vals {
                for fill in &vals {
                    let a = |x: u128| Amount::from_atoms(x);
                    let got = guard(|| calculate_filled_amount(a(vals[k]), a(*give), a(*fill)));
                    let want = muldiv(*give, *fill, vals[k]).map(a);
                    if got != Ok(want) {
                        c.eq(|| format!("ask {} give {give} fill {fill}", vals[k]), &got, &Ok(want));
                    }
                }
            }
            c.evals((vals.len() * vals.len()) as u64);
            c.nontrivial((vals.len() * vals.len()) as u64);
        });
    });
    ctx.part("whole fills", "every order of up to 12 for up to 12 and every way of filling it completely by the original price in up to 5 parts: what is given adds up to at most the whole, each part to its share rounded down, and what is left when it is concluded is the rest", |c| {
        c.par(12, |k| {
            let ask = k as u128 + 1;
            for give in 1..=12u128 {
                let mut stack: Vec<Vec<u128>> = vec![vec![]];
                while let Some(parts) = stack.pop() {
                    let sum: u128 = parts.iter().sum();
                    if sum == ask {
                        let book = Orders { ids: 1, sizes: &[], fills: &[] };
                        let (mut store, _) = book.empty();
                        let mut layers = vec![book.layer(&store, &[])];
                        let _ = book.act(&store, &mut layers, Act::Do(Op::Create(0, ask, give)));
                        let mut given = 0;
                        let mut asked = 0;
                        for (n, p) in parts.iter().enumerate() {
                            let done = book.act(&store, &mut layers, Act::Do(Op::Fill(0, *p, true))).is_ok();
                            let share = give * p / ask;
                            c.eq(|| format!("{give} for {ask} in {parts:?}: part {n} is filled"), &done, &(share > 0));
                            if done {
                                given += share;
                                asked += p;
                            }
                        }
                        let want: Flat = [(0, Order { ask, give, ask_left: ask - asked, give_left: give - given, frozen: false })].into();
                        c.eq(|| format!("{give} for {ask} in {parts:?}"), &book.view(&store, &layers), &Ok(want));
                        let _ = book.act(&store, &mut layers, Act::Do(Op::Conclude(0)));
                        let _ = book.commit(&mut store, layers.pop().unwrap());
                        c.eq(|| format!("{give} for {ask} in {parts:?} concluded"), &book.store_is(&store, &Flat::new()), &Ok(()));
                        c.evals(1);
                        c.nontrivial(1);
                        c.outcome(if asked == ask { "all filled" } else { "some parts too small" });
                        continue;
                    }
                    if parts.len() < 5 {
                        for p in 1..=ask - sum {
                            let mut q = parts.clone();
                            q.push(p);
                            stack.push(q);
                        }
                    }
                }
            }
        });
    });
}
