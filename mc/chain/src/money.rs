//! L04: what there is of coins and tokens only changes as declared.

use std::collections::BTreeMap;

use chainstate::BlockSource;
use chainstate_storage::{Store, Transactional};
use common::{
    chain::{
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, TxInput, TxOutput, UtxoOutPoint,
        output_value::OutputValue,
        timelock::OutputTimeLock,
        tokens::TokenId,
    },
    primitives::{Amount, BlockHeight},
};
use mc_kit::{Ctx, PartCtx, guard};

use crate::{
    sim::{Branch, COIN, Kind, MATURITY, SUBSIDY_FEE, World, amt, assemble, coin, command, lock, out, spend, tok, transfer, tx},
    spy::{Image, Spy},
    tree::{Lab, Tour},
};

use Kind::*;

#[derive(Debug, Default, PartialEq, Eq, Clone)]
pub struct Wealth {
    pub coins: u128,
    pub tokens: BTreeMap<TokenId, u128>,
    /// as kept by the accounts of the tokens
    pub circulating: BTreeMap<TokenId, u128>,
}

/// All there is, found by adding up everything in the database.
pub fn wealth(image: &Image) -> Result<Wealth, String> {
    let store = Store::from_backend(Spy::of(image)).map_err(|e| e.to_string())?;
    let db = store.transaction_ro().map_err(|e| e.to_string())?;
    let err = |e: chainstate_storage::Error| e.to_string();
    let mut w = Wealth::default();
    let add = |v: &OutputValue, w: &mut Wealth| match v {
        OutputValue::Coin(a) => w.coins += a.into_atoms(),
        OutputValue::TokenV1(t, a) => *w.tokens.entry(*t).or_default() += a.into_atoms(),
        OutputValue::TokenV0(_) => {}
    };
    let mut pools = 0;
    for u in db.read_utxo_set().map_err(err)?.values() {
        match u.output() {
            TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Htlc(v, _) => add(v, &mut w),
            TxOutput::IssueNft(t, _, _) => *w.tokens.entry(*t).or_default() += 1,
            TxOutput::CreateStakePool(..) | TxOutput::ProduceBlockFromStake(..) => pools += 1,
            o => return Err(format!("there is an output to be spent that holds nothing: {o:?}")),
        }
    }
    let pos = db.read_pos_accounting_data_tip().map_err(err)?;
    if pos.pool_data.len() != pools {
        return Err(format!("{pools} pools to be spent, {} on record", pos.pool_data.len()));
    }
    for (id, p) in &pos.pool_data {
        let own = p.staker_balance().map_err(|e| e.to_string())?.into_atoms();
        let shares: u128 = pos.pool_delegation_shares.iter().filter(|(k, _)| k.0 == *id).map(|(_, a)| a.into_atoms()).sum();
        let all = pos.pool_balances.get(id).map_or(0, |a| a.into_atoms());
        if own + shares != all {
            return Err(format!("a pool of {all} has {own} of the staker's and {shares} delegated"));
        }
        w.coins += own;
    }
    w.coins += pos.delegation_balances.values().map(|a| a.into_atoms()).sum::<u128>();
    let orders = db.read_orders_accounting_data().map_err(err)?;
    for (id, o) in &orders.order_data {
        let left = |m: &BTreeMap<_, Amount>| m.get(id).copied().unwrap_or(Amount::ZERO).into_atoms();
        let give = left(&orders.give_balances);
        let asked = match o.ask() {
            OutputValue::Coin(a) | OutputValue::TokenV1(_, a) => a.into_atoms(),
            OutputValue::TokenV0(_) => 0,
        };
        let taken = asked.checked_sub(left(&orders.ask_balances)).ok_or("an order asks for more than at first")?;
        for (side, a) in [(o.give(), give), (o.ask(), taken)] {
            match side {
                OutputValue::Coin(_) => add(&OutputValue::Coin(amt(a)), &mut w),
                OutputValue::TokenV1(t, _) => add(&OutputValue::TokenV1(*t, amt(a)), &mut w),
                OutputValue::TokenV0(_) => {}
            }
        }
    }
    w.circulating = db.read_tokens_accounting_data().map_err(err)?.circulating_supply.into_iter().map(|(k, v)| (k, v.into_atoms())).collect();
    w.tokens.retain(|_, a| *a > 0);
    w.circulating.retain(|_, a| *a > 0);
    Ok(w)
}

fn declared(b: &Branch) -> Wealth {
    let tokens: BTreeMap<_, _> = b.tokens.iter().filter(|(_, a)| **a > 0).map(|(k, v)| (*k, *v)).collect();
    Wealth { coins: b.supply, tokens, circulating: BTreeMap::new() }
}

struct Bench {
    b: Branch,
    image: Image,
    three: UtxoOutPoint,
    two: UtxoOutPoint,
    fees: [UtxoOutPoint; 2],
    x3: UtxoOutPoint,
    y2: UtxoOutPoint,
    x: TokenId,
    y: TokenId,
    nonce: u64,
    fee: u128,
}

fn bench(lab: &Lab) -> Result<Bench, String> {
    let n = lab.chain(&[Token, Token, Order, Move])?.ok_or("no such branch")?;
    let mut b = n.branch.clone();
    let w = &lab.w;
    let fee = w.config.token_supply_change_fee(BlockHeight::new(b.height + 2)).into_atoms();
    let t = b.token.clone().unwrap();
    let o = b.order.clone().unwrap();
    let (c, a) = b.coins.pop_front().unwrap();
    let (xo, xa) = t.held.clone().unwrap();
    let (yo, ya) = o.held.clone();
    let rest = a - 5 - 2 * fee;
    let outs = vec![
        transfer(coin(3)),
        transfer(coin(2)),
        transfer(coin(fee)),
        transfer(coin(fee)),
        transfer(tok(t.id, 3)),
        transfer(tok(o.token, 2)),
        transfer(coin(rest)),
        transfer(tok(t.id, xa - 3)),
        transfer(tok(o.token, ya - 2)),
    ];
    let x = tx(vec![spend(&c), spend(&xo), spend(&yo)], outs);
    let at = |i| out(&x, i);
    let (three, two, fees, x3, y2) = (at(0), at(1), [at(2), at(3)], at(4), at(5));
    let block = assemble(b.tip, b.time + 120, vec![], vec![x], false);
    b.tip = common::primitives::Idable::get_id(&block).into();
    b.height += 1;
    b.time += 120;
    let spy = Spy::of(n.image.as_ref().unwrap());
    let mut ch = w.open(&spy)?;
    ch.process_block(block, BlockSource::Local).map_err(|e| e.to_string())?;
    Ok(Bench { image: spy.image(), three, two, fees, x3, y2, x: t.id, y: o.token, nonce: t.nonce, fee, b })
}

/// Every transaction of these inputs and outputs: taken exactly when nothing comes from nothing.
fn small(lab: &Lab, ctx: &Ctx, c: &PartCtx) {
    let bench = match guard(|| bench(lab)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) | Err(e) => return c.fail("the base", e),
    };
    let w = &lab.w;
    let before = wealth(&bench.image).expect("the base");
    let outs: Vec<(TxOutput, u128, u128, u128, u128)> = {
        // what it takes of coins, X and Y, and what of it is burned of X
        let (x, y) = (bench.x, bench.y);
        let mut v = vec![];
        for a in [2, 3, 5, 6] {
            v.push((transfer(coin(a)), a, 0, 0, 0));
            v.push((transfer(tok(x, a)), 0, a, 0, 0));
        }
        for a in [2, 3] {
            v.push((transfer(tok(y, a)), 0, 0, a, 0));
            v.push((TxOutput::Burn(tok(x, a)), 0, a, 0, a));
        }
        v.push((TxOutput::Burn(coin(2)), 2, 0, 0, 0));
        v.push((lock(coin(3), OutputTimeLock::ForBlockCount(1)), 3, 0, 0, 0));
        v.push((lock(tok(x, 3), OutputTimeLock::ForBlockCount(1)), 0, 3, 0, 0));
        v
    };
    let mut sets: Vec<Vec<usize>> = vec![];
    let max = ctx.pick(2, 3);
    fn grow(n: usize, max: usize, from: usize, cur: &mut Vec<usize>, all: &mut Vec<Vec<usize>>) {
        if !cur.is_empty() {
            all.push(cur.clone());
        }
        if cur.len() < max {
            for i in from..n {
                cur.push(i);
                grow(n, max, i, cur, all);
                cur.pop();
            }
        }
    }
    grow(outs.len(), max, 0, &mut vec![], &mut sets);
    let inputs = 1 << 8;
    c.par(inputs - 1, |i| {
        let m = i + 1;
        let has = |b: usize| m & (1 << b) != 0;
        let (mut ins, mut ci, mut xi, mut yi, mut cmds) = (vec![], 0u128, 0u128, 0u128, 0u64);
        for (b, (o, a)) in [(&bench.three, 3), (&bench.two, 2), (&bench.fees[0], bench.fee), (&bench.fees[1], bench.fee)].into_iter().enumerate() {
            if has(b) {
                ins.push(spend(o));
                ci += a;
            }
        }
        if has(4) {
            ins.push(spend(&bench.x3));
            xi += 3;
        }
        if has(5) {
            ins.push(spend(&bench.y2));
            yi += 2;
        }
        if has(6) {
            ins.push(command(bench.nonce + cmds, AccountCommand::MintTokens(bench.x, amt(2))));
            cmds += 1;
            xi += 2;
        }
        if has(7) {
            ins.push(command(bench.nonce + cmds, AccountCommand::UnmintTokens(bench.x)));
            cmds += 1;
        }
        if has(2) != has(3) && has(3) {
            return; // the same as with the other
        }
        for set in &sets {
            if c.stop() {
                return;
            }
            let sum = |f: fn(&(TxOutput, u128, u128, u128, u128)) -> u128| set.iter().map(|i| f(&outs[*i])).sum::<u128>();
            let (co, xo, yo, burned) = (sum(|o| o.1), sum(|o| o.2), sum(|o| o.3), sum(|o| o.4));
            let need = co + bench.fee * u128::from(cmds);
            // one command of an account at a time
            let fine = ci >= need && xi >= xo && yi >= yo && cmds <= 1;
            // to take back nothing is no sense
            if has(7) && burned == 0 && fine {
                continue;
            }
            let t = tx(ins.clone(), set.iter().map(|i| outs[*i].0.clone()).collect());
            let key = || format!("inputs {m:08b}, outputs {:?}", set.iter().map(|i| &outs[*i].0).collect::<Vec<_>>());
            let h = bench.b.height + 1;
            let fee = if fine { ci - need } else { 0 };
            let top = w.config.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms() + fee;
            let reward = |a: u128| vec![lock(coin(a), OutputTimeLock::ForBlockCount(MATURITY))];
            let go = |a: u128| -> Result<Option<Image>, String> {
                let spy = Spy::of(&bench.image);
                let mut ch = w.open(&spy)?;
                let b = assemble(bench.b.tip, bench.b.time + 120, reward(a), vec![t.clone()], false);
                Ok(match ch.process_block(b, BlockSource::Local) {
                    Ok(Some(_)) => Some(spy.image()),
                    Ok(None) => return Err("kept aside".into()),
                    Err(_) => None,
                })
            };
            let r = guard(|| -> Result<(), String> {
                let got = go(if fine { top } else { 1 })?;
                c.outcome(if got.is_some() { "taken" } else { "refused" });
                match got {
                    None if fine => return Err("refused".into()),
                    Some(_) if !fine => return Err("taken".into()),
                    None => return Ok(()),
                    Some(image) => {
                        let mut want = before.clone();
                        want.coins = want.coins - ci + co - sum(|o| if matches!(o.0, TxOutput::Burn(OutputValue::Coin(_))) { o.1 } else { 0 }) + top;
                        *want.tokens.get_mut(&bench.x).unwrap() += xo - burned;
                        *want.tokens.get_mut(&bench.x).unwrap() -= if has(4) { 3 } else { 0 };
                        *want.tokens.get_mut(&bench.y).unwrap() -= yi - yo;
                        let circ = want.circulating.get_mut(&bench.x).unwrap();
                        if has(6) {
                            *circ += 2;
                        }
                        if has(7) {
                            *circ -= burned;
                        }
                        let got = wealth(&image)?;
                        if got != want {
                            return Err(format!("there is {got:?} where {want:?} is due"));
                        }
                        if go(top + 1)?.is_some() {
                            return Err("the reward may be more than the subsidy and the fees".into());
                        }
                    }
                }
                Ok(())
            });
            c.states(1);
            c.transitions(1);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => c.fail(key(), e),
            }
        }
    });
}

/// Coins that leave a delegation or a pool: as long under lock as they must be.
fn staked(lab: &Lab, ctx: &Ctx, c: &PartCtx) {
    let n = match lab.chain(&[Stake, Stake, Empty]) {
        Ok(Some(n)) => n,
        e => return c.fail("the base", format!("{:?}", e.map(|_| ()))),
    };
    let b = &n.branch;
    let s = b.stake.clone().unwrap();
    let (plain, rich) = b.coins[0].clone();
    let pool = 2000 * COIN;
    let mut locks: Vec<Option<OutputTimeLock>> = vec![None];
    locks.extend((0..=MATURITY + 1).map(|n| Some(OutputTimeLock::ForBlockCount(n))));
    locks.extend([OutputTimeLock::ForSeconds(1_000_000), OutputTimeLock::UntilHeight(BlockHeight::new(1_000_000))].map(Some));
    let max = ctx.pick(2, 3);
    // pieces: how much of a COIN, under which lock
    let pieces: Vec<(u128, Option<OutputTimeLock>)> = [1u128, 2, 3].into_iter().flat_map(|a| locks.iter().map(move |l| (a, *l))).collect();
    let mut sets: Vec<Vec<usize>> = vec![];
    for k in 1..=max {
        sets.extend(mc_kit::sequences(pieces.len(), k).into_iter().filter(|s| s.is_sorted()));
    }
    // 1: a coin; 2: two of the delegation; 4: one more of it; 8: all of the pool
    c.par(16, |m| {
        if m == 0 {
            return;
        }
        let (mut ins, mut free, mut bound, mut nonce) = (vec![], 0u128, 0u128, s.nonce);
        if m & 1 != 0 {
            ins.push(spend(&plain));
            free += rich;
        }
        for (bit, a) in [(2, 2u128), (4, 1)] {
            if m & bit != 0 {
                let acc = AccountSpending::DelegationBalance(s.delegation.unwrap(), amt(a * COIN));
                ins.push(TxInput::Account(AccountOutPoint::new(AccountNonce::new(nonce), acc)));
                nonce += 1;
                bound += a * COIN;
            }
        }
        if m & 8 != 0 {
            ins.push(spend(&s.pool_out));
            bound += pool;
        }
        // give back all but two COINs of what is a lot
        let mut base = vec![];
        let (mut free_left, mut bound_left) = (free, bound);
        if m & 1 != 0 {
            base.push(transfer(coin(rich - 2 * COIN)));
            free_left -= rich - 2 * COIN;
        }
        if m & 8 != 0 {
            base.push(lock(coin(pool - 2 * COIN), OutputTimeLock::ForBlockCount(MATURITY)));
            bound_left -= pool - 2 * COIN;
        }
        for set in &sets {
            if c.stop() {
                return;
            }
            let mut outs = base.clone();
            let (mut short, mut long) = (0u128, 0u128);
            for i in set {
                let (a, l) = &pieces[*i];
                match l {
                    None => outs.push(transfer(coin(a * COIN))),
                    Some(l) => outs.push(lock(coin(a * COIN), *l)),
                }
                match l {
                    Some(OutputTimeLock::ForBlockCount(n)) if *n >= MATURITY => long += a * COIN,
                    _ => short += a * COIN,
                }
            }
            let accounts = (m >> 1 & 1) + (m >> 2 & 1);
            let fine = short <= free_left && short + long <= free_left + bound_left;
            let t = tx(ins.clone(), outs);
            let spy = Spy::of(n.image.as_ref().unwrap());
            let key = || format!("inputs {m:04b}, outputs {:?}", set.iter().map(|i| &pieces[*i]).collect::<Vec<_>>());
            let r = guard(|| -> Result<(), String> {
                let mut ch = lab.w.open(&spy)?;
                let block = assemble(b.tip, b.time + 120, vec![], vec![t], false);
                let got = ch.process_block(block, BlockSource::Local).map(|r| r.is_some());
                c.outcome(match (&got, accounts) {
                    (Ok(_), _) => "taken",
                    (Err(_), 2) => "refused, two withdrawals",
                    (Err(_), _) => "refused",
                });
                match (got, fine) {
                    (Ok(true), true) => {
                        let left = wealth(&spy.image())?;
                        let want = b.supply - (free_left + bound_left - short - long);
                        if left.coins != want {
                            return Err(format!("there are {} coins where {want} are due", left.coins));
                        }
                        Ok(())
                    }
                    (Err(_), false) => Ok(()),
                    (r, _) => Err(format!("{r:?} where it is {}", if fine { "in order" } else { "not in order" })),
                }
            });
            c.states(1);
            c.transitions(1);
            match r {
                Ok(Ok(())) => {}
                Ok(Err(e)) | Err(e) => c.fail(key(), e),
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    let lab = Lab::new(World::new(1000, false, |b| b));
    ctx.part("lines", "every line of blocks of every kind: what is there is what was declared", |c| {
        let kinds = &[Empty, Move, Mixed, Reward, Token, Stake, Order];
        let mut bases = vec![vec![]];
        bases.extend([Token, Stake, Order].iter().flat_map(|k| (1..8).map(move |n| vec![*k; n])));
        let steps = Tour { lines: 1, ..Tour::of(&lab, kinds, ctx.pick(3, 4), c) }.steps_from(&bases, false);
        c.par(steps.len(), |i| {
            let w = &steps[i].2;
            let n = w.tip();
            match guard(|| wealth(w.image())) {
                Ok(Ok(got)) => {
                    let want = declared(&n.branch);
                    c.eq(|| format!("{}: coins", w.name()), &got.coins, &want.coins);
                    c.eq(|| format!("{}: tokens", w.name()), &got.tokens, &want.tokens);
                    for (t, a) in &got.circulating {
                        // what was burned and not taken back counts on
                        let most = got.tokens.get(t).copied().unwrap_or(0);
                        if *a < most {
                            c.fail(w.name(), format!("of a token there are {most}, but only {a} in circulation"));
                        }
                    }
                }
                Ok(Err(e)) | Err(e) => c.fail(w.name(), e),
            }
            c.states(1);
            c.transitions(1);
        });
    });
    ctx.part("reward", "every reward around the allowed one, with and without fees", |c| {
        let h = lab.w.config.block_subsidy_at_height(&BlockHeight::new(1)).into_atoms();
        for fee in [0, 1, SUBSIDY_FEE] {
            for d in -2i64..=2 {
                for split in [1u128, 2, 3] {
                    let b = lab.w.branch();
                    let (o, a) = b.coins[0].clone();
                    let sum = (h + fee).saturating_add_signed(d.into());
                    let mut reward: Vec<_> = (1..split).map(|_| lock(coin(1), OutputTimeLock::ForBlockCount(MATURITY))).collect();
                    reward.push(lock(coin(sum - (split - 1)), OutputTimeLock::ForBlockCount(MATURITY)));
                    let t = tx(vec![spend(&o)], vec![transfer(coin(a - fee))]);
                    let block = assemble(b.tip, b.time + 120, reward, vec![t], false);
                    let spy = Spy::of(&lab.w.start);
                    let r = guard(|| lab.w.open(&spy).map(|mut ch| ch.process_block(block, BlockSource::Local).is_ok()));
                    c.states(1);
                    c.eq(|| format!("a fee of {fee}, {d} more than allowed, in {split}"), &r, &Ok(Ok(d <= 0)));
                }
            }
        }
    });
    ctx.part("small", "every transaction of a few inputs and outputs of coins and two tokens", |c| small(&lab, ctx, c));
    ctx.part("staked", "every way to take coins out of a delegation and a pool", |c| staked(&lab, ctx, c));
}
