//! The transactions the pool is fed with, and what each needs and gives.

use std::collections::BTreeSet;

use common::{
    chain::{
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, DelegationId, OrderAccountCommand, OrderData, OrderId, PoolId,
        SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint, make_token_id,
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::IsTokenUnfreezable,
    },
    primitives::{BlockHeight, Id, Idable, per_thousand::PerThousand},
};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};
use serialization::Encode;

use crate::sim::{COIN, GENESIS_COIN, SPACING, T0, World, amt, any, coin, command, issue, lock, out, spend, tok, transfer, tx};

/// Something that is there or not: an unspent output, the next nonce of an account, an account.
pub type R = (u8, u16, u64);

pub const MIN_RATE: u128 = 100_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lock {
    Height(u64),
    Time(u64),
}

#[derive(Clone)]
pub struct Tx {
    pub name: &'static str,
    pub tx: SignedTransaction,
    pub id: Id<Transaction>,
    pub takes: Vec<R>,
    pub reads: Vec<R>,
    pub gives: Vec<R>,
    pub fee: u128,
    pub size: usize,
    pub lock: Option<Lock>,
}

impl Tx {
    pub fn rate(&self) -> u128 {
        self.fee * 1000 / self.size as u128
    }
    pub fn pays(&self) -> bool {
        self.fee >= MIN_RATE * self.size as u128
    }
    pub fn fits(&self, s: &BTreeSet<R>) -> bool {
        self.takes.iter().all(|r| s.contains(r)) && self.reads.iter().all(|r| s.contains(r))
    }
    pub fn apply(&self, s: &mut BTreeSet<R>) -> bool {
        if !self.fits(s) {
            return false;
        }
        self.takes.iter().for_each(|r| {
            s.remove(r);
        });
        s.extend(self.gives.iter().copied());
        true
    }
}

pub struct Universe {
    pub name: &'static str,
    pub txs: Vec<Tx>,
    /// whatever the template leaves out is locked or needs something that is
    pub full_template: bool,
    /// things that are in no block yet are all that anything in the pool is said to depend on
    pub tracked: bool,
    /// lists of transactions for blocks
    pub blocks: Vec<Vec<usize>>,
}

const U: u8 = 0;
const NONCE: u8 = 1;
const THERE: u8 = 2;

struct Make<'a> {
    w: &'a World,
    gen_out: Vec<UtxoOutPoint>,
    txs: Vec<Tx>,
}

#[derive(Clone, Copy)]
enum In {
    Gen(u16),
    /// output of an earlier transaction and its coins
    Out(u16, u32, u128),
}

enum Fee {
    Pay(u128),
    /// the least there may be, and this much more
    Edge(i128),
}

impl Make<'_> {
    fn outpoint(&self, i: In) -> (UtxoOutPoint, u128, R) {
        match i {
            In::Gen(n) => (self.gen_out[n as usize].clone(), GENESIS_COIN, (U, 1000 + n, 0)),
            In::Out(t, o, a) => (out(&self.txs[t as usize].tx, o), a, (U, t, u64::from(o))),
        }
    }
    /// the rest of the coins goes to the last output
    fn add(&mut self, name: &'static str, ins: &[In], extra: Vec<TxInput>, outs: Vec<TxOutput>, costs: u128, fee: Fee) -> (u16, u128) {
        let mut inputs = vec![];
        let mut takes = vec![];
        let mut total = 0;
        for i in ins {
            let (o, a, r) = self.outpoint(*i);
            inputs.push(spend(&o));
            takes.push(r);
            total += a;
        }
        inputs.extend(extra);
        let build = |rest: u128| {
            let mut outs = outs.clone();
            outs.push(transfer(coin(rest)));
            tx(inputs.clone(), outs)
        };
        let mut f = COIN;
        let (t, f) = match fee {
            Fee::Pay(f) => (build(total - costs - f), f),
            Fee::Edge(d) => loop {
                let t = build(total - costs - f);
                let want = (MIN_RATE * t.encoded_size() as u128).checked_add_signed(d).unwrap();
                if want == f {
                    break (t, f);
                }
                f = want;
            },
        };
        let n = self.txs.len() as u16;
        let gives = t.transaction().outputs().iter().enumerate().filter(|(_, o)| matches!(o, TxOutput::Transfer(..) | TxOutput::LockThenTransfer(..))).map(|(i, _)| (U, n, i as u64)).collect();
        self.push(name, t, takes, gives, f);
        (n, total - costs - f)
    }
    fn push(&mut self, name: &'static str, t: SignedTransaction, takes: Vec<R>, gives: Vec<R>, fee: u128) {
        let id = t.transaction().get_id();
        self.txs.push(Tx { name, id, size: t.encoded_size(), tx: t, takes, reads: vec![], gives, fee, lock: None });
    }
    fn last(&mut self) -> &mut Tx {
        self.txs.last_mut().unwrap()
    }
}

fn make(w: &World) -> Make<'_> {
    Make { w, gen_out: w.branch().coins.iter().map(|(o, _)| o.clone()).collect(), txs: vec![] }
}

/// Parents, children, conflicts, fees at and below the least.
pub fn family(w: &World) -> Universe {
    let mut m = make(w);
    let half = GENESIS_COIN / 2;
    let (a, ra) = m.add("a", &[In::Gen(0)], vec![], vec![transfer(coin(half))], half, Fee::Pay(COIN));
    let (b, rb) = m.add("b", &[In::Out(a, 0, half)], vec![], vec![transfer(coin(half / 2))], half / 2, Fee::Pay(3 * COIN));
    m.add("c", &[In::Out(b, 0, half / 2), In::Out(a, 1, ra)], vec![], vec![], 0, Fee::Pay(2 * COIN));
    m.add("d", &[In::Gen(0)], vec![], vec![], 0, Fee::Pay(9 * COIN));
    m.add("e", &[In::Out(a, 0, half), In::Gen(1)], vec![], vec![], 0, Fee::Pay(5 * COIN));
    let (f, rf) = m.add("f", &[In::Gen(2)], vec![], vec![], 0, Fee::Edge(0));
    m.add("g", &[In::Out(f, 0, rf), In::Out(b, 1, rb)], vec![], vec![], 0, Fee::Pay(7 * COIN));
    m.add("h", &[In::Gen(3)], vec![], vec![], 0, Fee::Edge(-1));
    Universe { name: "family", txs: m.txs, full_template: true, tracked: true, blocks: vec![vec![], vec![0], vec![3], vec![7, 5], vec![0, 1, 2]] }
}

/// Nonces of a token and of a delegation.
pub fn accounts(w: &World) -> Universe {
    let mut m = make(w);
    let cfg = w.config.clone();
    let h = BlockHeight::new(1);
    let fee_supply = cfg.token_supply_change_fee(h).into_atoms();
    let fee_freeze = cfg.token_freeze_fee(h).into_atoms();
    let fee_issue = cfg.fungible_token_issuance_fee().into_atoms();
    let token = make_token_id(&cfg, h, &[spend(&m.gen_out[0])]).unwrap();
    m.add("issue", &[In::Gen(0)], vec![], vec![issue("TKN")], fee_issue, Fee::Pay(COIN));
    m.last().gives = vec![(U, 0, 1), (NONCE, 0, 0), (THERE, 0, 0)];
    let c = command(0, AccountCommand::MintTokens(token, amt(1000)));
    m.add("mint", &[In::Gen(1)], vec![c], vec![transfer(tok(token, 1000))], fee_supply, Fee::Pay(2 * COIN));
    m.last().takes.push((NONCE, 0, 0));
    m.last().gives.push((NONCE, 0, 1));
    let c = command(1, AccountCommand::ChangeTokenMetadataUri(token, b"http://u2".to_vec()));
    m.add("uri", &[In::Gen(2)], vec![c], vec![], cfg.token_change_metadata_uri_fee().into_atoms(), Fee::Pay(3 * COIN));
    m.last().takes.push((NONCE, 0, 1));
    m.last().gives.push((NONCE, 0, 2));
    let c = command(1, AccountCommand::LockTokenSupply(token));
    m.add("lock", &[In::Gen(3)], vec![c], vec![], fee_supply, Fee::Pay(5 * COIN));
    m.last().takes.push((NONCE, 0, 1));
    m.last().gives.push((NONCE, 0, 2));
    let c = command(2, AccountCommand::FreezeToken(token, IsTokenUnfreezable::No));
    m.add("freeze", &[In::Gen(4)], vec![c], vec![], fee_freeze, Fee::Pay(2 * COIN));
    m.last().takes.push((NONCE, 0, 2));
    m.last().gives.push((NONCE, 0, 3));
    Universe { name: "a token", txs: m.txs, full_template: true, tracked: true, blocks: vec![vec![], vec![0], vec![0, 1, 3], vec![0, 1, 2, 4]] }
}

pub fn staking(w: &World) -> Universe {
    let mut m = make(w);
    let vrf = VRFPrivateKey::new_using_random_bytes(&[7; 32], VRFKeyKind::Schnorrkel).unwrap().1;
    let pool = PoolId::from_utxo(&m.gen_out[0]);
    let data = StakePoolData::new(amt(2000 * COIN), any(), vrf, any(), PerThousand::new(100).unwrap(), amt(0));
    m.add("pool", &[In::Gen(0)], vec![], vec![TxOutput::CreateStakePool(pool, Box::new(data))], 2000 * COIN, Fee::Pay(COIN));
    m.last().gives = vec![(U, 0, 1), (THERE, 1, 0)];
    let d = DelegationId::from_utxo(&m.gen_out[1]);
    m.add("delegation", &[In::Gen(1)], vec![], vec![TxOutput::CreateDelegationId(any(), pool)], 0, Fee::Pay(2 * COIN));
    m.last().reads = vec![(THERE, 1, 0)];
    m.last().gives = vec![(U, 1, 1), (THERE, 2, 0), (NONCE, 2, 0)];
    m.add("delegate", &[In::Gen(2)], vec![], vec![TxOutput::DelegateStaking(amt(500 * COIN), d)], 500 * COIN, Fee::Pay(COIN));
    m.last().reads = vec![(THERE, 2, 0)];
    m.last().gives = vec![(U, 2, 1), (THERE, 3, 0)];
    for (name, n, fee, a) in [("take 0", 0, 3, 30), ("take 0 again", 0, 2, 40), ("take 1", 1, 5, 20)] {
        let i = TxInput::Account(AccountOutPoint::new(AccountNonce::new(n), AccountSpending::DelegationBalance(d, amt(a * COIN))));
        let t = tx(vec![i], vec![lock(coin((a - fee) * COIN), OutputTimeLock::ForBlockCount(20))]);
        let k = m.txs.len() as u16;
        m.push(name, t, vec![(NONCE, 2, n)], vec![(NONCE, 2, n + 1), (U, k, 0)], fee * COIN);
        m.last().reads = vec![(THERE, 3, 0)];
    }
    Universe { name: "a delegation", txs: m.txs, full_template: false, tracked: false, blocks: vec![vec![], vec![0, 1], vec![0, 1, 2], vec![0, 1, 2, 4]] }
}

/// Orders: filled in any order, frozen, concluded.
pub fn orders(w: &World) -> Universe {
    let mut m = make(w);
    let cfg = w.config.clone();
    let h = BlockHeight::new(1);
    let fee_supply = cfg.token_supply_change_fee(h).into_atoms();
    let fee_issue = cfg.fungible_token_issuance_fee().into_atoms();
    let token = make_token_id(&cfg, h, &[spend(&m.gen_out[0])]).unwrap();
    let (_, rest) = m.add("issue", &[In::Gen(0)], vec![], vec![issue("TKN")], fee_issue, Fee::Pay(COIN));
    m.last().gives = vec![(U, 0, 1), (NONCE, 0, 0)];
    let c = command(0, AccountCommand::MintTokens(token, amt(1000)));
    let i = In::Out(0, 1, rest);
    m.add("mint", &[i], vec![c], vec![transfer(tok(token, 1000))], fee_supply, Fee::Pay(2 * COIN));
    m.last().takes.push((NONCE, 0, 0));
    m.last().gives.push((NONCE, 0, 1));
    let order = OrderId::from_utxo(&m.gen_out[1]);
    let give = OrderData::new(any(), coin(600 * COIN), tok(token, 300));
    let minted = spend(&out(&m.txs[1].tx, 0));
    m.add("offer", &[In::Gen(1)], vec![minted], vec![TxOutput::CreateOrder(Box::new(give)), transfer(tok(token, 700))], 0, Fee::Pay(COIN));
    m.last().takes.push((U, 1, 0));
    m.last().gives = vec![(U, 2, 1), (U, 2, 2), (THERE, 4, 0), (THERE, 5, 0), (THERE, 6, 0)];
    for (name, g, c, t, fee) in [("fill", 2, 200u128, 100u128, 3), ("fill more", 3, 100, 50, 2)] {
        let i = TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(order, amt(c * COIN)));
        m.add(name, &[In::Gen(g)], vec![i], vec![transfer(tok(token, t))], c * COIN, Fee::Pay(fee * COIN));
        m.last().reads = vec![(THERE, 4, 0), (THERE, 5, 0)];
    }
    let i = TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(order));
    m.add("freeze", &[In::Gen(4)], vec![i], vec![], 0, Fee::Pay(9 * COIN));
    m.last().reads = vec![(THERE, 4, 0)];
    m.last().takes.push((THERE, 5, 0));
    let i = TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(order));
    m.add("conclude", &[In::Gen(5)], vec![i], vec![], 0, Fee::Pay(7 * COIN));
    // what was not sold is left to nobody
    m.last().takes.push((THERE, 4, 0));
    Universe { name: "orders", txs: m.txs, full_template: false, tracked: false, blocks: vec![vec![], vec![0, 1, 2], vec![0, 1, 2, 3], vec![0, 1, 2, 6]] }
}

/// Locked outputs, near and far.
pub fn locked(w: &World) -> Universe {
    let mut m = make(w);
    let part = GENESIS_COIN / 8;
    let locks = [
        OutputTimeLock::UntilHeight(BlockHeight::new(3)),
        OutputTimeLock::UntilTime(common::chain::block::timestamp::BlockTimestamp::from_int_seconds(T0 + SPACING)),
        OutputTimeLock::UntilHeight(BlockHeight::new(60)),
        OutputTimeLock::UntilTime(common::chain::block::timestamp::BlockTimestamp::from_int_seconds(T0 + 1000 * SPACING)),
    ];
    let (a, _) = m.add("locks", &[In::Gen(0)], vec![], locks.iter().map(|l| lock(coin(part), *l)).collect(), 4 * part, Fee::Pay(2 * COIN));
    let (h, rh) = m.add("at 3", &[In::Out(a, 0, part)], vec![], vec![], 0, Fee::Pay(5 * COIN));
    m.last().lock = Some(Lock::Height(3));
    let (_, rt) = m.add("at time", &[In::Out(a, 1, part)], vec![], vec![], 0, Fee::Pay(3 * COIN));
    m.last().lock = Some(Lock::Time(T0 + SPACING));
    m.add("at 60", &[In::Out(a, 2, part)], vec![], vec![], 0, Fee::Pay(9 * COIN));
    m.last().lock = Some(Lock::Height(60));
    m.add("late", &[In::Out(a, 3, part)], vec![], vec![], 0, Fee::Pay(9 * COIN));
    m.last().lock = Some(Lock::Time(T0 + 1000 * SPACING));
    m.add("after both", &[In::Out(h, 0, rh), In::Out(2, 0, rt), In::Gen(1)], vec![], vec![], 0, Fee::Pay(12 * COIN));
    Universe { name: "locks", txs: m.txs, full_template: true, tracked: true, blocks: vec![vec![], vec![0], vec![0, 2], vec![1]] }
}
