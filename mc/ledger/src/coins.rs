//! The set of unspent outputs under layers of caches, against a flat set.
use crate::book::{Act, Book, explore};
use common::chain::block::BlockRewardTransactable;
use common::chain::htlc::{HashedTimelockContract, HtlcSecretHash};
use common::chain::output_value::OutputValue;
use common::chain::stakelock::StakePoolData;
use common::chain::timelock::OutputTimeLock;
use common::chain::tokens::{IsTokenFreezable, Metadata, NftIssuance, NftIssuanceV0, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply};
use common::chain::{AccountCommand, AccountNonce, AccountSpending, DelegationId, Destination, GenBlock, OrderAccountCommand, OrderData, OrderId, OutPointSourceId, PoolId, Transaction, TxInput, TxOutput, UtxoOutPoint};
use common::primitives::per_thousand::PerThousand;
use common::primitives::{Amount, BlockHeight, H256, Id, Idable};
use mc_kit::{Ctx, guard};
use std::collections::BTreeMap;
use std::sync::OnceLock;
use utxo::{ConsumedUtxoCache, FlushableUtxoView, Utxo, UtxoSource, UtxosBlockRewardUndo, UtxosCache, UtxosDB, UtxosDBInMemoryImpl, UtxosTxUndo, UtxosView, flush_to_base};

fn block(i: u8) -> Id<GenBlock> {
    Id::new(H256::repeat_byte(i))
}
fn coins(a: u128) -> OutputValue {
    OutputValue::Coin(Amount::from_atoms(a))
}
fn any() -> Destination {
    Destination::AnyoneCanSpend
}
fn plain(a: u128) -> TxOutput {
    TxOutput::Transfer(coins(a), any())
}
/// One output of each kind, and whether it can be spent later.
fn kinds() -> Vec<(TxOutput, bool)> {
    let pool = PoolId::new(H256::repeat_byte(1));
    let deleg = DelegationId::new(H256::repeat_byte(2));
    let a = Amount::from_atoms(4);
    let nft = NftIssuance::V0(NftIssuanceV0 {
        metadata: Metadata {
            creator: None,
            name: b"n".to_vec(),
            description: b"d".to_vec(),
            ticker: b"T".to_vec(),
            icon_uri: None.into(),
            additional_metadata_uri: None.into(),
            media_uri: None.into(),
            media_hash: b"hash".to_vec(),
        },
    });
    let token = TokenIssuance::V1(TokenIssuanceV1 { token_ticker: b"T".to_vec(), number_of_decimals: 1, metadata_uri: b"u".to_vec(), total_supply: TokenTotalSupply::Unlimited, authority: any(), is_freezable: IsTokenFreezable::No });
    let htlc = HashedTimelockContract { secret_hash: HtlcSecretHash::zero(), spend_key: any(), refund_timelock: OutputTimeLock::ForSeconds(3), refund_key: any() };
    let vrf = crate::pos::vrf();
    vec![
        (plain(7), true),
        (TxOutput::Burn(coins(1)), false),
        (TxOutput::LockThenTransfer(coins(3), any(), OutputTimeLock::ForBlockCount(2)), true),
        (TxOutput::CreateDelegationId(any(), pool), false),
        (TxOutput::CreateStakePool(pool, Box::new(StakePoolData::new(a, any(), vrf, any(), PerThousand::new(1).unwrap(), a))), true),
        (TxOutput::DelegateStaking(a, deleg), false),
        (TxOutput::ProduceBlockFromStake(any(), pool), true),
        (TxOutput::IssueFungibleToken(Box::new(token)), false),
        (TxOutput::IssueNft(TokenId::new(H256::repeat_byte(3)), Box::new(nft), any()), true),
        (TxOutput::DataDeposit(vec![1]), false),
        (TxOutput::Htlc(coins(2), Box::new(htlc)), true),
        (TxOutput::CreateOrder(Box::new(OrderData::new(any(), coins(1), coins(2)))), false),
    ]
}

pub type Store = (BTreeMap<UtxoOutPoint, Utxo>, Id<GenBlock>);
#[derive(Clone, Debug, PartialEq)]
pub struct Flat {
    coins: BTreeMap<UtxoOutPoint, Utxo>,
    best: Id<GenBlock>,
}

fn open<P: UtxosView>(parent: P, d: &ConsumedUtxoCache) -> UtxosCache<P> {
    UtxosCache::from_data(parent, d.clone()).ok().expect("a cache over its parent")
}
fn layer_over(store: &Store, layers: &[ConsumedUtxoCache]) -> ConsumedUtxoCache {
    let base = UtxosDBInMemoryImpl::new(store.1, store.0.clone());
    let db = UtxosDB::new(&base);
    match layers {
        [] => UtxosCache::new(&db).unwrap().consume(),
        [a] => UtxosCache::new(&open(&db, a)).unwrap().consume(),
        _ => unreachable!(),
    }
}
/// Do something on the topmost layer.
fn on_top<T>(store: &Store, layers: &mut [ConsumedUtxoCache], f: impl FnOnce(&mut dyn Top) -> T) -> T {
    let base = UtxosDBInMemoryImpl::new(store.1, store.0.clone());
    let db = UtxosDB::new(&base);
    let (r, d) = match layers {
        [a] => {
            let mut c = open(&db, a);
            let r = f(&mut c);
            (r, c.consume())
        }
        [a, b] => {
            let lower = open(&db, a);
            let mut c = open(&lower, b);
            let r = f(&mut c);
            (r, c.consume())
        }
        _ => unreachable!(),
    };
    *layers.last_mut().unwrap() = d;
    r
}
fn look<P: UtxosView>(v: &P, all: &[UtxoOutPoint]) -> Result<Flat, String> {
    let mut coins = BTreeMap::new();
    for o in all {
        let got = v.utxo(o).map_err(|e| e.to_string())?;
        if v.has_utxo(o).map_err(|e| e.to_string())? != got.is_some() {
            return Err(format!("whether {o:?} is there"));
        }
        if let Some(u) = got {
            coins.insert(o.clone(), u);
        }
    }
    Ok(Flat { coins, best: v.best_block_hash().map_err(|e| e.to_string())? })
}
fn look_at(store: &Store, layers: &[ConsumedUtxoCache], all: &[UtxoOutPoint]) -> Result<Flat, String> {
    let base = UtxosDBInMemoryImpl::new(store.1, store.0.clone());
    let db = UtxosDB::new(&base);
    match layers {
        [] => look(&db, all),
        [a] => look(&open(&db, a), all),
        [a, b] => look(&open(&open(&db, a), b), all),
        _ => unreachable!(),
    }
}
fn write(store: &mut Store, d: ConsumedUtxoCache) -> Result<(), String> {
    let mut base = UtxosDBInMemoryImpl::new(store.1, store.0.clone());
    UtxosDB::new(&mut base).batch_write(d).map_err(|e| e.to_string())?;
    *store = (base.utxos().clone(), UtxosDB::new(&base).best_block_hash().map_err(|e| e.to_string())?);
    Ok(())
}
fn fold(store: &Store, lower: &mut ConsumedUtxoCache, upper: ConsumedUtxoCache) -> Result<(), String> {
    let base = UtxosDBInMemoryImpl::new(store.1, store.0.clone());
    let db = UtxosDB::new(&base);
    let mut l = open(&db, lower);
    // the way layers are flushed: the upper one is given to the lower one
    let below = open(&db, lower);
    flush_to_base(open(&below, &upper), &mut l).map_err(|e| e.to_string())?;
    *lower = l.consume();
    Ok(())
}
fn store_same(store: &Store, flat: &Flat) -> Result<(), String> {
    if (&store.0, &store.1) == (&flat.coins, &flat.best) { Ok(()) } else { Err(format!("the store holds {store:?}")) }
}

/// What is used of a cache, whatever lies under it.
trait Top {
    fn add(&mut self, o: &UtxoOutPoint, u: Utxo, over: bool) -> Result<(), utxo::Error>;
    fn spend(&mut self, o: &UtxoOutPoint) -> Result<Utxo, utxo::Error>;
    fn touch(&mut self, o: &UtxoOutPoint) -> Result<Option<Utxo>, utxo::Error>;
    fn forget(&mut self, o: &UtxoOutPoint) -> bool;
    fn best(&mut self, b: Id<GenBlock>);
    fn connect(&mut self, tx: &Transaction, s: UtxoSource) -> Result<UtxosTxUndo, utxo::Error>;
    fn disconnect(&mut self, tx: &Transaction, u: UtxosTxUndo) -> Result<(), utxo::Error>;
    fn connect_reward(&mut self, i: Option<&[TxInput]>, o: Option<&[TxOutput]>, b: &Id<GenBlock>, h: u64) -> Result<Option<UtxosBlockRewardUndo>, utxo::Error>;
    fn disconnect_reward(&mut self, i: Option<&[TxInput]>, o: Option<&[TxOutput]>, b: &Id<GenBlock>, u: Option<UtxosBlockRewardUndo>) -> Result<(), utxo::Error>;
}
impl<P: UtxosView> Top for UtxosCache<P> {
    fn add(&mut self, o: &UtxoOutPoint, u: Utxo, over: bool) -> Result<(), utxo::Error> {
        self.add_utxo(o, u, over)
    }
    fn spend(&mut self, o: &UtxoOutPoint) -> Result<Utxo, utxo::Error> {
        self.spend_utxo(o)
    }
    fn touch(&mut self, o: &UtxoOutPoint) -> Result<Option<Utxo>, utxo::Error> {
        Ok(self.get_mut_utxo(o)?.cloned())
    }
    fn forget(&mut self, o: &UtxoOutPoint) -> bool {
        self.uncache(o).is_ok()
    }
    fn best(&mut self, b: Id<GenBlock>) {
        self.set_best_block(b)
    }
    fn connect(&mut self, tx: &Transaction, s: UtxoSource) -> Result<UtxosTxUndo, utxo::Error> {
        self.connect_transaction(tx, s).map(|u| u.consume().0)
    }
    fn disconnect(&mut self, tx: &Transaction, u: UtxosTxUndo) -> Result<(), utxo::Error> {
        self.disconnect_transaction(tx, u)
    }
    fn connect_reward(&mut self, i: Option<&[TxInput]>, o: Option<&[TxOutput]>, b: &Id<GenBlock>, h: u64) -> Result<Option<UtxosBlockRewardUndo>, utxo::Error> {
        self.connect_block_transactable(&BlockRewardTransactable::new(i, o, None), b, BlockHeight::new(h))
    }
    fn disconnect_reward(&mut self, i: Option<&[TxInput]>, o: Option<&[TxOutput]>, b: &Id<GenBlock>, u: Option<UtxosBlockRewardUndo>) -> Result<(), utxo::Error> {
        self.disconnect_block_transactable(&BlockRewardTransactable::new(i, o, None), b, u)
    }
}

/// Single outputs added and spent.
#[derive(Clone)]
struct Single {
    all: Vec<UtxoOutPoint>,
    start: Vec<usize>,
    full: bool,
}
#[derive(Clone, Debug)]
enum SingleOp {
    /// add an output that is not there
    New(usize, u8),
    /// add an output whether or not it is there
    Put(usize, u8),
    Spend(usize),
    Touch(usize),
    Forget(usize),
    Best(u8),
}
#[derive(Clone, Debug)]
enum SingleUndo {
    Spend(usize),
    Add(usize, Utxo, bool),
    Best(Id<GenBlock>),
    Nothing,
}
fn coin(v: u8) -> Utxo {
    if v == 0 { Utxo::new_for_mempool(plain(1)) } else { Utxo::new_for_blockchain(plain(u128::from(v)), BlockHeight::new(v.into())) }
}
impl Book for Single {
    type Store = Store;
    type Delta = ConsumedUtxoCache;
    type Undo = SingleUndo;
    type Flat = Flat;
    type Op = SingleOp;
    fn empty(&self) -> (Store, Flat) {
        let c: BTreeMap<_, _> = self.start.iter().map(|i| (self.all[*i].clone(), coin(9))).collect();
        ((c.clone(), block(0)), Flat { coins: c, best: block(0) })
    }
    fn layer(&self, store: &Store, layers: &[ConsumedUtxoCache]) -> ConsumedUtxoCache {
        layer_over(store, layers)
    }
    fn ops(&self, flat: &Flat) -> Vec<SingleOp> {
        let mut v = vec![];
        for i in 0..self.all.len() {
            if !flat.coins.contains_key(&self.all[i]) {
                v.push(SingleOp::New(i, 1));
            }
            v.push(SingleOp::Spend(i));
            v.push(SingleOp::Put(i, 2));
            if self.full {
                v.push(SingleOp::Put(i, 0));
                v.push(SingleOp::Touch(i));
                v.push(SingleOp::Forget(i));
            }
        }
        if self.full {
            v.push(SingleOp::Best(1));
        }
        v
    }
    fn model(&self, flat: &Flat, op: &SingleOp) -> Option<Flat> {
        let mut f = flat.clone();
        match op {
            SingleOp::New(i, v) | SingleOp::Put(i, v) => drop(f.coins.insert(self.all[*i].clone(), coin(*v))),
            SingleOp::Spend(i) => drop(f.coins.remove(&self.all[*i])?),
            SingleOp::Touch(_) | SingleOp::Forget(_) => {}
            SingleOp::Best(b) => f.best = block(*b),
        }
        Some(f)
    }
    fn act(&self, store: &Store, layers: &mut [ConsumedUtxoCache], act: Act<SingleOp, SingleUndo>) -> Result<Option<SingleUndo>, String> {
        let was = look_at(store, layers, &self.all)?;
        let at = |i: usize| was.coins.get(&self.all[i]).cloned();
        on_top(store, layers, |c| {
            let e = |e: utxo::Error| e.to_string();
            Ok(match act {
                Act::Do(SingleOp::New(i, v)) => {
                    c.add(&self.all[i], coin(v), false).map_err(e)?;
                    Some(SingleUndo::Spend(i))
                }
                Act::Do(SingleOp::Put(i, v)) => {
                    c.add(&self.all[i], coin(v), true).map_err(e)?;
                    Some(at(i).map_or(SingleUndo::Spend(i), |u| SingleUndo::Add(i, u, true)))
                }
                Act::Do(SingleOp::Spend(i)) => {
                    let u = c.spend(&self.all[i]).map_err(e)?;
                    assert_eq!(Some(&u), at(i).as_ref(), "what was spent");
                    Some(SingleUndo::Add(i, u, false))
                }
                Act::Do(SingleOp::Touch(i)) => {
                    assert_eq!(c.touch(&self.all[i]).map_err(e)?, at(i), "what is in the cache");
                    Some(SingleUndo::Nothing)
                }
                Act::Do(SingleOp::Forget(i)) => {
                    c.forget(&self.all[i]);
                    Some(SingleUndo::Nothing)
                }
                Act::Do(SingleOp::Best(b)) => {
                    c.best(block(b));
                    Some(SingleUndo::Best(was.best))
                }
                Act::Undo(SingleUndo::Spend(i)) => c.spend(&self.all[i]).map(|_| None).map_err(e)?,
                Act::Undo(SingleUndo::Add(i, u, over)) => c.add(&self.all[i], u, over).map(|_| None).map_err(e)?,
                Act::Undo(SingleUndo::Best(b)) => {
                    c.best(b);
                    None
                }
                Act::Undo(SingleUndo::Nothing) => None,
            })
        })
    }
    fn view(&self, store: &Store, layers: &[ConsumedUtxoCache]) -> Result<Flat, String> {
        look_at(store, layers, &self.all)
    }
    fn commit(&self, store: &mut Store, d: ConsumedUtxoCache) -> Result<(), String> {
        write(store, d)
    }
    fn merge(&self, store: &Store, lower: &mut ConsumedUtxoCache, upper: ConsumedUtxoCache) -> Result<(), String> {
        fold(store, lower, upper)
    }
    fn store_is(&self, store: &Store, flat: &Flat) -> Result<(), String> {
        store_same(store, flat)
    }
}

/// Whole transactions and block rewards.
#[derive(Clone)]
struct Whole {
    txs: Vec<Transaction>,
    /// block, inputs and outputs of the rewards
    rewards: Vec<(Id<GenBlock>, Option<Vec<TxInput>>, Option<Vec<TxOutput>>)>,
    genesis: BTreeMap<UtxoOutPoint, Utxo>,
    all: Vec<UtxoOutPoint>,
}
#[derive(Clone, Debug)]
enum WholeOp {
    Connect(usize, u64),
    Reward(usize),
}
#[derive(Clone, Debug)]
enum WholeUndo {
    Tx(usize, UtxosTxUndo),
    Reward(usize, Option<UtxosBlockRewardUndo>),
}
fn source(h: u64) -> UtxoSource {
    if h == 0 { UtxoSource::Mempool } else { UtxoSource::Blockchain(BlockHeight::new(h)) }
}
fn lasting(o: &TxOutput) -> bool {
    kinds_of().iter().find(|(k, _)| std::mem::discriminant(k) == std::mem::discriminant(o)).unwrap().1
}
fn kinds_of() -> &'static Vec<(TxOutput, bool)> {
    static K: OnceLock<Vec<(TxOutput, bool)>> = OnceLock::new();
    K.get_or_init(kinds)
}
fn out(id: impl Into<OutPointSourceId>, i: u32) -> UtxoOutPoint {
    UtxoOutPoint::new(id.into(), i)
}
fn take(f: &mut Flat, inputs: &[TxInput]) -> Option<()> {
    for i in inputs {
        if let TxInput::Utxo(o) = i {
            f.coins.remove(o)?;
        }
    }
    Some(())
}
impl Whole {
    fn new() -> Whole {
        let g = |i: u32| out(block(0xff), i);
        let spend = |o: UtxoOutPoint| TxInput::Utxo(o);
        let account = || TxInput::from_account(AccountNonce::new(0), AccountSpending::DelegationBalance(DelegationId::new(H256::repeat_byte(2)), Amount::from_atoms(3)));
        let command = || TxInput::from_command(AccountNonce::new(0), AccountCommand::MintTokens(TokenId::new(H256::repeat_byte(3)), Amount::from_atoms(1)));
        let order = || TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(OrderId::new(H256::repeat_byte(4))));
        let tx = |i: Vec<TxInput>, o: Vec<TxOutput>| Transaction::new(0, i, o).unwrap();
        let every: Vec<TxOutput> = kinds_of().iter().map(|k| k.0.clone()).collect();
        let t0 = tx(vec![spend(g(0))], every.clone());
        let id0 = t0.get_id();
        // spends of the first, with other inputs before, between and after
        let t1 = tx(vec![account(), spend(out(id0, 0)), command(), spend(g(1)), order()], vec![plain(2)]);
        let t2 = tx(vec![spend(out(id0, 2)), spend(out(id0, 0))], vec![TxOutput::Burn(coins(1)), plain(3)]);
        let t3 = tx(vec![spend(g(0))], vec![plain(4)]);
        // an output that is never kept, the same output twice, an output past the last
        let t4 = tx(vec![spend(out(id0, 1))], vec![plain(5)]);
        let t5 = tx(vec![spend(g(1)), spend(g(1))], vec![plain(6)]);
        let t6 = tx(vec![spend(out(id0, 12))], vec![plain(7)]);
        let t7 = tx(vec![spend(out(t1.get_id(), 0))], vec![]);
        let r = |b: u8, i: Option<Vec<TxInput>>, o: Option<Vec<TxOutput>>| (block(b), i, o);
        let rewards = vec![
            r(1, None, Some(vec![plain(8)])),
            r(2, Some(vec![spend(out(id0, 4))]), Some(vec![every[6].clone(), every[2].clone()])),
            r(3, Some(vec![spend(out(block(2), 0))]), None),
            r(4, None, Some(vec![plain(1), every[1].clone()])),
            r(5, None, None),
        ];
        let genesis: BTreeMap<_, _> = (0..2).map(|i| (g(i), Utxo::new_for_blockchain(plain(100), BlockHeight::new(0)))).collect();
        let txs = vec![t0, t1, t2, t3, t4, t5, t6, t7];
        let mut all: Vec<UtxoOutPoint> = (0..3).map(g).collect();
        for t in &txs {
            all.extend((0..=t.outputs().len() as u32).map(|i| out(t.get_id(), i)));
        }
        for (b, _, o) in &rewards {
            all.extend((0..=o.as_ref().map_or(0, |o| o.len()) as u32).map(|i| out(*b, i)));
        }
        Whole { txs, rewards, genesis, all }
    }
}
impl Book for Whole {
    type Store = Store;
    type Delta = ConsumedUtxoCache;
    type Undo = WholeUndo;
    type Flat = Flat;
    type Op = WholeOp;
    fn empty(&self) -> (Store, Flat) {
        ((self.genesis.clone(), block(0)), Flat { coins: self.genesis.clone(), best: block(0) })
    }
    fn layer(&self, store: &Store, layers: &[ConsumedUtxoCache]) -> ConsumedUtxoCache {
        layer_over(store, layers)
    }
    fn ops(&self, flat: &Flat) -> Vec<WholeOp> {
        // no output appears twice: a block reward or a transaction is not there already
        let fresh = |id: OutPointSourceId| !flat.coins.keys().any(|o| o.source_id() == id);
        let txs = (0..self.txs.len()).filter(|i| fresh(self.txs[*i].get_id().into())).flat_map(|i| [WholeOp::Connect(i, 0), WholeOp::Connect(i, 5)]);
        let rewards = (0..self.rewards.len()).filter(|i| fresh(self.rewards[*i].0.into())).map(WholeOp::Reward);
        txs.chain(rewards).collect()
    }
    fn model(&self, flat: &Flat, op: &WholeOp) -> Option<Flat> {
        let mut f = flat.clone();
        match op {
            WholeOp::Connect(i, h) => {
                let t = &self.txs[*i];
                take(&mut f, t.inputs())?;
                for (n, o) in t.outputs().iter().enumerate().filter(|(_, o)| lasting(o)) {
                    f.coins.insert(out(t.get_id(), n as u32), Utxo::new(o.clone(), source(*h)));
                }
            }
            WholeOp::Reward(i) => {
                let (b, inputs, outputs) = &self.rewards[*i];
                take(&mut f, inputs.as_deref().unwrap_or(&[]))?;
                for (n, o) in outputs.iter().flatten().enumerate() {
                    if !lasting(o) {
                        return None;
                    }
                    f.coins.insert(out(*b, n as u32), Utxo::new_for_blockchain(o.clone(), BlockHeight::new(6)));
                }
            }
        }
        Some(f)
    }
    fn may_spoil(&self, _flat: &Flat, _op: &WholeOp) -> bool {
        // part of the inputs may be spent already
        true
    }
    fn act(&self, store: &Store, layers: &mut [ConsumedUtxoCache], act: Act<WholeOp, WholeUndo>) -> Result<Option<WholeUndo>, String> {
        on_top(store, layers, |c| {
            let e = |e: utxo::Error| e.to_string();
            let reward = |i: usize| {
                let (b, x, y) = &self.rewards[i];
                (b, x.as_deref(), y.as_deref())
            };
            Ok(match act {
                Act::Do(WholeOp::Connect(i, h)) => {
                    let u = c.connect(&self.txs[i], source(h)).map_err(e)?;
                    assert_eq!(u.inner().len(), self.txs[i].inputs().len(), "one undo for every input");
                    Some(WholeUndo::Tx(i, u))
                }
                Act::Do(WholeOp::Reward(i)) => {
                    let (b, x, y) = reward(i);
                    Some(WholeUndo::Reward(i, c.connect_reward(x, y, b, 6).map_err(e)?))
                }
                Act::Undo(WholeUndo::Tx(i, u)) => c.disconnect(&self.txs[i], u).map(|_| None).map_err(e)?,
                Act::Undo(WholeUndo::Reward(i, u)) => {
                    let (b, x, y) = reward(i);
                    c.disconnect_reward(x, y, b, u).map(|_| None).map_err(e)?
                }
            })
        })
    }
    fn view(&self, store: &Store, layers: &[ConsumedUtxoCache]) -> Result<Flat, String> {
        look_at(store, layers, &self.all)
    }
    fn commit(&self, store: &mut Store, d: ConsumedUtxoCache) -> Result<(), String> {
        write(store, d)
    }
    fn merge(&self, store: &Store, lower: &mut ConsumedUtxoCache, upper: ConsumedUtxoCache) -> Result<(), String> {
        fold(store, lower, upper)
    }
    fn store_is(&self, store: &Store, flat: &Flat) -> Result<(), String> {
        store_same(store, flat)
    }
}

pub fn run(ctx: &Ctx) {
    let o = |i: u32| out(block(7), i);
    ctx.part("one output", "every history of up to 8 (thorough 10) steps of adding, overwriting, spending, reading and forgetting one output, there from the beginning or not, moving the best block, opening, merging and dropping layers over the store, and undoing: the views against a flat set, and the store against what was committed", |c| {
        for start in [vec![], vec![0]] {
            explore(c, &Single { all: vec![o(0)], start, full: true }, ctx.pick(8, 10));
        }
    });
    ctx.part("two outputs", "every history of up to 9 (thorough 11) steps with two outputs", |c| {
        explore(c, &Single { all: vec![o(0), o(1)], start: vec![1], full: false }, ctx.pick(9, 11));
    });
    ctx.part("transactions", "every history of up to 7 (thorough 9) steps of connecting and disconnecting transactions that depend on and conflict with each other, with every kind of input and output, and block rewards with and without inputs", |c| {
        explore(c, &Whole::new(), ctx.pick(7, 9));
    });
    ctx.part("what is there is not overwritten", "an output added as new where the cache knows of an unspent one", |c| {
        for touched in [false, true] {
            let base = UtxosDBInMemoryImpl::new(block(0), if touched { [(o(0), coin(9))].into() } else { BTreeMap::new() });
            let db = UtxosDB::new(&base);
            let mut l = UtxosCache::new(&db).unwrap();
            if touched {
                let _ = l.get_mut_utxo(&o(0));
            } else {
                l.add_utxo(&o(0), coin(9), false).unwrap();
            }
            c.evals(2);
            c.nontrivial(1);
            c.eq(|| format!("added again, known from below: {touched}"), &guard(|| l.add_utxo(&o(0), coin(1), false).is_ok()), &Ok(false));
            c.eq(|| format!("still the first one, {touched}"), &l.utxo(&o(0)).unwrap(), &Some(coin(9)));
            c.outcome("refused");
        }
    });
}
