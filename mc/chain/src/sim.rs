//! Blocks made to order: what a block of some kind is follows from the branch it extends, so every branch of every
//! tree gets blocks that are valid (or broken in exactly the intended way) there.

use std::{
    collections::{BTreeMap, VecDeque},
    num::NonZeroU64,
    sync::Arc,
    time::Duration,
};

use chainstate::{ChainstateConfig, DefaultTransactionVerificationStrategy, chainstate_interface::ChainstateInterface};
use chainstate_storage::Store;
use common::{
    chain::{
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, Block, ChainConfig, DelegationId, Destination, GenBlock,
        Genesis, OrderAccountCommand, OrderData, OrderId, OutPointSourceId, PoolId, SignedTransaction, Transaction, TxInput, TxOutput,
        UtxoOutPoint,
        block::{BlockHeader, BlockReward, ConsensusData, block_body::BlockBody, timestamp::BlockTimestamp},
        config::{Builder, create_unit_test_config_builder},
        htlc::{HashedTimelockContract, HtlcSecret},
        output_value::OutputValue,
        signature::inputsig::InputWitness,
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::{
            IsTokenFreezable, IsTokenUnfreezable, Metadata, NftIssuance, NftIssuanceV0, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply,
        },
    },
    primitives::{Amount, BlockCount, BlockDistance, BlockHeight, H256, Id, Idable, per_thousand::PerThousand, time::Time},
    time_getter::TimeGetter,
};
use serialization::{DecodeAll, Encode};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey};

use crate::spy::{Image, Spy};

pub const COIN: u128 = 100_000_000_000;
pub const GENESIS_COIN: u128 = 1_000_000 * COIN;
pub const SPACING: u64 = 120;
pub const T0: u64 = 1_700_000_000;
pub const MATURITY: u64 = 2;

pub type Chain = Box<dyn ChainstateInterface>;

pub struct World {
    pub config: Arc<ChainConfig>,
    pub genesis_coins: usize,
    /// the image right after the genesis block
    pub start: Image,
    pub heavy: bool,
    pub reorg_depth: u64,
    vrf: crypto::vrf::VRFPublicKey,
}

struct Always(Time);
impl common::time_getter::TimeGetterFn for Always {
    fn get_time(&self) -> Time {
        self.0
    }
}

impl World {
    pub fn new(reorg_depth: i64, heavy: bool, tune: impl FnOnce(Builder) -> Builder) -> Self {
        let genesis_coins = 24;
        let outs = (0..genesis_coins).map(|_| transfer(coin(GENESIS_COIN))).collect();
        let genesis = Genesis::new("model".into(), BlockTimestamp::from_int_seconds(T0), outs);
        let config = create_unit_test_config_builder()
            .genesis_custom(genesis)
            .epoch_length(NonZeroU64::new(2).unwrap())
            .sealed_epoch_distance_from_tip(1)
            .max_depth_for_reorg(BlockDistance::new(reorg_depth))
            .empty_consensus_reward_maturity_block_count(BlockCount::new(MATURITY))
            .min_stake_pool_pledge(amt(1000 * COIN));
        let config = Arc::new(tune(config).build());
        let vrf = VRFPrivateKey::new_using_random_bytes(&[7; 32], VRFKeyKind::Schnorrkel).unwrap().1;
        let mut w = World { config, genesis_coins, start: Image::default(), heavy, reorg_depth: reorg_depth as u64, vrf };
        let spy = Spy::default();
        drop(w.open(&spy).expect("a new chainstate"));
        w.start = spy.image();
        w
    }
    pub fn open(&self, spy: &Spy) -> Result<Chain, String> {
        let store = Store::from_backend(spy.clone()).map_err(|e| e.to_string())?;
        self.open_store(store)
    }
    pub fn open_store<B: chainstate_storage::BlockchainStorageBackend + 'static>(&self, store: Store<B>) -> Result<Chain, String>
    where
        Store<B>: Sync,
    {
        let now = Time::from_duration_since_epoch(Duration::from_secs(T0 + 100 * SPACING));
        chainstate::make_chainstate(
            self.config.clone(),
            ChainstateConfig::new().with_heavy_checks_enabled(self.heavy).with_max_db_commit_attempts(3),
            store,
            DefaultTransactionVerificationStrategy::new(),
            None,
            TimeGetter::new(Arc::new(Always(now))),
            None,
        )
        .map_err(|e| e.to_string())
    }
    pub fn genesis_id(&self) -> Id<GenBlock> {
        self.config.genesis_block_id()
    }
    pub fn branch(&self) -> Branch {
        let src = OutPointSourceId::BlockReward(self.genesis_id());
        Branch {
            tip: self.genesis_id(),
            height: 0,
            time: T0,
            coins: (0..self.genesis_coins as u32).map(|i| (UtxoOutPoint::new(src.clone(), i), GENESIS_COIN)).collect(),
            spent: vec![],
            locked: vec![],
            supply: self.genesis_coins as u128 * GENESIS_COIN,
            tokens: BTreeMap::new(),
            token: None,
            stake: None,
            order: None,
        }
    }
}

pub fn amt(a: u128) -> Amount {
    Amount::from_atoms(a)
}
pub fn coin(a: u128) -> OutputValue {
    OutputValue::Coin(amt(a))
}
pub fn tok(id: TokenId, a: u128) -> OutputValue {
    OutputValue::TokenV1(id, amt(a))
}
pub fn any() -> Destination {
    Destination::AnyoneCanSpend
}
pub fn transfer(v: OutputValue) -> TxOutput {
    TxOutput::Transfer(v, any())
}
pub fn lock(v: OutputValue, l: OutputTimeLock) -> TxOutput {
    TxOutput::LockThenTransfer(v, any(), l)
}
pub fn out(tx: &SignedTransaction, i: u32) -> UtxoOutPoint {
    UtxoOutPoint::new(OutPointSourceId::Transaction(tx.transaction().get_id()), i)
}
pub fn tx(ins: Vec<TxInput>, outs: Vec<TxOutput>) -> SignedTransaction {
    let n = ins.len();
    SignedTransaction::new(Transaction::new(0, ins, outs).unwrap(), vec![InputWitness::NoSignature(None); n]).unwrap()
}
pub fn spend(o: &UtxoOutPoint) -> TxInput {
    TxInput::Utxo(o.clone())
}
pub fn command(nonce: u64, c: AccountCommand) -> TxInput {
    TxInput::AccountCommand(AccountNonce::new(nonce), c)
}

#[derive(Clone, Debug)]
pub struct TokenSim {
    pub id: TokenId,
    pub phase: u32,
    pub nonce: u64,
    pub held: Option<(UtxoOutPoint, u128)>,
    pub frozen: bool,
    pub locked: bool,
}

#[derive(Clone, Debug)]
pub struct StakeSim {
    pub pool: PoolId,
    pub pool_out: UtxoOutPoint,
    pub delegation: Option<DelegationId>,
    pub nonce: u64,
    pub phase: u32,
    pub delegated: u128,
}

#[derive(Clone, Debug)]
pub struct OrderSim {
    pub token: TokenId,
    pub held: (UtxoOutPoint, u128),
    pub sell: OrderId,
    pub buy: Option<OrderId>,
    pub phase: u32,
    /// coins held by the orders
    pub sell_filled: u128,
}

#[derive(Clone, Debug)]
pub struct Branch {
    pub tip: Id<GenBlock>,
    pub height: u64,
    pub time: u64,
    pub coins: VecDeque<(UtxoOutPoint, u128)>,
    pub spent: Vec<UtxoOutPoint>,
    /// outpoint, amount, first height where it may be spent
    pub locked: Vec<(UtxoOutPoint, u128, u64)>,
    /// all coins there are
    pub supply: u128,
    /// all tokens there are
    pub tokens: BTreeMap<TokenId, u128>,
    pub token: Option<TokenSim>,
    pub stake: Option<StakeSim>,
    pub order: Option<OrderSim>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Kind {
    Empty,
    /// transfers, some within the block, with a fee
    Move,
    /// burn, data deposit, time-locked output, hash-locked output, NFT
    Mixed,
    /// the block reward, with fees
    Reward,
    /// next step of the life of a token
    Token,
    /// next step of the life of a pool and a delegation
    Stake,
    /// next step of the life of two orders
    Order,
    /// broken in a way only connecting the block shows
    DoubleSpend,
    Overspend,
    TooEarly,
    BadNonce,
    GreedyReward,
    FrozenToken,
    Overdraw,
    Overfill,
    /// broken in a way checking the block alone shows
    BadMerkle,
    SameInputTwice,
    FromTheFuture,
    TooOld,
    UnlockedReward,
}

impl Kind {
    pub fn bad_check(self) -> bool {
        use Kind::*;
        matches!(self, BadMerkle | SameInputTwice | FromTheFuture | TooOld | UnlockedReward)
    }
    pub fn bad_connect(self) -> bool {
        use Kind::*;
        matches!(self, DoubleSpend | Overspend | TooEarly | BadNonce | GreedyReward | FrozenToken | Overdraw | Overfill)
    }
    pub fn good(self) -> bool {
        !self.bad_check() && !self.bad_connect()
    }
}

pub const SUBSIDY_FEE: u128 = 9;

impl World {
    fn subsidy(&self, height: u64) -> u128 {
        self.config.block_subsidy_at_height(&BlockHeight::new(height)).into_atoms()
    }

    /// The block of this kind on this branch and the branch with it; nothing when the kind has no meaning there.
    pub fn make(&self, b: &Branch, kind: Kind, salt: u64) -> Option<(Block, Branch)> {
        let mut n = b.clone();
        let h = b.height + 1;
        let mut txs: Vec<SignedTransaction> = vec![];
        let mut reward: Vec<TxOutput> = vec![];
        let mut time = b.time.max(T0) + SPACING;
        time -= (time - T0) % SPACING;
        time += salt;
        let height = BlockHeight::new(h);
        let cfg = &self.config;
        let fee_supply = cfg.token_supply_change_fee(height).into_atoms();
        let fee_freeze = cfg.token_freeze_fee(height).into_atoms();
        let fee_auth = cfg.token_change_authority_fee(height).into_atoms();
        let fee_uri = cfg.token_change_metadata_uri_fee().into_atoms();
        let fee_issue = cfg.fungible_token_issuance_fee().into_atoms();
        let fee_nft = cfg.nft_issuance_fee(height).into_atoms();
        let fee_data = cfg.data_deposit_fee(height).into_atoms();
        // spend the next free coin: inputs and outputs of the rest, with change as the last output
        let mut pay = |n: &mut Branch, extra_in: Vec<TxInput>, mut outs: Vec<TxOutput>, cost: u128| -> Option<SignedTransaction> {
            let (o, a) = n.coins.pop_front()?;
            let change = a.checked_sub(cost)?;
            n.spent.push(o.clone());
            let mut ins = vec![spend(&o)];
            ins.extend(extra_in);
            let k = outs.len() as u32;
            outs.push(transfer(coin(change)));
            let t = tx(ins, outs);
            n.coins.push_back((out(&t, k), change));
            Some(t)
        };
        match kind {
            Kind::Empty => {}
            Kind::Move => {
                let (o, a) = n.coins.pop_front()?;
                n.spent.push(o.clone());
                let mut ins = vec![spend(&o)];
                let mut total = a;
                if let Some(i) = n.locked.iter().position(|(_, _, at)| *at <= h) {
                    let (o, a, _) = n.locked.remove(i);
                    ins.push(spend(&o));
                    n.spent.push(o);
                    total += a;
                }
                let third = total / 3;
                let t1 = tx(ins, vec![transfer(coin(third)), transfer(coin(third)), transfer(coin(total - 2 * third - 7))]);
                let t2 = tx(vec![spend(&out(&t1, 0))], vec![transfer(coin(third / 2)), transfer(coin(third - third / 2))]);
                let t3 = tx(vec![spend(&out(&t2, 1)), spend(&out(&t1, 1))], vec![transfer(coin(third - third / 2 + third - 1))]);
                n.spent.extend([out(&t1, 0), out(&t2, 1), out(&t1, 1)]);
                n.coins.push_back((out(&t1, 2), total - 2 * third - 7));
                n.coins.push_back((out(&t2, 0), third / 2));
                n.coins.push_back((out(&t3, 0), third - third / 2 + third - 1));
                n.supply -= 8;
                txs.extend([t1, t2, t3]);
            }
            Kind::Mixed => {
                let (first, _) = n.coins.front()?.clone();
                let nft = common::chain::make_token_id(cfg, height, &[spend(&first)]).unwrap();
                let issue = NftIssuance::V0(NftIssuanceV0 {
                    metadata: Metadata {
                        creator: None,
                        name: b"NAME".to_vec(),
                        description: b"SOMETHING".to_vec(),
                        ticker: b"NNN".to_vec(),
                        icon_uri: None.into(),
                        additional_metadata_uri: None.into(),
                        media_uri: None.into(),
                        media_hash: vec![3; 32],
                    },
                });
                let htlc = HashedTimelockContract {
                    secret_hash: HtlcSecret::new([5; 32]).hash(),
                    spend_key: any(),
                    refund_timelock: OutputTimeLock::ForBlockCount(3),
                    refund_key: any(),
                };
                let t = pay(
                    &mut n,
                    vec![],
                    vec![
                        TxOutput::Burn(coin(3 * COIN)),
                        TxOutput::DataDeposit(vec![1, 2, 3]),
                        lock(coin(COIN), OutputTimeLock::ForBlockCount(1)),
                        TxOutput::Htlc(coin(2 * COIN), Box::new(htlc)),
                        TxOutput::IssueNft(nft, Box::new(issue), any()),
                    ],
                    6 * COIN + fee_data + fee_nft,
                )?;
                n.locked.push((out(&t, 2), COIN, h + 1));
                n.supply -= 3 * COIN + fee_data + fee_nft;
                n.tokens.insert(nft, 1);
                txs.push(t);
            }
            Kind::Reward | Kind::GreedyReward => {
                let t = pay(&mut n, vec![], vec![], SUBSIDY_FEE)?;
                txs.push(t);
                let mut sum = self.subsidy(h) + SUBSIDY_FEE;
                if kind == Kind::GreedyReward {
                    sum += 1;
                }
                reward.push(lock(coin(sum - 5), OutputTimeLock::ForBlockCount(MATURITY)));
                reward.push(lock(coin(5), OutputTimeLock::ForBlockCount(MATURITY + 1)));
                n.supply = n.supply - SUBSIDY_FEE + sum;
            }
            Kind::Token => match &mut n.token.clone() {
                None => {
                    let (first, _) = n.coins.front()?.clone();
                    let id = common::chain::make_token_id(cfg, height, &[spend(&first)]).unwrap();
                    let t = pay(&mut n, vec![], vec![issue("TKN")], fee_issue)?;
                    txs.push(t);
                    n.supply -= fee_issue;
                    n.tokens.insert(id, 0);
                    n.token = Some(TokenSim { id, phase: 0, nonce: 0, held: None, frozen: false, locked: false });
                }
                Some(t) => {
                    let id = t.id;
                    match t.phase {
                        // mint
                        0 => {
                            let c = command(t.nonce, AccountCommand::MintTokens(id, amt(1000)));
                            let x = pay(&mut n, vec![c], vec![transfer(tok(id, 1000))], fee_supply)?;
                            t.nonce += 1;
                            t.held = Some((out(&x, 0), 1000));
                            n.supply -= fee_supply;
                            *n.tokens.get_mut(&id)? += 1000;
                            txs.push(x);
                        }
                        // give some away and burn some
                        1 => {
                            let (o, a) = t.held.clone()?;
                            let x = pay(
                                &mut n,
                                vec![spend(&o)],
                                vec![transfer(tok(id, a - 110)), transfer(tok(id, 100)), TxOutput::Burn(tok(id, 10))],
                                0,
                            )?;
                            n.spent.push(o);
                            t.held = Some((out(&x, 0), a - 110));
                            *n.tokens.get_mut(&id)? -= 10;
                            txs.push(x);
                        }
                        2 => {
                            let c = command(t.nonce, AccountCommand::FreezeToken(id, IsTokenUnfreezable::Yes));
                            txs.push(pay(&mut n, vec![c], vec![], fee_freeze)?);
                            t.nonce += 1;
                            t.frozen = true;
                            n.supply -= fee_freeze;
                        }
                        // unfreeze and change where the description lies, in one block
                        3 => {
                            let c = command(t.nonce, AccountCommand::UnfreezeToken(id));
                            txs.push(pay(&mut n, vec![c], vec![], fee_freeze)?);
                            let c = command(t.nonce + 1, AccountCommand::ChangeTokenMetadataUri(id, b"http://new".to_vec()));
                            txs.push(pay(&mut n, vec![c], vec![], fee_uri)?);
                            t.nonce += 2;
                            t.frozen = false;
                            n.supply -= fee_freeze + fee_uri;
                        }
                        // another authority (who anybody is as well)
                        4 => {
                            let c = command(t.nonce, AccountCommand::ChangeTokenAuthority(id, any()));
                            txs.push(pay(&mut n, vec![c], vec![], fee_auth)?);
                            t.nonce += 1;
                            n.supply -= fee_auth;
                        }
                        // take back 50, mint 7 more
                        5 => {
                            let (o, a) = t.held.clone()?;
                            let c = command(t.nonce, AccountCommand::UnmintTokens(id));
                            let x = pay(&mut n, vec![c, spend(&o)], vec![TxOutput::Burn(tok(id, 50)), transfer(tok(id, a - 50))], fee_supply)?;
                            n.spent.push(o);
                            let c = command(t.nonce + 1, AccountCommand::MintTokens(id, amt(7)));
                            let y = pay(&mut n, vec![c], vec![transfer(tok(id, 7))], fee_supply)?;
                            t.nonce += 2;
                            t.held = Some((out(&x, 1), a - 50));
                            n.supply -= 2 * fee_supply;
                            *n.tokens.get_mut(&id)? -= 50;
                            *n.tokens.get_mut(&id)? += 7;
                            txs.extend([x, y]);
                        }
                        6 => {
                            let c = command(t.nonce, AccountCommand::LockTokenSupply(id));
                            txs.push(pay(&mut n, vec![c], vec![], fee_supply)?);
                            t.nonce += 1;
                            t.locked = true;
                            n.supply -= fee_supply;
                        }
                        // freeze for ever
                        7 => {
                            let c = command(t.nonce, AccountCommand::FreezeToken(id, IsTokenUnfreezable::No));
                            txs.push(pay(&mut n, vec![c], vec![], fee_freeze)?);
                            t.nonce += 1;
                            t.frozen = true;
                            n.supply -= fee_freeze;
                        }
                        _ => return None,
                    }
                    t.phase += 1;
                    n.token = Some(t.clone());
                }
            },
            Kind::Stake => match &mut n.stake.clone() {
                None => {
                    let (first, _) = n.coins.front()?.clone();
                    let pool = PoolId::from_utxo(&first);
                    let data = StakePoolData::new(amt(2000 * COIN), any(), self.vrf.clone(), any(), PerThousand::new(100).unwrap(), amt(0));
                    let t = pay(&mut n, vec![], vec![TxOutput::CreateStakePool(pool, Box::new(data))], 2000 * COIN)?;
                    n.stake = Some(StakeSim { pool, pool_out: out(&t, 0), delegation: None, nonce: 0, phase: 0, delegated: 0 });
                    txs.push(t);
                }
                Some(s) => {
                    match s.phase {
                        // a delegation, and coins to it in the same block
                        0 => {
                            let (first, _) = n.coins.front()?.clone();
                            let d = DelegationId::from_utxo(&first);
                            let t1 = pay(&mut n, vec![], vec![TxOutput::CreateDelegationId(any(), s.pool)], 0)?;
                            let t2 = pay(&mut n, vec![], vec![TxOutput::DelegateStaking(amt(500 * COIN), d)], 500 * COIN)?;
                            s.delegation = Some(d);
                            s.delegated = 500 * COIN;
                            txs.extend([t1, t2]);
                        }
                        // take some back, twice
                        1 => {
                            let d = s.delegation?;
                            for a in [30u128, 20] {
                                let i = TxInput::Account(AccountOutPoint::new(
                                    AccountNonce::new(s.nonce),
                                    AccountSpending::DelegationBalance(d, amt(a * COIN)),
                                ));
                                let t = tx(vec![i], vec![lock(coin(a * COIN - 1), OutputTimeLock::ForBlockCount(MATURITY))]);
                                s.nonce += 1;
                                s.delegated -= a * COIN;
                                n.locked.push((out(&t, 0), a * COIN - 1, h + MATURITY));
                                n.supply -= 1;
                                txs.push(t);
                            }
                        }
                        2 => {
                            let d = s.delegation?;
                            let t = pay(&mut n, vec![], vec![TxOutput::DelegateStaking(amt(COIN), d)], COIN)?;
                            s.delegated += COIN;
                            txs.push(t);
                        }
                        // close the pool
                        3 => {
                            let t = tx(vec![spend(&s.pool_out)], vec![lock(coin(2000 * COIN - 3), OutputTimeLock::ForBlockCount(MATURITY))]);
                            n.spent.push(s.pool_out.clone());
                            n.locked.push((out(&t, 0), 2000 * COIN - 3, h + MATURITY));
                            n.supply -= 3;
                            txs.push(t);
                        }
                        // take all the rest of the delegation
                        4 => {
                            let i = TxInput::Account(AccountOutPoint::new(
                                AccountNonce::new(s.nonce),
                                AccountSpending::DelegationBalance(s.delegation?, amt(s.delegated)),
                            ));
                            let t = tx(vec![i], vec![lock(coin(s.delegated), OutputTimeLock::ForBlockCount(MATURITY))]);
                            n.locked.push((out(&t, 0), s.delegated, h + MATURITY));
                            s.nonce += 1;
                            s.delegated = 0;
                            txs.push(t);
                        }
                        _ => return None,
                    }
                    s.phase += 1;
                    n.stake = Some(s.clone());
                }
            },
            Kind::Order => match &mut n.order.clone() {
                None => {
                    // issue, mint and offer 300 of 1000 tokens for 600 coins, all in one block
                    let (first, _) = n.coins.front()?.clone();
                    let id = common::chain::make_token_id(cfg, height, &[spend(&first)]).unwrap();
                    let t1 = pay(&mut n, vec![], vec![issue("ORD")], fee_issue)?;
                    let c = command(0, AccountCommand::MintTokens(id, amt(1000)));
                    let t2 = pay(&mut n, vec![c], vec![transfer(tok(id, 1000))], fee_supply)?;
                    let give = OrderData::new(any(), coin(600 * COIN), tok(id, 300));
                    let o = out(&t2, 0);
                    let (first, _) = n.coins.front()?.clone();
                    let sell = OrderId::from_utxo(&first);
                    let t3 = pay(&mut n, vec![spend(&o)], vec![TxOutput::CreateOrder(Box::new(give)), transfer(tok(id, 700))], 0)?;
                    n.spent.push(o);
                    n.supply -= fee_issue + fee_supply;
                    n.tokens.insert(id, 1000);
                    n.order = Some(OrderSim { token: id, held: (out(&t3, 1), 700), sell, buy: None, phase: 0, sell_filled: 0 });
                    txs.extend([t1, t2, t3]);
                }
                Some(s) => {
                    let id = s.token;
                    match s.phase {
                        // buy 100 for 200 coins, in two goes in one block
                        0 => {
                            for (c, t) in [(50u128, 25u128), (150, 75)] {
                                let i = TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(s.sell, amt(c * COIN)));
                                let x = pay(&mut n, vec![i], vec![transfer(tok(id, t))], c * COIN)?;
                                txs.push(x);
                            }
                            s.sell_filled += 200 * COIN;
                        }
                        // an order the other way: 90 coins for 9 tokens, and fill a third of it in the same block
                        1 => {
                            let (first, _) = n.coins.front()?.clone();
                            let buy = OrderId::from_utxo(&first);
                            let give = OrderData::new(any(), tok(id, 9), coin(90 * COIN));
                            let t1 = pay(&mut n, vec![], vec![TxOutput::CreateOrder(Box::new(give))], 90 * COIN)?;
                            let i = TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(buy, amt(3)));
                            let (o, a) = s.held.clone();
                            let t2 = tx(vec![i, spend(&o)], vec![transfer(coin(30 * COIN)), transfer(tok(id, a - 3))]);
                            n.coins.push_back((out(&t2, 0), 30 * COIN));
                            n.spent.push(o);
                            s.held = (out(&t2, 1), a - 3);
                            s.buy = Some(buy);
                            txs.extend([t1, t2]);
                        }
                        2 => {
                            let i = TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(s.sell));
                            txs.push(pay(&mut n, vec![i], vec![], 4)?);
                            n.supply -= 4;
                        }
                        // close the first: 200 coins and 200 tokens come back
                        3 => {
                            let i = TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(s.sell));
                            let t = tx(vec![i], vec![transfer(coin(200 * COIN - 1)), transfer(tok(id, 200))]);
                            n.coins.push_back((out(&t, 0), 200 * COIN - 1));
                            n.supply -= 1;
                            txs.push(t);
                        }
                        // fill the second completely and close it
                        4 => {
                            let buy = s.buy?;
                            let (o, a) = s.held.clone();
                            let i = TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(buy, amt(6)));
                            let t1 = tx(vec![i, spend(&o)], vec![transfer(coin(60 * COIN)), transfer(tok(id, a - 6))]);
                            let i = TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(buy));
                            let t2 = tx(vec![i], vec![transfer(tok(id, 9))]);
                            n.coins.push_back((out(&t1, 0), 60 * COIN));
                            n.spent.push(o);
                            s.held = (out(&t1, 1), a - 6);
                            txs.extend([t1, t2]);
                        }
                        _ => return None,
                    }
                    s.phase += 1;
                    n.order = Some(s.clone());
                }
            },
            // the broken ones: a good transaction first, so that there is something to take back
            Kind::DoubleSpend => {
                txs.push(pay(&mut n, vec![], vec![], 1)?);
                let o = n.spent.first()?.clone();
                txs.push(tx(vec![spend(&o)], vec![transfer(coin(1))]));
                if b.spent.is_empty() {
                    return None; // would be the same input twice in the block
                }
            }
            Kind::Overspend => {
                txs.push(pay(&mut n, vec![], vec![TxOutput::Burn(coin(COIN))], COIN)?);
                let (o, a) = n.coins.pop_front()?;
                txs.push(tx(vec![spend(&o)], vec![transfer(coin(a + 1))]));
            }
            Kind::TooEarly => {
                txs.push(pay(&mut n, vec![], vec![], 1)?);
                let (o, a) = n.coins.pop_front()?;
                let t1 = tx(vec![spend(&o)], vec![lock(coin(a), OutputTimeLock::ForBlockCount(1))]);
                let t2 = tx(vec![spend(&out(&t1, 0))], vec![transfer(coin(a))]);
                txs.extend([t1, t2]);
            }
            Kind::BadNonce => {
                let t = n.token.clone()?;
                if t.frozen {
                    return None;
                }
                let c = command(t.nonce, AccountCommand::ChangeTokenAuthority(t.id, any()));
                txs.push(pay(&mut n, vec![c], vec![], fee_auth)?);
                let c = command(t.nonce + 2, AccountCommand::ChangeTokenAuthority(t.id, any()));
                txs.push(pay(&mut n, vec![c], vec![], fee_auth)?);
            }
            Kind::FrozenToken => {
                let t = n.token.clone()?;
                if !t.frozen {
                    return None;
                }
                txs.push(pay(&mut n, vec![], vec![], 1)?);
                let (o, a) = t.held.clone()?;
                txs.push(pay(&mut n, vec![spend(&o)], vec![transfer(tok(t.id, a))], 0)?);
            }
            Kind::Overdraw => {
                let s = n.stake.clone()?;
                let d = s.delegation?;
                let i = TxInput::Account(AccountOutPoint::new(
                    AccountNonce::new(s.nonce),
                    AccountSpending::DelegationBalance(d, amt(s.delegated + 1)),
                ));
                txs.push(pay(&mut n, vec![], vec![], 1)?);
                txs.push(tx(vec![i], vec![lock(coin(s.delegated + 1), OutputTimeLock::ForBlockCount(MATURITY))]));
            }
            Kind::Overfill => {
                let s = n.order.clone()?;
                if s.phase > 2 {
                    return None;
                }
                let left = 600 * COIN - s.sell_filled;
                let i = TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(s.sell, amt(left + 1)));
                txs.push(pay(&mut n, vec![], vec![], 1)?);
                txs.push(pay(&mut n, vec![i], vec![transfer(tok(s.token, 1))], left + 1)?);
            }
            Kind::BadMerkle | Kind::FromTheFuture => {
                txs.push(pay(&mut n, vec![], vec![], 1)?);
                if kind == Kind::FromTheFuture {
                    time = T0 + 100 * SPACING + cfg.max_future_block_time_offset(height).as_secs() + 1 + salt;
                }
            }
            Kind::TooOld => {
                time = T0 - 1 - salt;
            }
            Kind::SameInputTwice => {
                let (o, a) = n.coins.pop_front()?;
                txs.push(tx(vec![spend(&o)], vec![transfer(coin(a - 1))]));
                txs.push(tx(vec![spend(&o)], vec![transfer(coin(a - 2))]));
            }
            Kind::UnlockedReward => {
                reward.push(lock(coin(5), OutputTimeLock::ForBlockCount(MATURITY - 1)));
            }
        }
        let block = assemble(b.tip, time, reward, txs, kind == Kind::BadMerkle);
        let id: Id<GenBlock> = block.get_id().into();
        if kind == Kind::Reward {
            let src = OutPointSourceId::BlockReward(id);
            n.locked.push((UtxoOutPoint::new(src, 0), self.subsidy(h) + SUBSIDY_FEE - 5, h + MATURITY));
        }
        n.tip = id;
        n.height = h;
        n.time = time;
        Some((block, n))
    }
}

pub fn issue(ticker: &str) -> TxOutput {
    TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(TokenIssuanceV1 {
        token_ticker: ticker.as_bytes().to_vec(),
        number_of_decimals: 2,
        metadata_uri: b"http://uri".to_vec(),
        total_supply: TokenTotalSupply::Lockable,
        authority: any(),
        is_freezable: IsTokenFreezable::Yes,
    })))
}

pub fn assemble(prev: Id<GenBlock>, time: u64, reward: Vec<TxOutput>, txs: Vec<SignedTransaction>, bad_merkle: bool) -> Block {
    let body = BlockBody::new(BlockReward::new(reward), txs);
    let proxy = body.merkle_tree_proxy().unwrap();
    let root = proxy.merkle_tree().root();
    let header = BlockHeader::new(prev, root, proxy.witness_merkle_tree().root(), BlockTimestamp::from_int_seconds(time), ConsensusData::None);
    let block = Block::new_from_header(header.with_no_signature(), body).unwrap();
    if !bad_merkle {
        return block;
    }
    // such a block cannot be made, but it can be received
    let mut bytes = block.encode();
    let at = bytes.windows(32).position(|w| w == root.as_bytes()).expect("the root is in the header");
    bytes[at] ^= 1;
    Block::decode_all(&mut &bytes[..]).expect("a block")
}
