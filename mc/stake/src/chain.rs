//! A chain made by stake on the real chainstate: who may extend it, what that pays, and which branch is the chain.
use std::{
    collections::{BTreeMap, VecDeque},
    sync::{Arc, Mutex},
    time::Duration,
};

use chainstate::{BlockSource, ChainstateConfig, DefaultTransactionVerificationStrategy, chainstate_interface::ChainstateInterface};
use chainstate_storage::Store;
use common::{
    Uint256,
    chain::{
        AccountNonce, AccountOutPoint, AccountSpending, Block, ChainConfig, ConsensusUpgrade, DelegationId, Destination, GenBlock, Genesis,
        NetUpgrades, OutPointSourceId, PoSChainConfig, PoSConsensusVersion, PoolId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
        block::{BlockReward, BlockRewardTransactable, ConsensusData, consensus_data::PoSData, timestamp::BlockTimestamp},
        config::create_unit_test_config_builder,
        output_value::OutputValue,
        signature::{
            inputsig::{InputWitness, authorize_pubkey_spend::sign_public_key_spending, standard_signature::StandardInputSignature},
            sighash::{
                input_commitments::make_sighash_input_commitments_for_kernel_input_utxos, sighashtype::SigHashType, signature_hash,
            },
        },
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
    },
    primitives::{Amount, BlockCount, BlockHeight, Compact, H256, Id, Idable, per_thousand::PerThousand, time::Time},
    time_getter::{TimeGetter, TimeGetterFn},
};
use crypto::{
    key::PredefinedSigAuxDataProvider,
    vrf::{VRFPrivateKey, VRFPublicKey},
};
use mc_kit::{Ctx, PartCtx, guard, sequences};
use num::BigUint;
use serialization::Encode;

use crate::{
    rewards::{Pool, share},
    spy::{Image, Spy, diff},
    stakes::{COIN, beats, draw, key, signed, vrf_key},
    target::{Rule, big, expand},
};

const VALUES: usize = 0;
const BLOCKS: usize = 1;
const INDEX: usize = 2;
const EPOCHS: usize = 6;
const DELTA: usize = 18;
const DELTA_UNDO: usize = 19;

const T0: u64 = 1_700_000_000;
const BITS: u32 = 0x1a08_0000;
const SPACING: u64 = 120;
const MATURITY: u64 = 2;
const PLEDGE: u128 = 40_000 * COIN;

fn amt(n: u128) -> Amount {
    Amount::from_atoms(n)
}

/// what a pool was set up with
#[derive(Clone, Debug)]
struct Terms {
    id: PoolId,
    key: u8,
    vrf: u8,
}

#[derive(Clone, Debug)]
struct Member {
    terms: Terms,
    open: bool,
    /// what it may stake next and what that is, and what it staked before
    kernel: (UtxoOutPoint, TxOutput),
    used: Option<(UtxoOutPoint, TxOutput)>,
    books: Pool,
    delegations: Vec<DelegationId>,
}

#[derive(Clone)]
struct Branch {
    tip: Id<GenBlock>,
    height: u64,
    times: Vec<u64>,
    bits: Vec<u32>,
    trust: BigUint,
    pools: Vec<Member>,
    nonces: BTreeMap<DelegationId, u64>,
    coins: VecDeque<(UtxoOutPoint, u128)>,
    epochs: BTreeMap<u64, H256>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Step {
    /// a block of the pool, in the first slot it wins
    By(usize),
    /// in a later slot
    Late(usize),
    /// with fees
    Fees(usize),
    /// with a delegation to the pool, set up and funded
    Delegate(usize, usize),
    /// with more for the delegation
    More(usize, usize),
    /// with some of the delegation taken back
    Withdraw(usize, usize),
    /// with all of it taken back
    Leave(usize, usize),
    /// with a new pool
    Found(usize),
    /// with the other pool closed
    Close(usize, usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Fault {
    None,
    LostSlot,
    NoLater,
    Bits,
    Randomness,
    Epoch,
    VrfKey,
    NamesOther,
    KernelUsed,
    KernelOfOther,
    KernelCoins,
    KernelTwice,
    NoKernel,
    SignedByOther,
    NotSigned,
    NoStake,
    // what only connecting the block shows
    RewardOtherPool,
    RewardOtherKey,
    RewardNone,
    RewardTwice,
    RewardCoins,
    WitnessOther,
    WitnessNone,
    WitnessElse,
}

/// a few steps for longer chains
const FEW: [Step; 4] = [Step::By(0), Step::By(1), Step::Delegate(0, 0), Step::Close(0, 1)];

const HEADER: [Fault; 15] = [
    Fault::LostSlot,
    Fault::NoLater,
    Fault::Bits,
    Fault::Randomness,
    Fault::Epoch,
    Fault::VrfKey,
    Fault::NamesOther,
    Fault::KernelUsed,
    Fault::KernelOfOther,
    Fault::KernelCoins,
    Fault::KernelTwice,
    Fault::NoKernel,
    Fault::SignedByOther,
    Fault::NotSigned,
    Fault::NoStake,
];

const BODY: [Fault; 8] = [
    Fault::RewardOtherPool,
    Fault::RewardOtherKey,
    Fault::RewardNone,
    Fault::RewardTwice,
    Fault::RewardCoins,
    Fault::WitnessOther,
    Fault::WitnessNone,
    Fault::WitnessElse,
];

struct Always(Time);
impl TimeGetterFn for Always {
    fn get_time(&self) -> Time {
        self.0
    }
}

struct World {
    config: Arc<ChainConfig>,
    epoch: u64,
    distance: u64,
    version: u32,
    rule: Rule,
    vrfs: Vec<(VRFPrivateKey, VRFPublicKey)>,
    start: Image,
    first: Branch,
}

type Chain = Box<dyn ChainstateInterface>;

fn pool_out(t: &Terms, vrfs: &[(VRFPrivateKey, VRFPublicKey)], margin: u16, cost: u128) -> TxOutput {
    let data = StakePoolData::new(
        amt(PLEDGE),
        Destination::PublicKey(key(t.key).1),
        vrfs[t.vrf as usize].1.clone(),
        Destination::AnyoneCanSpend,
        PerThousand::new(margin).unwrap(),
        amt(cost),
    );
    TxOutput::CreateStakePool(t.id, Box::new(data))
}

fn books(margin: u16, cost: u128) -> Pool {
    Pool { pledge: PLEDGE, earned: 0, balance: PLEDGE, cost, margin, shares: vec![] }
}

fn tx(ins: Vec<TxInput>, outs: Vec<TxOutput>) -> SignedTransaction {
    let n = ins.len();
    SignedTransaction::new(Transaction::new(0, ins, outs).unwrap(), vec![InputWitness::NoSignature(None); n]).unwrap()
}

fn out(t: &SignedTransaction, i: u32) -> UtxoOutPoint {
    UtxoOutPoint::new(OutPointSourceId::Transaction(t.transaction().get_id()), i)
}

fn coins(a: u128) -> TxOutput {
    TxOutput::Transfer(OutputValue::Coin(amt(a)), Destination::AnyoneCanSpend)
}

fn locked(a: u128) -> TxOutput {
    TxOutput::LockThenTransfer(OutputValue::Coin(amt(a)), Destination::AnyoneCanSpend, OutputTimeLock::ForBlockCount(MATURITY))
}

impl World {
    fn new(epoch: u64, distance: u64, version: u32) -> Self {
        let rule = Rule { limit: Uint256::MAX, count: 3, swing: 100, first: Some(BITS), from: 1, spacing: SPACING };
        let pos = PoSChainConfig::new(
            rule.limit,
            BlockCount::new(MATURITY),
            rule.count,
            PerThousand::new(rule.swing).unwrap(),
            if version == 0 { PoSConsensusVersion::V0 } else { PoSConsensusVersion::V1 },
        );
        let vrfs: Vec<_> = (21..24).map(vrf_key).collect();
        let terms: Vec<Terms> = (0..2u8).map(|n| Terms { id: PoolId::new(H256::repeat_byte(n + 1)), key: 11 + n, vrf: n }).collect();
        let free = 8;
        let mut outs: Vec<TxOutput> = (0..free).map(|_| coins(1_000_000 * COIN)).collect();
        outs.push(pool_out(&terms[0], &vrfs, 100, 3));
        outs.push(pool_out(&terms[1], &vrfs, 0, 0));
        let genesis = Genesis::new("stakes".into(), BlockTimestamp::from_int_seconds(T0), outs.clone());
        let config = create_unit_test_config_builder()
            .genesis_custom(genesis)
            .consensus_upgrades(
                NetUpgrades::initialize(vec![
                    (BlockHeight::new(0), ConsensusUpgrade::IgnoreConsensus),
                    (BlockHeight::new(1), ConsensusUpgrade::PoS { initial_difficulty: Some(Compact(BITS)), config: pos }),
                ])
                .unwrap(),
            )
            .target_block_spacing(Duration::from_secs(SPACING))
            .epoch_length(epoch.try_into().unwrap())
            .sealed_epoch_distance_from_tip(distance as usize)
            .min_stake_pool_pledge(amt(1000 * COIN))
            .build();
        let at = |i: u32| UtxoOutPoint::new(OutPointSourceId::BlockReward(config.genesis_block_id()), i);
        let pools = terms
            .iter()
            .enumerate()
            .map(|(i, t)| Member {
                terms: t.clone(),
                open: true,
                kernel: (at(free + i as u32), outs[free as usize + i].clone()),
                used: None,
                books: if i == 0 { books(100, 3) } else { books(0, 0) },
                delegations: vec![],
            })
            .collect();
        let first = Branch {
            tip: config.genesis_block_id(),
            height: 0,
            times: vec![T0],
            bits: vec![],
            trust: 0u32.into(),
            pools,
            nonces: BTreeMap::new(),
            coins: (0..free).map(|i| (at(i), 1_000_000 * COIN)).collect(),
            epochs: [(0, config.initial_randomness())].into(),
        };
        let mut w = World { config: Arc::new(config), epoch, distance, version, rule, vrfs, start: Image::default(), first };
        let spy = Spy::default();
        drop(w.open(&spy).expect("a new chainstate"));
        w.start = spy.image();
        w
    }

    fn open(&self, spy: &Spy) -> Result<Chain, String> {
        let now = Time::from_duration_since_epoch(Duration::from_secs(T0 + 100_000));
        chainstate::make_chainstate(
            self.config.clone(),
            ChainstateConfig::new().with_max_db_commit_attempts(3),
            Store::from_backend(spy.clone()).map_err(|e| e.to_string())?,
            DefaultTransactionVerificationStrategy::new(),
            None,
            TimeGetter::new(Arc::new(Always(now))),
            None,
        )
        .map_err(|e| e.to_string())
    }

    /// the randomness the block after this branch is drawn from
    fn randomness(&self, b: &Branch) -> H256 {
        let complete = (b.height + 2) / self.epoch;
        let sealed = complete.checked_sub(1 + self.distance);
        sealed.and_then(|e| b.epochs.get(&e).copied()).unwrap_or(self.config.initial_randomness())
    }

    fn supply(&self) -> u128 {
        self.config.final_supply().unwrap().to_amount_atoms().into_atoms()
    }

    /// the transactions of the step, and what they change
    fn transactions(&self, n: &mut Branch, step: Step) -> Option<(Vec<SignedTransaction>, u128)> {
        let pay = |n: &mut Branch, mut ins: Vec<TxInput>, mut outs: Vec<TxOutput>, cost: u128| {
            let (o, a) = n.coins.pop_front()?;
            ins.insert(0, TxInput::Utxo(o));
            let k = outs.len() as u32;
            outs.push(coins(a - cost));
            let t = tx(ins, outs);
            n.coins.push_back((out(&t, k), a - cost));
            Some(t)
        };
        Some(match step {
            Step::By(_) | Step::Late(_) => (vec![], 0),
            Step::Fees(_) => (vec![pay(n, vec![], vec![], 70_001)?, pay(n, vec![], vec![], 9)?], 70_010),
            Step::Delegate(_, p) => {
                n.pools.get(p).filter(|p| p.open)?;
                let id = DelegationId::from_utxo(&n.coins.front()?.0);
                let t1 = pay(n, vec![], vec![TxOutput::CreateDelegationId(Destination::AnyoneCanSpend, n.pools[p].terms.id)], 5)?;
                let a = 7_000 * COIN + 11;
                let t2 = pay(n, vec![], vec![TxOutput::DelegateStaking(amt(a), id)], a)?;
                let m = &mut n.pools[p];
                m.delegations.push(id);
                m.books.shares.push(a);
                m.books.balance += a;
                n.nonces.insert(id, 0);
                (vec![t1, t2], 5)
            }
            Step::More(_, p) => {
                let m = n.pools.get(p).filter(|p| p.open)?;
                let id = *m.delegations.first()?;
                let a = 3 * COIN + 1;
                let t = pay(n, vec![], vec![TxOutput::DelegateStaking(amt(a), id)], a + 2)?;
                let m = &mut n.pools[p];
                m.books.shares[0] += a;
                m.books.balance += a;
                (vec![t], 2)
            }
            Step::Withdraw(_, p) | Step::Leave(_, p) => {
                let m = n.pools.get_mut(p)?;
                let i = m.delegations.len().checked_sub(1)?;
                let (id, all) = (m.delegations[i], m.books.shares[i]);
                let a = if matches!(step, Step::Leave(..)) { all } else { all / 3 };
                if a == 0 {
                    return None;
                }
                m.books.shares[i] -= a;
                if m.open {
                    m.books.balance -= a;
                }
                let nonce = n.nonces.get_mut(&id).unwrap();
                let spend = TxInput::Account(AccountOutPoint::new(AccountNonce::new(*nonce), AccountSpending::DelegationBalance(id, amt(a))));
                *nonce += 1;
                (vec![tx(vec![spend], vec![locked(a - 4)])], 4)
            }
            Step::Found(_) => {
                if n.pools.len() > 2 {
                    return None;
                }
                let terms = Terms { id: PoolId::from_utxo(&n.coins.front()?.0), key: 13, vrf: 2 };
                let o = pool_out(&terms, &self.vrfs, 500, 1000);
                let t = pay(n, vec![], vec![o.clone()], PLEDGE)?;
                n.pools.push(Member { terms, open: true, kernel: (out(&t, 0), o), used: None, books: books(500, 1000), delegations: vec![] });
                (vec![t], 0)
            }
            Step::Close(_, p) => {
                let m = n.pools.get_mut(p).filter(|p| p.open)?;
                let staked = m.books.pledge + m.books.earned;
                m.open = false;
                let t = tx(vec![TxInput::Utxo(m.kernel.0.clone())], vec![locked(staked - 6)]);
                m.used = Some(m.kernel.clone());
                (vec![t], 6)
            }
        })
    }

    /// the block that takes this step on this branch, broken in this way, and the branch with it
    fn make(&self, b: &Branch, step: Step, fault: Fault) -> Option<(Block, Branch)> {
        use Fault as F;
        let who = match step {
            Step::By(p) | Step::Late(p) | Step::Fees(p) | Step::Found(p) => p,
            Step::Delegate(p, _) | Step::More(p, _) | Step::Withdraw(p, _) | Step::Leave(p, _) | Step::Close(p, _) => p,
        };
        let m = b.pools.get(who).filter(|m| m.open)?.clone();
        let other = b.pools.iter().enumerate().find(|(i, m)| *i != who && m.open).map(|(_, m)| m.clone());
        let mut n = b.clone();
        let (txs, fees) = self.transactions(&mut n, step)?;
        let height = b.height + 1;
        let epoch = height / self.epoch;
        let seed = self.randomness(b);
        let bits = self.rule.target(&b.times, &b.bits).expect("a target");
        let last = *b.times.last().unwrap();
        // what counts is what the pool held before the block
        let wins = |t: u64, m: &Member| {
            let hash: Uint256 = draw(&self.vrfs[m.terms.vrf as usize], epoch, &seed, t).1.into();
            beats(self.version, &big(hash), &expand(bits), m.books.pledge + m.books.earned, m.books.balance, self.supply())
        };
        let nth = if matches!(step, Step::Late(_)) { 2 } else { 0 };
        let time = match fault {
            F::LostSlot => (last + 1..last + 400).find(|t| !wins(*t, &m))?,
            F::NoLater => (last.saturating_sub(200)..=last).rev().find(|t| wins(*t, &m))?,
            _ => (last + 1..last + 2000).filter(|t| wins(*t, &m)).nth(nth)?,
        };
        let vrf = &self.vrfs[m.terms.vrf as usize];
        let (proof, hash) = match fault {
            F::Randomness => {
                // that of the genesis when it is not due, or else any
                let s = if seed == self.config.initial_randomness() { H256::repeat_byte(7) } else { self.config.initial_randomness() };
                draw(vrf, epoch, &s, time)
            }
            F::Epoch => draw(vrf, epoch + 1, &seed, time),
            F::VrfKey => draw(&self.vrfs[(m.terms.vrf as usize + 1) % 3], epoch, &seed, time),
            _ => draw(vrf, epoch, &seed, time),
        };
        let named = if fault == F::NamesOther { other.as_ref()?.terms.id } else { m.terms.id };
        let kernel: Vec<(UtxoOutPoint, TxOutput)> = match fault {
            F::KernelUsed => vec![m.used.clone()?],
            F::KernelOfOther => vec![other.as_ref()?.kernel.clone()],
            F::KernelCoins => vec![(b.coins.back()?.0.clone(), coins(b.coins.back()?.1))],
            F::KernelTwice => vec![m.kernel.clone(), other.as_ref()?.kernel.clone()],
            F::NoKernel => vec![],
            _ => vec![m.kernel.clone()],
        };
        let owner = Destination::PublicKey(key(m.terms.key).1);
        let right = TxOutput::ProduceBlockFromStake(owner.clone(), m.terms.id);
        let reward = match fault {
            F::RewardOtherPool => vec![TxOutput::ProduceBlockFromStake(owner, other.as_ref()?.terms.id)],
            F::RewardOtherKey => vec![TxOutput::ProduceBlockFromStake(Destination::PublicKey(key(99).1), m.terms.id)],
            F::RewardNone => vec![],
            F::RewardTwice => vec![right.clone(), right.clone()],
            F::RewardCoins => vec![locked(1)],
            _ => vec![right.clone()],
        };
        let ins: Vec<TxInput> = kernel.iter().map(|k| TxInput::Utxo(k.0.clone())).collect();
        let spent: Vec<TxOutput> = kernel.iter().map(|k| k.1.clone()).collect();
        let signer = if fault == F::WitnessOther { 99 } else { m.terms.key };
        let witness = (0..ins.len())
            .map(|i| {
                if fault == F::WitnessNone {
                    return InputWitness::NoSignature(None);
                }
                let commits = make_sighash_input_commitments_for_kernel_input_utxos(&spent);
                let over = if fault == F::WitnessElse { vec![right.clone(), right.clone()] } else { reward.clone() };
                let t = BlockRewardTransactable::new(Some(&ins), Some(&over), None);
                let hash = signature_hash(SigHashType::default(), &t, &commits, i).unwrap();
                let (sk, pk) = key(signer);
                let sig = sign_public_key_spending(&sk, &pk, &hash, &mut PredefinedSigAuxDataProvider).unwrap();
                InputWitness::Standard(StandardInputSignature::new(SigHashType::default(), sig.encode()))
            })
            .collect();
        let written = if fault == F::Bits { bits + 1 } else { bits };
        let data = match fault {
            F::NoStake => ConsensusData::None,
            _ => ConsensusData::PoS(Box::new(PoSData::new(ins, witness, named, proof, Compact(written)))),
        };
        let block = Block::new(txs, b.tip, BlockTimestamp::from_int_seconds(time), data, BlockReward::new(reward)).unwrap();
        let h = block.header().header().clone();
        let by = if fault == F::SignedByOther { 99 } else { m.terms.key };
        let header = if fault == F::NotSigned { h.with_no_signature() } else { signed(h.clone(), &h.encode(), by) };
        let block = Block::new_from_header(header, block.body().clone()).unwrap();
        // what follows from it
        let id: Id<GenBlock> = block.get_id().into();
        let total = self.config.block_subsidy_at_height(&BlockHeight::new(height)).into_atoms() + fees;
        let staker = &mut n.pools[who];
        if staker.open {
            let (own, each) = share(&staker.books, total, true)?;
            staker.books.earned += own;
            staker.books.balance += total;
            for (s, e) in staker.books.shares.iter_mut().zip(&each) {
                *s += e;
            }
            staker.used = Some(staker.kernel.clone());
            staker.kernel = (UtxoOutPoint::new(OutPointSourceId::BlockReward(id), 0), right);
        }
        n.trust += big(block.consensus_data().get_block_proof(BlockTimestamp::from_int_seconds(last), BlockTimestamp::from_int_seconds(time))?);
        n.tip = id;
        n.height = height;
        n.times.push(time);
        n.bits.push(bits);
        if (height + 1) % self.epoch == 0 {
            n.epochs.insert(epoch, hash);
        }
        Some((block, n))
    }

    /// everything the chainstate says about this branch's pools, against what was worked out
    fn compare(&self, c: &PartCtx, key: &dyn Fn() -> String, chain: &Chain, b: &Branch) {
        let got = guard(|| -> Result<(), String> {
            let e = |e: chainstate::ChainstateError| e.to_string();
            let eq = |what: String, ok: bool, got: String| if ok { Ok(()) } else { Err(format!("{what}: {got}")) };
            let tip = chain.get_best_block_index().map_err(e)?;
            eq("tip".into(), tip.block_id() == b.tip, format!("{:?}", tip.block_id()))?;
            eq("height".into(), u64::from(tip.block_height()) == b.height, format!("{:?}", tip.block_height()))?;
            eq("trust".into(), big(tip.chain_trust()) == b.trust, format!("{:?}, not {}", tip.chain_trust(), b.trust))?;
            for (i, m) in b.pools.iter().enumerate() {
                let id = m.terms.id;
                let balance = chain.get_stake_pool_balance(&id).map_err(e)?.map(|a| a.into_atoms());
                eq(format!("pool {i} exists"), chain.stake_pool_exists(&id).map_err(e)? == m.open, "".into())?;
                let want = m.open.then_some(m.books.balance);
                eq(format!("balance of pool {i}"), balance.filter(|b| m.open || *b != 0) == want, format!("{balance:?}, not {want:?}"))?;
                let data = chain.get_stake_pool_data(&id).map_err(e)?;
                let data = data.map(|d| (d.pledge_amount().into_atoms(), d.staker_rewards().into_atoms()));
                let want = m.open.then_some((m.books.pledge, m.books.earned));
                eq(format!("pledge and earnings of pool {i}"), data == want, format!("{data:?}, not {want:?}"))?;
                let shares = chain.get_stake_pool_delegations_shares(&id).map_err(e)?.unwrap_or_default();
                let shares: BTreeMap<_, _> = shares.into_iter().map(|(k, v)| (k, v.into_atoms())).filter(|x| x.1 != 0).collect();
                let want: BTreeMap<_, _> = m.delegations.iter().copied().zip(m.books.shares.iter().copied()).filter(|x| x.1 != 0).collect();
                eq(format!("shares of pool {i}"), shares == want, format!("{shares:?}, not {want:?}"))?;
                for (d, s) in m.delegations.iter().zip(&m.books.shares) {
                    let got = chain.get_stake_delegation_balance(d).map_err(e)?.map_or(0, |a| a.into_atoms());
                    eq(format!("a delegation to pool {i}"), got == *s, format!("{got}, not {s}"))?;
                }
                let kernel = chain.utxo(&m.kernel.0).map_err(e)?.map(|u| u.output().clone());
                eq(format!("what pool {i} may stake"), kernel == m.open.then(|| m.kernel.1.clone()), format!("{kernel:?}"))?;
                if let Some(u) = &m.used {
                    let spent = chain.utxo(&u.0).map_err(e)?;
                    eq(format!("what pool {i} staked"), spent.is_none(), "still there".into())?;
                }
            }
            for n in 0..=b.height / self.epoch {
                let got = chain.get_epoch_data(n).map_err(e)?.map(|d| d.randomness().value());
                // what is there of an epoch before it is over is nobody's business
                let over = (n + 1) * self.epoch - 1 <= b.height;
                eq(format!("randomness of epoch {n}"), !over || got == b.epochs.get(&n).copied(), format!("{got:?}"))?;
            }
            Ok(())
        });
        c.evals(1);
        match got {
            Ok(Ok(())) => {}
            Ok(Err(e)) | Err(e) => c.fail(key(), e),
        }
    }

    fn give(&self, chain: &mut Chain, block: &Block) -> Result<bool, String> {
        guard(|| chain.process_block(block.clone(), BlockSource::Local).map(|_| ()).map_err(|e| e.to_string())).map(|r| r.is_ok())
    }
}

struct Node {
    steps: Vec<Step>,
    blocks: Vec<Block>,
    /// the branch after each block, the genesis first
    path: Vec<Arc<Branch>>,
    image: Image,
}

impl Node {
    fn branch(&self) -> &Branch {
        self.path.last().unwrap()
    }
}

fn steps(pools: usize) -> Vec<Step> {
    use Step::*;
    let mut all = vec![By(0), By(1), Late(0), Fees(0), Delegate(0, 0), More(1, 0), Withdraw(0, 0), Leave(1, 0), Found(0), Close(0, 1), Close(0, 0)];
    if pools > 2 {
        all.extend([By(2), Fees(2), Delegate(2, 2), Close(1, 2)]);
    }
    all
}

/// every valid chain up to the depth, each compared as it grows, and each refusing every broken block
fn grow(c: &PartCtx, w: &World, depth: usize, faults: usize, few: bool) -> Vec<Node> {
    let mut all = vec![Node { steps: vec![], blocks: vec![], path: vec![Arc::new(w.first.clone())], image: w.start.clone() }];
    let mut from = 0;
    for level in 0..depth {
        let todo: Vec<(usize, Step)> = (from..all.len()).flat_map(|i| steps(all[i].branch().pools.len()).into_iter().filter(move |s| !few || FEW.contains(s)).map(move |s| (i, s))).collect();
        let made = Mutex::new(vec![]);
        c.par(todo.len(), |t| {
            let (i, step) = todo[t];
            let parent = &all[i];
            let key = || format!("epochs of {}, distance {}, version {}: {:?} then {step:?}", w.epoch, w.distance, w.version, parent.steps);
            let Some((block, branch)) = w.make(parent.branch(), step, Fault::None) else { return };
            let spy = Spy::of(&parent.image);
            let mut chain = match w.open(&spy) {
                Ok(x) => x,
                Err(e) => return c.fail(key(), e),
            };
            // a pool that is closed by a transaction of the block has nothing left to stake
            let fine = !matches!(step, Step::Close(a, b) if a == b);
            let got = guard(|| chain.process_block(block.clone(), BlockSource::Local).map(|_| ()).map_err(|e| e.to_string()));
            c.evals(1);
            c.transitions(1);
            if got.as_ref().map(|r| r.is_ok()) != Ok(fine) {
                return c.fail(key(), format!("{got:?}"));
            }
            if !fine {
                c.outcome("closed while it stakes");
                w.compare(c, &key, &chain, parent.branch());
                return;
            }
            c.nontrivial(1);
            c.outcome(format!("{step:?}").split('(').next().unwrap());
            w.compare(c, &key, &chain, &branch);
            drop(chain);
            let image = spy.image();
            if level < faults {
                for who in 0..branch.pools.len() {
                    for f in HEADER.into_iter().chain(BODY) {
                        let Some((bad, _)) = w.make(&branch, Step::By(who), f) else { continue };
                        let spy = Spy::of(&image);
                        let key = || format!("{}, then {f:?} by pool {who}", key());
                        let mut chain = match w.open(&spy) {
                            Ok(x) => x,
                            Err(e) => return c.fail(key(), e),
                        };
                        let got = w.give(&mut chain, &bad);
                        c.evals(1);
                        c.eq(&key, &got, &Ok(false));
                        w.compare(c, &key, &chain, &branch);
                        drop(chain);
                        let d = diff(&spy.image(), &image, &[BLOCKS, INDEX]);
                        if !d.is_empty() {
                            c.fail(key(), format!("a refused block left traces: {}", d.join("; ")));
                        }
                        c.outcome("broken");
                        if c.stop() {
                            return;
                        }
                    }
                }
            }
            let mut steps = parent.steps.clone();
            steps.push(step);
            let mut blocks = parent.blocks.clone();
            blocks.push(block);
            let mut path = parent.path.clone();
            path.push(Arc::new(branch));
            c.states(1);
            made.lock().unwrap().push((t, Node { steps, blocks, path, image }));
        });
        let mut made = made.into_inner().unwrap();
        made.sort_by_key(|m| m.0);
        from = all.len();
        all.extend(made.into_iter().map(|m| m.1));
    }
    all
}

fn same(got: &Image, want: &Image, b: &Branch, epoch: u64) -> Vec<String> {
    let mut d = diff(got, want, &[VALUES, BLOCKS, INDEX, EPOCHS, DELTA, DELTA_UNDO]);
    for m in [BLOCKS, INDEX] {
        let wrong = want[m].iter().filter(|(k, v)| got[m].get(*k) != Some(*v)).count();
        if wrong > 0 {
            d.push(format!("map {m}: {wrong} entries of the chain differ"));
        }
    }
    // an epoch that is not over may have been over on a branch left behind
    let over: Vec<Vec<u8>> = (0..(b.height + 1) / epoch).map(|e| e.encode()).collect();
    if over.iter().any(|k| got[EPOCHS].get(k) != want[EPOCHS].get(k)) {
        d.push("the randomness of an epoch differs".into());
    }
    d
}

/// the blocks of two branches in some order: the heavier one is the chain, and nothing is left of the other
fn rivals(c: &PartCtx, w: &World, a: &Node, b: &Node, order: &[bool], bad: bool) {
    let key = || format!("epochs of {}, distance {}, version {}: {:?} against {:?}, {order:?}", w.epoch, w.distance, w.version, a.steps, b.steps);
    let spy = Spy::of(&w.start);
    let mut chain = match w.open(&spy) {
        Ok(x) => x,
        Err(e) => return c.fail(key(), e),
    };
    let (mut tip, mut at) = ((0, 0), [0, 0]);
    for second in order {
        let s = usize::from(*second);
        let n = if *second { b } else { a };
        let got = w.give(&mut chain, &n.blocks[at[s]]);
        c.eq(|| format!("{}, block {} of {}", key(), at[s], if *second { "the second" } else { "the first" }), &got, &Ok(true));
        c.transitions(1);
        at[s] += 1;
        if [a, b][s].path[at[s]].trust > [a, b][tip.0].path[tip.1].trust {
            if tip.0 != s && tip.1 > 0 {
                c.outcome("reorganised");
                c.nontrivial(1);
            }
            tip = (s, at[s]);
        } else {
            c.outcome("kept aside");
        }
        if c.stop() {
            return;
        }
    }
    let (winner, loser) = if tip.0 == 1 { (b, a) } else { (a, b) };
    let full = tip.1 == winner.steps.len();
    let best = &*winner.path[tip.1];
    w.compare(c, &key, &chain, best);
    c.traces(1);
    if full {
        let d = same(&spy.image(), &winner.image, best, w.epoch);
        if !d.is_empty() {
            c.fail(key(), format!("something else than without the other branch: {}", d.join("; ")));
        }
    }
    // broken blocks on the branch left behind
    if bad {
        let image = spy.image();
        for f in HEADER {
            for who in 0..loser.branch().pools.len() {
                let Some((block, _)) = w.make(loser.branch(), Step::By(who), f) else { continue };
                let key = || format!("{}, then {f:?} by pool {who} aside", key());
                c.eq(&key, &w.give(&mut chain, &block), &Ok(false));
                c.evals(1);
                c.outcome("broken aside");
            }
        }
        w.compare(c, &key, &chain, best);
        drop(chain);
        let d = diff(&spy.image(), &image, &[BLOCKS, INDEX]);
        if !d.is_empty() {
            c.fail(key(), format!("refused blocks left traces: {}", d.join("; ")));
        }
    }
}

pub fn run(ctx: &Ctx) {
    let worlds: Vec<World> = [(2u64, 1u64, 1u32), (1, 1, 1), (3, 1, 0), (1, 2, 1)].map(|(e, d, v)| World::new(e, d, v)).into();
    ctx.part(
        "chains made by stake",
        "every sequence of steps up to the depth: blocks of each pool, later slots, fees, delegations funded and taken back, pools founded and closed; after each the books, the trust, the randomness of the epochs and what may be staked; and each way of breaking the next block, refused without a trace",
        |c| {
            for (i, w) in worlds.iter().enumerate() {
                let depth = if i == 0 { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
                let n = grow(c, w, depth, ctx.pick(2, 3), false).len();
                c.sample(|| format!("epochs of {}, distance {}, version {}: {n} chains", w.epoch, w.distance, w.version));
            }
        },
    );
    ctx.part(
        "which of two branches is the chain",
        "every pair of branches, their blocks in every order: the heavier is the chain, the first of equals stays, the books are those of a node that never saw the other, and broken blocks are refused on the branch left behind too",
        |c| {
            for (i, w) in worlds.iter().enumerate() {
                for few in [false, true] {
                    if ctx.quick() && few && i > 0 {
                        continue;
                    }
                    let depth = if few { ctx.pick(3, 4) } else { ctx.pick(2, 3) };
                    let most = if few { ctx.pick(6, 7) } else { ctx.pick(4, 5) };
                    let nodes: Vec<Node> = grow(c, w, depth, 0, few).into_iter().filter(|n| !n.steps.is_empty()).collect();
                    let mut pairs: Vec<(usize, usize)> = vec![];
                    for a in 0..nodes.len() {
                        for b in 0..nodes.len() {
                            let (x, y) = (nodes[a].steps.len(), nodes[b].steps.len());
                            if nodes[a].steps[0] != nodes[b].steps[0] && x + y <= most && (!few || x.min(y) >= ctx.pick(3, 2) && x.max(y) >= 3) {
                                pairs.push((a, b));
                            }
                        }
                    }
                    c.par(pairs.len(), |k| {
                        let (a, b) = (&nodes[pairs[k].0], &nodes[pairs[k].1]);
                        // the pair comes both ways round: the first branch always begins
                        let (x, y) = (a.steps.len(), b.steps.len());
                        let orders: Vec<Vec<bool>> = sequences(2, x + y)
                            .map(|s| s.iter().map(|n| *n == 1).collect::<Vec<bool>>())
                            .filter(|o| o.iter().filter(|n| **n).count() == y && !o[0])
                            .collect();
                        for (j, o) in orders.iter().enumerate() {
                            // the whole of the one and then the other, and by turns
                            let turns = (0..x.min(y)).all(|n| !o[2 * n] && o[2 * n + 1]);
                            if ctx.quick() && (i > 0 && j > 0 || few && !turns) {
                                continue;
                            }
                            rivals(c, w, a, b, o, j == 0 && k % 7 == 0);
                            if c.stop() {
                                return;
                            }
                        }
                    });
                }
            }
        },
    );
}
