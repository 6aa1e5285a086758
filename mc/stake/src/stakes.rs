//! Who may make the next block: the stake check against a table of what makes it pass.
use std::{collections::BTreeMap, convert::Infallible};

use chainstate_types::{EpochData, EpochStorageRead, pos_randomness::PoSRandomness};
use common::{
    Uint256,
    chain::{
        Block, ChainConfig, ChainstateUpgradeBuilder, ChainstateUpgradesBuilder, ConsensusUpgrade, Destination, GenBlock,
        NetUpgrades, OutPointSourceId, PoSChainConfig, PoSConsensusVersion, PoSStatus, PoolId,
        PoolIdMismatchInKernelUtxoAndPoSDataForbidden, RequiredConsensus, TxInput, TxOutput, UtxoOutPoint,
        block::{
            BlockReward, BlockRewardTransactable, ConsensusData,
            consensus_data::{PoSData, PoWData},
            signed_block_header::{BlockHeaderSignature, BlockHeaderSignatureData, SignedBlockHeader},
            timestamp::BlockTimestamp,
        },
        config::{Builder, ChainType},
        signature::inputsig::InputWitness,
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        output_value::OutputValue,
    },
    primitives::{Amount, BlockCount, BlockHeight, Compact, H256, Id, per_thousand::PerThousand},
};
use crypto::{
    key::{PredefinedSigAuxDataProvider, PrivateKey, PublicKey, secp256k1::Secp256k1PrivateKey},
    vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn, transcript::{no_rng::VRFTranscript, traits::SignableTranscript}},
};
use mc_kit::{Ctx, guard};
use num::BigUint;
use pos_accounting::{InMemoryPoSAccounting, PoSAccountingDB, PoolData};
use serialization::Encode;
use utxo::{Utxo, UtxosView};

use crate::target::{Line, big, compact, expand, index, small};

pub const COIN: u128 = 100_000_000_000;

pub fn key(n: u8) -> (PrivateKey, PublicKey) {
    let k: PrivateKey = Secp256k1PrivateKey::from_bytes(&[n; 32]).unwrap().into();
    let p = PublicKey::from_private_key(&k);
    (k, p)
}

pub fn vrf_key(n: u8) -> (VRFPrivateKey, VRFPublicKey) {
    VRFPrivateKey::new_using_random_bytes(&[n; 32], VRFKeyKind::Schnorrkel).unwrap()
}

pub fn transcript(epoch: u64, randomness: &H256, time: u64) -> VRFTranscript {
    VRFTranscript::new(b"MintlayerStakeVRF")
        .attach_raw_data(b"Randomness", randomness.as_bytes())
        .attach_u64(b"Slot", time)
        .attach_u64(b"EpochIndex", epoch)
}

/// the draw of this key for this slot, and its proof
pub fn draw(k: &(VRFPrivateKey, VRFPublicKey), epoch: u64, randomness: &H256, time: u64) -> (VRFReturn, H256) {
    let proof = k.0.produce_vrf_data(transcript(epoch, randomness, time));
    let VRFReturn::Schnorrkel(d) = &proof;
    let out: [u8; 32] = d
        .calculate_vrf_output_with_generic_key::<generic_array::typenum::U32, _>(k.1.clone(), transcript(epoch, randomness, time))
        .unwrap()
        .into();
    (proof, H256(out))
}

/// what a pool's stake counts for: a bonus grows with the part of it the staker pledges, up to the saturation
pub fn weight(pledge: &BigUint, balance: &BigUint, supply: &BigUint) -> Option<BigUint> {
    let nil = BigUint::from(0u32);
    let z = supply / 1000u32;
    if balance >= supply || pledge > balance || z == nil {
        return None;
    }
    let (sigma, s) = (balance.min(&z).clone(), pledge.min(&z).clone());
    // sigma - a/(1+a) * (sigma - s (z sigma - s (z - sigma)) / z^2)
    let (p, q) = (BigUint::from(75_375_728u32), BigUint::from(1_075_375_728u32));
    let zz = &z * &z;
    let top = &sigma * &zz - (&z * &sigma - (&z - &sigma) * &s) * &s;
    Some(&sigma - top * p / (q * zz))
}

pub fn beats(version: u32, hash: &BigUint, target: &BigUint, pledge: u128, balance: u128, supply: u128) -> bool {
    let b = BigUint::from(balance);
    match version {
        0 => *hash <= b * target,
        1 => weight(&pledge.into(), &b, &supply.into()).is_some_and(|w| *hash <= w * target),
        _ => false,
    }
}

pub fn version(n: u32) -> PoSConsensusVersion {
    match n {
        0 => PoSConsensusVersion::V0,
        1 => PoSConsensusVersion::V1,
        n => serialization::DecodeAll::decode_all(&mut &n.encode()[..]).unwrap(),
    }
}

fn balances(ctx: &Ctx) {
    ctx.part("what a stake counts for", "pledges, balances and supplies at their borders, the saturation among them", |c| {
        let supplies = [0u128, 1, 999, 1000, 1001, 5000, 1_000_000, 600_000_000 * COIN, 1 << 80];
        c.par(supplies.len(), |i| {
            let f = supplies[i];
            let z = f / 1000;
            let mut all: Vec<u128> = vec![0, 1, 2, 3, 7, z / 3, z / 2, z.saturating_sub(1), z, z + 1, z * 2, f / 2, f.saturating_sub(1), f, f + 1];
            for n in 0..40u32 {
                all.push(z * u128::from(n) / 37);
            }
            all.sort_unstable();
            all.dedup();
            for pledge in &all {
                let mut last: Option<(u128, u128)> = None;
                for balance in &all {
                    let got = guard(|| consensus::calculate_effective_pool_balance(Amount::from_atoms(*pledge), Amount::from_atoms(*balance), Amount::from_atoms(f)).ok());
                    let want = weight(&(*pledge).into(), &(*balance).into(), &f.into()).map(|w| Amount::from_atoms(w.try_into().unwrap()));
                    let k = || format!("pledge {pledge} of {balance} with supply {f}");
                    c.eq(k, &got, &Ok(want));
                    c.evals(1);
                    c.nontrivial(u64::from(want.is_some()));
                    let Ok(Some(w)) = got else { continue };
                    let w = w.into_atoms();
                    if w > *balance || w > z {
                        c.fail(k(), format!("counts for {w}"));
                    }
                    if let Some((b, l)) = last
                        && w + 1 < l
                    {
                        c.fail(k(), format!("counts for {w}, and a balance of {b} for {l}"));
                    }
                    last = Some((*balance, w));
                    // the hash that just passes and the one that just does not
                    for t in [1u32, 0x0100_8000, 0x0412_3456, 0x1a00_ffff, 0x1d7f_ffff, 0x2100_ffff].map(expand) {
                        for (v, by) in [(0, *balance), (1, w)] {
                            let border = BigUint::from(by) * &t;
                            let mut hashes = vec![BigUint::from(0u32), big(Uint256::MAX), &border + 1u32, border.clone()];
                            if border > BigUint::from(0u32) {
                                hashes.push(&border - 1u32);
                            }
                            for h in hashes.iter().filter_map(small) {
                                let got = guard(|| {
                                    consensus::check_pos_hash(version(v), &h, &small(&t).unwrap(), Amount::from_atoms(*pledge), Amount::from_atoms(*balance), Amount::from_atoms(f)).is_ok()
                                });
                                let want = big(h) <= border;
                                c.eq(|| format!("{} hash {h:?} target {t} version {v}", k()), &got, &Ok(want));
                                c.evals(1);
                                c.outcome(if want { "passes" } else { "fails" });
                            }
                        }
                    }
                }
            }
        });
        let any = Amount::from_atoms(5);
        for v in [2, 3, 77, u32::MAX] {
            c.eq(|| format!("version {v}"), &guard(|| consensus::check_pos_hash(version(v), &Uint256::ZERO, &Uint256::MAX, any, any, Amount::from_atoms(1 << 60)).is_ok()), &Ok(false));
        }
    });
}

struct Coins(BTreeMap<UtxoOutPoint, TxOutput>);

impl UtxosView for Coins {
    type Error = Infallible;
    fn utxo(&self, o: &UtxoOutPoint) -> Result<Option<Utxo>, Infallible> {
        Ok(self.0.get(o).map(|o| Utxo::new_for_blockchain(o.clone(), BlockHeight::new(1))))
    }
    fn has_utxo(&self, o: &UtxoOutPoint) -> Result<bool, Infallible> {
        Ok(self.0.contains_key(o))
    }
    fn best_block_hash(&self) -> Result<Id<GenBlock>, Infallible> {
        Ok(H256::zero().into())
    }
    fn estimated_size(&self) -> Option<usize> {
        None
    }
}

struct Epochs(BTreeMap<u64, H256>);

impl EpochStorageRead for Epochs {
    fn get_epoch_data(&self, e: u64) -> chainstate_types::storage_result::Result<Option<EpochData>> {
        Ok(self.0.get(&e).map(|r| EpochData::new(PoSRandomness::new(*r))))
    }
}

/// the setting: how high the chain is, which rules hold, what is known of the epochs
#[derive(Clone, Copy, Debug)]
struct Setting {
    height: u64,
    version: u32,
    strict: bool,
    epochs: bool,
}

const BITS: u32 = 0x1a08_0000;
const LENGTH: u64 = 3;

struct Place {
    s: Setting,
    cfg: ChainConfig,
    accounts: InMemoryPoSAccounting,
    coins: Coins,
    epochs: Epochs,
    vrfs: [(VRFPrivateKey, VRFPublicKey); 3],
    pools: [PoolId; 3],
    stakes: [(u128, u128); 2],
    kernels: Vec<(&'static str, Vec<TxInput>)>,
    bits: u32,
}

const STAKER: u8 = 11;
const OTHER: u8 = 12;

fn at(n: u8) -> UtxoOutPoint {
    UtxoOutPoint::new(OutPointSourceId::Transaction(H256::repeat_byte(n).into()), 0)
}

impl Place {
    fn new(s: Setting) -> Self {
        Self::with(s, BITS)
    }

    fn with(s: Setting, bits: u32) -> Self {
        let pos = PoSChainConfig::new(Uint256::MAX, BlockCount::new(1), 3, PerThousand::new(100).unwrap(), version(s.version));
        let list = vec![
            (BlockHeight::new(0), ConsensusUpgrade::IgnoreConsensus),
            (BlockHeight::new(1), ConsensusUpgrade::PoS { initial_difficulty: Some(Compact(bits)), config: pos }),
        ];
        let loose = ChainstateUpgradeBuilder::latest()
            .pool_id_mismatch_in_kernel_input_utxo_and_pos_data_forbidden(PoolIdMismatchInKernelUtxoAndPoSDataForbidden::No)
            .build();
        // the strict rule is in force from the height in question, or only after it
        let from = if s.strict { s.height } else { s.height + 1 };
        let upgrades = ChainstateUpgradesBuilder::new(loose)
            .then(BlockHeight::new(from), |b| {
                b.pool_id_mismatch_in_kernel_input_utxo_and_pos_data_forbidden(PoolIdMismatchInKernelUtxoAndPoSDataForbidden::Yes)
            })
            .build();
        let cfg = Builder::new(ChainType::Regtest)
            .consensus_upgrades(NetUpgrades::initialize(list).unwrap())
            .chainstate_upgrades(upgrades)
            .epoch_length(LENGTH.try_into().unwrap())
            .sealed_epoch_distance_from_tip(1)
            .build();
        let pools = [1, 2, 3].map(|n| PoolId::new(H256::repeat_byte(n)));
        let vrfs = [21, 22, 23].map(vrf_key);
        let stakes = [(30_000 * COIN, 50_000 * COIN), (40_000 * COIN, 40_000 * COIN)];
        let mut data = BTreeMap::new();
        let mut held = BTreeMap::new();
        for i in 0..2 {
            // the pledge is partly what it was made with, partly what it earned
            let earned = stakes[i].0 / 3;
            data.insert(
                pools[i],
                PoolData::new(Destination::AnyoneCanSpend, Amount::from_atoms(stakes[i].0 - earned), Amount::from_atoms(earned), vrfs[i].1.clone(), PerThousand::new(100).unwrap(), Amount::ZERO),
            );
            held.insert(pools[i], Amount::from_atoms(stakes[i].1));
        }
        let accounts = InMemoryPoSAccounting::from_values(data, held, BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        let pk = |n| Destination::PublicKey(key(n).1);
        let pkh = Destination::PublicKeyHash((&key(STAKER).1).into());
        let made = |d: Destination| StakePoolData::new(Amount::from_atoms(1), d, vrfs[2].1.clone(), Destination::AnyoneCanSpend, PerThousand::new(1).unwrap(), Amount::ZERO);
        let value = || OutputValue::Coin(Amount::from_atoms(1000));
        let produce = |d, p: usize| TxOutput::ProduceBlockFromStake(d, pools[p]);
        let outs: Vec<(&'static str, TxOutput)> = vec![
            ("the pool itself", TxOutput::CreateStakePool(pools[0], Box::new(made(pk(STAKER))))),
            ("a block of the pool", produce(pk(STAKER), 0)),
            ("a block of the other pool", produce(pk(STAKER), 1)),
            ("the other pool itself", TxOutput::CreateStakePool(pools[1], Box::new(made(pk(STAKER))))),
            ("a block of another staker", produce(pk(OTHER), 0)),
            ("a block of a key hash", produce(pkh, 0)),
            ("a block of anyone", produce(Destination::AnyoneCanSpend, 0)),
            ("a block of a script", produce(Destination::ScriptHash(Id::new(H256::repeat_byte(4))), 0)),
            ("coins", TxOutput::Transfer(value(), pk(STAKER))),
            ("locked coins", TxOutput::LockThenTransfer(value(), pk(STAKER), OutputTimeLock::ForBlockCount(1))),
            ("burned coins", TxOutput::Burn(value())),
            ("a delegation", TxOutput::CreateDelegationId(pk(STAKER), pools[0])),
            ("delegated coins", TxOutput::DelegateStaking(Amount::from_atoms(1), H256::repeat_byte(5).into())),
            ("data", TxOutput::DataDeposit(vec![1])),
        ];
        let mut coins = BTreeMap::new();
        let mut kernels = vec![];
        for (i, (name, o)) in outs.into_iter().enumerate() {
            coins.insert(at(100 + i as u8), o);
            kernels.push((name, vec![TxInput::Utxo(at(100 + i as u8))]));
        }
        kernels.push(("nothing", vec![]));
        kernels.push(("a spent output", vec![TxInput::Utxo(at(99))]));
        kernels.push(("two outputs", vec![TxInput::Utxo(at(100)), TxInput::Utxo(at(101))]));
        kernels.push(("the same twice", vec![TxInput::Utxo(at(100)), TxInput::Utxo(at(100))]));
        kernels.push(("an account", vec![TxInput::from_account(common::chain::AccountNonce::new(0), common::chain::AccountSpending::DelegationBalance(H256::repeat_byte(5).into(), Amount::from_atoms(1)))]));
        let epochs = if s.epochs { (0..9).map(|e| (e, H256::repeat_byte(50 + e as u8))).collect() } else { BTreeMap::new() };
        Self { s, bits, cfg, accounts, coins: Coins(coins), epochs: Epochs(epochs), vrfs, pools, stakes, kernels }
    }

    /// the randomness the block at this height is drawn from
    fn randomness(&self) -> H256 {
        let complete = (self.s.height + 1) / LENGTH;
        complete.checked_sub(2).and_then(|e| self.epochs.0.get(&e).copied()).unwrap_or(self.cfg.initial_randomness())
    }

    fn line(&self) -> (Line<'_>, Vec<u64>) {
        let t0 = self.cfg.genesis_block().timestamp().as_int_seconds();
        let mut line = Line { config: &self.cfg, blocks: vec![] };
        let mut times = vec![t0];
        for h in 1..self.s.height {
            let prev = line.blocks.last().map_or(self.cfg.genesis_block_id(), |b| (*b.block_id()).into());
            let t = t0 + h * 120;
            let data = ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], self.pools[0], crate::target::vrf(), Compact(self.bits))));
            line.blocks.push(index(prev, h, t, data));
            times.push(t);
        }
        (line, times)
    }

    fn status(&self) -> PoSStatus {
        match self.cfg.consensus_upgrades().consensus_status(BlockHeight::new(self.s.height)) {
            RequiredConsensus::PoS(s) => s,
            _ => unreachable!(),
        }
    }

    fn supply(&self) -> u128 {
        self.cfg.final_supply().unwrap().to_amount_atoms().into_atoms()
    }

    fn check(&self, line: &Line<'_>, h: &SignedBlockHeader) -> Result<Result<(), String>, String> {
        guard(|| consensus::validate_consensus(&self.cfg, h, line, &self.epochs, &self.coins, &PoSAccountingDB::new(&self.accounts)).map_err(|e| e.to_string()))
    }
}

pub fn signed(h: common::chain::block::BlockHeader, over: &[u8], by: u8) -> SignedBlockHeader {
    let sig = key(by).0.sign_message(over, &mut PredefinedSigAuxDataProvider).unwrap();
    h.with_signature(BlockHeaderSignature::HeaderSignature(BlockHeaderSignatureData::new(sig)))
}

fn table(ctx: &Ctx) {
    let mut settings = vec![];
    for height in ctx.pick(vec![1, 2, 3, 5, 6], (1..=10).collect()) {
        for version in [0, 1, 2] {
            for strict in [true, false] {
                for epochs in [true, false] {
                    settings.push(Setting { height, version, strict, epochs });
                }
            }
        }
    }
    ctx.part(
        "who may make the next block",
        "every combination of target, time, kernel, pool named, proof, signature and kind of data, at each height, under each rule, with and without epochs known",
        |c| {
            c.par(settings.len(), |i| {
                let p = Place::new(settings[i]);
                let (line, times) = p.line();
                let prev: Id<GenBlock> = line.blocks.last().map_or(p.cfg.genesis_block_id(), |b| (*b.block_id()).into());
                let last = *times.last().unwrap();
                let epoch = p.s.height / LENGTH;
                let seed = p.randomness();
                let target = expand(BITS);
                for pool in 0..3usize {
                    let stake = p.stakes[pool.min(1)];
                    let wins = |t: u64| {
                        let h: Uint256 = draw(&p.vrfs[pool], epoch, &seed, t).1.into();
                        beats(if p.s.version == 2 { 1 } else { p.s.version }, &big(h), &target, stake.0, stake.1, p.supply())
                    };
                    let good = (last + 1..).take(200).find(|t| wins(*t));
                    let bad = (last + 1..).take(200).find(|t| !wins(*t));
                    let (Some(good), Some(bad)) = (good, bad) else {
                        c.fail(format!("{:?}", p.s), "no slot wins, or all do: the table would show nothing");
                        return;
                    };
                    for (tn, t) in [("won", good), ("lost", bad), ("no later", last), ("earlier", last - 1)] {
                        for (pn, proof) in [
                            ("right", draw(&p.vrfs[pool], epoch, &seed, t).0),
                            ("of another epoch", draw(&p.vrfs[pool], epoch + 1, &seed, t).0),
                            ("of another randomness", draw(&p.vrfs[pool], epoch, &H256::repeat_byte(9), t).0),
                            ("of another slot", draw(&p.vrfs[pool], epoch, &seed, t + 1).0),
                            ("of another key", draw(&p.vrfs[(pool + 1) % 3], epoch, &seed, t).0),
                        ] {
                            for (bn, bits) in [("right", BITS), ("off", BITS + 1)] {
                                for (kn, kernel) in &p.kernels {
                                    let pos = PoSData::new(kernel.clone(), vec![InputWitness::NoSignature(None); kernel.len()], p.pools[pool], proof.clone(), Compact(bits));
                                    let make = |d: ConsensusData, t: u64| Block::new(vec![], prev, BlockTimestamp::from_int_seconds(t), d, BlockReward::new(vec![])).unwrap().header().header().clone();
                                    let h = make(ConsensusData::PoS(Box::new(pos)), t);
                                    for sn in ["of the staker", "of another", "over another header", "missing"] {
                                        let full = match sn {
                                            "of the staker" => signed(h.clone(), &h.encode(), STAKER),
                                            "of another" => signed(h.clone(), &h.encode(), OTHER),
                                            "over another header" => {
                                                let mut o = h.clone();
                                                o.update_timestamp(BlockTimestamp::from_int_seconds(t + 1));
                                                signed(h.clone(), &o.encode(), STAKER)
                                            }
                                            _ => h.clone().with_no_signature(),
                                        };
                                        let right_pool = match *kn {
                                            "the pool itself" | "a block of the pool" => pool == 0 || (!p.s.strict && pool == 1),
                                            "a block of the other pool" | "the other pool itself" => pool == 1 || (!p.s.strict && pool == 0),
                                            "a block of another staker" => pool == 0 || (!p.s.strict && pool == 1),
                                            _ => false,
                                        };
                                        let right_key = match *kn {
                                            "a block of another staker" => sn == "of another",
                                            _ => sn == "of the staker",
                                        };
                                        let want = right_pool && right_key && tn == "won" && pn == "right" && bn == "right" && p.s.version < 2;
                                        let got = p.check(&line, &full).map(|r| r.is_ok());
                                        c.eq(
                                            || format!("{:?}: slot {tn}, proof {pn}, target {bn}, kernel {kn}, names pool {pool}, signature {sn}", p.s),
                                            &got,
                                            &Ok(want),
                                        );
                                        c.evals(1);
                                        c.nontrivial(u64::from(want));
                                        c.outcome(if want { "taken" } else { "refused" });
                                        if c.stop() {
                                            return;
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
                // other kinds of data
                for d in [ConsensusData::None, ConsensusData::PoW(Box::new(PoWData::new(Compact(BITS), 0)))] {
                    let h = Block::new(vec![], prev, BlockTimestamp::from_int_seconds(last + 5), d, BlockReward::new(vec![])).unwrap().header().header().clone();
                    let full = signed(h.clone(), &h.encode(), STAKER);
                    c.eq(|| format!("{:?} no stake data", p.s), &p.check(&line, &full).map(|r| r.is_ok()), &Ok(false));
                    c.evals(1);
                }
                c.states(1);
            });
        },
    );
}

/// the target at which a slot begins to win, and the one just below
fn borders(ctx: &Ctx) {
    let mut settings = vec![];
    for height in ctx.pick(vec![1, 3, 5], (1..=8).collect()) {
        for version in [0, 1] {
            settings.push(Setting { height, version, strict: true, epochs: true });
        }
    }
    ctx.part("the weakest target that wins", "each slot of a range at each height: the least target that its draw and the pool's stake meet is enough, the one below is not", |c| {
        c.par(settings.len(), |i| {
            let s = settings[i];
            let p = Place::new(s);
            let (_, times) = p.line();
            let last = *times.last().unwrap();
            for pool in 0..2usize {
                let stake = p.stakes[pool];
                for t in last + 1..=last + ctx.pick(12, 100) {
                    let (proof, hash) = draw(&p.vrfs[pool], s.height / LENGTH, &p.randomness(), t);
                    let hash = big(Uint256::from(hash));
                    let w = match s.version {
                        0 => BigUint::from(stake.1),
                        _ => weight(&stake.0.into(), &stake.1.into(), &p.supply().into()).unwrap(),
                    };
                    let least = (&hash + &w - 1u32) / &w;
                    let mut bits = compact(&least);
                    if expand(bits) < least {
                        bits += 1;
                    }
                    for (bits, want) in [(bits, true), (bits - 1, false), (bits + 1, true)] {
                        if bits & 0x80_0000 != 0 {
                            continue;
                        }
                        let p = Place::with(s, bits);
                        let (line, _) = p.line();
                        let prev: Id<GenBlock> = line.blocks.last().map_or(p.cfg.genesis_block_id(), |b| (*b.block_id()).into());
                        // from the second block on the target follows the chain: all spacings are kept
                        let kernel = p.kernels[if pool == 0 { 1 } else { 2 }].1.clone();
                        let pos = PoSData::new(kernel, vec![InputWitness::NoSignature(None)], p.pools[pool], proof.clone(), Compact(bits));
                        let b = Block::new(vec![], prev, BlockTimestamp::from_int_seconds(t), ConsensusData::PoS(Box::new(pos)), BlockReward::new(vec![])).unwrap();
                        let h = b.header().header().clone();
                        let full = signed(h.clone(), &h.encode(), STAKER);
                        c.eq(|| format!("{s:?}: pool {pool}, slot {}, target {bits:08x}", t - last), &p.check(&line, &full).map(|r| r.is_ok()), &Ok(want));
                        c.evals(1);
                        c.nontrivial(1);
                        c.outcome(if want { "enough" } else { "too little" });
                    }
                    if c.stop() {
                        return;
                    }
                }
            }
            c.states(1);
        });
    });
}

fn producer(ctx: &Ctx) {
    let mut settings = vec![];
    for height in [1, 2, 4, 6, 8] {
        for version in [0, 1] {
            settings.push(Setting { height, version, strict: true, epochs: true });
        }
    }
    ctx.part(
        "what the producer makes, the validator takes",
        "each range of slots up to the bound: the first slot that wins is found, the block passes the check with its reward claimed, and without one there is no block",
        |c| {
            let span = ctx.pick(7u64, 16);
            c.par(settings.len(), |i| {
                let p = Place::new(settings[i]);
                let (line, times) = p.line();
                let last = *times.last().unwrap();
                let prev = line.blocks.last().cloned().map_or(chainstate_types::GenBlockIndex::genesis(&p.cfg), |b| b.into_gen_block_index());
                let epoch = p.s.height / LENGTH;
                let seed = p.randomness();
                let (pledge, balance) = p.stakes[0];
                let target = expand(BITS);
                for from in last + 1..last + span {
                    for to in from..last + span {
                        let wins = |t: &u64| {
                            let h: Uint256 = draw(&p.vrfs[0], epoch, &seed, *t).1.into();
                            beats(p.s.version, &big(h), &target, pledge, balance, p.supply())
                        };
                        let want = (from..=to).find(wins);
                        let run = || -> Result<(Option<SignedBlockHeader>, u64), String> {
                            let kernel = p.kernels[1].1.clone();
                            let kernel_out = p.coins.0[&at(101)].clone();
                            let input = consensus::PoSGenerateBlockInputData::new(key(STAKER).0, p.vrfs[0].0.clone(), p.pools[0], kernel.clone(), vec![kernel_out.clone()]);
                            let seed = PoSRandomness::new(seed);
                            let (data, reward) = consensus::generate_pos_consensus_data_and_reward(
                                &p.cfg,
                                &prev,
                                &input,
                                &p.status(),
                                seed,
                                BlockTimestamp::from_int_seconds(from),
                                BlockHeight::new(p.s.height),
                                |b, h| Ok(chainstate_types::BlockIndexHandle::get_ancestor(&line, b, h).unwrap()),
                                &mut PredefinedSigAuxDataProvider,
                            )
                            .map_err(|e| e.to_string())?;
                            // the kernel may be spent by this reward and by no other
                            let outs = reward.outputs().to_vec();
                            if outs != [TxOutput::ProduceBlockFromStake(Destination::PublicKey(key(STAKER).1), p.pools[0])] {
                                return Err(format!("the reward is {outs:?}"));
                            }
                            let other = [TxOutput::ProduceBlockFromStake(Destination::PublicKey(key(OTHER).1), p.pools[0])];
                            let commits = common::chain::signature::sighash::input_commitments::make_sighash_input_commitments_for_kernel_input_utxos(std::slice::from_ref(&kernel_out));
                            for (o, good) in [(&outs[..], true), (&other[..], false)] {
                                let t = BlockRewardTransactable::new(Some(&kernel), Some(o), None);
                                let InputWitness::Standard(w) = &data.kernel_witness()[0] else { return Err("no witness".into()) };
                                let hash = common::chain::signature::sighash::signature_hash(w.sighash_type(), &t, &commits, 0).unwrap();
                                let ok = w.verify_signature(&p.cfg, &Destination::PublicKey(key(STAKER).1), &hash).is_ok();
                                if ok != good {
                                    return Err(format!("the kernel's signature for the reward {o:?} verifies: {ok}"));
                                }
                            }
                            let block = Block::new(vec![], prev.block_id(), BlockTimestamp::from_int_seconds(from), ConsensusData::PoS(Box::new(data)), reward).unwrap();
                            let mut h = block.header().header().clone();
                            let mut t = BlockTimestamp::from_int_seconds(from);
                            let fin = consensus::PoSFinalizeBlockInputData::new(key(STAKER).0, p.vrfs[0].0.clone(), epoch, seed, Amount::from_atoms(pledge), Amount::from_atoms(balance));
                            let got = consensus::finalize_consensus_data(
                                &p.cfg,
                                &mut h,
                                BlockHeight::new(p.s.height - 1),
                                &mut t,
                                BlockTimestamp::from_int_seconds(to),
                                std::sync::Arc::new(utils::atomics::RelaxedAtomicBool::new(false)),
                                consensus::FinalizeBlockInputData::PoS(fin),
                                &mut PredefinedSigAuxDataProvider,
                            );
                            match got {
                                Ok(h) => {
                                    if let Err(e) = p.check(&line, &h)? {
                                        return Err(format!("the validator refuses it: {e}"));
                                    }
                                    Ok((Some(h), t.as_int_seconds()))
                                }
                                Err(consensus::ConsensusCreationError::StakingFailed) => Ok((None, t.as_int_seconds())),
                                Err(e) => Err(e.to_string()),
                            }
                        };
                        let got = guard(run).and_then(|r| r).map(|(h, t)| (h.map(|h| h.timestamp().as_int_seconds()), t));
                        c.eq(|| format!("{:?} slots {from} to {to}", p.s), &got, &Ok((want, want.unwrap_or(to))));
                        c.evals(1);
                        c.nontrivial(u64::from(want.is_some()));
                        c.outcome(if want.is_some() { "made" } else { "none" });
                    }
                }
                // no slots at all
                let none = guard(|| {
                    consensus::find_timestamp_for_staking(
                        p.cfg.final_supply().unwrap(),
                        p.status().get_chain_config(),
                        Compact(BITS),
                        BlockTimestamp::from_int_seconds(last + 5),
                        BlockTimestamp::from_int_seconds(last + 4),
                        &PoSRandomness::new(seed),
                        epoch,
                        Amount::from_atoms(pledge),
                        Amount::from_atoms(balance),
                        &p.vrfs[0].0,
                        &mut randomness::make_true_rng(),
                    )
                    .is_err()
                });
                c.eq(|| format!("{:?} an empty range", p.s), &none, &Ok(true));
            });
        },
    );
}

pub fn run(ctx: &Ctx) {
    balances(ctx);
    table(ctx);
    borders(ctx);
    producer(ctx);
}
