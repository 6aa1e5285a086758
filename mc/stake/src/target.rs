//! The difficulty rules, recomputed with big numbers from the timestamps alone.
use std::{cell::RefCell, collections::BTreeMap};

use chainstate_types::{BlockIndex, BlockIndexHandle, BlockStatus, GenBlockIndex, PropertyQueryError};
use common::{
    Uint256,
    chain::{
        Block, ChainConfig, ConsensusUpgrade, GenBlock, NetUpgrades, PoSChainConfig, PoSConsensusVersion, PoSStatus, PoWStatus,
        PoolId, RequiredConsensus,
        block::{
            BlockReward, ConsensusData,
            consensus_data::{PoSData, PoWData},
            timestamp::BlockTimestamp,
        },
        config::{Builder, ChainType},
    },
    primitives::{BlockCount, BlockHeight, Compact, H256, Id, Idable, per_thousand::PerThousand},
};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFReturn, transcript::no_rng::VRFTranscript};
use mc_kit::{Ctx, PartCtx, guard, sequences};
use num::BigUint;

pub fn big(x: Uint256) -> BigUint {
    x.0.iter().rev().fold(BigUint::from(0u32), |a, w| (a << 64usize) + *w)
}

pub fn small(x: &BigUint) -> Option<Uint256> {
    let d = x.to_u64_digits();
    (d.len() <= 4).then(|| {
        let mut w = [0; 4];
        w[..d.len()].copy_from_slice(&d);
        Uint256(w)
    })
}

pub fn one() -> BigUint {
    BigUint::from(1u32)
}

/// three leading bytes and how many bytes the number has, the top bit of the first byte being left free
pub fn compact(x: &BigUint) -> u32 {
    let mut b = x.to_bytes_be();
    if b == [0] {
        b.clear();
    }
    if b.first().is_some_and(|f| *f >= 0x80) {
        b.insert(0, 0);
    }
    let size = b.len() as u32;
    b.resize(3.max(b.len()), 0);
    size << 24 | u32::from(b[0]) << 16 | u32::from(b[1]) << 8 | u32::from(b[2])
}

pub fn expand(c: u32) -> BigUint {
    let (size, word) = (c >> 24, BigUint::from(c & 0x7f_ffff));
    if size <= 3 { word >> (8 * (3 - size) as usize) } else { word << (8 * (size - 3) as usize) }
}

pub fn vrf() -> VRFReturn {
    let sk = VRFPrivateKey::new_using_random_bytes(&[7; 32], VRFKeyKind::Schnorrkel).unwrap().0;
    sk.produce_vrf_data(VRFTranscript::new(b"any"))
}

pub fn index(prev: Id<GenBlock>, height: u64, time: u64, data: ConsensusData) -> BlockIndex {
    let t = BlockTimestamp::from_int_seconds(time);
    let block = Block::new(vec![], prev, t, data, BlockReward::new(vec![])).unwrap();
    BlockIndex::new(&block, Uint256::ZERO, prev, BlockHeight::new(height), t, 0, BlockStatus::new())
}

/// one line of blocks above the genesis
pub struct Line<'a> {
    pub config: &'a ChainConfig,
    pub blocks: Vec<BlockIndex>,
}

impl Line<'_> {
    fn at(&self, h: u64) -> Option<GenBlockIndex> {
        if h == 0 {
            return Some(GenBlockIndex::genesis(self.config));
        }
        self.blocks.iter().find(|b| u64::from(b.block_height()) == h).cloned().map(BlockIndex::into_gen_block_index)
    }
}

impl BlockIndexHandle for Line<'_> {
    fn get_block_index(&self, id: &Id<Block>) -> Result<Option<BlockIndex>, PropertyQueryError> {
        Ok(self.blocks.iter().find(|b| b.block_id() == id).cloned())
    }
    fn get_gen_block_index(&self, id: &Id<GenBlock>) -> Result<Option<GenBlockIndex>, PropertyQueryError> {
        Ok(if *id == self.config.genesis_block_id() {
            Some(GenBlockIndex::genesis(self.config))
        } else {
            self.blocks.iter().find(|b| Id::<GenBlock>::from(*b.block_id()) == *id).cloned().map(BlockIndex::into_gen_block_index)
        })
    }
    fn get_ancestor(&self, _of: &BlockIndex, h: BlockHeight) -> Result<GenBlockIndex, PropertyQueryError> {
        Ok(self.at(h.into()).expect("an ancestor within the chain"))
    }
    fn get_block_reward(&self, _: &BlockIndex) -> Result<Option<BlockReward>, PropertyQueryError> {
        unreachable!()
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Rule {
    pub limit: Uint256,
    pub count: usize,
    pub swing: u16,
    pub first: Option<u32>,
    /// where proof of stake begins
    pub from: u64,
    pub spacing: u64,
}

impl Rule {
    fn config(&self) -> ChainConfig {
        let pos = PoSChainConfig::new(
            self.limit,
            BlockCount::new(1),
            self.count,
            PerThousand::new(self.swing).unwrap(),
            PoSConsensusVersion::V1,
        );
        let mut list = vec![(BlockHeight::new(self.from), ConsensusUpgrade::PoS { initial_difficulty: self.first.map(Compact), config: pos })];
        if self.from > 0 {
            list.push((BlockHeight::new(0), ConsensusUpgrade::IgnoreConsensus));
        }
        Builder::new(ChainType::Regtest)
            .consensus_upgrades(NetUpgrades::initialize(list).unwrap())
            .target_block_spacing(std::time::Duration::from_secs(self.spacing))
            .build()
    }

    /// the target after blocks with these times (the genesis first) and targets
    pub fn target(&self, times: &[u64], bits: &[u32]) -> Option<u32> {
        let prev = times.len() as u64 - 1;
        let next = prev + 1;
        if let Some(d) = self.first.filter(|_| next == self.from || prev == self.from) {
            return Some(d);
        }
        if prev == 0 {
            return Some(compact(&big(self.limit)));
        }
        if prev < self.from {
            // the block below is no proof of stake block, which only a configuration without a first target has
            return None;
        }
        let start = prev.saturating_sub(self.count as u64 - 1);
        let average = ((times[prev as usize] - times[start as usize]) / (prev - start)).max(1);
        let old = expand(*bits.last().unwrap());
        let swing = &old * self.swing / 1000u32;
        let (low, high) = (&old - &swing, &old + &swing);
        let mut new = &old * average / self.spacing;
        new = new.clamp(low, high).min(big(self.limit));
        Some(compact(&new))
    }
}

fn walk(c: &PartCtx, r: &Rule, cfg: &ChainConfig, proof: &VRFReturn, gaps: &[u64], depth: usize, line: &mut Line, times: &mut Vec<u64>, bits: &mut Vec<u32>) {
    if c.stop() {
        return;
    }
    let next = times.len() as u64;
    let prev_id = line.blocks.last().map_or(cfg.genesis_block_id(), |b| (*b.block_id()).into());
    let mut mine = 0;
    if next >= r.from
        && let RequiredConsensus::PoS(status) = cfg.consensus_upgrades().consensus_status(BlockHeight::new(next))
        && let Some(want) = r.target(times, bits)
    {
        let key = || format!("{r:?} after times {:?}", &times[1..]);
        let got = guard(|| consensus::calculate_target_required(cfg, &status, prev_id, line).map_err(|e| e.to_string()));
        c.eq(|| key() + " from the id", &got, &Ok(Ok(Compact(want))));
        let gen_index = line.at(next - 1).unwrap();
        let got = guard(|| {
            consensus::calculate_target_required_from_block_index(cfg, &status, &gen_index, |_, h| Ok(line.at(h.into()).unwrap()))
                .map_err(|e| e.to_string())
        });
        c.eq(|| key() + " from the index", &got, &Ok(Ok(Compact(want))));
        c.evals(2);
        let before = bits.last().copied().map(expand);
        c.outcome(match before.clone() {
            None => "first",
            Some(b) if expand(want) > b => "easier",
            Some(b) if expand(want) < b => "harder",
            Some(_) => "as before",
        });
        c.nontrivial(u64::from(before.is_some_and(|b| b != expand(want))));
        mine = want;
    } else if next >= r.from {
        return;
    }
    c.states(1);
    if times.len() > depth {
        return;
    }
    for g in gaps {
        let t = times.last().unwrap() + g;
        let data = if next < r.from {
            ConsensusData::None
        } else {
            ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256::zero()), proof.clone(), Compact(mine))))
        };
        line.blocks.push(index(prev_id, next, t, data));
        times.push(t);
        bits.push(mine);
        c.transitions(1);
        walk(c, r, cfg, proof, gaps, depth, line, times, bits);
        line.blocks.pop();
        times.pop();
        bits.pop();
    }
}

fn pos(ctx: &Ctx) {
    let max = Uint256::MAX;
    let limit = small(&(big(max) / 120u32)).unwrap();
    let low = Uint256::from_u64(0x1234);
    let mut rules = vec![];
    for lim in [max, limit, low] {
        for count in [2, 3, 5, 100] {
            for swing in [0, 1, 100, 999, 1000] {
                for (first, from) in [(None, 0), (None, 1), (Some(0x2000_ffff), 1), (Some(0x1d00_ffff), 2), (Some(0x0300_0101), 1), (Some(0x2100_ff00), 1)] {
                    rules.push(Rule { limit: lim, count, swing, first, from, spacing: 120 });
                }
            }
        }
    }
    for spacing in [1, 7, 600] {
        rules.push(Rule { limit, count: 3, swing: 250, first: Some(0x1f00_ffff), from: 1, spacing });
    }
    let depth = ctx.pick(5, 7);
    ctx.part("the target of each next proof of stake block", "every chain of these gaps between the blocks, under every combination of target limit, averaging window, swing limit, first target and height of the upgrade", |c| {
        let gaps = [1, 119, 121, 250, 86_400];
        let proof = vrf();
        c.par(rules.len(), |i| {
            let r = rules[i];
            let cfg = r.config();
            let t0 = cfg.genesis_block().timestamp().as_int_seconds();
            let mut line = Line { config: &cfg, blocks: vec![] };
            walk(c, &r, &cfg, &proof, &gaps, depth, &mut line, &mut vec![t0], &mut vec![]);
        });
        c.traces(rules.len() as u64);
        c.sample(|| format!("{} rules, chains of up to {depth} blocks", rules.len()));
    });
    ctx.part("one step from any target", "targets and averages at the borders of their ranges: the first bytes, the last, and what overflows", |c| {
        let proof = vrf();
        let mut olds = vec![0u32, 0x0100_0000, 0x0101_0000, 0x0102_0000, 0x0200_8000, 0x037f_ffff, 0x0400_8000, 0x0412_3456, 0x1c7f_ffff, 0x1d00_ffff, 0x207f_ffff, 0x2100_8000, 0x2100_ffff];
        olds.extend((3..=32).map(|s| s << 24 | 0x01_0203));
        let averages = [0, 1, 2, 59, 60, 61, 107, 108, 119, 120, 121, 131, 132, 133, 239, 240, 1 << 20, u64::from(u32::MAX) * 1000];
        let limits = [max, limit, low, Uint256::ONE];
        c.par(olds.len(), |i| {
            for lim in limits {
                for swing in [0, 1, 3, 100, 500, 1000] {
                    let r = Rule { limit: lim, count: 2, swing, first: None, from: 0, spacing: 120 };
                    let cfg = r.config();
                    let t0 = cfg.genesis_block().timestamp().as_int_seconds();
                    for a in averages {
                        let data = ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256::zero()), proof.clone(), Compact(olds[i]))));
                        let line = Line { config: &cfg, blocks: vec![index(cfg.genesis_block_id(), 1, t0 + a, data)] };
                        let id: Id<GenBlock> = (*line.blocks[0].block_id()).into();
                        let RequiredConsensus::PoS(status) = cfg.consensus_upgrades().consensus_status(BlockHeight::new(2)) else { unreachable!() };
                        let got = guard(|| consensus::calculate_target_required(&cfg, &status, id, &line).map_err(|e| e.to_string()));
                        let want = r.target(&[t0, t0 + a], &[olds[i]]).unwrap();
                        c.eq(|| format!("{r:?} from {:08x} with average {a}", olds[i]), &got, &Ok(Ok(Compact(want))));
                        c.evals(1);
                        c.nontrivial(u64::from(want != olds[i]));
                    }
                }
            }
        });
    });
}

/// a chain of which only some heights exist
fn sparse<'a>(blocks: &'a BTreeMap<u64, BlockIndex>, asked: &'a RefCell<Vec<u64>>) -> impl Fn(&BlockIndex, BlockHeight) -> Result<GenBlockIndex, consensus::ChainstateError> + 'a {
    move |_, h| {
        asked.borrow_mut().push(h.into());
        Ok(blocks.get(&u64::from(h)).unwrap_or_else(|| panic!("height {h} has no part in this")).clone().into_gen_block_index())
    }
}

fn pow(ctx: &Ctx) {
    ctx.part("the work of each next proof of work block", "heights around the turns of the interval, what the interval took, old targets, networks and how late the block is", |c| {
        let two_weeks = 14 * 86_400u64;
        let kinds = [ChainType::Mainnet, ChainType::Testnet, ChainType::Signet, ChainType::Regtest];
        let heights: Vec<u64> = [1, 2, 2014, 2015, 2016, 2017, 4030, 4031, 4032, 6047].into();
        let spans = [0, 1, two_weeks / 4 - 1, two_weeks / 4, two_weeks / 4 + 1, two_weeks - 1, two_weeks, two_weeks + 1, two_weeks * 4 - 1, two_weeks * 4, two_weeks * 4 + 1, two_weeks * 40];
        let bits = [0x1d00_ffffu32, 0x1c12_3456, 0x1b7f_ffff, 0x0312_3456, 0x0101_0000, 0x1e03_77ae, 0x2100_ffff, 0x207f_ffff];
        let late = [1u64, 1199, 1200, 1201, 100_000];
        c.par(kinds.len() * heights.len(), |i| {
            let (kind, h) = (kinds[i % kinds.len()], heights[i / kinds.len()]);
            let cfg = Builder::new(kind).build();
            let limit = match kind {
                ChainType::Mainnet | ChainType::Testnet => (one() << 224usize) - 1u32,
                ChainType::Signet => BigUint::from(0x377ae_u32) << 216usize,
                ChainType::Regtest => (one() << 255usize) - 1u32,
            };
            for span in spans {
                for b in bits {
                    let start = 1_700_000_000;
                    let t = start + span;
                    let data = |b| ConsensusData::PoW(Box::new(PoWData::new(Compact(b), 0)));
                    let prev = index(H256::repeat_byte(3).into(), h, t, data(b));
                    let mut blocks = BTreeMap::new();
                    if h >= 2015 {
                        blocks.insert(h - 2015, index(H256::repeat_byte(2).into(), h - 2015, start, data(0x1d00_ffff)));
                    }
                    for l in late {
                        let asked = RefCell::new(vec![]);
                        let got = guard(|| {
                            consensus::calculate_work_required(
                                &cfg,
                                &prev.clone().into_gen_block_index(),
                                BlockTimestamp::from_int_seconds(t + l),
                                &PoWStatus::Ongoing,
                                sparse(&blocks, &asked),
                            )
                            .map_err(|e| e.to_string())
                        });
                        let want = if kind == ChainType::Regtest {
                            b
                        } else if (h + 1) % 2016 == 0 {
                            // numbers of this code stop at 256 bits: a product past them counts as the greatest
                            let s = span.clamp(two_weeks / 4, two_weeks * 4);
                            let product = (expand(b) * s).min(big(Uint256::MAX));
                            compact(&(product / two_weeks).min(limit.clone()))
                        } else if kind == ChainType::Testnet && l > 1200 {
                            compact(&limit)
                        } else {
                            b
                        };
                        c.eq(|| format!("{kind:?} above {h} after {span} s from {b:08x}, {l} s late"), &got, &Ok(Ok(Compact(want))));
                        c.evals(1);
                        c.nontrivial(u64::from(want != b));
                        c.outcome(if want == b { "kept" } else if expand(want) > expand(b) { "easier" } else { "harder" });
                    }
                }
            }
            let asked = RefCell::new(vec![]);
            let none = BTreeMap::new();
            let at = |status| {
                guard(|| {
                    consensus::calculate_work_required(&cfg, &GenBlockIndex::genesis(&cfg), BlockTimestamp::from_int_seconds(5), &status, sparse(&none, &asked))
                        .map_err(|e| e.to_string())
                })
            };
            c.eq(|| format!("{kind:?} above the genesis"), &at(PoWStatus::Ongoing), &Ok(Ok(Compact(compact(&limit)))));
            c.eq(|| format!("{kind:?} at the threshold"), &at(PoWStatus::Threshold { initial_difficulty: Compact(0x1a01_0203) }), &Ok(Ok(Compact(0x1a01_0203))));
            c.evals(2);
        });
    });
    ctx.part("hash against target", "each target with the hashes below, at and above it, and targets that are none", |c| {
        let all: Vec<u32> = (0..=36u32).flat_map(|s| [0u32, 1, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, 0x12_3456, 0x7f_ffff, 0x80_0000, 0x80_0001, 0xff_ffff].map(|w| s << 24 | w)).collect();
        for b in all {
            let value = expand(b);
            let negative = b & 0x80_0000 != 0 && b & 0x7f_ffff != 0 && value != BigUint::from(0u32);
            let good = !negative && value <= big(Uint256::MAX);
            let mut hashes = vec![BigUint::from(0u32), big(Uint256::MAX)];
            if good {
                hashes.push(value.clone());
                hashes.push(&value + 1u32);
                if value > BigUint::from(0u32) {
                    hashes.push(&value - 1u32);
                }
            }
            for h in hashes.iter().filter_map(small) {
                let got = guard(|| consensus::check_proof_of_work(H256::from(h), Compact(b)).ok());
                let want = good.then(|| big(h) <= value);
                // how a negative zero reads is left open
                if b & 0x80_0000 != 0 && !negative {
                    continue;
                }
                c.eq(|| format!("hash {h:?} at {b:08x}"), &got, &Ok(want));
                c.evals(1);
                c.nontrivial(u64::from(want.is_some()));
                c.outcome(match want { None => "no target", Some(true) => "meets it", Some(false) => "misses it" });
            }
        }
    });
}

fn mining(ctx: &Ctx) {
    ctx.part("mining", "each target of a ladder, each limit on the nonces, stopped or not: the first nonce that meets the target, found again by trying them all", |c| {
        use common::chain::block::BlockHeader;
        use std::sync::Arc;
        use utils::atomics::RelaxedAtomicBool;
        let bits = [0x2100_ffffu32, 0x207f_ffff, 0x203f_ffff, 0x200f_ffff, 0x2003_ffff, 0x1f7f_ffff, 0x1d00_ffff];
        c.par(bits.len(), |i| {
            let b = Compact(bits[i]);
            for salt in 0..4u8 {
                let start = index(H256::repeat_byte(salt).into(), 1, 1000, ConsensusData::None);
                let header: BlockHeader = start.block_header().header().clone();
                let limit = 300u128;
                let meets = |n: u128| {
                    let mut h = header.clone();
                    h.update_consensus_data(ConsensusData::PoW(Box::new(PoWData::new(b, n))));
                    let hash: Uint256 = h.get_id().to_hash().into();
                    big(hash) <= expand(b.0)
                };
                let first = (0..limit).find(|n| meets(*n));
                for max in [0, 1, first.unwrap_or(7), first.unwrap_or(7) + 1, limit] {
                    for stopped in [false, true] {
                        let mut h = header.clone();
                        let got = guard(|| consensus::mine(&mut h, max, b, Arc::new(RelaxedAtomicBool::new(stopped))).map_err(|e| e.to_string()));
                        use consensus::MiningResult::*;
                        let want = match first {
                            Some(f) if f < max && (!stopped || f == 0) => Success,
                            _ if max == 0 => Failed,
                            _ if stopped => Stopped,
                            _ => Failed,
                        };
                        let key = || format!("target {b:?} salt {salt} up to {max} stopped {stopped}");
                        c.eq(key, &got, &Ok(Ok(want)));
                        if want == Success {
                            let ConsensusData::PoW(d) = h.consensus_data() else { unreachable!() };
                            c.eq(|| key() + " the nonce", &(d.nonce(), d.bits()), &(first.unwrap(), b));
                        }
                        c.evals(1);
                        c.nontrivial(u64::from(want == Success));
                        c.outcome(&format!("{want:?}"));
                    }
                }
            }
        });
    });
}

fn heights(ctx: &Ctx) {
    ctx.part("which rules are in force", "every list of up to four upgrades at heights up to 6 in every order, at every height", |c| {
        let kinds = [
            ConsensusUpgrade::IgnoreConsensus,
            ConsensusUpgrade::PoW { initial_difficulty: Compact(7) },
            ConsensusUpgrade::PoS { initial_difficulty: None, config: PoSChainConfig::new(Uint256::ONE, BlockCount::new(1), 2, PerThousand::new(1).unwrap(), PoSConsensusVersion::V0) },
            ConsensusUpgrade::PoS { initial_difficulty: Some(Compact(9)), config: PoSChainConfig::new(Uint256::MAX, BlockCount::new(2), 3, PerThousand::new(2).unwrap(), PoSConsensusVersion::V1) },
        ];
        c.eq(|| "no upgrades".into(), &NetUpgrades::<ConsensusUpgrade>::initialize(vec![]).is_err(), &true);
        for n in 1..=3usize {
            for hs in sequences(7, n) {
                let mut sorted = hs.clone();
                sorted.sort_unstable();
                sorted.dedup();
                if sorted.len() < n {
                    continue;
                }
                for ks in sequences(kinds.len(), n) {
                    let list: Vec<_> = hs.iter().zip(&ks).map(|(h, k)| (BlockHeight::new(*h as u64), kinds[*k].clone())).collect();
                    let made = NetUpgrades::initialize(list);
                    c.evals(1);
                    let key = || format!("upgrades {hs:?} {ks:?}");
                    c.eq(|| key() + " taken", &made.is_ok(), &(sorted[0] == 0));
                    let Ok(made) = made else { continue };
                    for h in 0..9usize {
                        let (at, k) = hs.iter().zip(&ks).filter(|(a, _)| **a <= h).max_by_key(|(a, _)| **a).unwrap();
                        let height = BlockHeight::new(h as u64);
                        c.eq(|| format!("{} at {h}", key()), made.version_at_height(height), &(BlockHeight::new(*at as u64), kinds[*k].clone()));
                        let want = match (&kinds[*k], *at == h) {
                            (ConsensusUpgrade::IgnoreConsensus, _) => RequiredConsensus::IgnoreConsensus,
                            (ConsensusUpgrade::PoW { initial_difficulty }, true) => RequiredConsensus::PoW(PoWStatus::Threshold { initial_difficulty: *initial_difficulty }),
                            (ConsensusUpgrade::PoW { .. }, false) => RequiredConsensus::PoW(PoWStatus::Ongoing),
                            (ConsensusUpgrade::PoS { initial_difficulty, config }, true) => {
                                RequiredConsensus::PoS(PoSStatus::Threshold { initial_difficulty: *initial_difficulty, config: config.clone() })
                            }
                            (ConsensusUpgrade::PoS { config, .. }, false) => RequiredConsensus::PoS(PoSStatus::Ongoing(config.clone())),
                        };
                        c.eq(|| format!("{} status at {h}", key()), &made.consensus_status(height), &want);
                        c.nontrivial(1);
                        c.evals(1);
                    }
                }
            }
        }
    });
    ctx.part("epochs", "every epoch length up to 6, seal distance up to 4 and height up to 60", |c| {
        for len in 1..=6u64 {
            for dist in 0..=4usize {
                let cfg = Builder::new(ChainType::Regtest).epoch_length(len.try_into().unwrap()).sealed_epoch_distance_from_tip(dist).build();
                for h in 0..60u64 {
                    let height = BlockHeight::new(h);
                    let key = || format!("length {len} distance {dist} height {h}");
                    c.eq(|| key() + " epoch", &cfg.epoch_index_from_height(&height), &(h / len));
                    let last = (h + 1) % len == 0;
                    c.eq(|| key() + " last", &cfg.is_last_block_in_epoch(&height), &last);
                    // epochs complete once this block is there, less the distance
                    let complete = (h + 1) / len;
                    let sealed = complete.checked_sub(dist as u64 + 1);
                    c.eq(|| key() + " sealed", &cfg.sealed_epoch_index(&height), &sealed);
                    c.eq(|| key() + " due", &cfg.is_due_for_epoch_seal(&height), &(last && sealed.is_some()));
                    c.evals(4);
                    c.nontrivial(u64::from(sealed.is_some()));
                }
            }
        }
    });
    ctx.part("what a block weighs", "every gap up to 2000 s, and targets over the whole range", |c| {
        let t = |x| BlockTimestamp::from_int_seconds(x);
        let data = ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256::zero()), vrf(), Compact(1))));
        let whole = BigUint::from(1_000_000_000_000_000_000u64);
        let mut last = &whole + 1u32;
        for gap in (0..2000u64).chain([1 << 20, 1 << 40, u64::MAX - 1000]) {
            let got = guard(|| data.get_block_proof(t(1000), t(1000 + gap)));
            let key = || format!("gap {gap}");
            match got {
                Ok(Some(p)) => {
                    let p = big(p);
                    if gap < 1200 && p >= last {
                        c.fail(key(), format!("weighs {p}, and a gap one shorter {last}"));
                    }
                    if p > last || p < one() || p > whole {
                        c.fail(key(), format!("weighs {p}"));
                    }
                    #[allow(clippy::float_arithmetic)]
                    let near = if gap < 1200 { ((-0.01 * gap as f64).exp() * 1e18) as u64 } else { 1 };
                    if p.clone().max(near.into()) - p.clone().min(near.into()) > BigUint::from(4096u32) || gap >= 1200 && p != one() {
                        c.fail(key(), format!("weighs {p}, not {near}"));
                    }
                    if gap == 0 && p != whole {
                        c.fail(key(), format!("weighs {p}"));
                    }
                    last = p;
                }
                other => c.fail(key(), format!("{other:?}")),
            }
            c.evals(1);
            c.nontrivial(1);
        }
        c.eq(|| "time going back".into(), &data.get_block_proof(t(1000), t(999)), &None);
        c.eq(|| "no consensus".into(), &ConsensusData::None.get_block_proof(t(1000), t(0)), &Some(Uint256::ONE));
        for s in 0..=33u32 {
            for w in [1u32, 0x80, 0xff, 0x100, 0xffff, 0x1_0000, 0x12_3456, 0x7f_ffff] {
                let b = s << 24 | w;
                let value = expand(b);
                if value > big(Uint256::MAX) {
                    continue;
                }
                let want = ((one() << 256usize) / (&value + 1u32)).min(big(Uint256::MAX));
                let got = guard(|| ConsensusData::PoW(Box::new(PoWData::new(Compact(b), 0))).get_block_proof(t(5), t(0)).map(big));
                c.eq(|| format!("work of {b:08x}"), &got, &Ok(Some(want)));
                c.evals(1);
                c.nontrivial(1);
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    pos(ctx);
    pow(ctx);
    mining(ctx);
    heights(ctx);
}
