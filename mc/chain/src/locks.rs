//! L10: locked outputs are spent when their lock opens and not before; block times.

use std::borrow::Cow;

use chainstate::BlockSource;
use common::{
    chain::{
        Destination, SignedTransaction, Transaction, TxOutput, UtxoOutPoint,
        block::timestamp::BlockTimestamp,
        classic_multisig::ClassicMultisigChallenge,
        htlc::{HashedTimelockContract, HtlcSecret},
        signature::{
            inputsig::{
                InputWitness,
                authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend,
                classical_multisig::authorize_classical_multisig::{AuthorizedClassicalMultisigSpend, sign_classical_multisig_spending},
                standard_signature::StandardInputSignature,
            },
            sighash::{input_commitments::SighashInputCommitment, sighashtype::SigHashType, signature_hash},
        },
        timelock::OutputTimeLock,
    },
    primitives::{BlockHeight, Id, Idable},
};
use crypto::key::{PrivateKey, PublicKey, PredefinedSigAuxDataProvider};
use mc_kit::{Ctx, PartCtx, guard, sequences};
use serialization::Encode;

use crate::{
    sim::{COIN, T0, SPACING, World, assemble, coin, lock, out, spend, transfer, tx},
    spy::{Image, Spy},
};

pub fn median(times: &[u64]) -> u64 {
    let mut t = times[times.len().saturating_sub(11)..].to_vec();
    t.sort_unstable();
    t[t.len() / 2]
}

/// the rule, in its own words
fn open(l: &OutputTimeLock, made: (u64, u64), now: (u64, u64)) -> bool {
    match l {
        OutputTimeLock::UntilHeight(h) => now.0 >= h.into_int(),
        OutputTimeLock::UntilTime(t) => now.1 >= t.as_int_seconds(),
        OutputTimeLock::ForBlockCount(n) => u128::from(now.0) >= u128::from(made.0) + u128::from(*n),
        OutputTimeLock::ForSeconds(n) => u128::from(now.1) >= u128::from(made.1) + u128::from(*n),
    }
}

pub fn genesis_coins(w: &World) -> Vec<(UtxoOutPoint, u128)> {
    w.branch().coins.into_iter().collect()
}

pub struct Line {
    pub tip: Id<common::chain::GenBlock>,
    pub times: Vec<u64>,
    pub image: Image,
}

impl Line {
    pub fn height(&self) -> u64 {
        self.times.len() as u64 - 1
    }
    /// what a block with these transactions gives
    pub fn with(&self, w: &World, time: u64, txs: Vec<SignedTransaction>) -> Result<Result<Line, String>, String> {
        let spy = Spy::of(&self.image);
        let mut ch = w.open(&spy)?;
        let b = assemble(self.tip, time, vec![], txs, false);
        let tip = b.get_id().into();
        Ok(match ch.process_block(b, BlockSource::Local) {
            Ok(Some(_)) => Ok(Line { tip, times: [&self.times[..], &[time]].concat(), image: spy.image() }),
            Ok(None) => Err("kept aside".into()),
            Err(e) => Err(e.to_string()),
        })
    }
}

pub fn prefix(w: &World, n: usize) -> Line {
    let mut l = Line { tip: w.genesis_id(), times: vec![T0], image: w.start.clone() };
    for i in 0..n {
        let t = median(&l.times) + [70, 10, 500, 0][i % 4];
        l = l.with(w, t, vec![]).unwrap().expect("the lead-in");
    }
    l
}

fn locks(ctx: &Ctx, c: &PartCtx) {
    let w = World::new(1000, false, |b| b);
    let leads = [0, 3, 11].map(|n| prefix(&w, n));
    let (n, steps) = (ctx.pick(4, 5), [0, 50, 300]);
    let patterns: Vec<_> = sequences(3, n).collect();
    c.par(patterns.len() * leads.len(), |i| {
        let (lead, pattern) = (&leads[i % leads.len()], &patterns[i / leads.len()]);
        let mut times = lead.times.clone();
        for s in pattern {
            times.push(median(&times) + steps[*s]);
        }
        let r = guard(|| -> Result<(), String> {
            let h0 = lead.height() + 1;
            let first = h0 as usize;
            let t0 = times[first];
            // medians a spender may meet
            let meds: Vec<u64> = (first..times.len()).map(|i| median(&times[..i])).collect();
            let mut all = vec![];
            all.extend((h0.saturating_sub(1)..=h0 + n as u64).chain([0, u64::MAX]).map(|h| OutputTimeLock::UntilHeight(BlockHeight::new(h))));
            all.extend((0..=n as u64).chain([i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX]).map(OutputTimeLock::ForBlockCount));
            let mut ts: Vec<u64> = meds.iter().flat_map(|m| [m - 1, *m, m + 1]).chain([0, u64::MAX]).collect();
            ts.sort_unstable();
            ts.dedup();
            all.extend(ts.iter().map(|t| OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(*t))));
            let mut ds: Vec<u64> = ts.iter().filter_map(|t| t.checked_sub(t0)).collect();
            ds.extend([0, u64::MAX]);
            ds.sort_unstable();
            ds.dedup();
            all.extend(ds.iter().map(|d| OutputTimeLock::ForSeconds(*d)));
            let (o, _) = genesis_coins(&w)[0].clone();
            let make = tx(vec![spend(&o)], all.iter().map(|l| lock(coin(COIN), *l)).collect());
            let take = |k: &[usize]| tx(k.iter().map(|k| spend(&out(&make, *k as u32))).collect(), vec![transfer(coin(COIN * k.len() as u128 - 1))]);
            let mut line = Line { tip: lead.tip, times: lead.times.clone(), image: lead.image.clone() };
            for j in 0..n {
                let (h, m) = (h0 + j as u64, meds[j]);
                let (opened, shut): (Vec<usize>, Vec<usize>) = (0..all.len()).partition(|k| open(&all[*k], (h0, t0), (h, m)));
                let first_of = |t| if j == 0 { vec![make.clone(), t] } else { vec![t] };
                for k in shut {
                    c.evals(1);
                    c.outcome("locked");
                    if line.with(&w, times[h as usize], first_of(take(&[k])))?.is_ok() {
                        return Err(format!("height {h}, median {m}: {:?} of height {h0}, time {t0} was spent", all[k]));
                    }
                }
                c.evals(opened.len() as u64);
                c.nontrivial(opened.len() as u64);
                if !opened.is_empty() {
                    c.outcome("open");
                    if let Err(e) = line.with(&w, times[h as usize], first_of(take(&opened)))? {
                        let locks: Vec<_> = opened.iter().map(|k| all[*k]).collect();
                        return Err(format!("height {h}, median {m}: one of {locks:?} of height {h0}, time {t0} was not spent: {e}"));
                    }
                }
                c.transitions(1);
                line = line.with(&w, times[h as usize], if j == 0 { vec![make.clone()] } else { vec![] })?.map_err(|e| format!("height {h}: {e}"))?;
            }
            c.traces(1);
            Ok(())
        });
        if let Ok(Err(e)) | Err(e) = r {
            c.fail(format!("lead-in {}, times {times:?}", lead.height()), e);
        }
    });
}

fn clock(ctx: &Ctx, c: &PartCtx) {
    let w = World::new(1000, false, |b| b);
    let leads = [0, 8, 10].map(|n| prefix(&w, n));
    let depth = ctx.pick(5, 7);
    let now = T0 + 100 * SPACING;
    c.par(27 * leads.len(), |i| {
        fn go(w: &World, l: Line, first: &[usize], left: usize, now: u64, c: &PartCtx) -> Result<(), String> {
            let (h, m) = (l.height() + 1, median(&l.times));
            let late = now + w.config.max_future_block_time_offset(BlockHeight::new(h)).as_secs();
            c.states(1);
            for (t, fine) in [(m - 1, false), (T0 - 1, false), (late, true), (late + 1, false), (u64::MAX, false)] {
                c.evals(1);
                c.outcome(if fine { "taken" } else { "refused" });
                if l.with(w, t, vec![])?.is_ok() != fine {
                    return Err(format!("times {:?}, then {t}: {}", l.times, if fine { "refused" } else { "taken" }));
                }
            }
            if left == 0 {
                return Ok(());
            }
            for (s, d) in [0, 1, 400].into_iter().enumerate() {
                if first.first().is_some_and(|f| *f != s) {
                    continue;
                }
                c.transitions(1);
                c.nontrivial(1);
                let next = l.with(w, m + d, vec![])?.map_err(|e| format!("times {:?}, then {}: {e}", l.times, m + d))?;
                go(w, next, first.get(1..).unwrap_or(&[]), left - 1, now, c)?;
            }
            Ok(())
        }
        let l = &leads[i % leads.len()];
        let k = i / leads.len();
        let r = guard(|| go(&w, Line { tip: l.tip, times: l.times.clone(), image: l.image.clone() }, &[k / 9, k / 3 % 3, k % 3], depth, now, c));
        if let Ok(Err(e)) | Err(e) = r {
            c.fail(format!("lead-in {}, first {k}", l.height()), e);
        }
    });
}

pub struct Keys {
    pub keys: Vec<PrivateKey>,
}

impl Keys {
    pub fn new(n: u8) -> Self {
        // the same keys in every run
        let keys = (1..=n).map(|i| serialization::DecodeAll::decode_all(&mut &[&[0u8][..], &[i; 32]].concat()[..]).expect("a key")).collect();
        Keys { keys }
    }
    /// the two forms in which an output can name this key
    pub fn dests(&self, i: usize) -> [Destination; 2] {
        [Destination::PublicKey(self.public(i)), Destination::PublicKeyHash((&self.public(i)).into())]
    }
    pub fn public(&self, i: usize) -> PublicKey {
        PublicKey::from_private_key(&self.keys[i])
    }
}

fn htlc(ctx: &Ctx, c: &PartCtx) {
    let w = World::new(1000, false, |b| b);
    let keys = Keys::new(4);
    let challenge = ClassicMultisigChallenge::new(&w.config, 2.try_into().unwrap(), vec![keys.public(1), keys.public(2)]).unwrap();
    let dests = |i: usize| keys.dests(i);
    let both = Destination::ClassicMultisig((&challenge).into());
    let refunds = [&dests(1)[..], &[both.clone()]].concat();
    let pattern = [120, 240, 60, 500];
    let steps = ctx.pick(3, 4);
    let secrets = [HtlcSecret::new([7; 32]), HtlcSecret::new([0; 32])];
    let base = T0 + 120;
    let meds = {
        let mut t = vec![T0];
        for p in pattern {
            let m = median(&t);
            t.push(m + p);
        }
        (1..t.len()).map(|i| median(&t[..i])).collect::<Vec<_>>()
    };
    let mut locks: Vec<OutputTimeLock> = (0..=4).flat_map(|n| [OutputTimeLock::ForBlockCount(n), OutputTimeLock::UntilHeight(BlockHeight::new(n))]).collect();
    for m in &meds {
        for t in [*m, m + 1] {
            locks.push(OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(t)));
            locks.push(OutputTimeLock::ForSeconds(t.saturating_sub(base)));
        }
    }
    let jobs: Vec<_> = (0..locks.len()).flat_map(|l| (0..2).flat_map(move |s| (0..3).map(move |r| (l, s, r)))).collect();
    c.par(jobs.len(), |i| {
        let (l, s, r) = jobs[i];
        let (lk, spend_key, refund_key) = (locks[l], dests(0)[s].clone(), refunds[r].clone());
        let contract = HashedTimelockContract { secret_hash: secrets[0].hash(), spend_key: spend_key.clone(), refund_timelock: lk, refund_key: refund_key.clone() };
        let made = TxOutput::Htlc(coin(2 * COIN), Box::new(contract));
        let (o, _) = genesis_coins(&w)[0].clone();
        let make = tx(vec![spend(&o)], vec![made.clone()]);
        let take = Transaction::new(0, vec![spend(&out(&make, 0))], vec![transfer(coin(COIN))]).unwrap();
        let commit = [SighashInputCommitment::Utxo(Cow::Borrowed(&made))];
        let all = SigHashType::try_from(SigHashType::ALL).unwrap();
        let hash = signature_hash(all, &take, &commit, 0).unwrap();
        let mut aux = PredefinedSigAuxDataProvider;
        // signatures by each key for each kind of destination, and by both together, one of two
        let mut sigs: Vec<(String, Vec<u8>, Option<usize>, usize)> = vec![];
        for k in 0..4 {
            for (form, d) in dests(k).into_iter().enumerate() {
                let s = StandardInputSignature::produce_uniparty_signature_for_input(&keys.keys[k], all, d, &take, &commit, 0, &mut aux).unwrap();
                sigs.push((format!("key {k} form {form}"), s.into_raw_signature(), Some(k), form));
            }
        }
        let mut part = AuthorizedClassicalMultisigSpend::new_empty(challenge.clone());
        for k in 0..2u8 {
            part = sign_classical_multisig_spending(&w.config, k, &keys.keys[k as usize + 1], &challenge, &hash, part, &mut aux).unwrap().take();
            sigs.push((format!("{} of two", k + 1), part.encode(), None, k as usize));
        }
        let spends = |sig: &(String, Vec<u8>, Option<usize>, usize)| sig.2 == Some(0) && sig.3 == s;
        let refunds = |sig: &(String, Vec<u8>, Option<usize>, usize)| if r == 2 { sig.2.is_none() && sig.3 == 1 } else { sig.2 == Some(1) && sig.3 == r };
        let mut tries: Vec<(String, Option<Vec<u8>>, bool, bool)> = vec![("no signature".into(), None, false, false)];
        for sig in &sigs {
            tries.push((format!("plain, {}", sig.0), Some(sig.1.clone()), false, false));
            for (n, x) in secrets.iter().enumerate() {
                let raw = AuthorizedHashedTimelockContractSpend::Spend(x.clone(), sig.1.clone()).encode();
                tries.push((format!("spending with secret {n}, {}", sig.0), Some(raw), n == 0 && spends(sig), false));
            }
            let raw = AuthorizedHashedTimelockContractSpend::Refund(sig.1.clone()).encode();
            tries.push((format!("refunding, {}", sig.0), Some(raw), false, refunds(sig)));
        }
        let mut line = Line { tip: w.genesis_id(), times: vec![T0], image: w.start.clone() };
        let run = guard(|| -> Result<(), String> {
            let (h0, t0) = (1, T0 + pattern[0]);
            for j in 0..steps {
                let (h, m) = (line.height() + 1, median(&line.times));
                let time = m + pattern[j];
                let unlocked = open(&lk, (h0, t0), (h, m));
                for (name, raw, any_time, after) in &tries {
                    let fine = *any_time || *after && unlocked;
                    let witness = raw.clone().map_or(InputWitness::NoSignature(None), |r| InputWitness::Standard(StandardInputSignature::new(all, r)));
                    let t = SignedTransaction::new(take.clone(), vec![witness]).unwrap();
                    let got = line.with(&w, time, if j == 0 { vec![make.clone(), t] } else { vec![t] })?;
                    c.evals(1);
                    c.nontrivial(u64::from(fine));
                    c.outcome(if got.is_ok() { "taken" } else { "refused" });
                    match got {
                        Ok(_) if !fine => return Err(format!("height {h}, median {m}: {name} was taken")),
                        Err(e) if fine => return Err(format!("height {h}, median {m}: {name} was refused: {e}")),
                        _ => {}
                    }
                }
                line = line.with(&w, time, if j == 0 { vec![make.clone()] } else { vec![] })?.map_err(|e| format!("height {h}: {e}"))?;
                c.transitions(1);
            }
            c.traces(1);
            Ok(())
        });
        if let Ok(Err(e)) | Err(e) = run {
            c.fail(format!("{lk:?}, spend key form {s}, refund key form {r}"), e);
        }
    });
}

pub fn run(ctx: &Ctx) {
    ctx.part("locks", "every pattern of 4 (thorough 5) block times after three lead-ins; every kind of lock with every value around the borders, tried in the block that makes it and in each later one", |c| locks(ctx, c));
    ctx.part("block times", "every pattern of 5 (thorough 7) block times after three lead-ins: around the median of the last eleven and the farthest future", |c| clock(ctx, c));
    ctx.part("hash locks", "every kind of lock and keys of a hash lock: every form of spending and refunding, right and wrong secret, every signature, at every height", |c| htlc(ctx, c));
}
