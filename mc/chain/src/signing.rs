//! L11: a signature is good for exactly what it covers.

use std::{borrow::Cow, collections::BTreeMap};

use common::{
    chain::{
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, ChainConfig, DelegationId, Destination, OrderAccountCommand, OrderId,
        OutPointSourceId, PoolId, SignedTransaction, Transaction, TxInput, TxOutput,
        classic_multisig::ClassicMultisigChallenge,
        config::create_unit_test_config,
        signature::{
            EvaluatedInputWitness, Signable,
            inputsig::{
                InputWitness,
                arbitrary_message::{ArbitraryMessageSignature, produce_message_challenge},
                classical_multisig::authorize_classical_multisig::{
                    AuthorizedClassicalMultisigSpend, ClassicalMultisigCompletionStatus, sign_classical_multisig_spending,
                },
                standard_signature::StandardInputSignature,
            },
            sighash::{input_commitments::SighashInputCommitment, sighashtype::SigHashType, signature_hash},
            verify_signature,
        },
        stakelock::StakePoolData,
        tokens::TokenId,
    },
    primitives::{H256, Id, per_thousand::PerThousand},
};
use crypto::{
    key::{PredefinedSigAuxDataProvider, Signature},
    vrf::{VRFKeyKind, VRFPrivateKey},
};
use mc_kit::{Ctx, PartCtx, guard, sequences};
use serialization::{DecodeAll, Encode};

use crate::{
    locks::Keys,
    sim::{amt, any, coin, tok, transfer},
};

type Commit = SighashInputCommitment<'static>;

#[derive(Clone, PartialEq, Debug)]
struct Deal {
    flags: u128,
    ins: Vec<TxInput>,
    commits: Vec<Commit>,
    outs: Vec<TxOutput>,
}

/// what a signature of this mode for this input covers
fn covered(d: &Deal, mode: u8, at: usize) -> Option<String> {
    let one = (d.ins.get(at)?, d.commits.get(at)?);
    if d.ins.len() != d.commits.len() {
        return None;
    }
    let ins = if mode & 0x80 != 0 { format!("{one:?}") } else { format!("all {:?} {:?}", d.ins, d.commits) };
    let outs = match mode & 0x7f {
        1 => format!("all {:?}", d.outs),
        2 => String::new(),
        _ => format!("{:?}", d.outs.get(at)?),
    };
    Some(format!("{mode} {} {ins} {outs}", d.flags))
}

fn h(n: u8) -> H256 {
    H256::from([n; 32])
}

struct Stuff {
    config: ChainConfig,
    keys: Keys,
    ins: Vec<(TxInput, Commit)>,
    outs: Vec<TxOutput>,
}

fn stuff() -> Stuff {
    let keys = Keys::new(5);
    let vrf = VRFPrivateKey::new_using_random_bytes(&[7; 32], VRFKeyKind::Schnorrkel).unwrap().1;
    let at = |n: u8, i: u32| TxInput::from_utxo(OutPointSourceId::Transaction(Id::new(h(n))), i);
    let utxo = |o: TxOutput| Commit::Utxo(Cow::Owned(o));
    let (t, d, o) = (TokenId::new(h(9)), DelegationId::new(h(8)), OrderId::new(h(7)));
    let pool = StakePoolData::new(amt(5), any(), vrf, any(), PerThousand::new(1).unwrap(), amt(0));
    let made = TxOutput::ProduceBlockFromStake(any(), PoolId::new(h(4)));
    let ins = vec![
        (at(1, 0), utxo(transfer(coin(5)))),
        (at(1, 1), utxo(transfer(coin(6)))),
        (at(2, 0), utxo(transfer(tok(t, 5)))),
        (TxInput::from_utxo(OutPointSourceId::BlockReward(Id::new(h(1))), 0), utxo(TxOutput::CreateStakePool(PoolId::new(h(4)), Box::new(pool)))),
        (at(3, 0), Commit::ProduceBlockFromStakeUtxo { utxo: Cow::Owned(made), staker_balance: amt(77) }),
        (TxInput::Account(AccountOutPoint::new(AccountNonce::new(3), AccountSpending::DelegationBalance(d, amt(4)))), Commit::None),
        (TxInput::AccountCommand(AccountNonce::new(1), AccountCommand::MintTokens(t, amt(9))), Commit::None),
        (TxInput::AccountCommand(AccountNonce::new(1), AccountCommand::ChangeTokenAuthority(t, any())), Commit::None),
        (
            TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)),
            Commit::ConcludeOrderAccountCommand { initially_asked: coin(10), initially_given: tok(t, 20), ask_balance: amt(4), give_balance: amt(8) },
        ),
        (
            TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, amt(3))),
            Commit::FillOrderAccountCommand { initially_asked: coin(10), initially_given: tok(t, 20) },
        ),
    ];
    let outs = vec![
        transfer(coin(1)),
        transfer(coin(2)),
        TxOutput::Transfer(coin(1), Destination::PublicKey(keys.public(4))),
        transfer(tok(t, 1)),
        TxOutput::Burn(coin(1)),
        TxOutput::DelegateStaking(amt(1), d),
        TxOutput::DataDeposit(vec![1]),
    ];
    Stuff { config: create_unit_test_config(), keys, ins, outs }
}

/// Everything that can be done to a transaction and what it spends in one step.
fn changes(s: &Stuff, d: &Deal) -> Vec<(String, Deal)> {
    let mut all = vec![("nothing".to_string(), d.clone())];
    let mut add = |name: String, f: &dyn Fn(&mut Deal)| {
        let mut x = d.clone();
        f(&mut x);
        all.push((name, x));
    };
    for f in [0, 1, 1 << 127, u128::MAX] {
        add(format!("flags {f}"), &|x| x.flags = f);
    }
    for i in 0..=d.ins.len() {
        for (k, new) in s.ins.iter().enumerate() {
            add(format!("kind {k} added as input {i}"), &|x| {
                x.ins.insert(i, new.0.clone());
                x.commits.insert(i, new.1.clone());
            });
            if i < d.ins.len() {
                add(format!("input {i} now of kind {k}"), &|x| (x.ins[i], x.commits[i]) = new.clone());
                add(format!("input {i} now of kind {k}, spending the same"), &|x| x.ins[i] = new.0.clone());
                add(format!("input {i} spending kind {k}"), &|x| x.commits[i] = new.1.clone());
            }
        }
        if i < d.ins.len() {
            add(format!("without input {i}"), &|x| {
                x.ins.remove(i);
                x.commits.remove(i);
            });
            add(format!("spent of {i} unknown"), &|x| drop(x.commits.remove(i)));
            for other in finer(&d.ins[i], &d.commits[i]) {
                add(format!("input {i} now {other:?}"), &|x| (x.ins[i], x.commits[i]) = other.clone());
            }
            for j in 0..i {
                add(format!("inputs {j} and {i} swapped"), &|x| {
                    x.ins.swap(i, j);
                    x.commits.swap(i, j);
                });
                add(format!("spent of {j} and {i} swapped"), &|x| x.commits.swap(i, j));
            }
        }
    }
    for i in 0..=d.outs.len() {
        for (k, new) in s.outs.iter().enumerate() {
            add(format!("kind {k} added as output {i}"), &|x| x.outs.insert(i, new.clone()));
            if i < d.outs.len() {
                add(format!("output {i} now of kind {k}"), &|x| x.outs[i] = new.clone());
            }
        }
        if i < d.outs.len() {
            add(format!("without output {i}"), &|x| drop(x.outs.remove(i)));
            for j in 0..i {
                add(format!("outputs {j} and {i} swapped"), &|x| x.outs.swap(i, j));
            }
        }
    }
    all
}

/// The same input with one detail changed.
fn finer(i: &TxInput, c: &Commit) -> Vec<(TxInput, Commit)> {
    let mut v = vec![];
    match i {
        TxInput::Utxo(o) => v.push(TxInput::from_utxo(o.source_id(), o.output_index() + 1)),
        TxInput::Account(a) => {
            v.push(TxInput::Account(AccountOutPoint::new(AccountNonce::new(4), a.account().clone())));
            let AccountSpending::DelegationBalance(d, _) = a.account();
            v.push(TxInput::Account(AccountOutPoint::new(a.nonce(), AccountSpending::DelegationBalance(*d, amt(5)))));
            v.push(TxInput::Account(AccountOutPoint::new(a.nonce(), AccountSpending::DelegationBalance(DelegationId::new(h(3)), amt(4)))));
        }
        TxInput::AccountCommand(n, x) => {
            v.push(TxInput::AccountCommand(AccountNonce::new(n.value() + 1), x.clone()));
            if let AccountCommand::MintTokens(t, _) = x {
                v.push(TxInput::AccountCommand(*n, AccountCommand::MintTokens(*t, amt(10))));
                v.push(TxInput::AccountCommand(*n, AccountCommand::UnmintTokens(*t)));
            }
        }
        TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, _)) => {
            v.push(TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(*o, amt(4))));
        }
        TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o) | OrderAccountCommand::FreezeOrder(o)) => {
            v.push(TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(*o)));
        }
    }
    let mut all: Vec<_> = v.into_iter().map(|i| (i, c.clone())).collect();
    let mut w = vec![];
    match c {
        Commit::ProduceBlockFromStakeUtxo { utxo, staker_balance } => {
            w.push(Commit::Utxo(utxo.clone()));
            w.push(Commit::ProduceBlockFromStakeUtxo { utxo: utxo.clone(), staker_balance: amt(staker_balance.into_atoms() + 1) });
        }
        Commit::ConcludeOrderAccountCommand { initially_asked: a, initially_given: g, ask_balance: x, give_balance: y } => {
            let (a, g, x, y) = (a.clone(), g.clone(), *x, *y);
            w.push(Commit::FillOrderAccountCommand { initially_asked: a.clone(), initially_given: g.clone() });
            w.push(Commit::ConcludeOrderAccountCommand { initially_asked: coin(11), initially_given: g.clone(), ask_balance: x, give_balance: y });
            w.push(Commit::ConcludeOrderAccountCommand { initially_asked: a.clone(), initially_given: a.clone(), ask_balance: x, give_balance: y });
            w.push(Commit::ConcludeOrderAccountCommand { initially_asked: a.clone(), initially_given: g.clone(), ask_balance: y, give_balance: y });
            w.push(Commit::ConcludeOrderAccountCommand { initially_asked: a, initially_given: g, ask_balance: x, give_balance: x });
        }
        Commit::FillOrderAccountCommand { initially_asked: a, initially_given: g } => {
            w.push(Commit::FillOrderAccountCommand { initially_asked: g.clone(), initially_given: a.clone() });
        }
        Commit::Utxo(_) | Commit::None => {}
    }
    all.extend(w.into_iter().map(|c| (i.clone(), c)));
    all
}

const MODES: [u8; 6] = [1, 2, 3, 0x81, 0x82, 0x83];

fn mode(m: u8) -> SigHashType {
    SigHashType::try_from(m).unwrap()
}

fn covering(ctx: &Ctx, c: &PartCtx) {
    let s = stuff();
    let most = ctx.pick(2, 3);
    let mut deals = vec![];
    for n in 1..=most {
        for ins in sequences(s.ins.len(), n) {
            // of longer ones, those that begin with the first or have it in the middle
            if n >= 2 && ins.iter().filter(|i| **i == 0).count() == 0 && ins[0] != ins[1] + 1 {
                continue;
            }
            for m in 0..=3 {
                deals.push(Deal {
                    flags: 0,
                    ins: ins.iter().map(|i| s.ins[*i].0.clone()).collect(),
                    commits: ins.iter().map(|i| s.ins[*i].1.clone()).collect(),
                    outs: (0..m).map(|k| s.outs[(k * 2 + ins[0]) % s.outs.len()].clone()).collect(),
                });
            }
        }
    }
    c.par(deals.len(), |i| {
        let d = &deals[i];
        let mut aux = PredefinedSigAuxDataProvider;
        let make = |d: &Deal| SignedTransaction::new(Transaction::new(d.flags, d.ins.clone(), d.outs.clone()).unwrap(), vec![InputWitness::NoSignature(None); d.ins.len()]).unwrap();
        let t = make(d);
        let others: Vec<_> = changes(&s, d).into_iter().map(|(n, x)| (n, make(&x), x)).collect();
        for m in MODES {
            for at in 0..d.ins.len() {
                let dest = s.keys.dests(0)[(at + i) % 2].clone();
                let key = || format!("mode {m:#x} input {at} of {d:?}");
                let want = covered(d, m, at);
                let sig = guard(|| StandardInputSignature::produce_uniparty_signature_for_input(&s.keys.keys[0], mode(m), dest.clone(), t.transaction(), &d.commits, at, &mut aux));
                let sig = match sig {
                    Ok(r) if r.is_ok() == want.is_some() => r.ok(),
                    Ok(r) => return c.fail(key(), format!("signing gave {r:?}")),
                    Err(e) => return c.fail(key(), e),
                };
                let Some(sig) = sig else {
                    c.outcome("nothing to sign");
                    continue;
                };
                for (name, x, xd) in &others {
                    for at2 in 0..xd.ins.len() {
                        if at2 != at && name != "nothing" && !name.contains("swapped") && !name.contains("added") {
                            continue;
                        }
                        for m2 in MODES {
                            if m2 != m && name != "nothing" {
                                continue;
                            }
                            let w = EvaluatedInputWitness::Standard(StandardInputSignature::new(mode(m2), sig.raw_signature().to_vec()));
                            let fine = covered(xd, m2, at2) == want;
                            let got = guard(|| verify_signature(&s.config, &dest, x, &w, &xd.commits, at2).is_ok());
                            c.evals(1);
                            c.nontrivial(u64::from(fine));
                            c.outcome(if fine { "covers the same" } else { "covers another" });
                            if got != Ok(fine) {
                                return c.fail(format!("{}; {name}, input {at2}, mode {m2:#x}", key()), format!("verifying gave {got:?}"));
                            }
                        }
                    }
                }
                // by and for somebody else
                for k in 0..3 {
                    for (f, d2) in s.keys.dests(k).into_iter().enumerate() {
                        let w = EvaluatedInputWitness::Standard(sig.clone());
                        let fine = d2 == dest;
                        c.evals(1);
                        c.eq(|| format!("{}; destination of key {k}, form {f}", key()), &guard(|| verify_signature(&s.config, &d2, &t, &w, &d.commits, at).is_ok()), &Ok(fine));
                        if k > 0 {
                            let r = StandardInputSignature::produce_uniparty_signature_for_input(&s.keys.keys[0], mode(m), d2, t.transaction(), &d.commits, at, &mut aux);
                            c.eq(|| format!("{}; signed for key {k}", key()), &r.is_err(), &true);
                        }
                    }
                }
            }
        }
    });
}

fn bytes(c: &PartCtx) {
    let s = stuff();
    for m in 0..=255u8 {
        let good = matches!(m & 0x7f, 1..=3);
        c.evals(2);
        c.nontrivial(1);
        c.eq(|| format!("mode {m:#x}"), &SigHashType::try_from(m).is_ok(), &good);
        let w = InputWitness::Standard(StandardInputSignature::new(mode(1), vec![1, 2, 3]));
        let mut e = w.encode();
        e[1] = m;
        c.eq(|| format!("mode {m:#x} received"), &InputWitness::decode_all(&mut &e[..]).is_ok(), &good);
        c.outcome(if good { "mode" } else { "no mode" });
    }
    let d = Deal { flags: 0, ins: vec![s.ins[0].0.clone()], commits: vec![s.ins[0].1.clone()], outs: vec![s.outs[0].clone()] };
    let t = Transaction::new(0, d.ins.clone(), d.outs.clone()).unwrap();
    for dest in s.keys.dests(0) {
        let sig = StandardInputSignature::produce_uniparty_signature_for_input(&s.keys.keys[0], mode(1), dest.clone(), &t, &d.commits, 0, &mut PredefinedSigAuxDataProvider).unwrap();
        let raw = sig.raw_signature().to_vec();
        let ok = |raw: Vec<u8>| {
            let w = EvaluatedInputWitness::Standard(StandardInputSignature::new(mode(1), raw));
            guard(|| verify_signature(&s.config, &dest, &t, &w, &d.commits, 0).is_ok())
        };
        c.eq(|| format!("{dest:?}"), &ok(raw.clone()), &Ok(true));
        for bit in 0..raw.len() * 8 {
            let mut x = raw.clone();
            x[bit / 8] ^= 1 << (bit % 8);
            c.evals(1);
            c.outcome("bit");
            // a key and its negative are the same to a Schnorr signature, but not to a hash of the key
            c.eq(|| format!("{dest:?} bit {bit}"), &ok(x), &Ok(false));
        }
        for n in 0..raw.len() {
            c.eq(|| format!("{dest:?} cut to {n}"), &ok(raw[..n].to_vec()), &Ok(false));
        }
        c.eq(|| format!("{dest:?} with more"), &ok([&raw[..], &[0]].concat()), &Ok(false));
        let none = EvaluatedInputWitness::NoSignature(None);
        c.eq(|| format!("{dest:?} no signature"), &verify_signature(&s.config, &dest, &t, &none, &d.commits, 0).is_ok(), &false);
        c.eq(|| format!("{dest:?} input 1 of 1"), &guard(|| verify_signature(&s.config, &dest, &t, &EvaluatedInputWitness::Standard(sig.clone()), &d.commits, 1).is_ok()), &Ok(false));
        c.eq(|| "anyone's with a signature".into(), &verify_signature(&s.config, &any(), &t, &EvaluatedInputWitness::Standard(sig.clone()), &d.commits, 0).is_ok(), &false);
    }
    // rewards have no version or flags but are covered all the same
    struct Bare(Vec<TxInput>, Vec<TxOutput>);
    impl Signable for Bare {
        fn inputs(&self) -> Option<&[TxInput]> {
            Some(&self.0)
        }
        fn outputs(&self) -> Option<&[TxOutput]> {
            Some(&self.1)
        }
        fn version_byte(&self) -> Option<u8> {
            None
        }
        fn flags(&self) -> Option<u128> {
            None
        }
    }
    let bare = Bare(d.ins.clone(), d.outs.clone());
    let dest = s.keys.dests(0)[0].clone();
    let sig = StandardInputSignature::produce_uniparty_signature_for_input(&s.keys.keys[0], mode(1), dest.clone(), &bare, &d.commits, 0, &mut PredefinedSigAuxDataProvider).unwrap();
    let w = EvaluatedInputWitness::Standard(sig);
    c.eq(|| "reward".into(), &verify_signature(&s.config, &dest, &bare, &w, &d.commits, 0).is_ok(), &true);
    c.eq(|| "reward as transaction".into(), &verify_signature(&s.config, &dest, &t, &w, &d.commits, 0).is_ok(), &false);
    for o in &s.outs[1..] {
        let x = Bare(d.ins.clone(), vec![o.clone()]);
        c.eq(|| format!("reward with {o:?}"), &verify_signature(&s.config, &dest, &x, &w, &d.commits, 0).is_ok(), &false);
    }
}

/// Who is to sign with how many others: every way of filling in the signatures.
fn multisig(ctx: &Ctx, c: &PartCtx) {
    let s = stuff();
    let config = &s.config;
    let most = ctx.pick(3, 4);
    let (msg, other) = (h(1), h(2));
    let sign = |k: usize, m: &H256| s.keys.keys[k].sign_message(&m.encode(), &mut PredefinedSigAuxDataProvider).unwrap();
    let sigs: Vec<[Signature; 2]> = (0..5).map(|k| [sign(k, &msg), sign(k, &other)]).collect();
    let jobs: Vec<(usize, u8)> = (1..=most).flat_map(|n| (1..=n as u8).map(move |m| (n, m))).collect();
    for (n, m) in jobs {
        let challenge = ClassicMultisigChallenge::new(config, m.try_into().unwrap(), (0..n).map(|k| s.keys.public(k)).collect()).unwrap();
        let dest = Destination::ClassicMultisig((&challenge).into());
        let strangers = [
            ClassicMultisigChallenge::new(config, m.try_into().unwrap(), (1..=n).map(|k| s.keys.public(k)).collect()).unwrap(),
            ClassicMultisigChallenge::new(config, (m % n as u8 + 1).try_into().unwrap(), (0..n).map(|k| s.keys.public(k)).collect()).unwrap(),
        ];
        // at each place and one beyond: nobody, or the signature of one of the keys or a stranger, or on another message
        let all: Vec<Vec<usize>> = sequences(n + 3, n + 1).collect();
        c.par(all.len(), |i| {
            let who = &all[i];
            let map: BTreeMap<u8, Signature> = who
                .iter()
                .enumerate()
                .filter(|(_, w)| **w > 0)
                .map(|(at, w)| (at as u8, if *w == n + 2 { sigs[at.min(4)][1].clone() } else { sigs[*w - 1][0].clone() }))
                .collect();
            let right = who.iter().enumerate().all(|(at, w)| *w == 0 || (*w == at + 1 && at < n)) && map.len() == m as usize;
            let got = |ch: &ClassicMultisigChallenge, dest: &Destination| {
                let raw = AuthorizedClassicalMultisigSpend::new(map.clone(), ch.clone()).encode();
                guard(|| StandardInputSignature::new(mode(1), raw).verify_signature(config, dest, &msg).is_ok())
            };
            c.evals(2);
            c.nontrivial(u64::from(right));
            c.outcome(if right { "enough" } else { "not right" });
            c.eq(|| format!("{m} of {n}, signed {who:?}"), &got(&challenge, &dest), &Ok(right));
            for (k, st) in strangers.iter().enumerate() {
                if *st != challenge {
                    c.eq(|| format!("{m} of {n}, other challenge {k}, signed {who:?}"), &got(st, &dest), &Ok(false));
                }
            }
        });
        // signing one after another in every order, also by the wrong key or twice
        let orders: Vec<Vec<usize>> = sequences((n + 1) * (n + 1), (m as usize + 1).min(3)).collect();
        c.par(orders.len(), |i| {
            let mut cur = AuthorizedClassicalMultisigSpend::new_empty(challenge.clone());
            for (step, x) in orders[i].iter().enumerate() {
                let (at, k) = (x / (n + 1), x % (n + 1));
                let have = cur.available_signatures_count();
                let fine = at < n && at == k && !cur.signatures().contains_key(&(at as u8)) && have < m as usize;
                let got = guard(|| sign_classical_multisig_spending(config, at as u8, &s.keys.keys[k], &challenge, &msg, cur.clone(), &mut PredefinedSigAuxDataProvider).ok());
                c.evals(1);
                let key = || format!("{m} of {n}, step {step} of {:?}", orders[i]);
                match got {
                    Ok(Some(done)) if fine => {
                        let full = have + 1 == m as usize;
                        c.eq(key, &matches!(done, ClassicalMultisigCompletionStatus::Complete(_)), &full);
                        cur = done.take();
                        c.eq(key, &cur.available_signatures_count(), &(have + 1));
                        let raw = cur.encode();
                        c.eq(key, &StandardInputSignature::new(mode(1), raw).verify_signature(config, &dest, &msg).is_ok(), &full);
                    }
                    Ok(None) if !fine => return,
                    r => return c.fail(key(), format!("{:?}", r.map(|x| x.is_some()))),
                }
            }
        });
    }
    // challenges that make no sense are refused although the signatures are right
    let limit = config.max_classic_multisig_public_keys_count();
    for n in [0, 1, 2, limit, limit + 1] {
        for m in [0, 1, 2, n as u8, n as u8 + 1] {
            let keys: Vec<_> = (0..n).map(|_| s.keys.public(0)).collect();
            let fine = n > 0 && n <= limit && m > 0 && m as usize <= n;
            if let Ok(m) = m.try_into() {
                c.eq(|| format!("challenge {m} of {n}"), &ClassicMultisigChallenge::new(config, m, keys.clone()).is_ok(), &fine);
            }
            let raw = (m, keys).encode();
            let challenge = ClassicMultisigChallenge::decode_all(&mut &raw[..]).expect("of its parts");
            let dest = Destination::ClassicMultisig((&challenge).into());
            let map: BTreeMap<u8, Signature> = (0..m).map(|i| (i, sigs[0][0].clone())).collect();
            let w = StandardInputSignature::new(mode(1), AuthorizedClassicalMultisigSpend::new(map, challenge).encode());
            c.evals(2);
            c.outcome(if fine { "challenge" } else { "no challenge" });
            c.eq(|| format!("challenge {m} of {n} met"), &guard(|| w.verify_signature(config, &dest, &msg).is_ok()), &Ok(fine));
        }
    }
}

fn messages(c: &PartCtx) {
    let s = stuff();
    let texts: Vec<Vec<u8>> = [&b""[..], b"a", b"b", b"ab", b"===MINTLAYER MESSAGE BEGIN===\n", b"\n===MINTLAYER MESSAGE END==="].iter().map(|t| t.to_vec()).collect();
    for (i, a) in texts.iter().enumerate() {
        for k in 0..2 {
            for (f, dest) in s.keys.dests(k).into_iter().enumerate() {
                let sig = ArbitraryMessageSignature::produce_uniparty_signature(&s.keys.keys[k], &dest, a, &mut PredefinedSigAuxDataProvider).unwrap();
                c.eq(|| "with another's key".into(), &ArbitraryMessageSignature::produce_uniparty_signature(&s.keys.keys[1 - k], &dest, a, &mut PredefinedSigAuxDataProvider).is_err(), &true);
                for (j, b) in texts.iter().enumerate() {
                    for k2 in 0..2 {
                        for (f2, d2) in s.keys.dests(k2).into_iter().enumerate() {
                            let fine = (i, k, f) == (j, k2, f2);
                            c.evals(1);
                            c.nontrivial(u64::from(fine));
                            c.outcome(if fine { "verifies" } else { "does not" });
                            let got = guard(|| sig.verify_signature(&s.config, &d2, &produce_message_challenge(b)).is_ok());
                            c.eq(|| format!("message {i} of key {k} form {f} as message {j} of key {k2} form {f2}"), &got, &Ok(fine));
                        }
                    }
                }
            }
        }
    }
    // a signed message is no signed transaction
    let d = Deal { flags: 0, ins: vec![s.ins[0].0.clone()], commits: vec![s.ins[0].1.clone()], outs: vec![s.outs[0].clone()] };
    let t = Transaction::new(0, d.ins.clone(), d.outs.clone()).unwrap();
    let hash = signature_hash(mode(1), &t, &d.commits, 0).unwrap();
    let dest = s.keys.dests(0)[0].clone();
    let sig = ArbitraryMessageSignature::produce_uniparty_signature(&s.keys.keys[0], &dest, hash.as_bytes(), &mut PredefinedSigAuxDataProvider).unwrap();
    let w = EvaluatedInputWitness::Standard(StandardInputSignature::new(mode(1), sig.into_raw()));
    c.eq(|| "message as transaction".into(), &verify_signature(&s.config, &dest, &t, &w, &d.commits, 0).is_ok(), &false);
}

pub fn run(ctx: &Ctx) {
    ctx.part("covering", "every transaction of up to 2 (thorough 3) inputs of 10 kinds and 3 outputs, every mode and input: after every single change of the transaction, of what it spends, of mode, input and destination the signature holds exactly if nothing covered differs", |c| covering(ctx, c));
    ctx.part("bytes", "every mode byte; every bit and length of signatures; no signature, a signature where there is to be none", bytes);
    ctx.part("several signers", "every challenge of up to 3 (thorough 4) keys: every way of filling in signatures of every key, of strangers and on other messages, every order of signing; challenges that make no sense", |c| multisig(ctx, c));
    ctx.part("messages", "every pair of 6 messages, keys and forms", messages);
}
