//! What a block is made of: a grammar of its texts, apart from the code that reads and writes them.
use std::{collections::BTreeSet, fmt::Debug};

use common::{
    chain::{
        AccountCommand, AccountNonce, AccountSpending, Block, Destination, GenBlock, Genesis, OrderAccountCommand, OrderId, OutPointSourceId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
        block::{BlockHeader, BlockReward, ConsensusData, block_body::BlockBody, signed_block_header::SignedBlockHeader, timestamp::BlockTimestamp},
        output_value::OutputValue,
        signature::inputsig::InputWitness,
        tokens::TokenId,
    },
    primitives::{Amount, H256, Id, Idable, id::default_hash},
};
use crypto::{
    key::{PredefinedSigAuxDataProvider, PrivateKey, PublicKey, Signature, secp256k1::Secp256k1PrivateKey},
    vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn},
};
use mc_kit::{Ctx, PartCtx, guard, hex, sequences};
use serialization::{Decode, DecodeAll, Encode};

use crate::forms::{short, shorten, take};

/// The grammar.
enum S {
    Number(usize),
    Short(u128),
    Bytes(usize),
    Blob,
    Text,
    List(Box<S>),
    Maybe(Box<S>),
    All(Vec<S>),
    One(Vec<(u8, S)>),
    /// a text of this length that its own type accepts, and some that it does
    Leaf(usize, fn(&[u8]) -> bool, Vec<Vec<u8>>),
    /// a transaction and as many witnesses as it has inputs
    Signed(Box<S>, Box<S>),
    /// the same, of which the first two alternatives are enough
    Plain(Box<S>),
}
use S::*;

impl S {
    fn read(&self, i: &mut &[u8]) -> Option<()> {
        match self {
            Number(n) | Bytes(n) => take(i, *n).map(|_| ()),
            Short(max) => short(i, *max).map(|_| ()),
            Blob => {
                let n = short(i, u32::MAX as u128)?;
                take(i, n as usize).map(|_| ())
            }
            Text => {
                let n = short(i, u32::MAX as u128)?;
                std::str::from_utf8(take(i, n as usize)?).ok().map(|_| ())
            }
            List(s) => {
                let n = short(i, u32::MAX as u128)?;
                for _ in 0..n {
                    s.read(i)?;
                }
                Some(())
            }
            Maybe(s) => match take(i, 1)?[0] {
                0 => Some(()),
                1 => s.read(i),
                _ => None,
            },
            All(v) => v.iter().try_for_each(|s| s.read(i)),
            One(v) => {
                let tag = take(i, 1)?[0];
                v.iter().find(|(t, _)| *t == tag)?.1.read(i)
            }
            Plain(s) => s.read(i),
            Leaf(n, f, _) => take(i, *n).filter(|b| f(b)).map(|_| ()),
            Signed(t, w) => {
                let whole = *i;
                t.read(i)?;
                // version, flags, then the inputs
                let mut from = &whole[1..];
                short(&mut from, u128::MAX)?;
                let inputs = short(&mut from, u32::MAX as u128)?;
                if short(i, u32::MAX as u128)? != inputs {
                    return None;
                }
                (0..inputs).try_for_each(|_| w.read(i))
            }
        }
    }
    fn good(&self, mut t: &[u8]) -> bool {
        self.read(&mut t).is_some() && t.is_empty()
    }
    /// texts that between them use every branch, the plainest first
    fn texts(&self) -> Vec<Vec<u8>> {
        let count = |n: u128| {
            let mut t = vec![];
            shorten(n, &mut t);
            t
        };
        match self {
            Number(n) => vec![vec![0; *n], (1..=*n as u8).collect()],
            Short(max) => [0, 63, 0x4000, 1 << 33, 1 << 70, u128::MAX].into_iter().map(|n| n.min(*max)).collect::<BTreeSet<_>>().into_iter().map(count).collect(),
            Bytes(n) => vec![(0..*n as u8).collect(), vec![0xff; *n]],
            Blob | Text => [&b""[..], b"a", &[b'x'; 70]].iter().map(|b| [count(b.len() as u128), b.to_vec()].concat()).collect(),
            List(s) => {
                let all = s.texts();
                let mut out = vec![count(0)];
                out.extend(all.iter().map(|t| [count(1), t.clone()].concat()));
                out.push([count(2), all[0].clone(), all[all.len() - 1].clone()].concat());
                out
            }
            Maybe(s) => std::iter::once(vec![0]).chain(s.texts().iter().map(|t| [vec![1], t.clone()].concat())).collect(),
            All(v) => {
                let parts: Vec<Vec<Vec<u8>>> = v.iter().map(|s| s.texts()).collect();
                let plain: Vec<Vec<u8>> = parts.iter().map(|p| p[0].clone()).collect();
                let mut out = vec![plain.concat()];
                for (k, p) in parts.iter().enumerate() {
                    for t in &p[1..] {
                        let mut x = plain.clone();
                        x[k] = t.clone();
                        out.push(x.concat());
                    }
                }
                out
            }
            One(v) => v.iter().flat_map(|(tag, s)| s.texts().into_iter().map(move |t| [vec![*tag], t].concat())).collect(),
            Plain(s) => match &**s {
                One(v) => v[..2].iter().flat_map(|(tag, s)| s.texts().into_iter().map(move |t| [vec![*tag], t].concat())).collect(),
                s => s.texts(),
            },
            Leaf(_, _, t) => t.clone(),
            Signed(t, w) => {
                let mut out = vec![];
                let ws = w.texts();
                for (k, t) in t.texts().into_iter().enumerate() {
                    let mut from = &t[1..];
                    short(&mut from, u128::MAX).unwrap();
                    let n = short(&mut from, u128::MAX).unwrap();
                    let x = [t, count(n), (0..n as usize).flat_map(|i| ws[(k + i) % ws.len()].clone()).collect()].concat();
                    out.push(x);
                }
                out
            }
        }
    }
}

fn nothing() -> S {
    All(vec![])
}
fn key() -> PrivateKey {
    Secp256k1PrivateKey::from_bytes(&[7; 32]).unwrap().into()
}
fn id() -> S {
    Bytes(32)
}
fn amount() -> S {
    Short(u128::MAX)
}
fn height() -> S {
    Short(u64::MAX as u128)
}
fn public() -> S {
    Leaf(34, |b| PublicKey::decode_all(&mut &*b).is_ok(), vec![PublicKey::from_private_key(&key()).encode()])
}
fn vrf_public() -> S {
    let (_, p) = VRFPrivateKey::new_using_random_bytes(&[1; 32], VRFKeyKind::Schnorrkel).unwrap();
    Leaf(33, |b| VRFPublicKey::decode_all(&mut &*b).is_ok(), vec![p.encode()])
}
/// a point as it comes and two small numbers
fn drawn() -> S {
    let small = |n: u8| (0..32).map(|i| if i == 0 { n } else { 0 }).collect::<Vec<u8>>();
    Leaf(97, |b| VRFReturn::decode_all(&mut &*b).is_ok(), vec![[vec![0], vec![5; 32], small(1), small(2)].concat()])
}
fn destination() -> S {
    One(vec![(0, nothing()), (1, Bytes(20)), (2, public()), (3, id()), (4, Bytes(20))])
}
fn yes_no() -> S {
    One(vec![(0, nothing()), (1, nothing())])
}
fn metadata() -> S {
    All(vec![Maybe(Box::new(public())), Blob, Blob, Blob, Blob, Blob, Blob, Blob])
}
fn value(old: bool) -> S {
    let mut v = vec![(0, amount()), (2, All(vec![id(), amount()]))];
    if old {
        v.push((1, One(vec![(1, All(vec![id(), amount()])), (2, All(vec![Blob, amount(), Number(1), Blob])), (3, metadata())])));
    }
    One(v)
}
fn lock() -> S {
    One((0..4).map(|n| (n, height())).collect())
}
fn pool() -> S {
    All(vec![amount(), destination(), vrf_public(), destination(), Leaf(2, |b| u16::from_le_bytes([b[0], b[1]]) <= 1000, vec![vec![0, 0], vec![0xe8, 3]]), amount()])
}
/// a part that occurs elsewhere in full needs its plainest forms only
fn plain(s: S) -> S {
    Plain(Box::new(s))
}
fn output() -> S {
    let (v, d) = (|| value(true), destination);
    let few = || plain(value(false));
    One(vec![
        (0, All(vec![v(), d()])),
        (1, All(vec![few(), plain(d()), lock()])),
        (2, value(false)),
        (3, All(vec![id(), pool()])),
        (4, All(vec![d(), id()])),
        (5, All(vec![d(), id()])),
        (6, All(vec![amount(), id()])),
        (7, One(vec![(1, All(vec![Blob, Number(1), Blob, One(vec![(0, amount()), (1, nothing()), (2, nothing())]), d(), yes_no()]))])),
        (8, All(vec![id(), One(vec![(0, metadata())]), plain(d())])),
        (9, Blob),
        (10, All(vec![few(), Bytes(20), d(), lock(), plain(d())])),
        (11, All(vec![d(), value(false), few()])),
    ])
}
fn input() -> S {
    let order = |v: Vec<S>| All(v);
    One(vec![
        (0, All(vec![yes_no_id(), Number(4)])),
        (1, All(vec![height(), One(vec![(0, All(vec![id(), amount()]))])])),
        (
            2,
            All(vec![
                height(),
                One(vec![
                    (0, All(vec![id(), amount()])),
                    (1, id()),
                    (2, id()),
                    (3, All(vec![id(), yes_no()])),
                    (4, id()),
                    (5, All(vec![id(), destination()])),
                    (6, id()),
                    (7, All(vec![id(), amount(), destination()])),
                    (8, All(vec![id(), Blob])),
                ]),
            ]),
        ),
        (3, One(vec![(0, order(vec![id(), amount()])), (1, id()), (2, id())])),
    ])
}
fn yes_no_id() -> S {
    One(vec![(0, id()), (1, id())])
}
fn transaction(full: bool) -> S {
    let cut = |s: S| if full { s } else { plain(s) };
    All(vec![One(vec![(1, nothing())]), Short(u128::MAX), List(Box::new(cut(input()))), List(Box::new(cut(output())))])
}
fn witness() -> S {
    let kind = Leaf(1, |b| [1, 2, 3].contains(&(b[0] & 0x7f)), [1, 2, 3, 0x81, 0x82, 0x83].iter().map(|b| vec![*b]).collect());
    One(vec![(0, Maybe(Box::new(Blob))), (1, All(vec![kind, Blob]))])
}
fn signed(full: bool) -> S {
    Signed(Box::new(transaction(full)), Box::new(witness()))
}
fn header() -> S {
    let stake = All(vec![List(Box::new(plain(input()))), List(Box::new(witness())), id(), drawn(), Number(4)]);
    All(vec![One(vec![(1, nothing())]), id(), id(), id(), height(), One(vec![(0, nothing()), (1, All(vec![Number(4), Number(16)])), (2, stake)])])
}
fn signed_header() -> S {
    let s = key().sign_message(b"x", &mut PredefinedSigAuxDataProvider).unwrap();
    All(vec![header(), One(vec![(0, nothing()), (1, Leaf(65, |b| Signature::decode_all(&mut &*b).is_ok(), vec![s.encode()]))])])
}
fn body() -> S {
    All(vec![List(Box::new(plain(output()))), List(Box::new(signed(false)))])
}

fn each<T: Encode + Decode + Debug + PartialEq>(c: &PartCtx, ctx: &Ctx, name: &str, s: S, also: impl Fn(&T, &[u8]) -> bool + Sync) {
    let texts = s.texts();
    // every byte in short texts and the plainest; in the others those next to the right one and at the borders
    c.par(texts.len(), |k| {
        let t = &texts[k];
        let mut n = 0;
        let mut good = 0;
        let mut one = |b: &[u8]| {
            let want = s.good(b);
            n += 1;
            let got = guard(|| match T::decode_all(&mut &*b) {
                Ok(v) => {
                    good += 1;
                    v.encode() == b && v.encoded_size() == b.len() && also(&v, b) && T::decode(&mut &[b, &[1u8][..]].concat()[..]).is_ok_and(|w| w == v)
                }
                Err(_) => !want,
            });
            let read = got == Ok(true) && want == T::decode_all(&mut &*b).is_ok();
            if !read {
                c.fail(format!("{name} from {}", hex(b)), format!("{}, and the code says {got:?}", if want { "is one" } else { "is none" }));
            }
            read
        };
        if !one(t) {
            return;
        }
        for cut in 0..t.len() {
            if !one(&t[..cut]) {
                return;
            }
        }
        for more in [0u8, 1, 0xff] {
            let mut b = t.clone();
            b.push(more);
            if !one(&b) {
                return;
            }
        }
        let step = if t.len() <= 80 || k == 0 || !ctx.quick() { 1 } else { 0 };
        for p in 0..t.len() {
            let old = t[p];
            let mut b = t.clone();
            let values: Vec<u8> = if step == 1 { (0..=255).collect() } else { vec![0, 1, 2, 3, 4, 12, 0x7f, 0x80, 0xfc, 0xff, old ^ 1, old ^ 2, old ^ 4, old.wrapping_add(4), old.wrapping_sub(1), old ^ 0x80] };
            for v in values {
                if v != old {
                    b[p] = v;
                    if !one(&b) {
                        return;
                    }
                }
            }
            if c.stop() {
                return;
            }
        }
        // a byte left out, a byte twice
        for p in 0..t.len() {
            let mut b = t.clone();
            b.remove(p);
            let mut d = t.clone();
            d.insert(p, t[p]);
            if !one(&b) || !one(&d) {
                return;
            }
        }
        c.evals(n);
        c.nontrivial(good);
        c.outcome_n("read", good);
        c.outcome_n("refused", n - good);
    });
}

pub fn run(ctx: &Ctx) {
    ctx.part("outputs and inputs", "texts that use every branch of the grammar; each cut short at every place, longer, with a byte changed, left out or doubled", |c| {
        each::<TxOutput>(c, ctx, "output", output(), |_, _| true);
        each::<TxInput>(c, ctx, "input", input(), |i, b| i.utxo_outpoint().is_some() == (b[0] == 0));
        each::<InputWitness>(c, ctx, "witness", witness(), |_, _| true);
        each::<Destination>(c, ctx, "destination", destination(), |_, _| true);
    });
    ctx.part("transactions", "the same; the name of a transaction is the hash of its text without witnesses, with them it has another", |c| {
        each::<Transaction>(c, ctx, "transaction", transaction(true), |t, b| t.get_id().to_hash() == default_hash(b) && t.serialized_hash() == default_hash(b));
        each::<SignedTransaction>(c, ctx, "signed transaction", signed(true), |t, b| {
            let own = t.transaction().encode();
            b.starts_with(&own) && t.transaction().get_id().to_hash() == default_hash(own) && t.serialized_hash() == default_hash(b) && t.signatures().len() == t.inputs().len()
        });
    });
    ctx.part("headers and blocks", "the same; the name of a block is the hash of its header's text without the signature", |c| {
        each::<BlockHeader>(c, ctx, "header", header(), |h, b| h.get_id().to_hash() == default_hash(b) && h.block_id() == h.get_id());
        each::<SignedBlockHeader>(c, ctx, "signed header", signed_header(), |h, b| {
            let own = h.header().encode();
            b.starts_with(&own) && h.get_id().to_hash() == default_hash(own)
        });
        each::<Block>(c, ctx, "block", All(vec![signed_header(), body()]), |x, b| {
            let own = x.header().header().encode();
            b.starts_with(&own) && x.get_id().to_hash() == default_hash(own)
        });
        each::<Genesis>(c, ctx, "first block", All(vec![Text, height(), List(Box::new(plain(output())))]), |g, b| g.get_id().to_hash() == default_hash(b));
    });
    ctx.part("what a header says of its body", "every list of up to four (five) of three transactions, two rewards and two witnesses: roots all distinct, proofs of each place, bodies that belong to another header", |c| {
        let pay = |n: u128, w: u8| {
            let i = TxInput::from_utxo(OutPointSourceId::Transaction(Id::new(H256([9; 32]))), 1);
            let t = Transaction::new(0, vec![i], vec![TxOutput::Transfer(OutputValue::Coin(Amount::from_atoms(n)), Destination::AnyoneCanSpend)]).unwrap();
            SignedTransaction::new(t, vec![InputWitness::NoSignature(Some(vec![w]))]).unwrap()
        };
        let reward = |n: u128| BlockReward::new((0..n).map(|n| TxOutput::Burn(OutputValue::Coin(Amount::from_atoms(n)))).collect());
        let mut roots = BTreeSet::new();
        let mut both = BTreeSet::new();
        let mut bodies = vec![];
        for len in 0..=ctx.pick(4, 5) {
            for s in sequences(3, len) {
                for r in 0..2 {
                    let mut of = [None; 2];
                    for w in 0..2u8 {
                        let txs: Vec<_> = s.iter().enumerate().map(|(k, n)| pay(*n as u128, if k + 1 == len { w } else { 0 })).collect();
                        let b = BlockBody::new(reward(r), txs);
                        let proxy = b.merkle_tree_proxy().unwrap();
                        let (t, m) = (proxy.merkle_tree(), proxy.witness_merkle_tree());
                        c.evals(1);
                        c.nontrivial(1);
                        // every part can be shown to be in its place, and in no other
                        let rt = default_hash(reward(r).encode());
                        let mut leaves = vec![(rt, rt)];
                        leaves.extend(b.transactions().iter().map(|t| (t.transaction().get_id().to_hash(), default_hash(t.encode()))));
                        for (k, (a, d)) in leaves.iter().enumerate() {
                            let (p, q) = match k {
                                0 => (t.block_reward_inclusion_proof().unwrap(), m.block_reward_inclusion_proof().unwrap()),
                                k => (t.transaction_inclusion_proof(k as u32 - 1).unwrap(), m.transaction_witness_inclusion_proof(k as u32 - 1).unwrap()),
                            };
                            for (a2, d2) in &leaves {
                                // a tree of one leaf is its own proof
                                let (x, y) = (p.verify(*a2, t.root()), q.verify(*d2, m.root()));
                                let fine = |v: &common::primitives::id::H256, w: &H256, root: H256, r: merkletree_mintlayer::proof::single::PassOrFail| if leaves.len() == 1 { *v == root } else { r.passed_decisively() == (v == w) };
                                if !fine(a2, a, t.root(), x) || !fine(d2, d, m.root(), y) {
                                    c.fail(format!("body {s:?} reward {r} witness {w}: proof of part {k}"), "does not show that part and no other");
                                }
                            }
                        }
                        let known = match leaves.len() {
                            1 => (t.block_reward_leaf(), m.block_reward_witness_leaf()),
                            n => (t.transaction_leaf(n - 2).unwrap(), m.transaction_witness_leaf(n - 2).unwrap()),
                        };
                        c.eq(|| format!("body {s:?} reward {r} witness {w}: last leaf"), &known, leaves.last().unwrap());
                        if let Some(first) = of[0] {
                            c.eq(|| format!("body {s:?} reward {r}: the root without witnesses"), &t.root(), &first);
                        } else {
                            of[0] = Some(t.root());
                            c.eq(|| format!("body {s:?} reward {r}: another root than any before"), &roots.insert(t.root()), &true);
                        }
                        if w == 0 || len > 0 {
                            c.eq(|| format!("body {s:?} reward {r} witness {w}: another witness root than any before"), &both.insert(m.root()), &true);
                        }
                        if len <= 2 {
                            bodies.push(b);
                        }
                    }
                }
            }
        }
        let made: Vec<Block> = bodies.iter().map(|b| Block::new(b.transactions().to_vec(), Id::<GenBlock>::new(H256([3; 32])), BlockTimestamp::from_int_seconds(5), ConsensusData::None, b.reward().clone()).unwrap()).collect();
        for (i, x) in made.iter().enumerate() {
            c.eq(|| format!("body {i} in its block"), &(x.body() == &bodies[i], x.merkle_root() == bodies[i].merkle_tree_proxy().unwrap().merkle_tree().root()), &(true, true));
            for (j, b) in bodies.iter().enumerate() {
                c.evals(1);
                let got = Block::new_from_header(x.header().clone(), b.clone()).ok();
                c.eq(|| format!("header of body {i} with body {j}"), &got, &(*b == bodies[i]).then(|| x.clone()));
                let _ = j;
            }
        }
    });
    ctx.part("names made of inputs", "every list of up to three of eight inputs: pools, delegations, orders and tokens named by the first that fits, under both rules", |c| {
        let tx = |n: u8, k: u32| TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(H256([n; 32]))), k));
        let inputs = [
            tx(1, 0),
            tx(1, 1),
            tx(2, 0),
            TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::BlockReward(Id::new(H256([1; 32]))), 0)),
            TxInput::from_account(AccountNonce::new(0), AccountSpending::DelegationBalance(Id::<()>::new(H256([4; 32])).to_hash().into(), Amount::from_atoms(1))),
            TxInput::from_command(AccountNonce::new(1), AccountCommand::UnmintTokens(TokenId::new(H256([5; 32])))),
            TxInput::from_command(AccountNonce::new(2), AccountCommand::ConcludeOrder(OrderId::new(H256([6; 32])))),
            TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(OrderId::new(H256([7; 32])))),
        ];
        use common::chain::{TokenIdGenerationVersion as V, make_delegation_id, make_order_id, make_pool_id, make_token_id_with_version};
        let mut named = std::collections::BTreeMap::new();
        for len in 0..=3 {
            for s in sequences(inputs.len(), len) {
                let list: Vec<TxInput> = s.iter().map(|i| inputs[*i].clone()).collect();
                let first = s.iter().find(|i| **i < 4);
                let text = first.map(|i| inputs[*i].utxo_outpoint().unwrap().encode());
                let plus = |n: u32| text.clone().map(|t| default_hash([t, n.to_le_bytes().to_vec()].concat()));
                c.evals(1);
                c.nontrivial(u64::from(first.is_some()));
                c.outcome(if first.is_some() { "named" } else { "none" });
                let got = (
                    make_pool_id(&list).ok().map(|i| i.to_hash()),
                    make_delegation_id(&list).ok().map(|i| i.to_hash()),
                    make_order_id(&list).ok().map(|i| i.to_hash()),
                    make_token_id_with_version(V::V0, &list).ok().map(|i| i.to_hash()),
                    make_token_id_with_version(V::V1, &list).ok().map(|i| i.to_hash()),
                );
                let want = (plus(0), plus(1), text.clone().map(default_hash), list.first().map(|i| default_hash(i.encode())), first.map(|i| default_hash(inputs[*i].encode())));
                c.eq(|| format!("names from inputs {s:?}"), &got, &want);
                // one name, one thing
                for (kind, h) in [got.0, got.1, got.2, got.4].into_iter().enumerate() {
                    if let Some(h) = h {
                        let old = *named.entry(h).or_insert((kind, *first.unwrap()));
                        c.eq(|| format!("what the name {h:x} stands for"), &old, &(kind, *first.unwrap()));
                    }
                }
            }
        }
    });
}
