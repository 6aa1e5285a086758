//! L12: what belongs to somebody moves only with their signature.

use std::borrow::Cow;

use common::{
    chain::{
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, DelegationId, Destination, OrderAccountCommand, OrderData, OrderId,
        PoolId, SignedTransaction, Transaction, TxInput, TxOutput,
        classic_multisig::ClassicMultisigChallenge,
        signature::{
            inputsig::{
                InputWitness,
                classical_multisig::authorize_classical_multisig::{AuthorizedClassicalMultisigSpend, sign_classical_multisig_spending},
                standard_signature::StandardInputSignature,
            },
            sighash::{input_commitments::SighashInputCommitment, sighashtype::SigHashType, signature_hash},
        },
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::{
            IsTokenFreezable, IsTokenUnfreezable, Metadata, NftIssuance, NftIssuanceV0, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply,
        },
    },
    primitives::{BlockHeight, per_thousand::PerThousand},
};
use crypto::{
    key::PredefinedSigAuxDataProvider,
    vrf::{VRFKeyKind, VRFPrivateKey},
};
use mc_kit::{Ctx, PartCtx, guard};
use serialization::Encode;

use crate::{
    locks::{Keys, Line, genesis_coins, prefix},
    sim::{COIN, GENESIS_COIN, MATURITY, World, amt, coin, command, lock, out, spend, tok, transfer},
};

type Commit = SighashInputCommitment<'static>;

/// who there is
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Who {
    Coins,
    Authority,
    Staker,
    Decommissioner,
    Delegator,
    Orderer,
    Stranger,
    NewAuthority,
}
use Who::*;
const ALL: [Who; 8] = [Coins, Authority, Staker, Decommissioner, Delegator, Orderer, Stranger, NewAuthority];

struct People {
    keys: Keys,
    /// 0: by key, 1: by hash, 2: two of three keys
    form: usize,
    challenges: Vec<ClassicMultisigChallenge>,
}

impl People {
    fn new(w: &World, form: usize) -> Self {
        let keys = Keys::new(24);
        let challenges = (0..8).map(|i| ClassicMultisigChallenge::new(&w.config, 2.try_into().unwrap(), (0..3).map(|k| keys.public(8 * k + i)).collect()).unwrap()).collect();
        People { keys, form, challenges }
    }
    fn dest(&self, who: Who) -> Destination {
        let i = who as usize;
        match self.form {
            2 => Destination::ClassicMultisig((&self.challenges[i]).into()),
            f => self.keys.dests(i)[f].clone(),
        }
    }
    /// the witness for input `at` by `who`, as that person would make it for its own destination
    fn sign(&self, w: &World, who: Who, mode: u8, t: &Transaction, commits: &[Commit], at: usize) -> InputWitness {
        let (i, mode) = (who as usize, SigHashType::try_from(mode).unwrap());
        let mut aux = PredefinedSigAuxDataProvider;
        if self.form < 2 {
            let s = StandardInputSignature::produce_uniparty_signature_for_input(&self.keys.keys[i], mode, self.dest(who), t, commits, at, &mut aux);
            return InputWitness::Standard(s.expect("a signature"));
        }
        let hash = signature_hash(mode, t, commits, at).expect("something to sign");
        let mut sigs = AuthorizedClassicalMultisigSpend::new_empty(self.challenges[i].clone());
        for k in [0, 2] {
            sigs = sign_classical_multisig_spending(&w.config, k, &self.keys.keys[8 * k as usize + i], &self.challenges[i], &hash, sigs, &mut aux).expect("a signature").take();
        }
        InputWitness::Standard(StandardInputSignature::new(mode, sigs.encode()))
    }
}

/// An input that needs a signature, with what else the transaction has.
struct Deed {
    name: String,
    by: Option<Who>,
    input: TxInput,
    commit: Commit,
    /// other inputs that need none
    more: Vec<(TxInput, Commit)>,
    outs: Vec<TxOutput>,
}

struct Site {
    w: World,
    p: People,
    line: Line,
    deeds: Vec<Deed>,
    token: TokenId,
    nonce: u64,
    fees: Vec<(TxInput, Commit)>,
}

fn utxo(o: &TxOutput) -> Commit {
    Commit::Utxo(Cow::Owned(o.clone()))
}

fn site(form: usize) -> Result<Site, String> {
    let w = World::new(1000, false, |b| b);
    let p = People::new(&w, form);
    let free = genesis_coins(&w);
    let of = |i: usize| spend(&free[i].0);
    let any_coin = utxo(&transfer(coin(GENESIS_COIN)));
    let lead = prefix(&w, 1);
    let h = BlockHeight::new(2);
    let vrf = VRFPrivateKey::new_using_random_bytes(&[7; 32], VRFKeyKind::Schnorrkel).unwrap().1;
    // what there is, made by anyone's coins
    let bare = |ins: Vec<TxInput>, outs: Vec<TxOutput>| {
        let n = ins.len();
        SignedTransaction::new(Transaction::new(0, ins, outs).unwrap(), vec![InputWitness::NoSignature(None); n]).unwrap()
    };
    let owned = [
        TxOutput::Transfer(coin(COIN), p.dest(Coins)),
        TxOutput::LockThenTransfer(coin(COIN), p.dest(Coins), OutputTimeLock::ForBlockCount(0)),
        TxOutput::Transfer(coin(COIN), p.dest(Stranger)),
    ];
    let t_coins = bare(vec![of(0)], owned.to_vec());
    let token = common::chain::make_token_id(&w.config, h, &[of(1)]).unwrap();
    let issuance = TokenIssuance::V1(TokenIssuanceV1 {
        token_ticker: b"TKN".to_vec(),
        number_of_decimals: 2,
        metadata_uri: b"http://uri".to_vec(),
        total_supply: TokenTotalSupply::Lockable,
        authority: p.dest(Authority),
        is_freezable: IsTokenFreezable::Yes,
    });
    let t_issue = bare(vec![of(1)], vec![TxOutput::IssueFungibleToken(Box::new(issuance))]);
    let mint = {
        let ins = vec![command(0, AccountCommand::MintTokens(token, amt(1000))), of(2)];
        let commits = [Commit::None, any_coin.clone()];
        let outs = vec![
            TxOutput::Transfer(tok(token, 400), p.dest(Coins)),
            TxOutput::Transfer(tok(token, 300), Destination::AnyoneCanSpend),
            TxOutput::Transfer(tok(token, 300), Destination::AnyoneCanSpend),
        ];
        let t = Transaction::new(0, ins, outs).unwrap();
        let s = p.sign(&w, Authority, 1, &t, &commits, 0);
        SignedTransaction::new(t, vec![s, InputWitness::NoSignature(None)]).unwrap()
    };
    let pool = PoolId::from_utxo(&free[3].0);
    let data = StakePoolData::new(amt(2000 * COIN), p.dest(Staker), vrf, p.dest(Decommissioner), PerThousand::new(100).unwrap(), amt(0));
    let o_pool = TxOutput::CreateStakePool(pool, Box::new(data));
    let t_pool = bare(vec![of(3)], vec![o_pool.clone()]);
    let delegation = DelegationId::from_utxo(&free[4].0);
    let t_del = bare(vec![of(4)], vec![TxOutput::CreateDelegationId(p.dest(Delegator), pool)]);
    let t_del2 = bare(vec![of(5)], vec![TxOutput::DelegateStaking(amt(500 * COIN), delegation)]);
    let order = OrderId::from_utxo(&out(&mint, 1));
    let (ask, give) = (coin(600), tok(token, 300));
    let t_order = bare(vec![spend(&out(&mint, 1))], vec![TxOutput::CreateOrder(Box::new(OrderData::new(p.dest(Orderer), ask.clone(), give.clone())))]);
    let t_fill = bare(vec![TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(order, amt(200))), of(6)], vec![transfer(tok(token, 100))]);
    let nft = common::chain::make_token_id(&w.config, h, &[of(7)]).unwrap();
    let issue = NftIssuance::V0(NftIssuanceV0 {
        metadata: Metadata {
            creator: None,
            name: b"NAME".to_vec(),
            description: b"SOMETHING".to_vec(),
            ticker: b"NNN".to_vec(),
            icon_uri: None.into(),
            additional_metadata_uri: None.into(),
            media_uri: None.into(),
            media_hash: vec![3; 32],
        },
    });
    let o_nft = TxOutput::IssueNft(nft, Box::new(issue), p.dest(Coins));
    let t_nft = bare(vec![of(7)], vec![o_nft.clone()]);
    let all = vec![t_coins.clone(), t_issue, mint.clone(), t_pool.clone(), t_del, t_del2, t_order, t_fill, t_nft.clone()];
    let line = lead.with(&w, lead.times[1] + 120, all)?.map_err(|e| format!("the base: {e}"))?;

    let fee = |i: usize| vec![(of(i), any_coin.clone())];
    let tokens = mint.transaction().outputs().to_vec();
    let mut deeds = vec![];
    let mut deed = |name: &str, by: Option<Who>, input: TxInput, commit: Commit, more: Vec<(TxInput, Commit)>, outs: Vec<TxOutput>| {
        deeds.push(Deed { name: name.into(), by, input, commit, more, outs })
    };
    let coin_out = || vec![transfer(coin(COIN / 2))];
    deed("coins", Some(Coins), spend(&out(&t_coins, 0)), utxo(&owned[0]), vec![], coin_out());
    deed("coins once locked", Some(Coins), spend(&out(&t_coins, 1)), utxo(&owned[1]), vec![], coin_out());
    deed("coins of a stranger", Some(Stranger), spend(&out(&t_coins, 2)), utxo(&owned[2]), vec![], coin_out());
    deed("tokens", Some(Coins), spend(&out(&mint, 0)), utxo(&tokens[0]), fee(8), vec![transfer(tok(token, 400))]);
    deed("NFT", Some(Coins), spend(&out(&t_nft, 0)), utxo(&o_nft), fee(8), vec![transfer(tok(nft, 1))]);
    let acts: Vec<(&str, AccountCommand, Vec<TxOutput>)> = vec![
        ("mint", AccountCommand::MintTokens(token, amt(5)), vec![transfer(tok(token, 5))]),
        ("lock the supply", AccountCommand::LockTokenSupply(token), vec![transfer(coin(1))]),
        ("freeze", AccountCommand::FreezeToken(token, IsTokenUnfreezable::Yes), vec![transfer(coin(1))]),
        ("new authority", AccountCommand::ChangeTokenAuthority(token, p.dest(NewAuthority)), vec![transfer(coin(1))]),
        ("new description", AccountCommand::ChangeTokenMetadataUri(token, b"http://new".to_vec()), vec![transfer(coin(1))]),
    ];
    for (name, c, outs) in acts {
        deed(name, Some(Authority), command(1, c), Commit::None, fee(8), outs);
    }
    let burn = [fee(8), vec![(spend(&out(&mint, 2)), utxo(&tokens[2]))]].concat();
    deed("unmint", Some(Authority), command(1, AccountCommand::UnmintTokens(token)), Commit::None, burn, vec![TxOutput::Burn(tok(token, 300))]);
    let back = |a: u128| vec![lock(coin(a), OutputTimeLock::ForBlockCount(MATURITY))];
    deed("close the pool", Some(Decommissioner), spend(&out(&t_pool, 0)), utxo(&o_pool), vec![], back(2000 * COIN));
    let take = AccountSpending::DelegationBalance(delegation, amt(30 * COIN));
    deed("take delegated coins", Some(Delegator), TxInput::Account(AccountOutPoint::new(AccountNonce::new(0), take)), Commit::None, vec![], back(30 * COIN));
    deed("freeze the order", Some(Orderer), TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(order)), Commit::None, fee(8), vec![transfer(coin(1))]);
    let left = Commit::ConcludeOrderAccountCommand { initially_asked: ask.clone(), initially_given: give.clone(), ask_balance: amt(400), give_balance: amt(200) };
    deed("conclude the order", Some(Orderer), TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(order)), left, fee(8), vec![transfer(tok(token, 200)), transfer(coin(200))]);
    let fill = Commit::FillOrderAccountCommand { initially_asked: ask, initially_given: give };
    deed("fill the order", None, TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(order, amt(20))), fill, fee(8), vec![transfer(tok(token, 10))]);
    Ok(Site { fees: fee(9).into_iter().chain(fee(10)).collect(), w, p, line, deeds, token, nonce: 1 })
}

impl Site {
    /// the transaction with the signed input at a place among the others
    fn body(&self, d: &Deed, first: bool) -> (Transaction, Vec<Commit>, usize) {
        let mut all = d.more.clone();
        let at = if first { 0 } else { all.len() };
        all.insert(at, (d.input.clone(), d.commit.clone()));
        let (ins, commits) = all.into_iter().unzip();
        (Transaction::new(0, ins, d.outs.clone()).unwrap(), commits, at)
    }
    fn put(&self, t: &Transaction, at: usize, w: InputWitness) -> SignedTransaction {
        let mut ws = vec![InputWitness::NoSignature(None); t.inputs().len()];
        ws[at] = w;
        SignedTransaction::new(t.clone(), ws).unwrap()
    }
    fn goes(&self, txs: Vec<SignedTransaction>) -> Result<Result<(), String>, String> {
        Ok(self.line.with(&self.w, self.line.times[2] + 120, txs)?.map(|_| ()))
    }
    fn judge(&self, c: &PartCtx, name: String, fine: bool, txs: Vec<SignedTransaction>) {
        c.evals(1);
        c.nontrivial(u64::from(fine));
        c.outcome(if fine { "taken" } else { "refused" });
        match guard(|| self.goes(txs)) {
            Ok(Ok(Ok(()))) if fine => {}
            Ok(Ok(Err(_))) if !fine => {}
            r => c.fail(format!("form {}: {name}", self.p.form), format!("{r:?}")),
        }
    }
}

fn deeds(ctx: &Ctx, c: &PartCtx) {
    c.par(3, |form| {
        let s = match guard(|| site(form)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) | Err(e) => return c.fail(format!("form {form}"), e),
        };
        for d in &s.deeds {
            for first in [true, false] {
                if !first && d.more.is_empty() {
                    continue;
                }
                let (t, commits, at) = s.body(d, first);
                let name = |x: String| format!("{} (input {at}): {x}", d.name);
                s.judge(c, name("no signature".into()), d.by.is_none(), vec![s.put(&t, at, InputWitness::NoSignature(None))]);
                let Some(by) = d.by else { continue };
                for who in ALL {
                    for mode in [1, 2, 3, 0x81, 0x82, 0x83] {
                        if mode & 3 == 3 && at >= t.outputs().len() {
                            continue;
                        }
                        let w = s.p.sign(&s.w, who, mode, &t, &commits, at);
                        s.judge(c, name(format!("signed by {who:?}, mode {mode:#x}")), who == by, vec![s.put(&t, at, w)]);
                    }
                }
                // signed by the right one, but not this
                let sig = |t: &Transaction, commits: &[Commit], at| s.p.sign(&s.w, by, 1, t, commits, at);
                let good = sig(&t, &commits, at);
                let flags = Transaction::new(1, t.inputs().to_vec(), t.outputs().to_vec()).unwrap();
                s.judge(c, name("flags changed after signing".into()), false, vec![s.put(&flags, at, good.clone())]);
                let more = Transaction::new(0, t.inputs().to_vec(), [&t.outputs()[..1], t.outputs()].concat()).unwrap();
                s.judge(c, name("signed before an output was left out".into()), false, vec![s.put(&t, at, sig(&more, &commits, at))]);
                let mut other = commits.clone();
                other[at] = utxo(&transfer(coin(1)));
                s.judge(c, name("thought to spend something else".into()), false, vec![s.put(&t, at, sig(&t, &other, at))]);
                if let Commit::ConcludeOrderAccountCommand { initially_asked, initially_given, ask_balance, give_balance } = &commits[at] {
                    for (x, y) in [(600, 200), (400, 300), (600, 300), (200, 400)] {
                        other[at] = Commit::ConcludeOrderAccountCommand {
                            initially_asked: initially_asked.clone(),
                            initially_given: initially_given.clone(),
                            ask_balance: amt(x),
                            give_balance: amt(y),
                        };
                        let fine = (*ask_balance, *give_balance) == (amt(x), amt(y));
                        s.judge(c, name(format!("thought to have {x} asked and {y} given left")), fine, vec![s.put(&t, at, sig(&t, &other, at))]);
                    }
                }
                for i in 0..commits.len() {
                    if i != at {
                        let mut other = commits.clone();
                        other[i] = utxo(&transfer(coin(GENESIS_COIN - 1)));
                        s.judge(c, name(format!("thought input {i} to spend less")), false, vec![s.put(&t, at, sig(&t, &other, at))]);
                        s.judge(c, name(format!("signed for input {i}")), true, vec![s.put(&t, at, sig(&t, &commits, i))]);
                        // a signature too many
                        let mut ws = vec![InputWitness::NoSignature(None); commits.len()];
                        ws[at] = good.clone();
                        ws[i] = good.clone();
                        s.judge(c, name(format!("anyone's input {i} signed as well")), false, vec![SignedTransaction::new(t.clone(), ws).unwrap()]);
                    }
                }
            }
        }
        // two owners' inputs in one transaction, every pair of signatures
        let kinds: Vec<usize> = (0..s.deeds.len()).filter(|i| s.deeds[*i].by.is_some()).collect();
        for a in kinds.iter().copied() {
            for b in kinds.iter().copied() {
                let (x, y) = (&s.deeds[a], &s.deeds[b]);
                let commands = [x, y].iter().filter(|d| matches!(d.input, TxInput::AccountCommand(..) | TxInput::OrderAccountCommand(..))).count();
                if a == b || commands > 1 || x.by == y.by || matches!(x.input, TxInput::Account(_)) && matches!(y.input, TxInput::Account(_)) {
                    continue;
                }
                let all = [vec![(x.input.clone(), x.commit.clone()), (y.input.clone(), y.commit.clone())], x.more.clone(), if x.more.is_empty() { y.more.clone() } else { y.more.iter().skip(1).cloned().collect() }].concat();
                let (ins, commits): (Vec<_>, Vec<_>) = all.into_iter().unzip();
                let t = Transaction::new(0, ins, [&x.outs[..], &y.outs].concat()).unwrap();
                let most = ctx.pick(3, 8);
                let who = |d: &Deed| std::iter::once(d.by.unwrap()).chain([x.by.unwrap(), y.by.unwrap(), Stranger].into_iter().chain(ALL).filter(move |w| Some(*w) != d.by)).take(most).collect::<Vec<_>>();
                for p in who(x) {
                    for q in who(y) {
                        let mut ws = vec![InputWitness::NoSignature(None); commits.len()];
                        ws[0] = s.p.sign(&s.w, p, 1, &t, &commits, 0);
                        ws[1] = s.p.sign(&s.w, q, 1, &t, &commits, 1);
                        let fine = Some(p) == x.by && Some(q) == y.by;
                        s.judge(c, format!("{} and {}, signed by {p:?} and {q:?}", x.name, y.name), fine, vec![SignedTransaction::new(t.clone(), ws).unwrap()]);
                    }
                }
            }
        }
    });
}

/// Who may act for a token after its authority changed, in the same block and in the next.
fn heirs(c: &PartCtx) {
    c.par(3, |form| {
        let s = match guard(|| site(form)) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) | Err(e) => return c.fail(format!("form {form}"), e),
        };
        let act = |who: Who, nonce: u64, a: AccountCommand, fee: usize, outs: Vec<TxOutput>| {
            let (ins, commits): (Vec<_>, Vec<_>) = [(command(nonce, a), Commit::None), s.fees[fee].clone()].into_iter().unzip();
            let t = Transaction::new(0, ins, outs).unwrap();
            let w = s.p.sign(&s.w, who, 1, &t, &commits, 0);
            s.put(&t, 0, w)
        };
        let change = || act(Authority, s.nonce, AccountCommand::ChangeTokenAuthority(s.token, s.p.dest(NewAuthority)), 0, vec![transfer(coin(1))]);
        let later = guard(|| s.line.with(&s.w, s.line.times[2] + 120, vec![change()]));
        let Ok(Ok(Ok(later))) = later else {
            return c.fail(format!("form {form}: changing the authority"), format!("{:?}", later.map(|r| r.map(|r| r.map(|_| ())))));
        };
        let next: [(&str, AccountCommand, Vec<TxOutput>); 4] = [
            ("mint", AccountCommand::MintTokens(s.token, amt(5)), vec![transfer(tok(s.token, 5))]),
            ("freeze", AccountCommand::FreezeToken(s.token, IsTokenUnfreezable::No), vec![transfer(coin(1))]),
            ("give back", AccountCommand::ChangeTokenAuthority(s.token, s.p.dest(Authority)), vec![transfer(coin(1))]),
            ("describe", AccountCommand::ChangeTokenMetadataUri(s.token, b"http://x".to_vec()), vec![transfer(coin(1))]),
        ];
        for (name, a, outs) in next {
            for who in ALL {
                let t = act(who, s.nonce + 1, a.clone(), 1, outs.clone());
                let fine = who == NewAuthority;
                s.judge(c, format!("after the change in the same block, {name} by {who:?}"), fine, vec![change(), t.clone()]);
                c.evals(1);
                c.outcome(if fine { "taken" } else { "refused" });
                match guard(|| later.with(&s.w, later.times[3] + 120, vec![t])) {
                    Ok(Ok(r)) if r.is_ok() == fine => {}
                    r => c.fail(format!("form {form}: after the change, {name} by {who:?}"), format!("{:?}", r.map(|r| r.map(|r| r.map(|_| ()))))),
                }
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    ctx.part("deeds", "everything an owner can do, named by key, hash or two of three keys: signed by each of eight people in each mode, or not at all, or for something slightly different; every two deeds of two owners with signatures of three (thorough eight) people each", |c| deeds(ctx, c));
    ctx.part("heirs", "a token's authority changes: what each person can do then, in the same block and later", heirs);
}
