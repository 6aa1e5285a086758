use crate::book::{Act, Book, explore};
use common::chain::Destination;
use common::chain::tokens::{IsTokenFreezable, IsTokenFrozen, IsTokenUnfreezable, TokenId, TokenTotalSupply};
use common::primitives::{Amount, H256};
use mc_kit::Ctx;
use std::collections::BTreeMap;
use tokens_accounting::*;

#[derive(Clone, Debug, PartialEq)]
pub struct Token {
    ticker: Vec<u8>,
    decimals: u8,
    uri: Vec<u8>,
    supply: TokenTotalSupply,
    locked: bool,
    frozen: IsTokenFrozen,
    authority: Destination,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Flat {
    tokens: BTreeMap<u8, Token>,
    supply: BTreeMap<u8, u128>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Issue(u8, u8, bool),
    Mint(u8, u128),
    Unmint(u8, u128),
    Lock(u8),
    Freeze(u8, bool),
    Unfreeze(u8),
    Authority(u8, u8),
    Uri(u8, u8),
}
const LIMIT: u128 = 5;
fn id(i: u8) -> TokenId {
    TokenId::new(H256::repeat_byte(i + 1))
}
fn authority(i: u8) -> Destination {
    if i == 0 { Destination::AnyoneCanSpend } else { Destination::ScriptHash(common::primitives::Id::new(H256::repeat_byte(i))) }
}
fn unfreezable(b: bool) -> IsTokenUnfreezable {
    if b { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No }
}
fn issued(i: u8, kind: u8, freezable: bool) -> Token {
    Token {
        ticker: vec![b'A' + i],
        decimals: i,
        uri: b"x".to_vec(),
        supply: [TokenTotalSupply::Fixed(Amount::from_atoms(LIMIT)), TokenTotalSupply::Lockable, TokenTotalSupply::Unlimited][kind as usize],
        locked: false,
        frozen: IsTokenFrozen::No(if freezable { IsTokenFreezable::Yes } else { IsTokenFreezable::No }),
        authority: authority(0),
    }
}
fn real(t: &Token) -> TokenData {
    TokenData::FungibleToken(FungibleTokenData::new_unchecked(
        t.ticker.clone(), t.decimals, t.uri.clone(), t.supply, t.locked, t.frozen, t.authority.clone(),
    ))
}
fn read(d: &TokenData) -> Token {
    let TokenData::FungibleToken(t) = d;
    Token {
        ticker: t.token_ticker().to_vec(),
        decimals: t.number_of_decimals(),
        uri: t.metadata_uri().to_vec(),
        supply: *t.total_supply(),
        locked: t.is_locked(),
        frozen: t.frozen_state(),
        authority: t.authority().clone(),
    }
}

#[derive(Clone)]
pub struct Tokens {
    ids: u8,
    kinds: &'static [(u8, bool)],
    few: bool,
}
fn cache<P: TokensAccountingView>(parent: P, delta: &TokensAccountingDeltaData) -> TokensAccountingCache<P> {
    let mut c = TokensAccountingCache::new(parent);
    let _ = c.batch_write_tokens_data(delta.clone()).expect("into an empty cache");
    assert_eq!(c.data(), delta, "writing into an empty cache changed what was written");
    c
}
fn apply(c: &mut impl TokensAccountingOperations, act: Act<Op, TokenAccountingUndo>) -> Result<Option<TokenAccountingUndo>, String> {
    match act {
        Act::Undo(u) => c.undo(u).map(|_| None),
        Act::Do(op) => match op {
            Op::Issue(i, k, f) => c.issue_token(id(i), real(&issued(i, k, f))),
            Op::Mint(i, a) => c.mint_tokens(id(i), Amount::from_atoms(a)),
            Op::Unmint(i, a) => c.unmint_tokens(id(i), Amount::from_atoms(a)),
            Op::Lock(i) => c.lock_circulating_supply(id(i)),
            Op::Freeze(i, u) => c.freeze_token(id(i), unfreezable(u)),
            Op::Unfreeze(i) => c.unfreeze_token(id(i)),
            Op::Authority(i, a) => c.change_authority(id(i), authority(a)),
            Op::Uri(i, u) => c.change_metadata_uri(id(i), vec![u]),
        }
        .map(Some),
    }
    .map_err(|e| e.to_string())
}
impl Tokens {
    fn look<V: TokensAccountingView>(&self, v: &V) -> Result<Flat, String> {
        let mut f = Flat::default();
        for i in 0..self.ids {
            if let Some(d) = v.get_token_data(&id(i)).map_err(|e| e.to_string())? {
                f.tokens.insert(i, read(&d));
            }
            let s = v.get_circulating_supply(&id(i)).map_err(|e| e.to_string())?.into_atoms();
            if s != 0 {
                f.supply.insert(i, s);
            }
        }
        Ok(f)
    }
}
impl Book for Tokens {
    type Store = InMemoryTokensAccounting;
    type Delta = TokensAccountingDeltaData;
    type Undo = TokenAccountingUndo;
    type Flat = Flat;
    type Op = Op;
    fn empty(&self) -> (Self::Store, Flat) {
        (InMemoryTokensAccounting::new(), Flat::default())
    }
    fn layer(&self, _store: &Self::Store, _layers: &[Self::Delta]) -> Self::Delta {
        TokensAccountingDeltaData::new()
    }
    fn ops(&self, flat: &Flat) -> Vec<Op> {
        let mut v = vec![];
        for i in 0..self.ids {
            v.extend(self.kinds.iter().map(|(k, f)| Op::Issue(i, *k, *f)));
            let have = flat.supply.get(&i).copied().unwrap_or(0);
            v.push(Op::Mint(i, 2));
            v.push(Op::Mint(i, LIMIT - have.min(LIMIT) + 1));
            v.push(Op::Unmint(i, 1));
            v.push(Op::Unmint(i, have + 1));
            if !self.few {
                v.push(Op::Mint(i, u128::MAX));
                v.push(Op::Mint(i, LIMIT - have.min(LIMIT)));
                v.push(Op::Unmint(i, have));
                v.push(Op::Freeze(i, false));
                v.push(Op::Uri(i, b'y'));
            }
            v.push(Op::Lock(i));
            v.push(Op::Freeze(i, true));
            v.push(Op::Unfreeze(i));
            v.push(Op::Authority(i, 1));
        }
        v
    }
    fn model(&self, flat: &Flat, op: &Op) -> Option<Flat> {
        let mut f = flat.clone();
        let i = match op {
            Op::Issue(i, ..) | Op::Mint(i, _) | Op::Unmint(i, _) | Op::Lock(i) | Op::Freeze(i, _) | Op::Unfreeze(i) | Op::Authority(i, _) | Op::Uri(i, _) => *i,
        };
        if let Op::Issue(_, k, fr) = op {
            if f.tokens.contains_key(&i) {
                return None;
            }
            f.tokens.insert(i, issued(i, *k, *fr));
            return Some(f);
        }
        let have = f.supply.get(&i).copied().unwrap_or(0);
        let t = f.tokens.get_mut(&i)?;
        // a frozen token can do nothing but thaw
        let frozen = matches!(t.frozen, IsTokenFrozen::Yes(_));
        if frozen != matches!(op, Op::Unfreeze(_)) {
            return None;
        }
        match op {
            Op::Issue(..) => unreachable!(),
            Op::Mint(_, a) => {
                let to = have.checked_add(*a).filter(|x| *x <= i128::MAX as u128)?;
                match t.supply {
                    TokenTotalSupply::Fixed(l) if to > l.into_atoms() => return None,
                    TokenTotalSupply::Lockable if t.locked => return None,
                    _ => {}
                }
                if to != 0 {
                    f.supply.insert(i, to);
                }
            }
            Op::Unmint(_, a) => {
                if t.locked || *a > have {
                    return None;
                }
                f.supply.insert(i, have - a);
                f.supply.retain(|_, v| *v != 0);
            }
            Op::Lock(_) => {
                if t.supply != TokenTotalSupply::Lockable || t.locked {
                    return None;
                }
                t.locked = true;
            }
            Op::Freeze(_, u) => {
                if t.frozen != IsTokenFrozen::No(IsTokenFreezable::Yes) {
                    return None;
                }
                t.frozen = IsTokenFrozen::Yes(unfreezable(*u));
            }
            Op::Unfreeze(_) => {
                if t.frozen != IsTokenFrozen::Yes(IsTokenUnfreezable::Yes) {
                    return None;
                }
                t.frozen = IsTokenFrozen::No(IsTokenFreezable::Yes);
            }
            Op::Authority(_, a) => t.authority = authority(*a),
            Op::Uri(_, u) => t.uri = vec![*u],
        }
        Some(f)
    }
    fn act(&self, store: &Self::Store, layers: &mut [Self::Delta], act: Act<Op, Self::Undo>) -> Result<Option<Self::Undo>, String> {
        let db = TokensAccountingDB::new(store);
        let (r, d) = match layers {
            [a] => {
                let mut l = cache(&db, a);
                let r = apply(&mut l, act);
                (r, l.consume())
            }
            [a, b] => {
                let lower = cache(&db, a);
                let mut l = cache(&lower, b);
                let r = apply(&mut l, act);
                (r, l.consume())
            }
            _ => unreachable!(),
        };
        *layers.last_mut().unwrap() = d;
        r
    }
    fn view(&self, store: &Self::Store, layers: &[Self::Delta]) -> Result<Flat, String> {
        let db = TokensAccountingDB::new(store);
        match layers {
            [] => self.look(&db),
            [a] => self.look(&cache(&db, a)),
            [a, b] => self.look(&cache(&cache(&db, a), b)),
            _ => unreachable!(),
        }
    }
    fn commit(&self, store: &mut Self::Store, delta: Self::Delta) -> Result<(), String> {
        TokensAccountingDB::new(store).batch_write_tokens_data(delta).map(|_| ()).map_err(|e| e.to_string())
    }
    fn merge(&self, _store: &Self::Store, lower: &mut Self::Delta, upper: Self::Delta) -> Result<(), String> {
        lower.merge_with_delta(upper).map(|_| ()).map_err(|e| e.to_string())
    }
    fn store_is(&self, store: &Self::Store, flat: &Flat) -> Result<(), String> {
        let tokens: BTreeMap<TokenId, Token> = store.tokens_data().iter().map(|(k, v)| (*k, read(v))).collect();
        let want: BTreeMap<TokenId, Token> = flat.tokens.iter().map(|(k, v)| (id(*k), v.clone())).collect();
        let supply: BTreeMap<TokenId, u128> = store.circulating_supply().iter().map(|(k, v)| (*k, v.into_atoms())).collect();
        let want_supply: BTreeMap<TokenId, u128> = flat.supply.iter().map(|(k, v)| (id(*k), *v)).collect();
        if (&tokens, &supply) == (&want, &want_supply) { Ok(()) } else { Err(format!("the store holds {tokens:?} {supply:?}")) }
    }
    fn invariant(&self, flat: &Flat) -> Result<(), String> {
        for (i, s) in &flat.supply {
            match flat.tokens.get(i) {
                None => return Err(format!("supply {s} of no token")),
                Some(Token { supply: TokenTotalSupply::Fixed(l), .. }) if *s > l.into_atoms() => return Err(format!("supply {s} over the limit")),
                _ => {}
            }
        }
        Ok(())
    }
}

pub fn run(ctx: &Ctx) {
    let kinds: &[(u8, bool)] = &[(0, true), (1, true), (1, false), (2, true)];
    ctx.part("one token", "every history of up to 7 (thorough 10) steps of issuing, minting, unminting, locking, freezing, thawing and changing a token, opening, merging and dropping layers over the store, and undoing: the views against a flat book, and the store against what was committed", |c| {
        explore(c, &Tokens { ids: 1, kinds, few: false }, ctx.pick(7, 10));
    });
    ctx.part("two tokens", "every history of up to 7 (thorough 9) steps with two tokens", |c| {
        explore(c, &Tokens { ids: 2, kinds: &kinds[..2], few: true }, ctx.pick(7, 9));
    });
}
