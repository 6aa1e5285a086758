//! A second interpreter, written from the meaning of the opcodes.

use std::cell::RefCell;
use std::collections::BTreeSet;

use script::context::{Context, ParseResult};

pub type Call = (u8, Vec<u8>, Vec<u8>, u32);

/// What the caller of the interpreter decides.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Rules {
    pub minimal_push: bool,
    pub minimal_if: bool,
    pub lock: i64,
    pub seq: i64,
}

pub const STRICT: Rules = Rules { minimal_push: true, minimal_if: true, lock: 100, seq: 50 };
pub const LOOSE: Rules = Rules { minimal_push: false, minimal_if: false, lock: -1, seq: 0x1_0000_0000 };

pub struct Ctx<const ELEM: usize, const STACK: usize, const KEYS: usize, const SCRIPT: usize> {
    pub rules: Rules,
    pub calls: RefCell<BTreeSet<Call>>,
    pub times: RefCell<Vec<(bool, i64)>>,
}
pub type Roomy = Ctx<520, 1000, 4, 10_000>;
pub type Wide = Ctx<520, 1000, 30, 10_000>;
pub type Tight = Ctx<3, 4, 2, 6>;

impl<const E: usize, const S: usize, const K: usize, const B: usize> Ctx<E, S, K, B> {
    pub fn new(rules: Rules) -> Self {
        Self { rules, calls: Default::default(), times: Default::default() }
    }
}

pub enum Key {
    Good(u8),
    Bad,
    Reserved,
}
/// Keys are one byte; 0xEE is reserved for the future.
pub fn key(pk: &[u8]) -> Key {
    match pk {
        [0xEE] => Key::Reserved,
        [k] => Key::Good(*k),
        _ => Key::Bad,
    }
}
/// A signature is the key's byte followed by anything; an empty one is malformed.
pub fn signs(k: u8, sig: &[u8]) -> bool {
    sig.first() == Some(&k)
}

impl<const E: usize, const S: usize, const K: usize, const B: usize> Context for Ctx<E, S, K, B> {
    const MAX_SCRIPT_ELEMENT_SIZE: usize = E;
    const MAX_STACK_ELEMENTS: usize = S;
    const MAX_PUBKEYS_PER_MULTISIG: usize = K;
    const MAX_SCRIPT_SIZE: usize = B;
    type Public = u8;
    type SignatureData = (u8, Vec<u8>);
    fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<u8> {
        match key(pk) {
            Key::Good(k) => ParseResult::Ok(k),
            Key::Bad => ParseResult::Err,
            Key::Reserved => ParseResult::Reserved,
        }
    }
    fn parse_signature(&self, pk: u8, sig: &[u8]) -> Option<(u8, Vec<u8>)> {
        (!sig.is_empty()).then(|| (pk, sig.to_vec()))
    }
    fn verify_signature(&self, s: &(u8, Vec<u8>), subscript: &[u8], codesep: u32) -> bool {
        self.calls.borrow_mut().insert((s.0, s.1.clone(), subscript.to_vec(), codesep));
        signs(s.0, &s.1)
    }
    fn check_lock_time(&self, t: i64) -> bool {
        self.times.borrow_mut().push((false, t));
        t <= self.rules.lock
    }
    fn check_sequence(&self, t: i64) -> bool {
        self.times.borrow_mut().push((true, t));
        t <= self.rules.seq
    }
    fn enforce_minimal_push(&self) -> bool {
        self.rules.minimal_push
    }
    fn enforce_minimal_if(&self) -> bool {
        self.rules.minimal_if
    }
}

/// What a context that chooses nothing gets.
pub struct Bare;

impl Context for Bare {
    const MAX_PUBKEYS_PER_MULTISIG: usize = 4;
    const MAX_SCRIPT_SIZE: usize = 10_000;
    type Public = u8;
    type SignatureData = u8;
    fn parse_pubkey(&self, pk: &[u8]) -> ParseResult<u8> {
        pk.first().copied().into()
    }
    fn parse_signature(&self, pk: u8, _: &[u8]) -> Option<u8> {
        Some(pk)
    }
    fn verify_signature(&self, _: &u8, _: &[u8], _: u32) -> bool {
        true
    }
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub elem: usize,
    pub stack: usize,
    pub keys: usize,
    pub script: usize,
}
pub const ROOMY: Limits = Limits { elem: 520, stack: 1000, keys: 4, script: 10_000 };
pub const WIDE: Limits = Limits { elem: 520, stack: 1000, keys: 30, script: 10_000 };
pub const TIGHT: Limits = Limits { elem: 3, stack: 4, keys: 2, script: 6 };

pub type St = Vec<Vec<u8>>;

pub fn truth(v: &[u8]) -> bool {
    match v.split_last() {
        None => false,
        Some((last, rest)) => (last & 0x7f) != 0 || rest.iter().any(|b| *b != 0),
    }
    // a lone sign bit is negative zero
}

/// Little endian magnitude with the sign in the top bit.
pub fn num(v: &[u8], max: usize) -> Option<i64> {
    if v.len() > max {
        return None;
    }
    let Some((last, rest)) = v.split_last() else { return Some(0) };
    let mut m = (last & 0x7f) as i128;
    for b in rest.iter().rev() {
        m = m * 256 + *b as i128;
    }
    Some(if last & 0x80 != 0 { -m } else { m } as i64)
}
pub fn enc(n: i64) -> Vec<u8> {
    let mut m = (n as i128).unsigned_abs();
    let mut out = vec![];
    while m > 0 {
        out.push((m % 256) as u8);
        m /= 256;
    }
    if let Some(l) = out.last_mut() {
        if *l >= 0x80 {
            out.push(if n < 0 { 0x80 } else { 0 });
        } else if n < 0 {
            *l |= 0x80;
        }
    }
    out
}

/// One instruction: pushed bytes or an opcode, and the rest of the script.
pub enum Ins<'a> {
    Push(&'a [u8]),
    Op(u8),
}
pub fn decode(s: &[u8], minimal: bool) -> Option<(Ins<'_>, &[u8])> {
    let (op, rest) = s.split_first()?;
    let (n, rest) = match *op {
        n @ 0..=0x4b => (n as usize, rest),
        0x4c..=0x4e => {
            let w = 1usize << (op - 0x4c);
            if rest.len() < w {
                return None;
            }
            let n = rest[..w].iter().rev().fold(0usize, |a, b| a * 256 + *b as usize);
            (n, &rest[w..])
        }
        op => return Some((Ins::Op(op), rest)),
    };
    if rest.len() < n {
        return None;
    }
    let (data, rest) = rest.split_at(n);
    if minimal {
        let shortest = match n {
            0..=75 => 0..=0x4b,
            76..=255 => 0x4c..=0x4c,
            256..=65535 => 0x4d..=0x4d,
            _ => 0x4e..=0x4e,
        };
        if !shortest.contains(op) || matches!(data, [1..=16] | [0x81]) {
            return None;
        }
    }
    Some((Ins::Push(data), rest))
}

const ILLEGAL: &[u8] = &[
    0x65, 0x66, 0x7e, 0x7f, 0x80, 0x81, 0x83, 0x84, 0x85, 0x86, 0x8d, 0x8e, 0x95, 0x96, 0x97, 0x98, 0x99,
];
const RETURN: &[u8] = &[0x50, 0x62, 0x6a, 0x89, 0x8a];
pub fn is_illegal(op: u8) -> bool {
    ILLEGAL.contains(&op)
}
pub fn is_return(op: u8) -> bool {
    RETURN.contains(&op) || op >= 0xba
}

#[derive(Default)]
pub struct Out {
    pub calls: BTreeSet<Call>,
    pub times: Vec<(bool, i64)>,
    pub multi: bool,
}

/// All ways to give every signature its own key, in order.
fn matched(sigs: &[Vec<u8>], keys: &[Vec<u8>]) -> Option<bool> {
    // keys are tried from the deepest; a malformed key fails the script when it is reached
    let (mut i, mut j) = (0, 0);
    while i < sigs.len() {
        if keys.len() - j < sigs.len() - i {
            return Some(false);
        }
        match key(&keys[j]) {
            Key::Bad => return None,
            Key::Reserved => i += 1,
            Key::Good(k) => i += signs(k, &sigs[i]) as usize,
        }
        j += 1;
    }
    Some(true)
}

pub fn run(lim: &Limits, r: &Rules, script: &[u8], mut st: St, out: &mut Out) -> Option<St> {
    if script.len() > lim.script {
        return None;
    }
    let mut rest = script;
    let mut sub = script;
    let mut sep = u32::MAX;
    let mut count = 0u32;
    let mut alt: St = vec![];
    // None: inside a branch that is not taken at all
    let mut branches: Vec<bool> = vec![];
    while !rest.is_empty() {
        let (ins, after) = decode(rest, r.minimal_push)?;
        rest = after;
        let live = branches.iter().all(|b| *b);
        match ins {
            Ins::Push(d) => {
                if d.len() > lim.elem {
                    return None;
                }
                if live {
                    st.push(d.to_vec());
                }
            }
            Ins::Op(op) if is_illegal(op) => return None,
            Ins::Op(op @ (0x63 | 0x64)) => {
                let mut cond = false;
                if live {
                    let c = st.pop()?;
                    if r.minimal_if && !(c.is_empty() || c == [1]) {
                        return None;
                    }
                    cond = truth(&c) == (op == 0x63);
                }
                branches.push(cond);
            }
            Ins::Op(0x67) => {
                let b = branches.last_mut()?;
                *b = !*b;
            }
            Ins::Op(0x68) => {
                branches.pop()?;
            }
            Ins::Op(_) if !live => (),
            Ins::Op(0xab) => {
                sub = rest;
                sep = count;
            }
            Ins::Op(op) => step(lim, r, op, &mut st, &mut alt, sub, sep, out)?,
        }
        if st.len() + alt.len() > lim.stack {
            return None;
        }
        count += 1;
    }
    branches.is_empty().then_some(st)
}

#[allow(clippy::too_many_arguments)]
fn step(lim: &Limits, r: &Rules, op: u8, st: &mut St, alt: &mut St, sub: &[u8], sep: u32, out: &mut Out) -> Option<()> {
    if is_return(op) {
        return None;
    }
    let n = st.len();
    let flag = |b: bool| if b { vec![1u8] } else { vec![] };
    macro_rules! need {
        ($k:expr) => {
            if n < $k {
                return None;
            }
        };
    }
    // (operands, result) of numeric operations
    let unary = |st: &mut St, f: &dyn Fn(i64) -> i64| -> Option<()> {
        let x = num(&st.pop()?, 4)?;
        st.push(enc(f(x)));
        Some(())
    };
    let binary = |st: &mut St, f: &dyn Fn(i64, i64) -> i64| -> Option<()> {
        let y = num(&st.pop()?, 4)?;
        let x = num(&st.pop()?, 4)?;
        st.push(enc(f(x, y)));
        Some(())
    };
    let verify = |st: &mut St| -> Option<()> { truth(&st.pop()?).then_some(()) };
    match op {
        0x4f => st.push(vec![0x81]),
        0x51..=0x60 => st.push(vec![op - 0x50]),
        0x61 | 0xb0 | 0xb3..=0xb9 => (),
        0xb1 | 0xb2 => {
            let t = num(st.last()?, 5)?;
            out.times.push((op == 0xb2, t));
            if t > (if op == 0xb1 { r.lock } else { r.seq }) {
                return None;
            }
        }
        0x69 => verify(st)?,
        0x6b => alt.push(st.pop()?),
        0x6c => st.push(alt.pop()?),
        0x6d => {
            need!(2);
            st.truncate(n - 2);
        }
        0x6e => {
            need!(2);
            let v = [st[n - 2].clone(), st[n - 1].clone()];
            st.extend(v);
        }
        0x6f => {
            need!(3);
            let v = [st[n - 3].clone(), st[n - 2].clone(), st[n - 1].clone()];
            st.extend(v);
        }
        0x70 => {
            need!(4);
            let v = [st[n - 4].clone(), st[n - 3].clone()];
            st.extend(v);
        }
        0x71 => {
            need!(6);
            let a = st.remove(n - 6);
            let b = st.remove(n - 6);
            st.extend([a, b]);
        }
        0x72 => {
            need!(4);
            let a = st.remove(n - 4);
            let b = st.remove(n - 4);
            st.extend([a, b]);
        }
        0x73 => {
            need!(1);
            if truth(&st[n - 1]) {
                st.push(st[n - 1].clone());
            }
        }
        0x74 => st.push(enc(n as i64)),
        0x75 => {
            st.pop()?;
        }
        0x76 => {
            need!(1);
            st.push(st[n - 1].clone());
        }
        0x77 => {
            need!(2);
            st.remove(n - 2);
        }
        0x78 => {
            need!(2);
            st.push(st[n - 2].clone());
        }
        0x79 | 0x7a => {
            let i = num(&st.pop()?, 4)?;
            if i < 0 || i as usize >= st.len() {
                return None;
            }
            let at = st.len() - 1 - i as usize;
            let x = if op == 0x79 { st[at].clone() } else { st.remove(at) };
            st.push(x);
        }
        0x7b => {
            need!(3);
            let x = st.remove(n - 3);
            st.push(x);
        }
        0x7c => {
            need!(2);
            let x = st.remove(n - 2);
            st.push(x);
        }
        0x7d => {
            need!(2);
            let x = st[n - 1].clone();
            st.insert(n - 2, x);
        }
        0x82 => {
            need!(1);
            st.push(enc(st[n - 1].len() as i64));
        }
        0x87 | 0x88 => {
            let (a, b) = (st.pop()?, st.pop()?);
            st.push(flag(a == b));
            if op == 0x88 {
                verify(st)?;
            }
        }
        0x8b => unary(st, &|x| x + 1)?,
        0x8c => unary(st, &|x| x - 1)?,
        0x8f => unary(st, &|x| -x)?,
        0x90 => unary(st, &|x| if x < 0 { -x } else { x })?,
        0x91 => unary(st, &|x| (x == 0).into())?,
        0x92 => unary(st, &|x| (x != 0).into())?,
        0x93 => binary(st, &|x, y| x + y)?,
        0x94 => binary(st, &|x, y| x - y)?,
        0x9a => binary(st, &|x, y| (x != 0 && y != 0).into())?,
        0x9b => binary(st, &|x, y| (x != 0 || y != 0).into())?,
        0x9c => binary(st, &|x, y| (x == y).into())?,
        0x9d => {
            binary(st, &|x, y| (x == y).into())?;
            verify(st)?;
        }
        0x9e => binary(st, &|x, y| (x != y).into())?,
        0x9f => binary(st, &|x, y| (x < y).into())?,
        0xa0 => binary(st, &|x, y| (x > y).into())?,
        0xa1 => binary(st, &|x, y| (x <= y).into())?,
        0xa2 => binary(st, &|x, y| (x >= y).into())?,
        0xa3 => binary(st, &|x, y| if x < y { x } else { y })?,
        0xa4 => binary(st, &|x, y| if x < y { y } else { x })?,
        0xa5 => {
            let hi = num(&st.pop()?, 4)?;
            let lo = num(&st.pop()?, 4)?;
            let x = num(&st.pop()?, 4)?;
            st.push(flag(lo <= x && x < hi));
        }
        0xa6..=0xaa => {
            let d = st.pop()?;
            st.push(hash(op, &d));
        }
        0xac | 0xad => {
            let pk = st.pop()?;
            let sig = st.pop()?;
            let ok = match key(&pk) {
                Key::Bad => return None,
                Key::Reserved => true,
                Key::Good(k) => {
                    if !sig.is_empty() {
                        out.calls.insert((k, sig.clone(), sub.to_vec(), sep));
                    }
                    signs(k, &sig)
                }
            };
            st.push(flag(ok));
            if op == 0xad {
                verify(st)?;
            }
        }
        0xae | 0xaf => {
            out.multi = true;
            let nk = num(&st.pop()?, 4)?;
            if nk < 0 || nk as usize > lim.keys || nk as usize > st.len() {
                return None;
            }
            let keys = st.split_off(st.len() - nk as usize);
            let ns = num(&st.pop()?, 4)?;
            if ns < 0 || ns > nk || ns as usize > st.len() {
                return None;
            }
            let sigs = st.split_off(st.len() - ns as usize);
            let ok = matched(&sigs, &keys)?;
            if !st.pop()?.is_empty() {
                return None;
            }
            st.push(flag(ok));
            if op == 0xaf {
                verify(st)?;
            }
        }
        _ => unreachable!("opcode {op:#x}"),
    }
    Some(())
}

fn hash(op: u8, d: &[u8]) -> Vec<u8> {
    use ripemd::{Digest, Ripemd160};
    use sha1::Sha1;
    use sha2::Sha256;
    let sha = |d: &[u8]| Sha256::digest(d).to_vec();
    let rip = |d: &[u8]| Ripemd160::digest(d).to_vec();
    match op {
        0xa6 => rip(d),
        0xa7 => Sha1::digest(d).to_vec(),
        0xa8 => sha(d),
        0xa9 => rip(&sha(d)),
        _ => sha(&sha(d)),
    }
}

pub fn pushdata(lim: &Limits, r: &Rules, script: &[u8]) -> Option<St> {
    if script.len() > lim.script {
        return None;
    }
    let mut st = vec![];
    let mut rest = script;
    while !rest.is_empty() {
        let (ins, after) = decode(rest, r.minimal_push)?;
        rest = after;
        match ins {
            Ins::Push(d) if d.len() <= lim.elem => st.push(d.to_vec()),
            Ins::Op(0x4f) => st.push(vec![0x81]),
            Ins::Op(op @ 0x51..=0x60) => st.push(vec![op - 0x50]),
            _ => return None,
        }
        if st.len() > lim.stack {
            return None;
        }
    }
    Some(st)
}
