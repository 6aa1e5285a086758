//! Forms made of tags, numbers, lists and choices: a second reading of the format against the derived one.
use std::{collections::BTreeSet, fmt::Debug};

use mc_kit::{Ctx, PartCtx, guard, hex, sequences};

use serialization::{
    Compact, Decode, DecodeAll, DirectDecode, DirectEncode, Encode, Error, Input, Tag, Tagged,
    encoded::Encoded,
    extras::non_empty_vec::DataOrNoVec,
    hex::{HexDecode, HexEncode},
    hex_encoded::{HexEncoded, hex_encoded_serialization},
    json_encoded::JsonEncoded,
    tagged::derive_support::Peekable,
};

/// The second reading.
trait Form: Sized {
    fn read(i: &mut &[u8]) -> Option<Self>;
    fn write(&self, o: &mut Vec<u8>);
}

pub fn take<'a>(i: &mut &'a [u8], n: usize) -> Option<&'a [u8]> {
    let (a, b) = i.split_at_checked(n)?;
    *i = b;
    Some(a)
}

macro_rules! numbers { ($($t:ty),*) => { $(impl Form for $t {
    fn read(i: &mut &[u8]) -> Option<Self> {
        let b = take(i, size_of::<$t>())?;
        Some(b.iter().rev().fold(0u128, |n, x| n << 8 | *x as u128) as $t)
    }
    fn write(&self, o: &mut Vec<u8>) {
        let mut n = *self as u128;
        for _ in 0..size_of::<$t>() {
            o.push(n as u8);
            n >>= 8;
        }
    }
})* } }
numbers!(u8, u16, u32, u64, u128);

/// the short form of a number: exactly one text for each
pub fn short(i: &mut &[u8], max: u128) -> Option<u128> {
    let first = *i.first()?;
    let value = |b: &[u8]| b.iter().rev().fold(0u128, |n, x| n << 8 | *x as u128);
    let n = match first & 3 {
        0 => value(take(i, 1)?) >> 2,
        1 => Some(value(take(i, 2)?) >> 2).filter(|n| *n > 63)?,
        2 => Some(value(take(i, 4)?) >> 2).filter(|n| *n > 0x3fff)?,
        _ => {
            take(i, 1)?;
            let b = take(i, (first >> 2) as usize + 4)?;
            if b.len() > 16 || *b.last()? == 0 || b.len() == 4 && value(b) < 1 << 30 {
                return None;
            }
            value(b)
        }
    };
    (n <= max).then_some(n)
}

pub fn shorten(n: u128, o: &mut Vec<u8>) {
    match n {
        0..=63 => o.push((n as u8) << 2),
        64..=0x3fff => (((n as u16) << 2) | 1).write(o),
        0x4000..=0x3fff_ffff => (((n as u32) << 2) | 2).write(o),
        _ => {
            let mut b = n.to_le_bytes().to_vec();
            while b.len() > 4 && b.last() == Some(&0) {
                b.pop();
            }
            o.push(((b.len() as u8 - 4) << 2) | 3);
            o.extend(b);
        }
    }
}

macro_rules! shorts { ($($t:ty),*) => { $(impl Form for Compact<$t> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        short(i, <$t>::MAX as u128).map(|n| Compact(n as $t))
    }
    fn write(&self, o: &mut Vec<u8>) {
        shorten(self.0 as u128, o)
    }
})* } }
shorts!(u8, u16, u32, u64, u128);

impl Form for bool {
    fn read(i: &mut &[u8]) -> Option<Self> {
        u8::read(i).filter(|b| *b < 2).map(|b| b == 1)
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.push(*self as u8)
    }
}
impl Form for () {
    fn read(_: &mut &[u8]) -> Option<Self> {
        Some(())
    }
    fn write(&self, _: &mut Vec<u8>) {}
}
impl<T: Form> Form for Option<T> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        match u8::read(i)? {
            0 => Some(None),
            1 => T::read(i).map(Some),
            _ => None,
        }
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.push(self.is_some() as u8);
        if let Some(x) = self {
            x.write(o)
        }
    }
}
impl<T: Form> Form for Vec<T> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        let n = short(i, u32::MAX as u128)?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(T::read(i)?);
        }
        Some(v)
    }
    fn write(&self, o: &mut Vec<u8>) {
        shorten(self.len() as u128, o);
        for x in self {
            x.write(o)
        }
    }
}
impl Form for String {
    fn read(i: &mut &[u8]) -> Option<Self> {
        String::from_utf8(Vec::<u8>::read(i)?).ok()
    }
    fn write(&self, o: &mut Vec<u8>) {
        self.as_bytes().to_vec().write(o)
    }
}
impl<T: Form> Form for Box<T> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        T::read(i).map(Box::new)
    }
    fn write(&self, o: &mut Vec<u8>) {
        (**self).write(o)
    }
}
impl<const N: usize> Form for [u8; N] {
    fn read(i: &mut &[u8]) -> Option<Self> {
        take(i, N)?.try_into().ok()
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.extend(self)
    }
}
impl<const N: u8> Form for Tag<N> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        u8::read(i).filter(|b| *b == N).map(|_| Tag)
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.push(N)
    }
}
impl<T: Form> Form for DataOrNoVec<T> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Vec::read(i).map(|v| Some(v).into())
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self.as_ref() {
            None => o.push(0),
            Some(v) => v.write(o),
        }
    }
}
macro_rules! tuples { ($($($n:ident)*;)*) => { $(impl<$($n: Form),*> Form for ($($n,)*) {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Some(($($n::read(i)?,)*))
    }
    #[allow(non_snake_case)]
    fn write(&self, o: &mut Vec<u8>) {
        let ($($n,)*) = self;
        $($n.write(o);)*
    }
})* } }
tuples! { A; A B; A B C; A B C D E F G H; }

/// a record of these parts, in this order
macro_rules! record { ($(#[$m:meta])* $name:ident $(<$($g:ident),*>)? { $($f:ident: $t:ty),* }) => {
    $(#[$m])* #[derive(Debug, PartialEq, Eq, Encode, Decode)]
    struct $name $(<$($g),*>)? { $($f: $t),* }
    impl $(<$($g: Form),*>)? Form for $name $(<$($g),*>)? {
        fn read(i: &mut &[u8]) -> Option<Self> {
            Some(Self { $($f: Form::read(i)?),* })
        }
        fn write(&self, o: &mut Vec<u8>) {
            $(self.$f.write(o);)*
        }
    }
} }

record!(#[derive(Tagged)] First { tag: Tag<1>, x: u8 });
record!(#[derive(Tagged)] Second { tag: Tag<2>, list: Vec<u8>, n: Compact<u32> });
record!(#[derive(Tagged)] Inside { inner: First, more: Option<u16> });
record!(#[derive(Tagged)] Around<T> { inner: T, y: bool });
record!(Plain { a: Option<Vec<Compact<u16>>>, b: (u8, bool) });

#[derive(Debug, PartialEq, Eq, Encode, Decode, Tagged)]
struct Nameless(Tag<4>, u16);
impl Form for Nameless {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Some(Self(Form::read(i)?, Form::read(i)?))
    }
    fn write(&self, o: &mut Vec<u8>) {
        self.0.write(o);
        self.1.write(o);
    }
}

#[derive(Debug, PartialEq, Eq, Encode, Decode, Tagged)]
enum Only {
    #[codec(index = 8)]
    One(u8, Option<bool>),
}
impl Form for Only {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Tag::<8>::read(i)?;
        Some(Self::One(Form::read(i)?, Form::read(i)?))
    }
    fn write(&self, o: &mut Vec<u8>) {
        let Self::One(a, b) = self;
        o.push(8);
        a.write(o);
        b.write(o);
    }
}

#[derive(Debug, PartialEq, Eq, Encode, Decode, Tagged)]
enum Number {
    Fixed = 255,
}
impl Form for Number {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Tag::<255>::read(i).map(|_| Self::Fixed)
    }
    fn write(&self, o: &mut Vec<u8>) {
        o.push(255);
    }
}

#[derive(Debug, PartialEq, Eq, Encode, Decode)]
enum Choice {
    Zero,
    One(u8),
    #[codec(index = 7)]
    Seven {
        a: bool,
        b: Vec<u8>,
    },
    #[codec(index = 255)]
    Last(Box<Choice>),
}
impl Form for Choice {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Some(match u8::read(i)? {
            0 => Self::Zero,
            1 => Self::One(Form::read(i)?),
            7 => Self::Seven { a: Form::read(i)?, b: Form::read(i)? },
            255 => Self::Last(Form::read(i)?),
            _ => return None,
        })
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            Self::Zero => o.push(0),
            Self::One(x) => (1u8, *x).write(o),
            Self::Seven { a, b } => {
                o.push(7);
                a.write(o);
                b.write(o);
            }
            Self::Last(x) => {
                o.push(255);
                x.write(o);
            }
        }
    }
}

/// a choice told apart by what its parts begin with
#[derive(Debug, PartialEq, Eq, DirectEncode, DirectDecode)]
enum Direct {
    A(Second),
    B(Inside),
    C(Tag<3>, u8, Vec<u8>),
    D { head: Nameless, rest: Option<u8> },
    E(Box<Only>),
    F((Tag<0>, u8)),
    G(Number),
}
impl Form for Direct {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Some(match i.first()? {
            2 => Self::A(Form::read(i)?),
            1 => Self::B(Form::read(i)?),
            3 => Self::C(Form::read(i)?, Form::read(i)?, Form::read(i)?),
            4 => Self::D { head: Form::read(i)?, rest: Form::read(i)? },
            8 => Self::E(Form::read(i)?),
            0 => Self::F(Form::read(i)?),
            255 => Self::G(Form::read(i)?),
            _ => return None,
        })
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            Self::A(x) => x.write(o),
            Self::B(x) => x.write(o),
            Self::C(t, a, b) => {
                t.write(o);
                a.write(o);
                b.write(o);
            }
            Self::D { head, rest } => {
                head.write(o);
                rest.write(o);
            }
            Self::E(x) => x.write(o),
            Self::F(x) => x.write(o),
            Self::G(x) => x.write(o),
        }
    }
}

#[derive(Debug, PartialEq, Eq, DirectEncode, DirectDecode)]
enum Open<T> {
    One(First),
    Other(Tag<4>, T),
}
impl<T: Form> Form for Open<T> {
    fn read(i: &mut &[u8]) -> Option<Self> {
        Some(match i.first()? {
            1 => Self::One(Form::read(i)?),
            4 => Self::Other(Form::read(i)?, Form::read(i)?),
            _ => return None,
        })
    }
    fn write(&self, o: &mut Vec<u8>) {
        match self {
            Self::One(x) => x.write(o),
            Self::Other(t, x) => {
                t.write(o);
                x.write(o);
            }
        }
    }
}

/// an input that does not tell its length and gives no more than asked
struct Blind<'a>(&'a [u8]);
impl Input for Blind<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        match take(&mut self.0, into.len()) {
            Some(b) => {
                into.copy_from_slice(b);
                Ok(())
            }
            None => Err("over".into()),
        }
    }
}

fn one<T: Form + Encode + Decode + Debug + PartialEq>(c: &PartCtx, name: &str, b: &[u8]) -> bool {
    let mut rest = b;
    let want = T::read(&mut rest);
    let used = want.is_some().then(|| b.len() - rest.len());
    let got = guard(|| {
        let mut i = b;
        let r = T::decode(&mut i).ok();
        let mut blind = Blind(b);
        let s = T::decode(&mut blind).ok();
        let all = T::decode_all(&mut &b[..]).is_ok();
        let used = r.is_some().then(|| b.len() - i.len());
        let mut over = b;
        // passed over, it takes the same place; its place is known beforehand or not
        let passed = T::skip(&mut over).is_ok();
        let skipped = r.is_none() || passed && Some(b.len() - over.len()) == used;
        let sized = r.is_none() || T::encoded_fixed_size().is_none_or(|n| Some(n) == used);
        let same = r == s && s.is_some().then(|| b.len() - blind.0.len()) == used && skipped && sized;
        (r, used, all, same)
    });
    let key = || format!("{name} from {}", hex(b));
    let whole = used == Some(b.len());
    if got.as_ref().is_ok_and(|(r, u, all, same)| *r == want && *u == used && *all == whole && *same) {
        if let Some(v) = &want {
            let mut text = vec![];
            v.write(&mut text);
            let real = v.encode();
            if text != b[..used.unwrap()] || real != text || v.encoded_size() != text.len() || v.using_encoded(|e| e != text) {
                c.fail(key(), format!("{v:?} is written {}, should be {}", hex(&real), hex(&text)));
                return false;
            }
        }
        want.is_some()
    } else {
        c.fail(key(), format!("got {got:?}\nwant {want:?} of {used:?} bytes"));
        false
    }
}

type Test = (&'static str, fn(&PartCtx, &str, &[u8]) -> bool);

macro_rules! all { ($($t:ty),* $(,)?) => { vec![$((stringify!($t), one::<$t> as fn(&PartCtx, &str, &[u8]) -> bool)),*] } }

fn forms() -> Vec<Test> {
    all![
        First, Second, Inside, Around<Second>, Around<Inside>, Around<(Nameless, u8)>, Nameless, Only, Number, Choice, Direct, Vec<Direct>, Option<Direct>, (Direct, Direct), Open<u16>, Open<Direct>, Plain, u8, u16, u32, u64, u128, Compact<u8>, Compact<u16>,
        Compact<u32>, Compact<u64>, Compact<u128>, bool, (), Vec<u8>, Vec<u16>, Vec<bool>, Vec<Vec<u8>>, String, Option<Option<u8>>, [u8; 3], Tag<0>, Tag<255>, (Tag<1>, u8, Tag<2>), DataOrNoVec<u8>, DataOrNoVec<u16>, Vec<DataOrNoVec<u8>>,
        (Tag<1>, u8, u8, u8, u8, u8, u8, bool), Box<Direct>,
    ]
}

pub fn run(ctx: &Ctx) {
    let tests = forms();
    ctx.part("every short text", "every text of up to two bytes, and every text of three to five (six) of the bytes that mean something, as each of 44 forms", |c| {
        let bytes = [0u8, 1, 2, 3, 4, 5, 7, 8, 12, 0x41, 0x7f, 0xfe, 255];
        let depth = ctx.pick(5, 6);
        c.par(tests.len() * bytes.len(), |k| {
            let (name, f) = tests[k / bytes.len()];
            let first = k % bytes.len();
            let mut n = 0;
            let mut good = 0;
            if first == 0 {
                for a in 0..=256usize {
                    for b in 0..=256usize {
                        if a == 256 && b < 256 {
                            continue;
                        }
                        let text: Vec<u8> = [a, b].iter().filter(|x| **x < 256).map(|x| *x as u8).collect();
                        n += 1;
                        good += u64::from(f(c, name, &text));
                    }
                }
            }
            for len in 2..depth {
                for s in sequences(bytes.len(), len) {
                    let text: Vec<u8> = std::iter::once(bytes[first]).chain(s.iter().map(|i| bytes[*i])).collect();
                    n += 1;
                    good += u64::from(f(c, name, &text));
                }
                if c.stop() {
                    return;
                }
            }
            c.evals(n);
            c.nontrivial(good);
            c.outcome_n("read", good);
            c.outcome_n("refused", n - good);
        });
    });

    ctx.part("numbers in short form", "each length at its borders: the right text, the longer ones of the same number, and what is beyond the type", |c| {
        let mut values = BTreeSet::new();
        for p in (0..128).step_by(ctx.pick(2, 1)) {
            for d in 0..=2u128 {
                values.insert((1u128 << p).wrapping_add(d));
                values.insert((1u128 << p).wrapping_sub(d));
            }
        }
        values.extend([63, 64, 0x3fff, 0x4000, 0x3fff_ffff, 0x4000_0000, u128::MAX]);
        for v in values {
            let mut texts = vec![];
            let mut t = vec![];
            shorten(v, &mut t);
            texts.push(t);
            if v < 1 << 6 {
                texts.push(vec![(v as u8) << 2]);
            }
            if v < 1 << 14 {
                texts.push(((v as u16) << 2 | 1).to_le_bytes().to_vec());
            }
            if v < 1 << 30 {
                texts.push(((v as u32) << 2 | 2).to_le_bytes().to_vec());
            }
            for n in 4..=17usize {
                let mut b = v.to_le_bytes().to_vec();
                b.push(0);
                if b[n..].iter().all(|x| *x == 0) {
                    b.truncate(n);
                    b.insert(0, ((n as u8 - 4) << 2) | 3);
                    texts.push(b);
                }
            }
            for t in texts {
                for (name, f) in tests.iter().filter(|(n, _)| n.starts_with("Compact")) {
                    c.evals(1);
                    c.nontrivial(u64::from(f(c, name, &t)));
                    for cut in 1..t.len().min(3) {
                        c.evals(1);
                        f(c, name, &t[..t.len() - cut]);
                    }
                }
            }
        }
    });

    ctx.part("long texts", "values of every length around the powers of two from 128 to 2^17 as bytes, hexadecimal and JSON: read whole, and not when short or long by a byte", |c| {
        let lens: Vec<usize> = (7..=17).flat_map(|k| [(1usize << k) - 3, (1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1, (1 << k) + 2]).chain([100, 200, 255, 1000, 10_000, 100_000]).collect();
        c.par(lens.len(), |k| {
            let n = lens[k];
            let list: Vec<u8> = (0..n).map(|i| (i * 31 >> 2) as u8 ^ 0x35).collect();
            long::<Vec<u8>>(c, &list);
            long::<DataOrNoVec<u8>>(c, &DataOrNoVec::from(Some(list.clone())));
            long::<Option<Vec<u16>>>(c, &Some(list.iter().map(|b| *b as u16 * 257).collect()));
            long::<(Vec<u64>, String)>(c, &(list.chunks(8).map(|b| b.len() as u64 * 3 << 33).collect(), list.iter().map(|b| (b % 128) as char).collect()));
            long::<Direct>(c, &Direct::C(Tag, 1, list.clone()));
            long::<Vec<Vec<u8>>>(c, &list.chunks(113).map(|b| b.to_vec()).collect());
            long::<Vec<Direct>>(c, &list.iter().map(|b| Direct::F((Tag, *b))).collect());
        });
    });

    ctx.part("looking ahead", "every sequence of up to six (seven) of: look, take none, one, two or three bytes, take a byte, ask how many are left, go in, come out: as if nobody had looked", |c| {
        let text = [9u8, 8, 7, 6];
        let depth = ctx.pick(6, 7);
        c.par(9 * 9, |k| {
            for len in 0..=depth - 2 {
                for s in sequences(9, len) {
                    let ops: Vec<usize> = [k / 9, k % 9].into_iter().chain(s).collect();
                    for start in [0, 2] {
                        c.evals(1);
                        c.traces(1);
                        c.transitions(ops.len() as u64);
                        let got = guard(|| look(&text[start..], &ops));
                        if !c.eq(|| format!("look ahead of {} bytes: {ops:?} of look, take 0, 1, 2, 3, byte, left, in, out", 4 - start), &got, &Ok(None)) {
                            return;
                        }
                    }
                }
            }
            c.nontrivial(1);
            c.outcome("same");
        });
    });

    ctx.part("other dresses", "hexadecimal, JSON and held-back forms of every value that a text of up to four bytes gives, in either case, with letters changed, added and left out", |c| {
        dresses::<Direct>(c, "Direct", ctx);
        dresses::<Vec<u8>>(c, "bytes", ctx);
        dresses::<Option<Vec<u16>>>(c, "maybe list", ctx);
        for j in ["1", "[1,2]", "\"a\"", "null", "{\"a\":1}", "{\"a\":[1,null]}", "", " 1 ", "1 2", "{", "[1,]", "{\"a\":1,\"a\":2}", "nul", "\"\\u00e9\"", "1e400", "-0", "01"] {
            let want = serde_json::from_str::<serde_json::Value>(j).ok();
            let a = j.parse::<JsonEncoded<serde_json::Value>>().ok().map(|x| x.take());
            let b = JsonEncoded::<serde_json::Value>::from_string_slice(j).ok().map(|x| x.as_ref().clone());
            c.evals(1);
            c.eq(|| format!("JSON {j:?}"), &(&a, &b), &(&want, &want));
            if let Some(w) = want {
                c.nontrivial(1);
                let t = JsonEncoded::new(w.clone()).to_string();
                c.eq(|| format!("JSON {j:?} again"), &serde_json::from_str::<serde_json::Value>(&t).ok(), &Some(w.clone()));
                c.eq(|| format!("JSON {j:?} inside"), &serde_json::to_value(JsonEncoded::from(w.clone())).ok(), &Some(w));
            }
        }
        for v in [None, Some(vec![]), Some(vec![0u8]), Some(vec![1, 2])] {
            let given = v.clone();
            let d = DataOrNoVec::from(v.clone());
            let want = v.filter(|v| !v.is_empty());
            c.evals(1);
            c.eq(|| format!("list or none of {want:?}"), &(d.as_ref(), d.as_opt_slice().map(|s| s.to_vec())), &(&want, want.clone()));
            c.eq(|| format!("list or none of {want:?} as JSON"), &serde_json::to_value(&d).ok(), &serde_json::to_value(&want).ok());
            let from = |v: &Option<Vec<u8>>| serde_json::to_string(v).ok().and_then(|t| serde_json::from_str::<DataOrNoVec<u8>>(&t).ok());
            c.eq(|| format!("list or none from the JSON of {given:?}"), &from(&given), &Some(d.clone()));
            c.eq(|| format!("list or none of {want:?} taken"), &Option::from(d), &want);
        }
        type A = Tag<17>;
        type B = Tag<18>;
        c.eq(|| "tags of rows".into(), &[<(A,)>::TAG, <(A, B)>::TAG, <(A, B, B)>::TAG, <(A, B, B, B)>::TAG, <(A, B, B, B, B)>::TAG, <(A, B, B, B, B, B)>::TAG, <(A, B, B, B, B, B, B)>::TAG, <(A, B, B, B, B, B, B, B)>::TAG], &[17; 8]);
        c.eq(|| "tags of references".into(), &[<&First>::TAG, <&mut First>::TAG, Box::<First>::TAG, <(Nameless, u8, u8, u8, u8, u8, u8, u8)>::TAG, Number::TAG, Only::TAG, <Around<Inside>>::TAG, serialization::tagged::tag_of(&Tag::<9>)], &[1, 1, 1, 4, 255, 8, 1, 9]);
    });
}

/// an input that lets itself be entered only so deep
struct Deep<'a> {
    text: &'a [u8],
    depth: usize,
}
impl Input for Deep<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.text.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.text.read(into)
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        if self.depth == 2 {
            return Err("too deep".into());
        }
        self.depth += 1;
        Ok(())
    }
    fn ascend_ref(&mut self) {
        self.depth = self.depth.saturating_sub(1);
    }
}

fn long<T: Form + Encode + Decode + Debug + PartialEq>(c: &PartCtx, v: &T) {
    let mut text = vec![];
    v.write(&mut text);
    let name = || format!("{} of {} bytes", std::any::type_name::<T>(), text.len());
    c.evals(1);
    c.nontrivial(1);
    c.outcome("read whole");
    let lower = hex(&text);
    c.eq(|| format!("{} written", name()), &(v.encode() == text, v.encoded_size() == text.len(), v.using_encoded(|e| e == text), v.hex_encode() == lower), &(true, true, true, true));
    let held: Encoded<Vec<u8>, T> = Encoded::new(v);
    c.eq(|| format!("{} held", name()), &(held.bytes() == &text[..]), &true);
    for (what, t, good) in [("whole", text.clone(), true), ("short", text[..text.len() - 1].to_vec(), false), ("without its first", text[1..].to_vec(), false), ("and one more", [&text[..], &[0]].concat(), false), ("twice", [&text[..], &text[..]].concat(), false), ("and a blank more", [&text[..], b" "].concat(), false)] {
        let h = hex(&t);
        let mut whole = &t[..];
        let good = match T::read(&mut whole) {
            Some(r) => good && whole.is_empty() && r == *v,
            None => false,
        };
        let right = |r: Option<T>| r.map(|r| r == *v);
        let got = guard(|| {
            let mut blind = Blind(&t);
            (
                right(T::decode_all(&mut &t[..]).ok()),
                right(T::decode(&mut blind).ok().filter(|_| blind.0.is_empty())),
                right(T::hex_decode_all(&h).ok()),
                right(h.parse::<HexEncoded<T>>().ok().map(|x| x.take())),
                right(serde_json::from_value::<HexEncoded<T>>(h.clone().into()).ok().map(|x| x.take())),
            )
        });
        let w = if good { Some(true) } else { None };
        // what is left of a value without its first byte may happen to be one
        if what == "without its first" && T::read(&mut &t[..]).is_some() {
            continue;
        }
        c.eq(|| format!("{} {what}", name()), &got, &Ok((w, w, w, w, w)));
    }
}

fn look(text: &[u8], ops: &[usize]) -> Option<String> {
    let mut left = text;
    let mut depth = 0usize;
    let mut source = Deep { text, depth: 0 };
    let mut p = Peekable::new(&mut source);
    let mut bad = None;
    for (n, o) in ops.iter().enumerate() {
        let (got, want): (Option<Vec<u8>>, Option<Vec<u8>>) = match *o {
            0 => (p.peek().ok().map(|b| vec![b]), left.first().map(|b| vec![*b])),
            k @ 1..=4 => {
                let mut into = vec![0; k - 1];
                let want = take(&mut left, k - 1).map(|b| b.to_vec());
                let got = p.read(&mut into).ok().map(|_| into);
                if want.is_none() {
                    // what a refused reading leaves behind is nobody's business
                    if got.is_some() {
                        bad = Some(format!("step {n}: {got:?} of too few"));
                    }
                    break;
                }
                (got, want)
            }
            5 => (p.read_byte().ok().map(|b| vec![b]), take(&mut left, 1).map(|b| b.to_vec())),
            6 => (p.remaining_len().ok().flatten().map(|n| vec![n as u8]), Some(vec![left.len() as u8])),
            7 => {
                let want = (depth < 2).then(Vec::new);
                depth = (depth + 1).min(2);
                (p.descend_ref().ok().map(|_| vec![]), want)
            }
            _ => {
                p.ascend_ref();
                depth = depth.saturating_sub(1);
                (None, None)
            }
        };
        if got != want {
            bad = Some(format!("step {n}: {got:?}, not {want:?}"));
            break;
        }
    }
    // the one looked at has to be taken before the end
    while p.read_byte().is_ok() {}
    bad
}

fn dresses<T: Form + Encode + Decode + Debug + PartialEq + Clone2>(c: &PartCtx, name: &str, ctx: &Ctx) {
    let bytes = [0u8, 1, 2, 3, 4, 8, 0xab, 255];
    for len in 0..=ctx.pick(4, 5) {
        for s in sequences(bytes.len(), len) {
            let text: Vec<u8> = s.iter().map(|i| bytes[*i]).collect();
            let mut rest = &text[..];
            let want = T::read(&mut rest).filter(|_| rest.is_empty());
            let lower = hex(&text);
            let key = || format!("{name} {lower}");
            c.evals(1);
            for t in [lower.clone(), lower.to_uppercase()] {
                let a = T::hex_decode_all(&t).ok();
                let b = t.parse::<HexEncoded<T>>().ok().map(|x| x.take());
                let d = serde_json::from_value::<HexEncoded<T>>(t.clone().into()).ok().map(|x| x.take());
                let e = hex_encoded_serialization::deserialize::<T, _>(serde_json::Value::from(t.clone())).ok();
                c.eq(key, &(&a, &b, &d, &e), &(&want, &want, &want, &want));
            }
            for t in [format!("{lower}0"), format!("0{lower}"), format!("0x{lower}"), format!("{lower} "), format!(" {lower}"), format!("{lower}\n"), format!("\t{lower}"), format!("{lower}\0"), format!("{lower}zz"), lower.replacen('0', "o", 1).replacen('1', "l", 1) + "g"] {
                c.eq(|| format!("{name} {t:?}"), &(T::hex_decode_all(&t).is_ok(), t.parse::<HexEncoded<T>>().is_ok(), serde_json::from_value::<HexEncoded<T>>(t.clone().into()).is_ok(), hex_encoded_serialization::deserialize::<T, _>(serde_json::Value::from(t.clone())).is_ok()), &(false, false, false, false));
            }
            let Some(v) = want else { continue };
            c.nontrivial(1);
            c.eq(key, &(v.hex_encode(), HexEncoded::new(v.again()).to_string()), &(lower.clone(), lower.clone()));
            c.eq(key, &serde_json::to_value(HexEncoded::from(v.again())).ok(), &Some(lower.clone().into()));
            c.eq(key, &hex_encoded_serialization::serialize(&v, serde_json::value::Serializer).ok(), &Some(lower.clone().into()));
            let held: Encoded<Vec<u8>, T> = Encoded::new(&v);
            c.eq(key, &(held.bytes().to_vec(), held.decode()), &(text.clone(), v.again()));
            let raw = Encoded::<&[u8], T>::from_bytes_unchecked(&text);
            c.eq(key, &(raw.decode(), raw.take_bytes()), &(v, &text[..]));
        }
    }
}

trait Clone2 {
    fn again(&self) -> Self;
}
impl<T: Form> Clone2 for T {
    fn again(&self) -> T {
        let mut b = vec![];
        self.write(&mut b);
        T::read(&mut &b[..]).unwrap()
    }
}
