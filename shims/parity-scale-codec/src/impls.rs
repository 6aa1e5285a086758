//! Encode and Decode of std types.
use crate::{
    Compact, Decode, Encode, EncodeLike, Error, Input, Output, WrapperTypeDecode, WrapperTypeEncode,
};
use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::num::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl<T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'_, T> {}
impl<T> WrapperTypeEncode for Vec<T> {}
impl WrapperTypeEncode for String {}

impl<T: Encode + EncodeLike> EncodeLike for &T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<&T> for T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode> EncodeLike<&&T> for T {}
impl<T: Encode + EncodeLike> EncodeLike for &mut T {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}
impl<T: ToOwned + Encode> EncodeLike<T> for Cow<'_, T> {}
impl EncodeLike<String> for &str {}
impl<T: Encode> EncodeLike<Vec<T>> for &[T] {}
impl<T: EncodeLike> EncodeLike for Box<T> {}
impl<T: EncodeLike> EncodeLike for Rc<T> {}
impl<T: EncodeLike> EncodeLike for Arc<T> {}
impl<T: ToOwned + Encode> EncodeLike for Cow<'_, T> {}
impl<T: Encode> EncodeLike for Vec<T> {}
impl EncodeLike for String {}
impl EncodeLike for &str {}

impl<T> WrapperTypeDecode for Box<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Rc<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Arc<T> {
    type Wrapped = T;
}

impl<'a, T: ToOwned + ?Sized> Decode for Cow<'a, T>
where
    <T as ToOwned>::Owned: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Cow::Owned(Decode::decode(input)?))
    }
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl EncodeLike for $t {}
        impl Encode for $t {
            const PLAIN: bool = cfg!(target_endian = "little");
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()) }
        }
        impl Decode for $t {
            const PLAIN: bool = cfg!(target_endian = "little");
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                input.read(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

macro_rules! nonzero {
    ($($t:ty, $p:ty);*) => {$(
        impl EncodeLike for $t {}
        impl Encode for $t {
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { self.get().using_encoded(f) }
        }
        impl Decode for $t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Self::new(<$p>::decode(input)?).ok_or_else(|| Error::from("cannot create non-zero number from 0"))
            }
        }
    )*};
}
nonzero!(NonZeroU8, u8; NonZeroU16, u16; NonZeroU32, u32; NonZeroU64, u64; NonZeroU128, u128;
         NonZeroI8, i8; NonZeroI16, i16; NonZeroI32, i32; NonZeroI64, i64; NonZeroI128, i128);

impl EncodeLike for bool {}
impl Encode for bool {
    fn size_hint(&self) -> usize {
        1
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[u8::from(*self)])
    }
}
impl Decode for bool {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("Invalid boolean representation".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}

impl Encode for () {
    fn encode_to<W: Output + ?Sized>(&self, _dest: &mut W) {}
}
impl EncodeLike for () {}
impl Decode for () {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(())
    }
}

impl<T> Encode for PhantomData<T> {
    fn encode_to<W: Output + ?Sized>(&self, _dest: &mut W) {}
}
impl<T> EncodeLike for PhantomData<T> {}
impl<T> Decode for PhantomData<T> {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(PhantomData)
    }
}

impl<T: Encode, L: EncodeLike<T>> EncodeLike<Option<T>> for Option<L> {}
impl<T: Encode> Encode for Option<T> {
    fn size_hint(&self) -> usize {
        1 + self.as_ref().map_or(0, Encode::size_hint)
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Some(t) => {
                dest.push_byte(1);
                t.encode_to(dest);
            }
            None => dest.push_byte(0),
        }
    }
}
impl<T: Decode> Decode for Option<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte().map_err(|e| e.chain("Could not decode variant byte for `Option`"))? {
            0 => Ok(None),
            1 => Ok(Some(T::decode(input).map_err(|e| e.chain("Could not decode `Option::Some(T)`"))?)),
            _ => Err("unexpected first byte decoding Option".into()),
        }
    }
}

impl<T: Encode, E: Encode> EncodeLike for Result<T, E> {}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Ok(t) => {
                dest.push_byte(0);
                t.encode_to(dest);
            }
            Err(e) => {
                dest.push_byte(1);
                e.encode_to(dest);
            }
        }
    }
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(Ok(T::decode(input)?)),
            1 => Ok(Err(E::decode(input)?)),
            _ => Err("unexpected first byte decoding Result".into()),
        }
    }
}

fn encode_len<W: Output + ?Sized>(len: usize, dest: &mut W) {
    Compact(u32::try_from(len).expect("Attempted to serialize a collection with too many elements.")).encode_to(dest)
}

fn decode_len<I: Input>(input: &mut I) -> Result<usize, Error> {
    Ok(<Compact<u32>>::decode(input)?.0 as usize)
}

impl<T: Encode> Encode for [T] {
    fn size_hint(&self) -> usize {
        std::mem::size_of::<u32>() + std::mem::size_of_val(self)
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        encode_len(self.len(), dest);
        write_items(self, dest);
    }
}

fn write_items<T: Encode, W: Output + ?Sized>(items: &[T], dest: &mut W) {
    if T::PLAIN {
        // SAFETY: only integers and floats are plain, they have no padding
        dest.write(unsafe { std::slice::from_raw_parts(items.as_ptr().cast::<u8>(), std::mem::size_of_val(items)) });
    } else {
        for x in items {
            x.encode_to(dest);
        }
    }
}

fn read_items<T: Decode, I: Input>(input: &mut I, r: &mut Vec<T>, len: usize) -> Result<(), Error> {
    if T::PLAIN {
        let size = std::mem::size_of::<T>();
        let mut left = len;
        let mut piece = vec![];
        while left > 0 {
            let n = left.min(16 * 1024 / size);
            piece.resize(n * size, 0);
            input.read(&mut piece)?;
            for b in piece.chunks_exact(size) {
                r.push(T::decode(&mut &b[..])?);
            }
            left -= n;
        }
    } else {
        for _ in 0..len {
            r.push(T::decode(input)?);
        }
    }
    Ok(())
}

impl Encode for str {
    fn size_hint(&self) -> usize {
        self.as_bytes().size_hint()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        self.as_bytes().encode_to(dest)
    }
    fn encode(&self) -> Vec<u8> {
        self.as_bytes().encode()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        self.as_bytes().using_encoded(f)
    }
}

fn decode_vec<T: Decode, I: Input>(input: &mut I, len: usize) -> Result<Vec<T>, Error> {
    // The length is not trusted: reserve no more than what is left (or 16 KiB) at first.
    let elem = std::mem::size_of::<T>().max(1);
    let cap = match input.remaining_len()? {
        Some(l) => len.min(l / T::encoded_fixed_size().unwrap_or(1).max(1) + 1),
        None => len,
    };
    let mut r = Vec::with_capacity(cap.min(16 * 1024 / elem + 1));
    if let (Some(fixed), Some(l)) = (T::encoded_fixed_size(), input.remaining_len()?) {
        if len.checked_mul(fixed).is_none_or(|need| need > l) {
            return Err("Not enough data to decode vector".into());
        }
    }
    read_items(input, &mut r, len)?;
    Ok(r)
}

impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let len = decode_len(input)?;
        decode_vec(input, len)
    }
}

impl Decode for String {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
    }
}

impl<T: Encode, const N: usize> EncodeLike for [T; N] {}
impl<T: Encode, const N: usize> Encode for [T; N] {
    fn size_hint(&self) -> usize {
        self.iter().map(Encode::size_hint).sum()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        write_items(self, dest);
    }
}
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        read_items(input, &mut v, N)?;
        Ok(v.try_into().unwrap_or_else(|_| unreachable!()))
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(<T as Decode>::encoded_fixed_size()? * N)
    }
}

macro_rules! seqs {
    ($($t:ident { $($bound:tt)* });*) => {$(
        impl<T: Encode $($bound)*> EncodeLike for $t<T> {}
        impl<T: Encode $($bound)*> Encode for $t<T> {
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
                encode_len(self.len(), dest);
                for x in self.iter() { x.encode_to(dest); }
            }
        }
        impl<T: Decode $($bound)*> Decode for $t<T> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let len = decode_len(input)?;
                Ok(decode_vec::<T, I>(input, len)?.into_iter().collect())
            }
        }
    )*};
}
seqs!(VecDeque {}; LinkedList {}; BTreeSet { + Ord }; BinaryHeap { + Ord });

impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        encode_len(self.len(), dest);
        for (k, v) in self {
            k.encode_to(dest);
            v.encode_to(dest);
        }
    }
}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let len = decode_len(input)?;
        Ok(decode_vec::<(K, V), I>(input, len)?.into_iter().collect())
    }
}

macro_rules! tuples {
    ($(($($n:ident $i:tt),+))*) => {$(
        impl<$($n: Encode),+> EncodeLike for ($($n,)+) {}
        impl<$($n: Encode),+> Encode for ($($n,)+) {
            fn size_hint(&self) -> usize { 0 $(+ self.$i.size_hint())+ }
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { $(self.$i.encode_to(dest);)+ }
        }
        impl<$($n: Decode),+> Decode for ($($n,)+) {
            fn decode<INP: Input>(input: &mut INP) -> Result<Self, Error> {
                Ok(($($n::decode(input)?,)+))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(0 $(+ $n::encoded_fixed_size()?)+) }
        }
    )*};
}
tuples! {
    (A 0)
    (A 0, B 1)
    (A 0, B 1, C 2)
    (A 0, B 1, C 2, D 3)
    (A 0, B 1, C 2, D 3, E 4)
    (A 0, B 1, C 2, D 3, E 4, F 5)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10)
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11)
}

impl EncodeLike for Duration {}
impl Encode for Duration {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (self.as_secs(), self.subsec_nanos()).encode_to(dest)
    }
}
impl Decode for Duration {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (secs, nanos) = <(u64, u32)>::decode(input)
            .map_err(|e| e.chain("Could not decode `Duration(u64, u32)`"))?;
        if nanos >= 1_000_000_000 {
            Err("Could not decode `Duration`: Number of nanoseconds should not be higher than 10^9.".into())
        } else {
            Ok(Duration::new(secs, nanos))
        }
    }
}
