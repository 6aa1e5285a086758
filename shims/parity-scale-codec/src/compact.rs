//! Compact (variable-length) integers.
use crate::{Decode, Encode, EncodeLike, Error, Input, Output};

const OUT_OF_RANGE: &str = "out of range";

#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Hash)]
pub struct Compact<T>(pub T);

impl<T> From<T> for Compact<T> {
    fn from(x: T) -> Compact<T> {
        Compact(x)
    }
}

impl<T: std::fmt::Debug> std::fmt::Debug for Compact<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub struct CompactRef<'a, T>(pub &'a T);

pub trait CompactLen<T> {
    fn compact_len(val: &T) -> usize;
}

pub trait CompactAs: From<Compact<Self>> {
    type As;
    fn encode_as(&self) -> &Self::As;
    fn decode_from(_: Self::As) -> Result<Self, Error>;
}

pub trait HasCompact: Sized {
    type Type: for<'a> From<CompactHolder<'a, Self>> + Encode + Decode + From<Self> + Into<Self>;
}

#[doc(hidden)]
pub struct CompactHolder<'a, T>(pub &'a T);

fn encode_u128<W: Output + ?Sized>(v: u128, dest: &mut W) {
    if v < 1 << 6 {
        dest.push_byte((v as u8) << 2);
    } else if v < 1 << 14 {
        dest.write(&(((v as u16) << 2) | 0b01).to_le_bytes());
    } else if v < 1 << 30 {
        dest.write(&(((v as u32) << 2) | 0b10).to_le_bytes());
    } else {
        let n = 16 - (v.leading_zeros() / 8) as usize;
        dest.push_byte(0b11 + (((n - 4) as u8) << 2));
        dest.write(&v.to_le_bytes()[..n]);
    }
}

fn len_u128(v: u128) -> usize {
    if v < 1 << 6 {
        1
    } else if v < 1 << 14 {
        2
    } else if v < 1 << 30 {
        4
    } else {
        1 + 16 - (v.leading_zeros() / 8) as usize
    }
}

/// `bytes`: the size of the target type.
fn decode_u128<I: Input>(input: &mut I, bytes: usize) -> Result<u128, Error> {
    let max = if bytes == 16 { u128::MAX } else { (1u128 << (8 * bytes)) - 1 };
    let prefix = input.read_byte()?;
    let v = match prefix & 3 {
        0 => u128::from(prefix >> 2),
        1 => {
            let v = u128::from(u16::from_le_bytes([prefix, input.read_byte()?]) >> 2);
            if v < 1 << 6 {
                return Err(OUT_OF_RANGE.into());
            }
            v
        }
        2 => {
            let mut b = [prefix, 0, 0, 0];
            input.read(&mut b[1..])?;
            let v = u128::from(u32::from_le_bytes(b) >> 2);
            if v < 1 << 14 {
                return Err(OUT_OF_RANGE.into());
            }
            v
        }
        _ => {
            let n = usize::from(prefix >> 2) + 4;
            if n > bytes.max(4) || bytes < 4 {
                return Err("unexpected prefix decoding Compact".into());
            }
            let mut b = [0u8; 16];
            input.read(&mut b[..n])?;
            let v = u128::from_le_bytes(b);
            if v < 1 << 30 || (n > 4 && v < 1u128 << (8 * (n - 1))) {
                return Err(OUT_OF_RANGE.into());
            }
            v
        }
    };
    if v > max {
        return Err(OUT_OF_RANGE.into());
    }
    Ok(v)
}

macro_rules! compact {
    ($($t:ty, $n:expr);*) => {$(
        impl Encode for Compact<$t> {
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { encode_u128(self.0 as u128, dest) }
            fn size_hint(&self) -> usize { len_u128(self.0 as u128) }
        }
        impl EncodeLike for Compact<$t> {}
        impl EncodeLike<Compact<$t>> for CompactRef<'_, $t> {}
        impl<'a> Encode for CompactRef<'a, $t> {
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { encode_u128(*self.0 as u128, dest) }
            fn size_hint(&self) -> usize { len_u128(*self.0 as u128) }
        }
        impl CompactLen<$t> for Compact<$t> {
            fn compact_len(val: &$t) -> usize { len_u128(*val as u128) }
        }
        impl Decode for Compact<$t> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                decode_u128(input, $n).map(|v| Compact(v as $t))
            }
        }
        impl From<Compact<$t>> for $t {
            fn from(x: Compact<$t>) -> $t { x.0 }
        }
        impl<'a> From<CompactHolder<'a, $t>> for Compact<$t> {
            fn from(x: CompactHolder<'a, $t>) -> Self { Compact(*x.0) }
        }
        impl HasCompact for $t { type Type = Compact<$t>; }
    )*};
}
compact!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16);

// Types that are compact-encoded as one of the above.
impl<T: CompactAs> Encode for Compact<T>
where
    for<'a> CompactRef<'a, T::As>: Encode,
{
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        CompactRef(self.0.encode_as()).encode_to(dest)
    }
}

impl<T: CompactAs> Decode for Compact<T>
where
    Compact<T::As>: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let as_ = Compact::<T::As>::decode(input)?;
        Ok(Compact(<T as CompactAs>::decode_from(as_.0)?))
    }
}

#[doc(hidden)]
pub fn __encode_compact<T, W: Output + ?Sized>(v: &T, dest: &mut W)
where
    T: HasCompact + Copy,
{
    <T::Type as From<T>>::from(*v).encode_to(dest)
}
