//! Stand-in for parity-scale-codec: the subset of its API that mintlayer-core uses, with the same wire
//! format (SCALE) and the same acceptance rules (canonical compact integers, strict bool/enum tags, ...).

mod compact;
mod error;
mod impls;

pub use compact::{Compact, CompactAs, CompactLen, CompactRef, HasCompact};
pub use error::Error;

#[cfg(feature = "derive")]
pub use parity_scale_codec_derive::{Decode, Encode};

#[doc(hidden)]
pub mod alloc {
    pub use std::{borrow, boxed, collections, rc, string, sync, vec};
}

#[doc(hidden)]
pub mod __private {
    pub use crate::compact::__encode_compact as encode_compact;
}

/// Source of bytes.
pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> {
        let mut buf = [0u8];
        self.read(&mut buf[..])?;
        Ok(buf[0])
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> {
        Ok(())
    }
}

impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() {
            return Err("Not enough data to fill buffer".into());
        }
        let (head, tail) = self.split_at(into.len());
        into.copy_from_slice(head);
        *self = tail;
        Ok(())
    }
}

pub struct IoReader<R: std::io::Read>(pub R);

impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read_exact(into).map_err(|_| "io error: read_exact".into())
    }
}

/// Sink of bytes.
pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, byte: u8) {
        self.write(&[byte]);
    }
}

impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) {
        self.write_all(bytes).expect("Codec outputs are infallible");
    }
}

struct SizeTracker {
    written: usize,
}

impl std::io::Write for SizeTracker {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.written += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Types that can be written.
pub trait Encode {
    /// A number whose text is its bytes in memory: lists of these are written in one piece.
    #[doc(hidden)]
    const PLAIN: bool = false;
    fn size_hint(&self) -> usize {
        0
    }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
        self.using_encoded(|buf| dest.write(buf));
    }
    fn encode(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.size_hint());
        self.encode_to(&mut r);
        r
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&self.encode())
    }
    fn encoded_size(&self) -> usize {
        let mut t = SizeTracker { written: 0 };
        self.encode_to(&mut t);
        t.written
    }
}

/// Types that can be read.
pub trait Decode: Sized {
    /// A number whose text is its bytes in memory: lists of these are read in pieces.
    #[doc(hidden)]
    const PLAIN: bool = false;
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
        Self::decode(input).map(|_| ())
    }
    fn encoded_fixed_size() -> Option<usize> {
        None
    }
}

pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}

pub trait Codec: Decode + Encode {}
impl<S: Decode + Encode> Codec for S {}

pub trait FullEncode: Encode + EncodeLike {}
impl<S: Encode + EncodeLike> FullEncode for S {}
pub trait FullCodec: Decode + FullEncode {}
impl<S: Decode + FullEncode> FullCodec for S {}

pub trait DecodeAll: Sized {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}

impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let res = T::decode(input)?;
        if input.is_empty() {
            Ok(res)
        } else {
            Err("Input buffer has still data left after decoding!".into())
        }
    }
}

/// Wrappers (Box, Rc, ...) that encode as what they hold.
pub trait WrapperTypeEncode: std::ops::Deref {}

impl<T: Encode + ?Sized, X: WrapperTypeEncode<Target = T>> Encode for X {
    fn size_hint(&self) -> usize {
        (**self).size_hint()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        (**self).using_encoded(f)
    }
    fn encode(&self) -> Vec<u8> {
        (**self).encode()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (**self).encode_to(dest)
    }
    fn encoded_size(&self) -> usize {
        (**self).encoded_size()
    }
}

pub trait WrapperTypeDecode: Sized + From<Self::Wrapped> {
    type Wrapped: Into<Self>;
}

impl<T: Decode, X: WrapperTypeDecode<Wrapped = T>> Decode for X {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        input.descend_ref()?;
        let r = T::decode(input)?.into();
        input.ascend_ref();
        Ok(r)
    }
}
