mod hashes;
mod hd;
mod keys;
mod secrets;
mod vrf;

use mc_kit::Check;
use randomness::{TryCryptoRng, TryRng};

/// Randomness that is chosen by the harness: a different stream per seed.
pub struct Chosen(pub u64);
impl TryRng for Chosen {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.try_next_u64()? as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Self::Error> {
        for c in dest.chunks_mut(8) {
            let v = self.try_next_u64()?.to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        Ok(())
    }
}
impl TryCryptoRng for Chosen {}

/// Every length to `all`, and one below, at and above every power of two to `max`.
pub fn lengths(all: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=all).collect();
    let mut p = 1;
    while p <= max {
        v.extend([p - 1, p, p + 1].iter().filter(|n| **n > all));
        p *= 2;
    }
    v.dedup();
    v
}

pub fn pattern(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + i / 251 + 7) as u8).collect()
}

fn main() {
    const RULE: &str = "every case of the stated space (every bit of every datum altered, every length, every split, every path) is run through the real code and compared with the primitive libraries used directly or with the required refusal; non-trivial: an accepted case, or a distinct alteration that must be refused";
    let a: &[&str] = &["the primitive libraries (secp256k1, schnorrkel, blake2, sha, chacha20poly1305, argon2, x25519) are correct", "keys and messages outside the stated spaces behave like those in them"];
    mc_kit::main(&[
        Check { id: "K01", level: "exploration", rule: RULE, assumptions: a, run: keys::run },
        Check { id: "K02", level: "exploration", rule: RULE, assumptions: a, run: hd::run },
        Check { id: "K03", level: "exploration", rule: RULE, assumptions: a, run: vrf::run },
        Check { id: "K04", level: "exploration", rule: RULE, assumptions: a, run: secrets::run },
        Check { id: "K05", level: "exploration", rule: RULE, assumptions: a, run: hashes::run },
    ]);
}
