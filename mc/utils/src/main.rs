mod address;
mod drawing;
mod events;
mod graph;
mod recent;
mod settings;

use mc_kit::Check;
use randomness::{TryCryptoRng, TryRng};

/// Randomness that is chosen by the harness: a different stream per seed.
pub struct Chosen(pub u64);
impl TryRng for Chosen {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.try_next_u64()? as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Self::Error> {
        for c in dest.chunks_mut(8) {
            let v = self.try_next_u64()?.to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        Ok(())
    }
}
impl TryCryptoRng for Chosen {}

fn main() {
    const RULE: &str = "every case of the stated space is run through the real code and compared with a reference; non-trivial: a case that is accepted, or that differs from every other by what it must refuse";
    const HIST: &str = "every history of the stated operations is run on the real object and compared with a reference after each one; non-trivial: a history that ends in a state or answer of its own";
    mc_kit::main(&[
        Check { id: "U01", level: "model_checking", rule: HIST, assumptions: &["the hash functions behave alike for values outside those inserted"], run: recent::run },
        Check { id: "U02", level: "model_checking", rule: HIST, assumptions: &["the channel and the thread pool libraries are correct", "one thread subscribes and sends, as the exclusive borrow demands"], run: events::run },
        Check { id: "U03", level: "model_checking", rule: RULE, assumptions: &["graphs of more nodes behave like those explored"], run: graph::run },
        Check { id: "U05", level: "exploration", rule: RULE, assumptions: &["the standard library's address parsing and the domain name library are correct"], run: address::run },
        Check { id: "U06", level: "exploration", rule: RULE, assumptions: &["the QR code library is correct"], run: drawing::run },
        Check { id: "U07", level: "exploration", rule: RULE, assumptions: &["the standard library's file and environment functions are correct"], run: settings::run },
        Check { id: "U08", level: "exploration", rule: RULE, assumptions: &["the cipher library is correct"], run: settings::stored },
    ]);
}
