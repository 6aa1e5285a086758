//! A plain schoolbook big number, the reference for the fixed-width integers.

use std::cmp::Ordering;

/// Little-endian 32-bit limbs without leading zeros.
#[derive(Clone, PartialEq, Eq, Debug, Hash, Default)]
pub struct Big(pub Vec<u32>);

impl Big {
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn zero() -> Self {
        Big(vec![])
    }
    pub fn from_words(w: &[u64]) -> Self {
        Big(w.iter().flat_map(|x| [*x as u32, (*x >> 32) as u32]).collect()).norm()
    }
    pub fn from_u128(v: u128) -> Self {
        Self::from_words(&[v as u64, (v >> 64) as u64])
    }
    pub fn pow2(n: usize) -> Self {
        let mut v = vec![0; n / 32 + 1];
        v[n / 32] = 1 << (n % 32);
        Big(v)
    }
    /// The low `n` words.
    pub fn words(&self, n: usize) -> Vec<u64> {
        (0..n).map(|i| self.limb(2 * i) as u64 | (self.limb(2 * i + 1) as u64) << 32).collect()
    }
    fn limb(&self, i: usize) -> u32 {
        self.0.get(i).copied().unwrap_or(0)
    }
    pub fn bits(&self) -> usize {
        match self.0.last() {
            None => 0,
            Some(l) => self.0.len() * 32 - l.leading_zeros() as usize,
        }
    }
    pub fn bit(&self, i: usize) -> bool {
        self.limb(i / 32) >> (i % 32) & 1 == 1
    }
    pub fn add(&self, o: &Big) -> Big {
        let mut c = 0u64;
        let mut v = vec![];
        for i in 0..self.0.len().max(o.0.len()) + 1 {
            c += self.limb(i) as u64 + o.limb(i) as u64;
            v.push(c as u32);
            c >>= 32;
        }
        Big(v).norm()
    }
    pub fn sub(&self, o: &Big) -> Option<Big> {
        if self.cmp(o) == Ordering::Less {
            return None;
        }
        let mut b = 0i64;
        let mut v = vec![];
        for i in 0..self.0.len() {
            let d = self.limb(i) as i64 - o.limb(i) as i64 - b;
            b = (d < 0) as i64;
            v.push(d as u32);
        }
        Some(Big(v).norm())
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u32; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u64;
            for j in 0..=o.0.len() {
                c += v[i + j] as u64 + *a as u64 * o.limb(j) as u64;
                v[i + j] = c as u32;
                c >>= 32;
            }
        }
        Big(v).norm()
    }
    pub fn shl(&self, n: usize) -> Big {
        self.mul(&Big::pow2(n))
    }
    pub fn shr(&self, n: usize) -> Big {
        let v = (0..self.0.len())
            .map(|i| {
                let lo = self.limb(i + n / 32) as u64 | (self.limb(i + n / 32 + 1) as u64) << 32;
                (lo >> (n % 32)) as u32
            })
            .collect();
        Big(v).norm()
    }
    pub fn low_bits(&self, n: usize) -> Big {
        let v = self
            .0
            .iter()
            .enumerate()
            .map(|(i, l)| {
                let from = i * 32;
                if n >= from + 32 {
                    *l
                } else if n <= from {
                    0
                } else {
                    l & ((1u32 << (n - from)) - 1)
                }
            })
            .collect();
        Big(v).norm()
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
