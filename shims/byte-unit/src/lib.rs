#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Byte(u64);
impl Byte {
    pub fn as_u64(&self) -> u64 {
        self.0
    }
}
impl std::str::FromStr for Byte {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.trim().parse().map(Byte)
    }
}
impl std::fmt::Display for Byte {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
