//! Stand-in for enumflags2: just what storage/failing uses.
pub use enumflags2_derive::bitflags;
pub trait BitFlag: Copy + 'static {
    const VARIANTS: &'static [Self];
    fn index(self) -> u32;
}
pub struct BitFlags<T>(u64, std::marker::PhantomData<T>);
impl<T: BitFlag> BitFlags<T> {
    pub const ALL: Self = Self((1 << T::VARIANTS.len()) - 1, std::marker::PhantomData);
    pub fn is_empty(&self) -> bool {
        self.0 == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = T> {
        let b = self.0;
        T::VARIANTS.iter().copied().filter(move |v| b >> v.index() & 1 == 1)
    }
}
impl<T: BitFlag> From<T> for BitFlags<T> {
    fn from(t: T) -> Self {
        Self(1 << t.index(), std::marker::PhantomData)
    }
}
impl<T: BitFlag> FromIterator<T> for BitFlags<T> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        Self(i.into_iter().fold(0, |a, t| a | 1 << t.index()), std::marker::PhantomData)
    }
}
impl<T> Clone for BitFlags<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for BitFlags<T> {}
impl<T> PartialEq for BitFlags<T> {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<T> Eq for BitFlags<T> {}
impl<T> PartialOrd for BitFlags<T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<T> Ord for BitFlags<T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.0.cmp(&o.0)
    }
}
impl<T> std::fmt::Debug for BitFlags<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{:b}", self.0)
    }
}
