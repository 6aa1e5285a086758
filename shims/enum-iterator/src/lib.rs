//! Stand-in for enum-iterator 2 (field-less enums only).
pub use enum_iterator_derive::Sequence;
pub trait Sequence: Sized {
    const CARDINALITY: usize;
    fn next(&self) -> Option<Self>;
    fn previous(&self) -> Option<Self>;
    fn first() -> Option<Self>;
    fn last() -> Option<Self>;
}
pub struct All<T>(Option<T>);
impl<T: Sequence> Iterator for All<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        let n = self.0.as_ref().and_then(|x| x.next());
        std::mem::replace(&mut self.0, n)
    }
}
pub fn all<T: Sequence>() -> All<T> {
    All(T::first())
}
pub fn first<T: Sequence>() -> Option<T> {
    T::first()
}
pub fn last<T: Sequence>() -> Option<T> {
    T::last()
}
pub const fn cardinality<T: Sequence>() -> usize {
    T::CARDINALITY
}
