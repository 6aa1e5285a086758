//! Stand-in; only used when /repo's own codec tests are run against the shims.
pub trait ArrayTools {
    type E;
    fn as_slice(&self) -> &[Self::E];
}
impl<T, const N: usize> ArrayTools for [T; N] {
    type E = T;
    fn as_slice(&self) -> &[T] {
        self
    }
}
