//! Stand-in for smallvec: the part linkspace uses, over a Vec.
pub struct SmallVec<A: Array>(Vec<A::Item>);
pub trait Array {
    type Item;
}
impl<T, const N: usize> Array for [T; N] {
    type Item = T;
}
impl<A: Array> SmallVec<A> {
    pub const fn new_const() -> Self {
        SmallVec(Vec::new())
    }
}
impl<A: Array> Extend<A::Item> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = A::Item>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
impl<A: Array> std::ops::Deref for SmallVec<A> {
    type Target = [A::Item];
    fn deref(&self) -> &[A::Item] {
        &self.0
    }
}
impl<A: Array> std::ops::DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [A::Item] {
        &mut self.0
    }
}
