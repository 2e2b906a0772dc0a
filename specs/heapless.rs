// The part of the `heapless` crate that documents use, by assumed contracts (a dependency, not code of /repo).
#[allow(unused_imports)] use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
use crate::trusted::*;
verus! {
/// a vector with room for `N` items
#[verifier::external_body] #[verifier::reject_recursive_types(T)]
pub struct Vec<T, const N: usize> { items: std::vec::Vec<T> }
impl<T, const N: usize> View for Vec<T, N> {
    type V = Seq<T>;
    uninterp spec fn view(&self) -> Seq<T>;
}
impl<T, const N: usize> Vec<T, N> {
    #[verifier::external_body]
    pub fn push(&mut self, item: T) -> (r: Result<(), T>)
        ensures
            old(self)@.len() < N ==> r == Ok::<(), T>(()) && final(self)@ == old(self)@.push(item),
            old(self)@.len() >= N ==> r == Err::<(), T>(item) && final(self)@ == old(self)@,
    { if self.items.len() < N { self.items.push(item); Ok(()) } else { Err(item) } }
}
impl<T, const N: usize> Default for Vec<T, N> {
    #[verifier::external_body]
    fn default() -> (r: Self)
        ensures r@ == Seq::<T>::empty(),
    { Vec { items: std::vec::Vec::new() } }
}
impl<T, const N: usize> AsRefSpecImpl<[T]> for Vec<T, N> {
    open spec fn obeys_as_ref_spec() -> bool { true }
    uninterp spec fn as_ref_spec(&self) -> &[T];
}
pub axiom fn heapless_as_ref<T, const N: usize>(v: &Vec<T, N>)
    ensures <Vec<T, N> as AsRefSpec<[T]>>::as_ref_spec(v)@ == v@;
impl<T, const N: usize> AsRef<[T]> for Vec<T, N> {
    #[verifier::external_body]
    fn as_ref(&self) -> &[T] { &self.items }
}
impl<T, const N: usize> AsMutSpecImpl<[T]> for Vec<T, N> {
    open spec fn obeys_as_mut_spec() -> bool { true }
    #[verifier::prophetic]
    open spec fn as_mut_rel(a: &mut Self, x: &mut [T]) -> bool {
        (*a)@ == (*x)@ && (*final(a))@ == (*final(x))@ && (*final(x))@.len() == (*x)@.len()
    }
}
impl<T, const N: usize> AsMut<[T]> for Vec<T, N> {
    #[verifier::external_body]
    fn as_mut(&mut self) -> &mut [T] { &mut self.items }
}
impl<T, const N: usize> IntoIterator for Vec<T, N> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<T>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == self@,
    { self.items.into_iter() }
}
}
