verus! {
/// core::mem::MaybeUninit: reading it before it was written is a failed obligation
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct MaybeUninit<T> { t: T }
impl<T: Copy> Copy for MaybeUninit<T> {}
impl<T: Copy> Clone for MaybeUninit<T> { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl<T> View for MaybeUninit<T> { type V = Option<T>; uninterp spec fn view(&self) -> Option<T>; }
impl<T> MaybeUninit<T> {
  #[verifier::external_body] pub fn write(&mut self, t: T) ensures final(self)@ == Some(t) { unimplemented!() }
}
impl<T: Copy> MaybeUninit<T> { #[verifier::external_body] pub fn assume_init(self) -> (r: T) requires self@.is_some() ensures self@ == Some(r) { unimplemented!() } }
}
