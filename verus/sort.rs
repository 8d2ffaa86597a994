verus! {
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
  requires a < old(s)@.len(), b < old(s)@.len()
  ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
/// stands for sort_by_key / sort_unstable_by_key after the key function was run on every element: some permutation (ASSUMED of std)
pub trait VxSlice<T> { spec fn vx_seq(&self) -> Seq<T>; }
#[verifier::external_body] pub fn vx_sort<T, const N: usize>(s: &mut [T; N]) ensures final(s)@.to_multiset() == old(s)@.to_multiset(), forall|i: int| 0 <= i < N ==> old(s)@.contains(#[trigger] final(s)@[i]) { unimplemented!() }
#[verifier::external_body] pub fn vx_select_nth<'a, T>(s: &'a mut [T], n: usize) -> (r: (&'a mut [T], &'a mut T, &'a mut [T]))
  requires n < old(s)@.len()
  ensures (*r.0)@.len() == n, ((*r.0)@ + seq![*r.1] + (*r.2)@).to_multiset() == old(s)@.to_multiset(), (*r.0)@.len() + 1 + (*r.2)@.len() == old(s)@.len(),
    final(s)@ == (*final(r.0))@ + seq![*final(r.1)] + (*final(r.2))@, (*final(r.0))@.len() == (*r.0)@.len(), (*final(r.2))@.len() == (*r.2)@.len() { unimplemented!() }
}
verus! {
/// `new` is `old` ordered by `keys` (of `old`), smallest first
pub open spec fn sorted_by<T>(old_: Seq<T>, new_: Seq<T>, keys: Seq<F>, perm: Seq<int>, inv: Seq<int>) -> bool {
  new_.len() == old_.len() && perm.len() == old_.len() && inv.len() == old_.len()
  && (forall|k: int| 0 <= k < old_.len() ==> 0 <= #[trigger] perm[k] < old_.len() && new_[k] == old_[perm[k]])
  && (forall|k: int| 0 <= k < old_.len() ==> 0 <= #[trigger] inv[k] < old_.len() && perm[inv[k]] == k)
  && (forall|i: int, j: int| 0 <= i < j < old_.len() ==> keys[#[trigger] perm[i]].r() <= keys[#[trigger] perm[j]].r())
}
/// stands for sort_by_cached_key after the key function was run on every element (ASSUMED of std)
#[verifier::external_body] pub fn vx_sort_cached<T>(s: &mut [T], keys: &Vec<F>) requires keys@.len() == old(s)@.len() ensures exists|perm: Seq<int>, inv: Seq<int>| sorted_by(old(s)@, final(s)@, keys@, perm, inv) { unimplemented!() }
}
