verus! {
/// std::collections::HashMap (ASSUMED of std; a finite map)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct VxMap<K, V> { x: Vec<(K, V)> }
impl<K, V> View for VxMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K: Copy, V: Copy> VxMap<K, V> {
  #[verifier::external_body] pub fn vx_new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn vx_get(&self, k: K) -> (r: Option<V>) ensures self@.dom().contains(k) ==> r == Some(self@[k]), !self@.dom().contains(k) ==> r.is_none() { unimplemented!() }
  #[verifier::external_body] pub fn vx_put(&mut self, k: K, v: V) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> Option<V> ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn capacity(&self) -> (r: usize) { unimplemented!() }
  #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
  /// the entries in some order, each once
  #[verifier::external_body] pub fn vx_pairs(&self) -> (r: Vec<(K, V)>) ensures pairs_of(r@, self@) { unimplemented!() }
  #[verifier::external_body] pub fn vx_values(&self) -> (r: Vec<V>) ensures exists|p: Seq<(K, V)>| #[trigger] pairs_of(p, self@) && p.len() == r@.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] r@[i] == p[i].1 { unimplemented!() }
}
pub open spec fn pairs_of<K, V>(p: Seq<(K, V)>, m: Map<K, V>) -> bool {
  p.len() == m.len()
  && (forall|i: int| 0 <= i < p.len() ==> m.dom().contains((#[trigger] p[i]).0) && m[p[i].0] == p[i].1)
  && (forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j ==> (#[trigger] p[i]).0 != (#[trigger] p[j]).0)
  && (forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k)
}
pub proof fn pair_at<K, V>(p: Seq<(K, V)>, m: Map<K, V>, k: K) -> (i: int) requires pairs_of(p, m), m.dom().contains(k) ensures 0 <= i < p.len(), p[i].0 == k, p[i].1 == m[k] { choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k }
}
