verus! {
pub type PalIndex = u8;
pub type PalLen = u16;
//@const src/pal.rs MAX_COLORS int
/// arrayvec::ArrayVec of capacity MAX_COLORS (ASSUMED of the dependency: push beyond it panics)
pub struct ArrayVec<T> { v: Vec<T> }
impl<T> View for ArrayVec<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> ArrayVec<T> {
  #[verifier::external_body] pub fn default() -> (r: Self) ensures r@.len() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn push(&mut self, t: T) requires old(self)@.len() < MAX_COLORS ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), r <= MAX_COLORS { unimplemented!() }
  #[verifier::external_body] pub fn swap(&mut self, a: usize, b: usize) requires a < old(self)@.len(), b < old(self)@.len() ensures final(self)@ == old(self)@.update(a as int, old(self)@[b as int]).update(b as int, old(self)@[a as int]) { unimplemented!() }
  #[verifier::external_body] pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self@, self@.len() <= MAX_COLORS { unimplemented!() }
}
impl<T> vstd::std_specs::core::IndexSpecImpl<usize> for ArrayVec<T> { open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() } }
impl<T> core::ops::Index<usize> for ArrayVec<T> { type Output = T; #[verifier::external_body] fn index(&self, i: usize) -> (r: &T) ensures *r == self@[i as int] { unimplemented!() } }
impl<T> core::ops::IndexMut<usize> for ArrayVec<T> { #[verifier::external_body] fn index_mut(&mut self, i: usize) -> (r: &mut T) ensures *r == old(self)@[i as int], final(self)@ == old(self)@.update(i as int, *final(r)) { unimplemented!() } }
#[derive(Clone, Copy)]
pub struct PalPop(pub F);
pub struct PalF { pub colors: ArrayVec<f_pixel>, pub pops: ArrayVec<PalPop> }
pub open spec fn pal_wf(p: PalF) -> bool { p.colors@.len() == p.pops@.len() && p.colors@.len() <= MAX_COLORS }
impl PalPop {
//@fn src/pal.rs PalPop::is_fixed pub
    ensures r == (self.0.r() < 0real),
//@end
//@fn src/pal.rs PalPop::to_fixed pub
    ensures r.0.r() < 0real, self.0.r() > 0real ==> r.0.r() == -self.0.r(), self.0.r() < 0real ==> r == self,
//@end
//@fn src/pal.rs PalPop::new pub
    requires popularity.r() >= 0real,
    ensures r.0 == popularity,
//@end
//@fn src/pal.rs PalPop::popularity pub
    ensures r.r() >= 0real, r.r() == self.0.r() || r.r() == -self.0.r(), self.0.r() >= 0real ==> r.r() == self.0.r(), self.0.r() < 0real ==> r.r() == -self.0.r(),
//@end
}
impl PalF {
//@fn src/pal.rs PalF::new pub
    ensures pal_wf(r), r.colors@.len() == 0,
//@end
//@fn src/pal.rs PalF::push pub
    requires pal_wf(*old(self)), old(self).colors@.len() < MAX_COLORS,
    ensures pal_wf(*final(self)), final(self).colors@ == old(self).colors@.push(color), final(self).pops@ == old(self).pops@.push(popularity),
//@end
//@fn src/pal.rs PalF::set pub
    requires pal_wf(*old(self)), idx < old(self).colors@.len(),
    ensures pal_wf(*final(self)), final(self).colors@ == old(self).colors@.update(idx as int, color), final(self).pops@ == old(self).pops@.update(idx as int, popularity),
//@end
//@fn src/pal.rs PalF::len pub
    requires pal_wf(*self),
    ensures r == self.colors@.len(), r <= MAX_COLORS,
//@end
//@fn src/pal.rs PalF::swap pub
    requires pal_wf(*old(self)), a < old(self).colors@.len(), b < old(self).colors@.len(),
    ensures pal_wf(*final(self)), final(self).colors@ == old(self).colors@.update(a as int, old(self).colors@[b as int]).update(b as int, old(self).colors@[a as int]),
        final(self).pops@ == old(self).pops@.update(a as int, old(self).pops@[b as int]).update(b as int, old(self).pops@[a as int]),
//@end
//@fn src/pal.rs PalF::as_slice pub
    ensures r@ == self.colors@, self.colors@.len() <= MAX_COLORS,
//@pre
& self . colors => self . colors . as_slice ( )
//@end
//@fn src/pal.rs PalF::pop_as_slice pub
    ensures r@ == self.pops@, self.pops@.len() <= MAX_COLORS,
//@pre
& self . pops => self . pops . as_slice ( )
//@end
}
pub open spec fn px_eq(a: f_pixel, b: f_pixel) -> bool { a.0.a.r() == b.0.a.r() && a.0.r.r() == b.0.r.r() && a.0.g.r() == b.0.g.r() && a.0.b.r() == b.0.b.r() }
/// the first `n` fixed colours are at the front, exactly, and marked
pub open spec fn front(p: PalF, fixed: Seq<f_pixel>, n: int) -> bool { forall|k: int| #![trigger p.colors@[k]] #![trigger p.pops@[k]] 0 <= k < n ==> px_eq(p.colors@[k], fixed[k]) && p.pops@[k].0.r() < 0real }
pub open spec fn px_in(s: Seq<f_pixel>, c: f_pixel) -> bool { exists|j: int| 0 <= j < s.len() && px_eq(#[trigger] s[j], c) }
/// every colour of `a` is in `b`
pub open spec fn kept_all(a: Seq<f_pixel>, b: Seq<f_pixel>) -> bool { forall|j: int| 0 <= j < a.len() ==> px_in(b, #[trigger] a[j]) }
pub open spec fn px_distinct(a: Seq<f_pixel>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> !px_eq(#[trigger] a[i], #[trigger] a[j]) }
}
