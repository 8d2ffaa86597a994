// unit: props=C12,C13,C15,C05,C09,C03,C02
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include diff_assumed.rs
//@include default.rs
//@include bnd.rs
//@include palf.rs
//@include hitem.rs
//@include hint.rs
//@include kmspec.rs
//@include attr.rs
//@include qspec.rs
//@include rgba.rs
//@include consts.rs
//@include qres.rs
verus! {
//@const src/pal.rs MAX_TRANSP_A

pub struct Reverse<T>(pub T);
type Entry = (f_pixel, PalPop);
pub open spec fn transp(c: f_pixel) -> bool { c.0.a.r() < MAX_TRANSP_A_r() }
pub open spec fn popul(p: PalPop) -> real { if p.0.r() < 0real { -p.0.r() } else { p.0.r() } }
pub open spec fn key_le(a: (bool, Reverse<F>), b: (bool, Reverse<F>)) -> bool { (!a.0 && b.0) || (a.0 == b.0 && a.1.0.r() >= b.1.0.r()) }
/// `p` takes every place once
pub open spec fn is_perm(p: Seq<int>, q: Seq<int>, n: int) -> bool { p.len() == n && q.len() == n && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] p[k] < n && q[p[k]] == k) && (forall|k: int| 0 <= k < n ==> 0 <= #[trigger] q[k] < n && p[q[k]] == k) }
pub open spec fn sorted_keys(o: Seq<Entry>, n: Seq<Entry>, keys: Seq<(bool, Reverse<F>)>, p: Seq<int>, q: Seq<int>) -> bool {
  n.len() == o.len() && is_perm(p, q, o.len() as int) && (forall|k: int| 0 <= k < o.len() ==> #[trigger] n[k] == o[p[k]]) && (forall|i: int, j: int| 0 <= i < j < o.len() ==> key_le(keys[#[trigger] p[i]], keys[#[trigger] p[j]]))
}
//@local
/// stands for sort_by_key after the key function was run on every element (ASSUMED of std; the keys order first by class, then by falling popularity)
#[verifier::external_body] pub fn vx_sort_keys(s: &mut Vec<Entry>, keys: &Vec<(bool, Reverse<F>)>) requires keys@.len() == old(s)@.len() ensures exists|p: Seq<int>, q: Seq<int>| #[trigger] sorted_keys(old(s)@, final(s)@, keys@, p, q) { unimplemented!() }
//@shared
/// the same entries, in another order
pub open spec fn reordered(o: PalF, n: PalF) -> bool { exists|p: Seq<int>, q: Seq<int>| #[trigger] reordered_by(o, n, p, q) }
pub open spec fn reordered_by(o: PalF, n: PalF, p: Seq<int>, q: Seq<int>) -> bool { n.colors@.len() == o.colors@.len() && n.pops@.len() == o.pops@.len() && is_perm(p, q, o.colors@.len() as int) && forall|k: int| 0 <= k < o.colors@.len() ==> n.colors@[k] == o.colors@[#[trigger] p[k]] && n.pops@[k] == o.pops@[p[k]] }
pub open spec fn same_pal(a: PalF, b: PalF) -> bool { a.colors@ =~= b.colors@ && a.pops@ =~= b.pops@ }
pub open spec fn ent(p: PalF, i: int) -> Entry { (p.colors@[i], p.pops@[i]) }
/// C12
pub open spec fn in_order(p: PalF, last: bool) -> bool {
  (forall|i: int, j: int| 0 <= i < j < p.colors@.len() ==> ((#[trigger] transp(p.colors@[i]) == last) ==> (#[trigger] transp(p.colors@[j]) == last)))
  && (forall|i: int, j: int| 0 <= i < j < p.colors@.len() && transp(#[trigger] p.colors@[i]) == transp(#[trigger] p.colors@[j]) && (!last || !transp(p.colors@[i])) ==> popul(p.pops@[i]) >= popul(p.pops@[j]))
  && (last ==> forall|i: int| 0 <= i < p.colors@.len() && transp(#[trigger] p.colors@[i]) ==> transp(p.colors@.last()) && p.colors@.last().0.a.r() <= p.colors@[i].0.a.r())
}
//@local
pub open spec fn key_of(e: Entry, last: bool) -> (bool, real) { (transp(e.0) == last, popul(e.1)) }
pub open spec fn key2_le(a: (bool, real), b: (bool, real)) -> bool { (!a.0 && b.0) || (a.0 == b.0 && a.1 >= b.1) }
pub open spec fn grouped(p: PalF, l: bool) -> bool {
  (forall|i: int, j: int| 0 <= i < j < p.colors@.len() ==> ((#[trigger] transp(p.colors@[i]) == l) ==> (#[trigger] transp(p.colors@[j]) == l)))
  && (forall|i: int, j: int| 0 <= i < j < p.colors@.len() && transp(#[trigger] p.colors@[i]) == transp(#[trigger] p.colors@[j]) ==> popul(p.pops@[i]) >= popul(p.pops@[j]))
}
proof fn grouped_ok(p: PalF, l: bool) requires pal_wf(p), forall|i: int, j: int| 0 <= i < j < p.colors@.len() ==> key2_le(#[trigger] key_of(ent(p, i), l), #[trigger] key_of(ent(p, j), l)) ensures grouped(p, l) {
  assert forall|i: int, j: int| 0 <= i < j < p.colors@.len() implies ((#[trigger] transp(p.colors@[i]) == l) ==> (#[trigger] transp(p.colors@[j]) == l)) by { assert(key2_le(key_of(ent(p, i), l), key_of(ent(p, j), l))); }
  assert forall|i: int, j: int| 0 <= i < j < p.colors@.len() && transp(#[trigger] p.colors@[i]) == transp(#[trigger] p.colors@[j]) implies popul(p.pops@[i]) >= popul(p.pops@[j]) by { assert(key2_le(key_of(ent(p, i), l), key_of(ent(p, j), l))); }
}
pub open spec fn swapped(o: PalF, n: PalF, a: int) -> bool { let z = o.colors@.len() - 1; n.colors@ == o.colors@.update(z, o.colors@[a]).update(a, o.colors@[z]) && n.pops@ == o.pops@.update(z, o.pops@[a]).update(a, o.pops@[z]) }
proof fn swap_ok(o: PalF, n: PalF, a: int) requires pal_wf(o), grouped(o, true), 0 <= a < o.colors@.len(), transp(o.colors@[a]), swapped(o, n, a), forall|j: int| 0 <= j < o.colors@.len() && transp(#[trigger] o.colors@[j]) ==> o.colors@[a].0.a.r() <= o.colors@[j].0.a.r() ensures pal_wf(n), in_order(n, true) {
  let z = o.colors@.len() - 1; if a < z { assert((transp(o.colors@[a]) == true) ==> (transp(o.colors@[z]) == true)); }
  assert forall|i: int, j: int| 0 <= i < j < n.colors@.len() implies ((#[trigger] transp(n.colors@[i]) == true) ==> (#[trigger] transp(n.colors@[j]) == true)) by { if j != a && j != z { if i == a { assert(transp(o.colors@[a]) ==> transp(o.colors@[j])); } else { assert(transp(o.colors@[i]) ==> transp(o.colors@[j])); } } }
  assert forall|i: int, j: int| 0 <= i < j < n.colors@.len() && transp(#[trigger] n.colors@[i]) == transp(#[trigger] n.colors@[j]) && !transp(n.colors@[i]) implies popul(n.pops@[i]) >= popul(n.pops@[j]) by { assert(o.colors@[i] == n.colors@[i] && o.colors@[j] == n.colors@[j]); }
  assert forall|i: int| 0 <= i < n.colors@.len() && transp(#[trigger] n.colors@[i]) implies transp(n.colors@.last()) && n.colors@.last().0.a.r() <= n.colors@[i].0.a.r() by { let k = if i == a { z } else if i == z { a } else { i }; assert(transp(o.colors@[k])); }
}
proof fn swap_perm(p0: PalF, o: PalF, n: PalF, p: Seq<int>, q: Seq<int>, a: int) requires pal_wf(p0), pal_wf(o), reordered_by(p0, o, p, q), 0 <= a < o.colors@.len(), swapped(o, n, a) ensures reordered(p0, n) {
  let z = o.colors@.len() - 1;
  let p2 = p.update(z, p[a]).update(a, p[z]); let q2 = q.update(p[a], z).update(p[z], a);
  assert(is_perm(p2, q2, z + 1)) by {
    assert forall|k: int| 0 <= k < z + 1 implies 0 <= #[trigger] p2[k] < z + 1 && q2[p2[k]] == k by { let m = if k == a { z } else if k == z { a } else { k }; assert(p2[k] == p[m]); assert(q[p[m]] == m); assert(q[p[z]] == z); assert(q[p[a]] == a); }
    assert forall|k: int| 0 <= k < z + 1 implies 0 <= #[trigger] q2[k] < z + 1 && p2[q2[k]] == k by { assert(p[q[k]] == k); assert(q[p[z]] == z); assert(q[p[a]] == a); }
  }
  assert forall|k: int| 0 <= k < p0.colors@.len() implies n.colors@[k] == p0.colors@[#[trigger] p2[k]] && n.pops@[k] == p0.pops@[p2[k]] by { let m = if k == a { z } else if k == z { a } else { k }; assert(p2[k] == p[m]); assert(n.colors@[k] == o.colors@[m]); assert(n.pops@[k] == o.pops@[m]); assert(o.colors@[m] == p0.colors@[p[m]]); }
  assert(reordered_by(p0, n, p2, q2));
}
//@fn src/quant.rs sort_palette sortkeys zipmode=1
    requires attr_ok(*attr), pal_wf(*old(palette)),
    ensures pal_wf(*final(palette)), reordered(*old(palette), *final(palette)), in_order(*final(palette), attr.last_index_transparent),
//@pre
let mut tmp : ArrayVec < _ , { MAX_COLORS } > = palette . iter_mut ( ) => let mut tmp : Vec < ( f_pixel , PalPop ) > = palette . iter_mut ( )
palette . iter_mut ( ) => palette . colors . iter_mut ( ) . zip ( palette . pops . iter_mut ( ) )
. zip ( tmp ) => . zip ( tmp . iter ( ) . copied ( ) )
color . a => color . 0 . a
c . a => c . 0 . a
MAX_TRANSP_A => MAX_TRANSP_A ( )
//@subst let mut vx_acc4 = None => let mut vx_acc4 : Option<(usize, &f_pixel)> = None
//@subst let mut vx_key4 = vx_default_key => let mut vx_key4 : F = vx_default_key
//@subst let mut vx_acc5 = None => let mut vx_acc5 : Option<usize> = None
//@subst let mut vx_keys2 = Vec :: new => let mut vx_keys2 : Vec<(bool, Reverse<F>)> = Vec::new
//@subst let mut vx_acc1 = Vec :: new => let mut vx_acc1 : Vec<(f_pixel, PalPop)> = Vec::new
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (p0, n, l) = (*palette, palette.colors@.len() as int, attr.last_index_transparent); let ghost mut t0 = Seq::<Entry>::empty(); let ghost mut gp = Seq::<int>::empty(); let ghost mut gq = Seq::<int>::empty(); let ghost mut gk = Seq::<(bool, Reverse<F>)>::empty(); let ghost mut p1 = p0;
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == n, same_pal(*palette, p0), vx_acc1@.len() == vx_i1, forall|i: int| 0 <= i < vx_i1 ==> #[trigger] vx_acc1@[i] == ent(p0, i),
    decreases vx_n1 - vx_i1,
//@before loop 2
    proof { t0 = tmp@; }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == n, tmp@ == t0, same_pal(*palette, p0), vx_keys2@.len() == vx_i2, forall|i: int| 0 <= i < vx_i2 ==> (#[trigger] vx_keys2@[i]).0 == key_of(t0[i], l).0 && vx_keys2@[i].1.0.r() == key_of(t0[i], l).1,
    decreases vx_n2 - vx_i2,
//@after loop 2
    proof { gk = vx_keys2@; }
//@before loop 3
    proof { let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] sorted_keys(t0, tmp@, gk, p, q); gp = p; gq = q; }
//@loop 3
    invariant vx_i3 <= vx_n3, vx_n3 == n, pal_wf(*palette), palette.colors@.len() == n, forall|i: int| #![trigger palette.colors@[i]] #![trigger palette.pops@[i]] 0 <= i < vx_i3 ==> palette.colors@[i] == tmp@[i].0 && palette.pops@[i] == tmp@[i].1,
    decreases vx_n3 - vx_i3,
//@in loop 3
    let ghost (gc, go, gj) = (palette.colors@, palette.pops@, vx_i3 as int);
//@end loop 3
    proof { assert(palette.colors@ =~= gc.update(gj, tmp@[gj].0)); assert(palette.pops@ =~= go.update(gj, tmp@[gj].1)); }
//@after loop 3
    proof {
      p1 = *palette;
      assert(reordered_by(p0, p1, gp, gq)) by { assert forall|k: int| 0 <= k < n implies p1.colors@[k] == p0.colors@[#[trigger] gp[k]] && p1.pops@[k] == p0.pops@[gp[k]] by { assert(p1.colors@[k] == tmp@[k].0); assert(p1.pops@[k] == tmp@[k].1); assert(tmp@[k] == t0[gp[k]]); assert(t0[gp[k]] == ent(p0, gp[k])); } }
      assert forall|i: int, j: int| 0 <= i < j < n implies key2_le(#[trigger] key_of(ent(p1, i), l), #[trigger] key_of(ent(p1, j), l)) by { assert(key_le(gk[gp[i]], gk[gp[j]])); assert(p1.colors@[i] == tmp@[i].0 && p1.colors@[j] == tmp@[j].0); assert(tmp@[i] == t0[gp[i]] && tmp@[j] == t0[gp[j]]); }
      grouped_ok(p1, l);
      if !l { assert(in_order(p1, l)); }
    }
//@loop 4
    invariant vx_i4 <= vx_n4, vx_n4 == n, *palette == p1, vx_acc4.is_none() ==> forall|j: int| 0 <= j < vx_i4 ==> !transp(#[trigger] p1.colors@[j]),
        vx_acc4.is_some() ==> (vx_acc4->0).0 < vx_i4 && transp(p1.colors@[(vx_acc4->0).0 as int]) && vx_key4.r() == p1.colors@[(vx_acc4->0).0 as int].0.a.r() && forall|j: int| 0 <= j < vx_i4 && transp(#[trigger] p1.colors@[j]) ==> vx_key4.r() <= p1.colors@[j].0.a.r(),
    decreases vx_n4 - vx_i4,
//@before if let Some ( alpha_index ) = alpha_index {
    proof { if alpha_index.is_none() { assert(in_order(p1, l)); } }
//@after palette . swap ( last_index , alpha_index ) ;
    proof { swap_ok(p1, *palette, alpha_index as int); swap_perm(p0, p1, *palette, gp, gq, alpha_index as int); }
//@loop 5
    invariant vx_i5 <= vx_n5, vx_n5 == n, *palette == p1,
    decreases vx_n5 - vx_i5,
//@end
//@shared
pub open spec fn post(c: u8, n: u8) -> u8 { if n == 0 { c } else { (c & !sub(1u8 << n, 1u8)) | (c >> (sub(8u8, n))) } }
/// C13
pub open spec fn posterized(r: u8, c: u8, n: u8) -> bool { (n == 0 ==> r == c) && (n > 0 ==> (r & sub(1u8 << n, 1u8)) == (r >> sub(8u8, n)) && (r >> sub(8u8, n)) == (c >> sub(8u8, n)) && (r >> n) == (c >> n) && (c == 255 ==> r == 255) && (c == 0 ==> r == 0)) }
/// proved by Kani for all 256 x 5 arguments (kani/src/pal.rs k_posterize_channel)
#[verifier::external_body] pub fn posterize_channel(color: u8, bits: u8) -> (r: u8) requires bits <= 4 ensures r == post(color, bits) { unimplemented!() }
proof fn post_ok(c: u8, n: u8) by (bit_vector) requires n <= 4 ensures posterized(post(c, n), c, n) {}
pub open spec fn pxpost(c: RGBA, n: u8) -> RGBA { RGBA { r: post(c.r, n), g: post(c.g, n), b: post(c.b, n), a: post(c.a, n) } }
/// what a palette colour is in the output
pub open spec fn int_of(c: f_pixel, p: PalPop, g: real, n: u8) -> RGBA { let x = pxpost(unconv(g, c), n); if x.a == 0 && p.0.r() >= 0real { RGBA { r: 71, g: 112, b: 76, a: 0 } } else { x } }
/// `t` is the output palette of `p`
pub open spec fn ints(t: Palette, p: PalF, g: real, n: u8) -> bool { t.count == p.colors@.len() && forall|i: int| 0 <= i < p.colors@.len() ==> #[trigger] t.entries@[i] == int_of(p.colors@[i], p.pops@[i], g, n) }
/// the colours were rounded to what the output has
pub open spec fn rounded(o: PalF, p: PalF, g: real, n: u8) -> bool { p.pops@ =~= o.pops@ && p.colors@.len() == o.colors@.len() && forall|i: int| 0 <= i < p.colors@.len() ==> #[trigger] p.colors@[i] == conv(g, pxpost(unconv(g, o.colors@[i]), n)) }
impl PalF {
//@fn src/pal.rs PalF::init_int_palette pixmap=RGBA pub
    requires pal_wf(*old(self)), posterize <= 4, gamma.r() > 0real,
    ensures pal_wf(*final(self)), ints(*final(int_palette), *old(self), gamma.r(), posterize), rounded(*old(self), *final(self), gamma.r(), posterize),
//@pre
self . iter_mut ( ) => self . colors . iter_mut ( ) . zip ( self . pops . iter_mut ( ) )
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == old(self).colors@.len(), posterize <= 4, pal_wf(*self), pal_wf(*old(self)), lut.g() == gamma.r(), gamma.r() > 0real, self.pops@ =~= old(self).pops@, self.colors@.len() == old(self).colors@.len(),
        forall|i: int| vx_i1 <= i < vx_n1 ==> #[trigger] self.colors@[i] == old(self).colors@[i],
        forall|i: int| 0 <= i < vx_i1 ==> #[trigger] self.colors@[i] == conv(gamma.r(), pxpost(unconv(gamma.r(), old(self).colors@[i]), posterize)),
        forall|i: int| 0 <= i < vx_i1 ==> #[trigger] int_palette.entries@[i] == int_of(old(self).colors@[i], old(self).pops@[i], gamma.r(), posterize),
    decreases vx_n1 - vx_i1,
//@end
  #[verifier::external_body] pub fn clone(&self) -> (r: PalF) ensures same_pal(r, *self), pal_wf(*self) ==> pal_wf(r) { unimplemented!() }
}
/// discharged over the whole domain of 256 values by execution (liqx C05), and by Kani for the special values
pub uninterp spec fn qmse(q: int) -> real;
#[verifier::external_body] pub proof fn qmse_ok() ensures forall|q: int| 0 <= q <= 255 ==> #[trigger] qmse(q) >= 0real && qmse(q) <= qmse(0), forall|a: int, b: int| 0 <= a <= b <= 255 ==> #[trigger] qmse(a) >= #[trigger] qmse(b), qmse(100) == 0real, qmse(0) == 100000000000000000000real { unimplemented!() }
#[verifier::external_body] pub fn quality_to_mse(quality: u8) -> (z: F) ensures z.r() == qmse(quality as int) { unimplemented!() }
//@fn src/quant.rs mse_to_quality pub
    ensures r <= 100, forall|i: int| r < i <= 100 ==> mse.r() > #[trigger] qmse(i), r >= 1 ==> mse.r() <= qmse(r as int) + 1real / 1000000real, mse.r() <= 0real ==> r == 100,
//@attrs
#[verifier::loop_isolation(false)]
//@subst let i = vx_a1_0 + ( vx_n1 - 1 - vx_j1 ) => let i = (vx_a1_0 + (vx_n1 - 1 - vx_j1)) as u8
//@entry
    proof { qmse_ok(); assert(qmse(100) == 0real); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == 100, vx_a1_0 == 1, forall|i: int| 100 - vx_i1 < i <= 100 ==> mse.r() > #[trigger] qmse(i) + 1real / 1000000real,
    decreases vx_n1 - vx_i1,
//@before return i ;
    proof { if mse.r() <= 0real && i < 100 { assert(mse.r() > qmse(100) + 1real / 1000000real); } }
//@after loop 1
    proof { if mse.r() <= 0real { assert(mse.r() > qmse(100) + 1real / 1000000real); } }
//@end
/// C05: a limit that is kept gives at least the quality it stands for
proof fn quality_kept(mse: real, limit: int, r: int) requires 0 <= limit <= 100, mse <= qmse(limit), 0 <= r <= 100, forall|i: int| r < i <= 100 ==> mse > #[trigger] qmse(i) ensures r >= limit {}
/// the palette of a result, under its limit
pub open spec fn frozen(p: PalF) -> bool { forall|k: int| 0 <= k < p.pops@.len() ==> (#[trigger] p.pops@[k]).0.r() < 0real }
/// the fixed colours that fit are in the palette, exactly, and marked
pub open spec fn fixed_in(fixed: Seq<f_pixel>, n: int, p: PalF) -> bool { forall|k: int| 0 <= k < n ==> has_fixed(p, #[trigger] fixed[k]) }
pub open spec fn has_fixed(p: PalF, c: f_pixel) -> bool { exists|j: int| 0 <= j < p.colors@.len() && px_eq(#[trigger] p.colors@[j], c) && p.pops@[j].0.r() < 0real }
//@local
proof fn fixed_reorder(fixed: Seq<f_pixel>, n: int, o: PalF, p: PalF) requires pal_wf(o), reordered(o, p), front(o, fixed, n), 0 <= n <= o.colors@.len() ensures fixed_in(fixed, n, p) {
  let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] reordered_by(o, p, a, b);
  assert forall|k: int| 0 <= k < n implies has_fixed(p, #[trigger] fixed[k]) by { let j = b[k]; assert(a[j] == k); assert(px_eq(o.colors@[k], fixed[k])); assert(px_eq(p.colors@[j], fixed[k])); }
}
proof fn frozen_reorder(o: PalF, p: PalF) requires pal_wf(o), reordered(o, p), frozen(o) ensures frozen(p) {
  let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] reordered_by(o, p, a, b);
  assert forall|k: int| 0 <= k < p.pops@.len() implies (#[trigger] p.pops@[k]).0.r() < 0real by { assert(p.pops@[k] == o.pops@[a[k]]); }
}
//@shared
//@const src/pal.rs LIQ_WEIGHT_MSE
pub open spec fn std_mse(m: real) -> real { (m * 65536real / 6real) / LIQ_WEIGHT_MSE_r() }
//@fn src/remap.rs mse_to_standard_mse pub
    ensures r.r() == std_mse(mse.r()),
//@pre
LIQ_WEIGHT_MSE => LIQ_WEIGHT_MSE ( )
//@end
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) where T: core::marker::Destruct ensures r == (if a.is_some() { a } else { b });
//@local
//@assume quant.rs src/quant.rs find_best_palette
//@shared
/// C15: what every result is like between calls
pub open spec fn res_ok(q: QuantizationResult) -> bool {
  &&& pal_wf(q.palette) && q.palette.colors@.len() >= 1 && q.gamma.r() > 0real && q.min_posterization_output <= 4
  &&& q.int_palette.count == 0 || q.int_palette.count == q.palette.colors@.len()
  &&& q.remapped.is_some() ==> (q.remapped->0).int_palette.count == q.palette.colors@.len()
}
pub open spec fn others_same(a: QuantizationResult, b: QuantizationResult) -> bool { b == (QuantizationResult { palette: b.palette, int_palette: b.int_palette, ..a }) }
/// the error of the last remapping, or else of the quantization
pub open spec fn cur_error(q: QuantizationResult) -> Option<F> { if q.remapped.is_some() && (q.remapped->0).palette_error.is_some() { (q.remapped->0).palette_error } else { q.palette_error } }
pub open spec fn is_quality(mse: real, r: int) -> bool { 0 <= r <= 100 && (forall|i: int| r < i <= 100 ==> mse > #[trigger] qmse(i)) && (r >= 1 ==> mse <= qmse(r) + 1real / 1000000real) && (mse <= 0real ==> r == 100) }
/// what a successful remapping stores: the output of a palette that differs from the result's only in colours that are not fixed
pub open spec fn remap_of(q: QuantizationResult, r: Remapped) -> bool { exists|p: PalF| #[trigger] ints(r.int_palette, p, q.gamma.r(), q.min_posterization_output) && pal_wf(p) && p.colors@.len() == q.palette.colors@.len() && all_kept(q.palette, p) }
//@local
/// derived Clone of Remapped and Palette (ASSUMED of the compiler)
#[verifier::external_body] pub fn vx_clone<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
//@shared
/// what a fresh result is
pub open spec fn fresh(q: QuantizationResult, attr: Attributes, gamma: F) -> bool { q.remapped.is_none() && q.int_palette.count == 0 && q.dither_level.r() == 1real && q.gamma == gamma && q.min_posterization_output == attr.min_posterization_output && q.use_dither_map == attr.use_dither_map && q.single_threaded_dithering == attr.single_threaded_dithering }
/// C18: a palette colour is a fixed one, or within the range of the colours that were added
pub open spec fn range_out(p: PalF, fixed: Seq<f_pixel>) -> bool { forall|k: int| 0 <= k < p.colors@.len() ==> in_range(#[trigger] p.colors@[k]) || px_in(fixed, p.colors@[k]) }
/// C04: no more colours than the maximum, no loss allowed
pub open spec fn few_colors(a: Attributes, h: HistogramInternal) -> bool { h.items@.len() <= a.max_colors && a.target_mse.r() == 0real && kept_all(h.fixed_colors@, item_cols(h.items@)) && px_distinct(h.fixed_colors@) }
//@local
proof fn range_reorder(o: PalF, n: PalF, fixed: Seq<f_pixel>, m: int) requires pal_wf(o), reordered(o, n), forall|k: int| fixed.len() <= k < o.colors@.len() ==> in_range(#[trigger] o.colors@[k]), m == minlen(fixed.len() as int, o.colors@.len() as int), front(o, fixed, m) ensures range_out(n, fixed) {
  let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] reordered_by(o, n, a, b);
  assert forall|k: int| 0 <= k < n.colors@.len() implies in_range(#[trigger] n.colors@[k]) || px_in(fixed, n.colors@[k]) by { let t = a[k]; assert(n.colors@[k] == o.colors@[t]); if t < fixed.len() { assert(px_eq(o.colors@[t], fixed[t])); assert(px_eq(fixed[t], n.colors@[k])); } }
}
proof fn kept_reorder(o: PalF, n: PalF, c: Seq<f_pixel>) requires pal_wf(o), reordered(o, n), kept_all(c, o.colors@) ensures kept_all(c, n.colors@) {
  let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] reordered_by(o, n, a, b);
  assert forall|j: int| 0 <= j < c.len() implies px_in(n.colors@, #[trigger] c[j]) by { assert(px_in(o.colors@, c[j])); let t = choose|t: int| 0 <= t < o.colors@.len() && px_eq(#[trigger] o.colors@[t], c[j]); assert(a[b[t]] == t); assert(px_eq(n.colors@[b[t]], c[j])); }
}
//@shared
impl Attributes {
//@fn src/attr.rs Attributes::min_posterization pub
    ensures r == self.min_posterization_output,
//@end
}
/// whether there was memory for `n`
#[verifier::external_body] pub fn vx_reserved(v: &mut Vec<RGBA>, n: usize) -> (r: bool) ensures final(v)@ == old(v)@ { unimplemented!() }
#[verifier::external_body] pub fn vx_extend(v: &mut Vec<RGBA>, s: &[RGBA]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
/// the palette that is given out: that of the last remapping, or else that of the result
pub open spec fn pal_shown(a: QuantizationResult, b: QuantizationResult, s: Seq<RGBA>) -> bool {
  &&& s.len() == a.palette.colors@.len() && others_same(a, b)
  &&& a.remapped.is_some() ==> b == a && s == (a.remapped->0).int_palette.entries@.subrange(0, s.len() as int)
  &&& a.remapped.is_none() ==> s == b.int_palette.entries@.subrange(0, s.len() as int) && (a.int_palette.count != 0 ==> b == a) && (a.int_palette.count == 0 ==> ints(b.int_palette, a.palette, a.gamma.r(), a.min_posterization_output))
}
impl Palette {
//@fn src/pal.rs Palette::as_slice pub
    requires self.count <= 256,
    ensures r@ == self.entries@.subrange(0, self.count as int),
//@end
}
impl QuantizationResult {
//@fn src/quant.rs QuantizationResult::new
    requires attr_ok(*attr), hist_ready(hist), gamma.r() > 0real,
    ensures stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls),
        r.is_ok() ==> pal_wf((r->Ok_0).palette) && 1 <= (r->Ok_0).palette.colors@.len() <= attr.max_colors && fresh(r->Ok_0, *attr, gamma) && in_order((r->Ok_0).palette, attr.last_index_transparent),
        r.is_ok() ==> fixed_in(hist.fixed_colors@, minlen(hist.fixed_colors@.len() as int, attr.max_colors as int), (r->Ok_0).palette), r.is_ok() && freeze_result_colors ==> frozen((r->Ok_0).palette),
        r.is_ok() && attr.max_mse.is_some() ==> (r->Ok_0).palette_error.is_some() && ((r->Ok_0).palette_error->0).r() <= (attr.max_mse->0).r(), r.is_ok() && (r->Ok_0).palette_error.is_some() ==> err_ok((r->Ok_0).palette_error->0),
        too_low(r) ==> attr.max_mse.is_some() && (attr.max_mse->0).r() < qmse(0), r.is_ok() ==> range_out((r->Ok_0).palette, hist.fixed_colors@),
        few_colors(*attr, hist) && !is_aborted(r) ==> r.is_ok() && (r->Ok_0).palette_error.is_some() && ((r->Ok_0).palette_error->0).r() == 0real && kept_all(item_cols(hist.items@), (r->Ok_0).palette.colors@),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.progress => Tracked(log)
find_best_palette => Tracked(log)
//@pre
palette . iter_mut ( ) => palette . colors . iter_mut ( ) . zip ( palette . pops . iter_mut ( ) )
progress_callback : None , =>
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost c0 = log.calls; let ghost h0 = hist;
    proof { qmse_ok(); }
//@before loop 1
    let ghost p0 = palette; let ghost m = minlen(hist.fixed_colors@.len() as int, palette.colors@.len() as int);
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == p0.colors@.len(), pal_wf(palette), palette.colors@ =~= p0.colors@, palette.pops@.len() == p0.pops@.len(), forall|k: int| 0 <= k < vx_i1 ==> (#[trigger] palette.pops@[k]).0.r() < 0real, front(palette, hist.fixed_colors@, m),
    decreases vx_n1 - vx_i1,
//@before sort_palette ( attr , & mut palette ) ;
    let ghost p2 = palette;
//@after sort_palette ( attr , & mut palette ) ;
    proof { fixed_reorder(hist.fixed_colors@, minlen(hist.fixed_colors@.len() as int, p2.colors@.len() as int), p2, palette); if freeze_result_colors { frozen_reorder(p2, palette); } range_reorder(p2, palette, h0.fixed_colors@, minlen(h0.fixed_colors@.len() as int, p2.colors@.len() as int)); if few_colors(*attr, h0) { kept_reorder(p2, palette, item_cols(h0.items@)); } }
//@end
//@fn src/quant.rs QuantizationResult::set_dithering_level
    ensures r.is_ok() == (0real <= value.r() <= 1real), r.is_ok() ==> *final(self) == (QuantizationResult { remapped: None, dither_level: value, ..*old(self) }), r.is_err() ==> *final(self) == *old(self) && r->Err_0 == Error::ValueOutOfRange,
//@end
//@fn src/quant.rs QuantizationResult::set_output_gamma
    ensures r.is_ok() == (0real < value.r() < 1real), r.is_ok() ==> *final(self) == (QuantizationResult { remapped: None, gamma: value, int_palette: Palette { count: 0, ..old(self).int_palette }, ..*old(self) }), r.is_err() ==> *final(self) == *old(self) && r->Err_0 == Error::ValueOutOfRange,
//@end
//@fn src/quant.rs QuantizationResult::output_gamma
    ensures r == self.gamma,
//@end
//@fn src/quant.rs QuantizationResult::quantization_quality
    ensures r.is_some() == self.palette_error.is_some(), r.is_some() ==> is_quality((self.palette_error->0).r(), r->0 as int),
//@end
//@fn src/quant.rs QuantizationResult::quantization_error
    ensures r.is_some() == self.palette_error.is_some(), r.is_some() ==> (r->0).r() == std_mse((self.palette_error->0).r()),
//@end
//@fn src/quant.rs QuantizationResult::remapping_error
    ensures r.is_some() == cur_error(*self).is_some(), r.is_some() ==> (r->0).r() == std_mse((cur_error(*self)->0).r()),
//@end
//@fn src/quant.rs QuantizationResult::remapping_quality
    ensures r.is_some() == cur_error(*self).is_some(), r.is_some() ==> is_quality((cur_error(*self)->0).r(), r->0 as int),
//@end
//@fn src/quant.rs QuantizationResult::int_palette
    requires res_ok(*old(self)),
    ensures res_ok(*final(self)), old(self).remapped.is_some() ==> *final(self) == *old(self) && *r == (old(self).remapped->0).int_palette,
        old(self).remapped.is_none() ==> *r == final(self).int_palette && final(self).int_palette.count == final(self).palette.colors@.len() && others_same(*old(self), *final(self)),
        old(self).remapped.is_none() && old(self).int_palette.count != 0 ==> *final(self) == *old(self),
        old(self).remapped.is_none() && old(self).int_palette.count == 0 ==> ints(*r, old(self).palette, old(self).gamma.r(), old(self).min_posterization_output) && rounded(old(self).palette, final(self).palette, old(self).gamma.r(), old(self).min_posterization_output),
//@end
//@fn src/quant.rs QuantizationResult::palette pub
    requires res_ok(*old(self)),
    ensures res_ok(*final(self)), pal_shown(*old(self), *final(self), r@),
//@end
//@fn src/quant.rs QuantizationResult::palette_vec pub
    requires res_ok(*old(self)),
    ensures res_ok(*final(self)), r@.len() == 0 || pal_shown(*old(self), *final(self), r@), others_same(*old(self), *final(self)), old(self).remapped.is_some() ==> *final(self) == *old(self),
//@pre
out . try_reserve_exact ( pal . len ( ) ) . is_ok ( ) => vx_reserved ( & mut out , pal . len ( ) )
out . extend_from_slice ( pal ) => vx_extend ( & mut out , pal )
//@end
//@fn src/quant.rs QuantizationResult::palette_len
    requires pal_wf(old(self).palette),
    ensures r == old(self).palette.colors@.len(), *final(self) == *old(self),
//@end
//@fn src/quant.rs QuantizationResult@Clone::clone as=vx_clone
    ensures same_pal(r.palette, self.palette), r == (QuantizationResult { palette: r.palette, ..*self }),
//@pre
self . remapped . clone ( ) => vx_clone ( & self . remapped )
self . int_palette . clone ( ) => vx_clone ( & self . int_palette )
progress_callback : None , =>
//@end
}
}
fn main() {}
