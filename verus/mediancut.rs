// unit: props=C18,C16,C02
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include diff_assumed.rs
//@include sort.rs
//@include default.rs
//@include palf.rs
//@include hitem.rs
//@include hint.rs
verus! {
broadcast use {vstd::seq_lib::group_seq_properties, vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms};
pub open spec fn mcw_ok(s: Seq<HistItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).mc_color_weight.r() >= 0real }
/// what of an item is not scratch space
pub struct Core { pub color: f_pixel, pub aw: F, pub pw: F }
pub open spec fn core_of(i: HistItem) -> Core { Core { color: i.color, aw: i.adjusted_weight, pw: i.perceptual_weight } }
pub open spec fn cores(s: Seq<HistItem>) -> Seq<Core> { Seq::new(s.len(), |i: int| core_of(s[i])) }
pub open spec fn bag(s: Seq<HistItem>) -> vstd::multiset::Multiset<Core> { cores(s).to_multiset() }
pub open spec fn mcw(s: Seq<HistItem>) -> real decreases s.len() { if s.len() == 0 { 0real } else { mcw(s.drop_last()) + s.last().mc_color_weight.r() } }
proof fn mcw_update(s: Seq<HistItem>, i: int, x: HistItem) requires 0 <= i < s.len() ensures mcw(s.update(i, x)) == mcw(s) - s[i].mc_color_weight.r() + x.mc_color_weight.r() decreases s.len()
{ if i == s.len() - 1 { assert(s.update(i, x).drop_last() =~= s.drop_last()); } else { mcw_update(s.drop_last(), i, x); assert(s.update(i, x).drop_last() =~= s.drop_last().update(i, x)); } }
proof fn mcw_swap(s: Seq<HistItem>, a: int, b: int) requires 0 <= a < s.len(), 0 <= b < s.len() ensures mcw(s.update(a, s[b]).update(b, s[a])) == mcw(s)
{ mcw_update(s, a, s[b]); mcw_update(s.update(a, s[b]), b, s[a]); }
proof fn mcw_cat(a: Seq<HistItem>, b: Seq<HistItem>) ensures mcw(a + b) == mcw(a) + mcw(b) decreases b.len()
{ if b.len() == 0 { assert(a + b =~= a); } else { mcw_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); } }
proof fn bag_swap(s: Seq<HistItem>, a: int, b: int) requires 0 <= a < s.len(), 0 <= b < s.len() ensures bag(s.update(a, s[b]).update(b, s[a])) == bag(s)
{
  let t = s.update(a, s[b]).update(b, s[a]);
  let c = cores(s);
  assert(cores(t) =~= c.update(a, c[b]).update(b, c[a]));
  vstd::seq_lib::to_multiset_update(c, a, c[b]);
  vstd::seq_lib::to_multiset_update(c.update(a, c[b]), b, c[a]);
  assert(bag(t) =~= bag(s));
}
proof fn bag_cat(a: Seq<HistItem>, b: Seq<HistItem>) ensures bag(a + b) == bag(a).add(bag(b))
{ assert(cores(a + b) =~= cores(a) + cores(b)); vstd::seq_lib::lemma_multiset_commutative(cores(a), cores(b)); }

broadcast proof fn b_mcw_cat(a: Seq<HistItem>, b: Seq<HistItem>) ensures #[trigger] mcw(a + b) == mcw(a) + mcw(b) { mcw_cat(a, b); }
broadcast proof fn b_bag_cat(a: Seq<HistItem>, b: Seq<HistItem>) ensures #[trigger] bag(a + b) == bag(a).add(bag(b)) { bag_cat(a, b); }
proof fn mcw_nonneg(s: Seq<HistItem>) requires mcw_ok(s) ensures mcw(s) >= 0real decreases s.len() { if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).mc_color_weight.r() >= 0real by { assert(s[i].mc_color_weight.r() >= 0real); } mcw_nonneg(s.drop_last()); } }
proof fn cores_ok(s: Seq<HistItem>, t: Seq<HistItem>) requires s.len() == t.len(), cores(s) == cores(t), all_ok(s) ensures all_ok(t) { assert forall|i: int| 0 <= i < t.len() implies item_ok(#[trigger] t[i]) by { assert(item_ok(s[i])); assert(cores(s)[i] == core_of(s[i])); assert(cores(t)[i] == core_of(t[i])); } }
proof fn bag_perm(s: Seq<HistItem>, t: Seq<HistItem>) requires s.to_multiset() == t.to_multiset() ensures bag(s) == bag(t), s.len() == t.len(), all_ok(s) ==> all_ok(t) decreases s.len()
{
  assert(s.to_multiset().len() == s.len()); assert(t.to_multiset().len() == t.len());
  if s.len() == 0 { assert(cores(s) =~= cores(t)); } else {
    let x = s.last(); let s2 = s.drop_last();
    assert(s =~= s2.push(x));
    assert(s.to_multiset() == s2.to_multiset().insert(x));
    assert(s.to_multiset().count(x) > 0);
    assert(t.contains(x)) by { assert(t.to_multiset().count(x) > 0); }
    let k = choose|k: int| 0 <= k < t.len() && t[k] == x;
    let t2 = t.remove(k);
    vstd::seq_lib::to_multiset_remove(t, k);
    assert(t2.to_multiset() =~= s2.to_multiset());
    bag_perm(s2, t2);
    assert(cores(s) =~= cores(s2).push(core_of(x)));
    assert(cores(t2) =~= cores(t).remove(k));
    vstd::seq_lib::to_multiset_remove(cores(t), k);
    assert(bag(s) == bag(s2).insert(core_of(x)));
    assert(bag(t).count(core_of(x)) > 0) by { assert(cores(t)[k] == core_of(x)); assert(cores(t).contains(core_of(x))); }
    assert(bag(t) =~= bag(t2).insert(core_of(x)));
    if all_ok(s) { assert forall|i: int| 0 <= i < s2.len() implies item_ok(#[trigger] s2[i]) by { assert(item_ok(s[i])); } assert(item_ok(s[s.len() - 1]));
      assert forall|i: int| 0 <= i < t.len() implies item_ok(#[trigger] t[i]) by { if i < k { assert(item_ok(t2[i])); } else if i > k { assert(item_ok(t2[i - 1])); } } }
  }
}
proof fn b_bag_perm_all() ensures forall|s: Seq<HistItem>, t: Seq<HistItem>| #[trigger] s.to_multiset() == #[trigger] t.to_multiset() ==> bag(s) == bag(t) && s.len() == t.len() && (all_ok(s) ==> all_ok(t))
{ assert forall|s: Seq<HistItem>, t: Seq<HistItem>| #[trigger] s.to_multiset() == #[trigger] t.to_multiset() implies bag(s) == bag(t) && s.len() == t.len() && (all_ok(s) ==> all_ok(t)) by { bag_perm(s, t); } }
//@fn src/mediancut.rs weighed_average_color loops=1
    requires hist.len() > 0, all_ok(hist@),
    ensures in_range(r),
//@loop 1
    invariant vx_n1 == hist.len(), vx_i1 <= vx_n1, all_ok(hist@), sum.r() >= 0real, vx_i1 > 0 ==> sum.r() > 0real,
        lo(0) * sum.r() <= t.0.a.r() <= hi(0) * sum.r(), lo(1) * sum.r() <= t.0.r.r() <= hi(1) * sum.r(), lo(2) * sum.r() <= t.0.g.r() <= hi(2) * sum.r(), lo(3) * sum.r() <= t.0.b.r() <= hi(3) * sum.r(),
    decreases vx_n1 - vx_i1,
//@in loop 1
    let ghost (s0, t0) = (sum.r(), t);
    proof { assert(item_ok(hist@[vx_i1 as int])); }
//@end loop 1
    proof {
        let w = c.adjusted_weight.r();
        wstep(lo(0), hi(0), s0, t0.0.a.r(), c.color.0.a.r(), w); wstep(lo(1), hi(1), s0, t0.0.r.r(), c.color.0.r.r(), w);
        wstep(lo(2), hi(2), s0, t0.0.g.r(), c.color.0.g.r(), w); wstep(lo(3), hi(3), s0, t0.0.b.r(), c.color.0.b.r(), w);
    }
//@before if sum != fl ( Ghost ( 0real ) )
    let ghost tt = t;
    proof { wdiv(lo(0), hi(0), sum.r(), t.0.a.r()); wdiv(lo(1), hi(1), sum.r(), t.0.r.r()); wdiv(lo(2), hi(2), sum.r(), t.0.g.r()); wdiv(lo(3), hi(3), sum.r(), t.0.b.r()); }
//@end
proof fn wstep(l: real, h: real, s: real, t: real, c: real, w: real) by (nonlinear_arith) requires l * s <= t <= h * s, l <= c <= h, w > 0real ensures l * (s + w) <= t + c * w <= h * (s + w) {}
proof fn wdiv(l: real, h: real, s: real, t: real) by (nonlinear_arith) requires l * s <= t <= h * s, s > 0real ensures l <= t / s <= h {}

//@fn src/mediancut.rs qsort_pivot
    requires base.len() > 0,
    ensures r < base.len(),
//@loop 1
    invariant vx_n1 == 3, vx_i1 <= vx_n1, forall|i: int| 0 <= i < 3 ==> (#[trigger] pivots[i]) < base.len(),
    decreases vx_n1 - vx_i1,
//@after loop 1
    let ghost p0 = pivots@;
//@end

/// `b` is a permutation of `a` (scratch fields aside), with the same total colour weight and no invariant lost
pub open spec fn rel(a: Seq<HistItem>, b: Seq<HistItem>) -> bool { a.len() == b.len() && bag(a) == bag(b) && mcw(a) == mcw(b) && (all_ok(a) ==> all_ok(b)) && (mcw_ok(a) ==> mcw_ok(b)) }
proof fn rel_refl(a: Seq<HistItem>) ensures rel(a, a) {}
proof fn rel_trans(a: Seq<HistItem>, b: Seq<HistItem>, c: Seq<HistItem>) ensures rel(a, b) && rel(b, c) ==> rel(a, c) {}
proof fn rel_cat(a: Seq<HistItem>, b: Seq<HistItem>, c: Seq<HistItem>, d: Seq<HistItem>) ensures rel(a, c) && rel(b, d) ==> rel(a + b, c + d)
{ if rel(a, c) && rel(b, d) { mcw_cat(a, b); mcw_cat(c, d); bag_cat(a, b); bag_cat(c, d);
    if all_ok(a + b) { assert(forall|i: int| 0 <= i < a.len() ==> a[i] == (a + b)[i]); assert(forall|i: int| 0 <= i < b.len() ==> b[i] == (a + b)[i + a.len()]); assert(all_ok(a) && all_ok(b)); }
    if mcw_ok(a + b) { assert(forall|i: int| 0 <= i < a.len() ==> a[i] == (a + b)[i]); assert(forall|i: int| 0 <= i < b.len() ==> b[i] == (a + b)[i + a.len()]); assert(mcw_ok(a) && mcw_ok(b)); } } }

//@fn src/mediancut.rs qsort_partition
    requires old(base)@.len() > 0,
    ensures r < final(base)@.len(), rel(old(base)@, final(base)@),
        forall|k: int| 0 <= k < r ==> (#[trigger] final(base)@[k]).tmp.mc_sort_value >= final(base)@[r as int].tmp.mc_sort_value,
        forall|k: int| r < k < final(base)@.len() ==> (#[trigger] final(base)@[k]).tmp.mc_sort_value <= final(base)@[r as int].tmp.mc_sort_value,
//@attrs
#[verifier::loop_isolation(false)]
//@pre
base . swap ( qsort_pivot ( base ) , 0 ) ; => let vx_pivot = qsort_pivot ( base ) ; base . swap ( vx_pivot , 0 ) ;
//@before base . swap ( vx_pivot
    proof { mcw_swap(base@, vx_pivot as int, 0); bag_swap(base@, vx_pivot as int, 0); }
    let ghost b0 = base@;
    let vx_len = base.len();
//@loop 1
    invariant 1 <= l <= r <= base@.len(), rel(b0, base@),
        base@[0].tmp.mc_sort_value == pivot_value,
        forall|k: int| 0 <= k < l ==> (#[trigger] base@[k]).tmp.mc_sort_value >= pivot_value,
        forall|k: int| r <= k < base@.len() ==> (#[trigger] base@[k]).tmp.mc_sort_value <= pivot_value,
    decreases r - l,
//@loop 2
    invariant 1 <= l <= r < base@.len(), base@[l as int].tmp.mc_sort_value < pivot_value, l == r ==> base@[r as int].tmp.mc_sort_value <= pivot_value,
        forall|k: int| r < k < base@.len() ==> (#[trigger] base@[k]).tmp.mc_sort_value <= pivot_value,
    decreases r - l,
//@before base . swap ( l , r
    proof { mcw_swap(base@, l as int, r as int); bag_swap(base@, l as int, r as int); }
//@before base . swap ( l , 0
    proof { mcw_swap(base@, l as int, 0); bag_swap(base@, l as int, 0); }
//@end

//@fn src/mediancut.rs hist_item_sort_half
    requires old(base)@.len() > 0 ==> weight_half_sum.r() <= mcw(old(base)@),
    ensures rel(old(base)@, final(base)@),
        old(base)@.len() > 0 ==> r < old(base)@.len(),
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let vx_len = base.len();
    let ghost b0 = base@;
    let ghost fin = final(base)@;
    let ghost mut slack: int = 0;
    proof { rel_refl(b0); }
//@pre
let mut base_index = 0 ; => let mut base_index : usize = 0 ;
//@loop 1
    invariant base@.len() > 0, slack >= 0, base_index + base@.len() + slack <= b0.len(), slack == 0 ==> weight_half_sum.r() <= mcw(base@),
        rel(base@, final(base)@) ==> rel(b0, fin),
    decreases base@.len(),
//@in loop 1
    let ghost ba = base@;
//@before let ( left , right )
    let ghost bb = base@;
    let ghost fb = final(base)@;
    proof { rel_trans(ba, bb, fb); }
//@before let left_sum
    let ghost (l0, r0) = (left@, right@);
    let ghost (fl, fr) = (final(left)@, final(right)@);
    proof { mcw_cat(l0, r0); assert(l0 + r0 =~= bb); assert(fl + fr =~= fb); rel_cat(l0, r0, fl, fr); rel_refl(l0); rel_refl(r0); }
//@loop 2
    invariant vx_n2 == left@.len(), vx_i2 <= vx_n2, vx_acc2.r() == mcw(left@.take(vx_i2 as int)),
    decreases vx_n2 - vx_i2,
//@in loop 2
    proof { assert(left@.take(vx_i2 + 1).drop_last() =~= left@.take(vx_i2 as int)); }
//@after loop 2
    proof { assert(left@.take(vx_i2 as int) =~= left@); }
//@before base = left
    proof { slack = slack + 1 + right@.len();
      let fl2 = final(left)@; let tail = l0.subrange(partition as int, l0.len() as int);
      assert(l0 =~= left@ + tail); assert(fl =~= fl2 + tail); rel_refl(tail); rel_cat(left@, tail, fl2, tail); }
//@before base = right
    proof { assert(slack == 0 ==> weight_half_sum.r() <= mcw(right@)); assert(fl == l0); }
//@end

pub struct MBox<'hist> { pub colors: &'hist mut [HistItem], pub avg_color: f_pixel, pub variance: ARGBF, pub adjusted_weight_sum: F, pub total_error: Option<F>, pub max_error: F }
pub struct ChanVariance { pub chan: usize, pub variance: F }
/// rgb::bytemuck::cast of four floats: an array of the four (order is irrelevant to what is proved)
#[verifier::external_body] pub fn vx_cast4(c: ARGBF) -> (z: [F; 4]) { unimplemented!() }
pub fn Reverse(x: F) -> F { x }
/// a box the algorithm may keep: not empty, its colour within the range of what it holds
pub open spec fn box_ok(b: MBox<'_>) -> bool { b.colors@.len() > 0 && all_ok(b.colors@) && in_range(b.avg_color) }
/// the items themselves did not change, only scratch fields
pub open spec fn same_cores(a: Seq<HistItem>, b: Seq<HistItem>) -> bool { a.len() == b.len() && cores(a) == cores(b) }

impl<'hist> MBox<'hist> {
//@fn src/mediancut.rs MBox::box_stats pixmap=ARGBF floats=max_error
    requires all_ok(hist@),
    ensures true,
//@loop 1
    invariant vx_n1 == hist.len(), vx_i1 <= vx_n1,
    decreases vx_n1 - vx_i1,
//@end
//@fn src/mediancut.rs MBox::new_c
    requires old(hist)@.len() > 0, all_ok(old(hist)@), in_range(avg_color),
    ensures box_ok(r), (*r.colors)@ == old(hist)@, final(hist)@ == final(r.colors)@,
//@end
//@fn src/mediancut.rs MBox::new
    requires old(hist)@.len() > 0, all_ok(old(hist)@),
    ensures box_ok(r), (*r.colors)@ == old(hist)@, final(hist)@ == final(r.colors)@,
//@loop 1
    invariant vx_n1 == hist@.len(), vx_i1 <= vx_n1, all_ok(hist@),
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { assert(item_ok(hist@[vx_i1 as int])); }
//@end
//@fn src/mediancut.rs MBox::is_useless_color
    requires all_ok(colors@),
//@loop 1
    invariant vx_n1 == colors@.len(), vx_i1 <= vx_n1,
    decreases vx_n1 - vx_i1,
//@loop 2
    invariant vx_n2 == other_boxes@.len(), vx_i2 <= vx_n2,
    decreases vx_n2 - vx_i2,
//@end
//@fn src/mediancut.rs MBox::new_s
    requires old(hist)@.len() > 0, all_ok(old(hist)@),
    ensures box_ok(r), (*r.colors)@ == old(hist)@, final(hist)@ == final(r.colors)@,
//@subst let mut vx_acc1 = None => let mut vx_acc1 : Option<&HistItem> = None
//@subst unwrap_or_default ( ) => unwrap_or ( f_pixel :: default ( ) )
//@loop 1
    invariant vx_n1 == hist@.len(), vx_i1 <= vx_n1, all_ok(hist@), vx_i1 > 0 ==> vx_acc1.is_some(), vx_acc1.is_some() ==> in_range(vx_acc1->0.color),
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { assert(item_ok(hist@[vx_i1 as int])); }
//@end
//@fn src/mediancut.rs MBox::compute_total_error
    requires old(self).colors@.len() > 0, all_ok(old(self).colors@),
    ensures *final(self) == (MBox { total_error: final(self).total_error, ..*old(self) }), final(self).total_error.is_some(),
//@loop 1
    invariant vx_n1 == self.colors@.len(), vx_i1 <= vx_n1, *self == *old(self),
    decreases vx_n1 - vx_i1,
//@end

//@fn src/mediancut.rs MBox::prepare_sort
    requires all_ok(old(self).colors@),
    ensures same_cores(old(self).colors@, final(self).colors@), all_ok(final(self).colors@), final(self).avg_color == old(self).avg_color, final(self).adjusted_weight_sum == old(self).adjusted_weight_sum,
        final(final(self).colors)@ == final(old(self).colors)@,
//@pre
struct ChanVariance { pub chan : usize , pub variance : f32 , } =>
rgb :: bytemuck :: cast ( => vx_cast4 (
//@loop 1
    invariant vx_n1 == 4, vx_i1 <= vx_n1, forall|i: int| 0 <= i < 4 ==> (#[trigger] channels[i]).chan < 4,
    decreases vx_n1 - vx_i1,
//@loop 2
    invariant vx_n2 == self.colors@.len(), vx_i2 <= vx_n2, same_cores(old(self).colors@, self.colors@), self.avg_color == old(self).avg_color, self.adjusted_weight_sum == old(self).adjusted_weight_sum,
        final(self.colors)@ == final(old(self).colors)@, forall|i: int| 0 <= i < 4 ==> (#[trigger] channels[i]).chan < 4,
    decreases vx_n2 - vx_i2,
//@in loop 2
    let ghost c0 = self.colors@;
//@end loop 2
    proof { assert(cores(c0) =~= cores(self.colors@)); }
//@after loop 2
    proof { cores_ok(old(self).colors@, self.colors@); }
//@end
//@fn src/mediancut.rs MBox::median_color
    requires old(self).colors@.len() > 0,
    ensures bag(old(self).colors@) == bag(final(self).colors@), final(self).colors@.len() == old(self).colors@.len(), all_ok(old(self).colors@) ==> all_ok(final(self).colors@), final(self).avg_color == old(self).avg_color, final(self).adjusted_weight_sum == old(self).adjusted_weight_sum, final(final(self).colors)@ == final(old(self).colors)@,
//@loop 1
    invariant vx_n1 == self.colors@.len(), vx_i1 <= vx_n1, *self == *old(self),
    decreases vx_n1 - vx_i1,
//@after loop 1
    let ghost s0 = self.colors@;
    proof { b_bag_perm_all(); }
//@end
//@fn src/mediancut.rs MBox::prepare_color_weight_total
    requires old(self).colors@.len() > 0, all_ok(old(self).colors@),
    ensures bag(old(self).colors@) == bag(final(self).colors@), final(self).colors@.len() == old(self).colors@.len(), all_ok(final(self).colors@), mcw_ok(final(self).colors@), r.r() == mcw(final(self).colors@),
        final(self).avg_color == old(self).avg_color, final(self).adjusted_weight_sum == old(self).adjusted_weight_sum, final(final(self).colors)@ == final(old(self).colors)@,
//@before loop 1
    let ghost s1 = self.colors@;
//@loop 1
    invariant vx_n1 == self.colors@.len(), vx_i1 <= vx_n1, same_cores(s1, self.colors@), all_ok(self.colors@), all_ok(s1), mcw_ok(self.colors@.take(vx_i1 as int)), vx_acc1.r() == mcw(self.colors@.take(vx_i1 as int)),
        self.avg_color == old(self).avg_color, self.adjusted_weight_sum == old(self).adjusted_weight_sum, final(self.colors)@ == final(old(self).colors)@,
    decreases vx_n1 - vx_i1,
//@in loop 1
    let ghost c0 = self.colors@;
    proof { assert(item_ok(self.colors@[vx_i1 as int])); }
//@end loop 1
    proof { assert(cores(c0) =~= cores(self.colors@)); assert(self.colors@.take(vx_i1 as int).drop_last() =~= c0.take(vx_j1 as int)); assert(self.colors@.take(vx_i1 as int).last() == self.colors@[vx_j1 as int]);
      assert forall|i: int| 0 <= i < self.colors@.len() implies item_ok(#[trigger] self.colors@[i]) by { assert(item_ok(c0[i])); } 
      assert forall|i: int| 0 <= i < vx_i1 implies (#[trigger] self.colors@.take(vx_i1 as int)[i]).mc_color_weight.r() >= 0real by { if i < vx_j1 { assert(c0.take(vx_j1 as int)[i].mc_color_weight.r() >= 0real); } } }
//@after loop 1
    proof { assert(self.colors@.take(vx_i1 as int) =~= self.colors@); }
//@end
//@fn src/mediancut.rs MBox::split
    requires box_ok(self), self.colors@.len() > 1,
    ensures box_ok(r[0]), box_ok(r[1]), bag(r[0].colors@).add(bag(r[1].colors@)) == bag(old(self.colors)@), r[0].colors@.len() + r[1].colors@.len() == old(self.colors)@.len(),
//@before let break_at
    proof { mcw_nonneg(vx_self.colors@); }
//@before let ( left , right )
    let ghost bb = vx_self.colors@;
//@before let left_sum
    proof { assert(left@ + right@ =~= bb); bag_cat(left@, right@); assert forall|i: int| 0 <= i < left@.len() implies item_ok(#[trigger] left@[i]) by { assert(item_ok(bb[i])); }
      assert forall|i: int| 0 <= i < right@.len() implies item_ok(#[trigger] right@[i]) by { assert(item_ok(bb[i + left@.len()])); } }
//@loop 1
    invariant vx_n1 == left@.len(), vx_i1 <= vx_n1,
    decreases vx_n1 - vx_i1,
//@end
}

pub struct MedianCutter<'hist> { pub boxes: Vec<MBox<'hist>>, pub hist_total_perceptual_weight: F, pub target_colors: PalLen }
/// capacity of a Vec, for push_in_cap, which drops what does not fit
pub uninterp spec fn vx_cap<T>(v: Vec<T>) -> nat;
#[verifier::external_body] pub fn vx_try_reserve<T>(v: &mut Vec<T>, n: usize) -> (r: Result<(), Error>) ensures plain(r), final(v)@ == old(v)@, r.is_ok() ==> vx_cap(*final(v)) >= old(v)@.len() + n { unimplemented!() }
pub trait PushInCapacity<T> { spec fn room(&self) -> bool; fn push_in_cap(&mut self, val: T) requires old(self).room(); }
#[verifier::external_body] pub fn vx_push_in_cap<T>(v: &mut Vec<T>, val: T) requires old(v)@.len() < vx_cap(*old(v)) ensures final(v)@ == old(v)@.push(val), vx_cap(*final(v)) == vx_cap(*old(v)) { unimplemented!() }
#[verifier::external_body] pub fn vx_extend2<T>(v: &mut Vec<T>, two: [T; 2]) ensures final(v)@ == old(v)@.push(two[0]).push(two[1]) { unimplemented!() }
#[verifier::external_body] fn quality_to_mse(q: u8) -> (r: F) ensures r.r() >= 0real { unimplemented!() }
pub open spec fn boxbag(b: MBox<'_>) -> vstd::multiset::Multiset<Core> { bag(b.colors@) }
pub open spec fn boxes_ok(b: Seq<MBox<'_>>) -> bool { forall|i: int| 0 <= i < b.len() ==> box_ok(#[trigger] b[i]) }
pub open spec fn bags(b: Seq<MBox<'_>>) -> vstd::multiset::Multiset<Core> decreases b.len() { if b.len() == 0 { vstd::multiset::Multiset::empty() } else { bags(b.drop_last()).add(boxbag(b.last())) } }
proof fn bags_update(b: Seq<MBox<'_>>, i: int, x: MBox<'_>) requires 0 <= i < b.len() ensures bags(b.update(i, x)).add(boxbag(b[i])) =~= bags(b).add(boxbag(x)) decreases b.len()
{
  let u = b.update(i, x);
  if i == b.len() - 1 { assert(u.drop_last() =~= b.drop_last()); assert(u.last() == x); assert(b.last() == b[i]); assert(bags(u) == bags(b.drop_last()).add(boxbag(x))); assert(bags(b) == bags(b.drop_last()).add(boxbag(b[i]))); }
  else { let d = b.drop_last(); bags_update(d, i, x); assert(u.drop_last() =~= d.update(i, x)); assert(u.last() == b.last()); assert(d[i] == b[i]);
    assert(bags(u) == bags(d.update(i, x)).add(boxbag(b.last()))); assert(bags(b) == bags(d).add(boxbag(b.last())));
    assert(bags(u).add(boxbag(b[i])) =~= bags(d.update(i, x)).add(boxbag(b[i])).add(boxbag(b.last())));
    assert(bags(b).add(boxbag(x)) =~= bags(d).add(boxbag(x)).add(boxbag(b.last()))); }
}
proof fn bags_same(b: Seq<MBox<'_>>, i: int, x: MBox<'_>) requires 0 <= i < b.len(), boxbag(x) == boxbag(b[i]) ensures bags(b.update(i, x)) == bags(b)
{ bags_update(b, i, x); assert(bags(b.update(i, x)) =~= bags(b).add(boxbag(x)).sub(boxbag(x))); assert(bags(b) =~= bags(b).add(boxbag(x)).sub(boxbag(x))); }
/// what Vec::swap_remove does
proof fn bags_swap_remove(b: Seq<MBox<'_>>, i: int) requires 0 <= i < b.len() ensures bags(b.update(i, b.last()).drop_last()).add(boxbag(b[i])) == bags(b)
{ let u = b.update(i, b.last()); bags_update(b, i, b.last()); assert(u.last() == b.last()); assert(bags(u) == bags(u.drop_last()).add(boxbag(b.last())));
  assert(bags(u.drop_last()).add(boxbag(b[i])) =~= bags(u).add(boxbag(b[i])).sub(boxbag(b.last()))); assert(bags(b) =~= bags(b).add(boxbag(b.last())).sub(boxbag(b.last()))); }
proof fn bags_push(b: Seq<MBox<'_>>, x: MBox<'_>) ensures bags(b.push(x)) =~= bags(b).add(boxbag(x)) { assert(b.push(x).drop_last() =~= b); }

impl<'hist> MedianCutter<'hist> {
//@fn src/mediancut.rs MedianCutter::total_box_error_below_target
    requires boxes_ok(old(self).boxes@),
    ensures boxes_ok(final(self).boxes@), bags(final(self).boxes@) == bags(old(self).boxes@), final(self).boxes@.len() == old(self).boxes@.len(), final(self).target_colors == old(self).target_colors,
//@loop 1
    invariant vx_n1 == self.boxes@.len(), vx_i1 <= vx_n1, *self == *old(self),
    decreases vx_n1 - vx_i1,
//@loop 2
    invariant vx_n2 == self.boxes@.len(), vx_i2 <= vx_n2, boxes_ok(self.boxes@), bags(self.boxes@) == bags(old(self).boxes@), self.boxes@.len() == old(self).boxes@.len(), self.target_colors == old(self).target_colors,
    decreases vx_n2 - vx_i2,
//@in loop 2
    let ghost u0 = self.boxes@;
    proof { assert(box_ok(u0[vx_i2 as int])); assert(u0.update(vx_i2 as int, u0[vx_i2 as int]) =~= u0);
      assert forall|x: MBox<'_>| boxbag(x) == boxbag(u0[vx_i2 as int]) implies bags(#[trigger] u0.update(vx_i2 as int, x)) == bags(u0) by { bags_same(u0, vx_i2 as int, x); } }
//@end
//@fn src/mediancut.rs MedianCutter::take_best_splittable_box
    requires boxes_ok(old(self).boxes@),
    ensures r.is_none() ==> *final(self) == *old(self), final(self).target_colors == old(self).target_colors,
        r.is_some() ==> box_ok(r->0) && r->0.colors@.len() > 1 && boxes_ok(final(self).boxes@) && final(self).boxes@.len() + 1 == old(self).boxes@.len() && bags(final(self).boxes@).add(boxbag(r->0)) == bags(old(self).boxes@),
//@subst let mut vx_acc1 = None => let mut vx_acc1 : Option<(usize, F)> = None
//@loop 1
    invariant vx_n1 == self.boxes@.len(), vx_i1 <= vx_n1, *self == *old(self), vx_acc1.is_some() ==> (vx_acc1->0).0 < self.boxes@.len() && self.boxes@[(vx_acc1->0).0 as int].colors@.len() > 1, vx_i1 <= vx_n1,
    decreases vx_n1 - vx_i1,
//@before Some ( self . boxes . swap_remove ( i ) )
    proof { bags_swap_remove(self.boxes@, i as int); assert(box_ok(self.boxes@[i as int])); assert(box_ok(self.boxes@[self.boxes@.len() - 1])); }
//@end

//@fn src/mediancut.rs MedianCutter::new
    requires old(hist).items@.len() > 0, all_ok(old(hist).items@), clusters_ok(old(hist).clusters@, old(hist).items@.len() as int), target_colors >= 1,
    ensures plain(r), r.is_ok() ==> boxes_ok((r->Ok_0).boxes@) && (r->Ok_0).boxes@.len() >= 1 && (r->Ok_0).boxes@.len() <= target_colors && bags((r->Ok_0).boxes@) == bag(old(hist).items@) && (r->Ok_0).target_colors == target_colors,
//@attrs
#[verifier::loop_isolation(false)]
//@pre
boxes . try_reserve ( target_colors as usize ) ? ; => vx_try_reserve ( & mut boxes , target_colors as usize ) ? ;
boxes . push_in_cap ( MBox :: new ( this_box ) ) ; => vx_push_in_cap ( & mut boxes , MBox :: new ( this_box ) ) ;
boxes . push_in_cap ( MBox :: new ( hist_items ) ) ; => vx_push_in_cap ( & mut boxes , MBox :: new ( hist_items ) ) ;
let mut boxes = Vec :: new ( ) ; => let mut boxes : Vec < MBox < 'hist > > = Vec :: new ( ) ;
hist . clusters . last ( ) . unwrap ( ) => hist . clusters [ LIQ_MAXCLUSTER - 1 ]
let mut prev_end = 0 ; => let mut prev_end : usize = 0 ;
& mut hist . items [ .. ] => & mut * hist . items
//@entry
    let ghost h0 = hist.items@;
//@loop 1
    invariant vx_n1 == 16, vx_i1 <= vx_n1, vx_acc1 == used(hist.clusters@, vx_i1 as int), vx_acc1 <= vx_i1,
    decreases vx_n1 - vx_i1,
//@before loop 2
    proof { assert(bags(boxes@) =~= bag(h0.take(0))) by { assert(cores(h0.take(0)) =~= Seq::<Core>::empty()); } assert(h0.skip(0) =~= h0); used_mono(hist.clusters@, 0, 16); }
//@loop 2
    invariant vx_n2 == 16, vx_i2 <= vx_n2, boxes_ok(boxes@), boxes@.len() == used(hist.clusters@, vx_i2 as int), prev_end <= h0.len(), hist_items@ == h0.skip(prev_end as int), bags(boxes@) == bag(h0.take(prev_end as int)),
        vx_i2 < 16 ==> prev_end == hist.clusters@[vx_i2 as int].begin, vx_i2 == 16 ==> prev_end == h0.len(), vx_cap(boxes) >= target_colors, vx_i2 > 0 && prev_end > 0 ==> boxes@.len() > 0,
    decreases vx_n2 - vx_i2,
//@in loop 2
    proof { used_mono(hist.clusters@, vx_i2 + 1, 16); assert(hist.clusters@[vx_i2 as int].begin <= hist.clusters@[vx_i2 as int].end); if vx_i2 < 15 { assert(hist.clusters@[vx_i2 as int].end == hist.clusters@[vx_i2 + 1].begin); }
       cluster_end(hist.clusters@, vx_i2 as int, h0.len() as int); }
    let ghost (g_boxes, g_prev) = (boxes@, prev_end as int);
//@before vx_push_in_cap ( & mut boxes , MBox :: new ( this_box
    let ghost tb = this_box@;
    proof { assert(tb =~= h0.subrange(g_prev, end as int)); assert(hist_items@ =~= h0.skip(end as int)); assert forall|i: int| 0 <= i < tb.len() implies item_ok(#[trigger] tb[i]) by { assert(item_ok(h0[g_prev + i])); } }
//@end loop 2
    proof { bags_push(g_boxes, boxes@.last()); bag_cat(h0.take(g_prev), tb); assert(h0.take(g_prev) + h0.subrange(g_prev, end as int) =~= h0.take(end as int)); }
//@before Ok ( Self
    proof { assert(h0.take(h0.len() as int) =~= h0); bags_push(Seq::empty(), boxes@[0]); if boxes@.len() == 1 { assert(boxes@ =~= Seq::empty().push(boxes@[0])); } assert(boxes_ok(boxes@)); }
//@end
//@fn src/mediancut.rs MedianCutter::into_palette
    requires boxes_ok(self.boxes@), self.boxes@.len() <= MAX_COLORS,
    ensures pal_wf(r), r.colors@.len() == self.boxes@.len(), pal_in_range(r), pal_not_fixed(r),
//@attrs
#[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_n1 == self.boxes@.len(), vx_n1 == vx_self.boxes@.len(), vx_i1 <= vx_n1, pal_wf(palette), palette.colors@.len() == vx_i1, pal_in_range(palette), pal_not_fixed(palette), boxes_ok(vx_self.boxes@),
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { assert(box_ok(vx_self.boxes@[vx_i1 as int])); }
//@loop 2
    invariant vx_n2 == b.colors@.len(), vx_i2 <= vx_n2, box_ok(*b),
    decreases vx_n2 - vx_i2,
//@loop 3
    invariant vx_n3 == b.colors@.len(), vx_i3 <= vx_n3, vx_acc3.r() >= 0real,
    decreases vx_n3 - vx_i3,
//@end
//@fn src/mediancut.rs MedianCutter::cut
    requires boxes_ok(self.boxes@), 1 <= self.boxes@.len() <= self.target_colors, self.target_colors <= MAX_COLORS,
    ensures pal_wf(r), 1 <= r.colors@.len() <= self.target_colors, pal_in_range(r), pal_not_fixed(r),
//@pre
self . boxes . extend ( bi . split ( & self . boxes ) ) ; => let vx_two = bi . split ( & self . boxes ) ; vx_extend2 ( & mut self . boxes , vx_two ) ;
//@loop 1
    invariant boxes_ok(vx_self.boxes@), 1 <= vx_self.boxes@.len() <= vx_self.target_colors, vx_self.target_colors == self.target_colors, self.target_colors <= MAX_COLORS, bags(vx_self.boxes@) == bags(self.boxes@),
    decreases vx_self.target_colors - vx_self.boxes@.len(),
//@before let vx_two
    let ghost (g_b, g_bag) = (vx_self.boxes@, boxbag(bi));
//@after vx_extend2 ( & mut vx_self . boxes , vx_two ) ;
    proof { bags_push(g_b, vx_two[0]); bags_push(g_b.push(vx_two[0]), vx_two[1]); assert(bags(vx_self.boxes@) =~= bags(g_b).add(g_bag)); }
//@end
}
//@fn src/mediancut.rs mediancut
    requires old(hist).items@.len() > 0, all_ok(old(hist).items@), clusters_ok(old(hist).clusters@, old(hist).items@.len() as int), 1 <= target_colors <= MAX_COLORS,
    ensures plain(r), r.is_ok() ==> pal_wf(r->Ok_0) && 1 <= (r->Ok_0).colors@.len() <= target_colors && pal_in_range(r->Ok_0) && pal_not_fixed(r->Ok_0),
//@end
spec fn used(c: Seq<Cluster>, n: int) -> int decreases n { if n <= 0 { 0 } else { used(c, n - 1) + (if c[n - 1].begin != c[n - 1].end { 1int } else { 0 }) } }
proof fn used_mono(c: Seq<Cluster>, a: int, b: int) requires 0 <= a <= b ensures 0 <= used(c, a) <= used(c, b) decreases b { if a < b { used_mono(c, a, b - 1); } else if a > 0 { used_mono(c, a - 1, a - 1); } }
proof fn cluster_end(c: Seq<Cluster>, i: int, n: int) requires clusters_ok(c, n), 0 <= i < 16 ensures c[i].end <= n decreases 16 - i { if i < 15 { cluster_end(c, i + 1, n); assert(c[i + 1].begin <= c[i + 1].end); assert(c[i].end == c[i + 1].begin); } }
}
fn main() {}
