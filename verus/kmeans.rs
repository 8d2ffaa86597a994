// unit: props=C03,C18,C16,C02
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include diff_assumed.rs
//@include default.rs
//@include bnd.rs
//@include palf.rs
//@include hitem.rs
//@include nearest_assumed.rs
//@include hint.rs
//@include kmspec.rs
verus! {
//@type src/kmeans.rs ColorAvg derive=Clone,Copy Argb<F>=>ARGBF
//@type src/kmeans.rs Kmeans
impl ColorAvg { pub fn default() -> (z: ColorAvg) ensures avg_zero(z) { ColorAvg { sum: ARGBF::default(), total: f_zero() } } }
pub open spec fn avg_zero(z: ColorAvg) -> bool { z.total.r() == 0real && z.sum.a.r() == 0real && z.sum.r.r() == 0real && z.sum.g.r() == 0real && z.sum.b.r() == 0real }
pub open spec fn within(t: real, s: real, c: int) -> bool { t * lo(c) <= s <= t * hi(c) }
/// the sum is of colours within the bounds, the total is of their weights
pub open spec fn avg_ok(z: ColorAvg) -> bool { z.total.r() >= 0real && within(z.total.r(), z.sum.a.r(), 0) && within(z.total.r(), z.sum.r.r(), 1) && within(z.total.r(), z.sum.g.r(), 2) && within(z.total.r(), z.sum.b.r(), 3) }
pub open spec fn km_ok(k: Kmeans) -> bool { k.averages@.len() <= MAX_COLORS && k.weighed_diff_sum.r() >= 0real && forall|i: int| 0 <= i < k.averages@.len() ==> avg_ok(#[trigger] k.averages@[i]) }
//@local
proof fn n_dist(t: real, u: real, l: real) by (nonlinear_arith) ensures (t + u) * l == t * l + u * l {}
proof fn n_mono(w: real, l: real, x: real) by (nonlinear_arith) requires w >= 0real, l <= x ensures w * l <= x * w {}
proof fn n_mono2(w: real, h: real, x: real) by (nonlinear_arith) requires w >= 0real, x <= h ensures x * w <= w * h {}
proof fn n_div(l: real, h: real, s: real, t: real) by (nonlinear_arith) requires l * t <= s <= h * t, t > 0real ensures l <= s / t <= h {}
pub open spec fn half(d: real) -> real { 5real / 10real + d }
proof fn n_divpos(a: real, b: real) by (nonlinear_arith) requires a >= 0real, b > 0real ensures a / b >= 0real {}
proof fn n_le(d: real, w: real, s: real) by (nonlinear_arith) requires d <= 48000000real, w > 0real ensures d * w <= 48000000real * w, 48000000real * (s + w) == 48000000real * s + 48000000real * w {}
proof fn n_divle(a: real, b: real) by (nonlinear_arith) requires a <= 48000000real * b, b > 0real ensures a / b <= 48000000real {}
proof fn n_pos(a: real, b: real) by (nonlinear_arith) requires a > 0real, b > 0real ensures a * b > 0real {}
proof fn n_comm(x: real, y: real) by (nonlinear_arith) ensures x * y == y * x {}
proof fn within_add(t: real, s: real, u: real, x: real, c: int) requires within(t, s, c), within(u, x, c) ensures within(t + u, s + x, c) { n_dist(t, u, lo(c)); n_dist(t, u, hi(c)); }
proof fn within_mul(w: real, x: real, c: int) requires w >= 0real, lo(c) <= x <= hi(c) ensures within(w, x * w, c) { n_mono(w, lo(c), x); n_mono2(w, hi(c), x); }
proof fn within_div(t: real, s: real, c: int) requires t > 0real, within(t, s, c) ensures lo(c) <= s / t <= hi(c) { n_comm(t, lo(c)); n_comm(t, hi(c)); n_div(lo(c), hi(c), s, t); }
proof fn avg_add(x: ColorAvg, y: ColorAvg, z: ColorAvg) requires avg_ok(x), avg_ok(y), z.total.r() == x.total.r() + y.total.r(), z.sum.a.r() == x.sum.a.r() + y.sum.a.r(), z.sum.r.r() == x.sum.r.r() + y.sum.r.r(), z.sum.g.r() == x.sum.g.r() + y.sum.g.r(), z.sum.b.r() == x.sum.b.r() + y.sum.b.r()
  ensures avg_ok(z) { within_add(x.total.r(), x.sum.a.r(), y.total.r(), y.sum.a.r(), 0); within_add(x.total.r(), x.sum.r.r(), y.total.r(), y.sum.r.r(), 1); within_add(x.total.r(), x.sum.g.r(), y.total.r(), y.sum.g.r(), 2); within_add(x.total.r(), x.sum.b.r(), y.total.r(), y.sum.b.r(), 3); }
//@shared
#[verifier::external_body] pub fn vx_try_reserve(n: usize) -> (r: Result<(), Error>) ensures plain(r) { unimplemented!() }
pub open spec fn item_kept(o: HistItem, n: HistItem) -> bool { n.color == o.color && n.perceptual_weight == o.perceptual_weight && n.mc_color_weight == o.mc_color_weight && 0real < n.adjusted_weight.r() <= 1000000000000000000000000real }
//@local
pub open spec fn quot(a: real, b: real) -> real { a / b }
/// ASSUMED of rayon and thread_local: iterate_batch is run once on every chunk, on an accumulator made by Kmeans::new for each thread,
/// and the accumulators are combined by try_merge (whose contracts are proved below; this is what they compose to)
#[verifier::external_body] fn vx_all_batches(items: &mut Vec<HistItem>, n: &Nearest, colors: &[f_pixel], adjust_weight: bool, len: usize) -> (r: Result<Option<Kmeans>, Error>)
    requires bounds_sane(), all_ok(old(items)@), weights_bounded(old(items)@), near_pal(*n) == colors@, colors@.len() == len, len <= MAX_COLORS, pal_bnd3(colors@),
    ensures final(items)@.len() == old(items)@.len(), all_ok(final(items)@), weights_bounded(final(items)@),
        forall|i: int| 0 <= i < old(items)@.len() ==> (#[trigger] final(items)@[i]).color == old(items)@[i].color && final(items)@[i].perceptual_weight == old(items)@[i].perceptual_weight,
        plain(r), r.is_ok() ==> (r->Ok_0).is_some() == (old(items)@.len() > 0),
        r.is_ok() && (r->Ok_0).is_some() ==> km_ok((r->Ok_0)->0) && ((r->Ok_0)->0).averages@.len() == len && ((r->Ok_0)->0).weighed_diff_sum.r() <= 48000000real * pwsum(old(items)@, old(items)@.len() as int) && (!adjust_weight ==> ((r->Ok_0)->0).weighed_diff_sum.r() == cost(old(items)@, colors@, old(items)@.len() as int)) { unimplemented!() }
//@shared
impl Kmeans {
//@fn src/kmeans.rs Kmeans::new
    requires pal_len <= MAX_COLORS,
    ensures plain(r), r.is_ok() ==> km_ok(r->Ok_0) && r->Ok_0.averages@.len() == pal_len,
//@pre
averages . try_reserve_exact ( pal_len ) ? => vx_try_reserve ( pal_len ) ?
//@end
//@fn src/kmeans.rs Kmeans::update_color
    requires km_ok(*old(self)), matched < old(self).averages@.len(), in_range(px), value.r() >= 0real,
    ensures km_ok(*final(self)), final(self).averages@.len() == old(self).averages@.len(), final(self).weighed_diff_sum == old(self).weighed_diff_sum,
//@pre
. map ( f64 :: from ) =>
//@entry
    proof {
        let (o, w) = (self.averages@[matched as int], value.r());
        within_mul(w, px.0.a.r(), 0); within_mul(w, px.0.r.r(), 1); within_mul(w, px.0.g.r(), 2); within_mul(w, px.0.b.r(), 3);
        within_add(o.total.r(), o.sum.a.r(), w, px.0.a.r() * w, 0); within_add(o.total.r(), o.sum.r.r(), w, px.0.r.r() * w, 1); within_add(o.total.r(), o.sum.g.r(), w, px.0.g.r() * w, 2); within_add(o.total.r(), o.sum.b.r(), w, px.0.b.r() * w, 3);
    }
//@end
//@fn src/kmeans.rs Kmeans::finalize pixmap=ARGBF floats=total
    requires km_ok(self), pal_wf(*old(palette)),
    ensures pal_wf(*final(palette)), final(palette).colors@.len() == old(palette).colors@.len(), r == self.weighed_diff_sum,
        all_kept(*old(palette), *final(palette)),
//@pre
palette . iter_mut ( ) => palette . colors . iter_mut ( ) . zip ( palette . pops . iter_mut ( ) )
color . a => color . 0 . a
//@subst . into ( ) => . vx_into ( )
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 <= palette.colors@.len(), vx_n1 <= self.averages@.len(), km_ok(self), pal_wf(*palette), palette.colors@.len() == old(palette).colors@.len(),
        all_kept(*old(palette), *palette),
        forall|k: int| #![trigger palette.colors@[k]] #![trigger palette.pops@[k]] vx_i1 <= k < palette.colors@.len() ==> palette.colors@[k] == old(palette).colors@[k] && palette.pops@[k] == old(palette).pops@[k],
    decreases vx_n1 - vx_i1,
//@before let ( avg , ( color , pop ) ) = vx_m1_0 ;
    proof { let o = vx_m1_0.0; if o.total.r() > 0real { within_div(o.total.r(), o.sum.a.r(), 0); within_div(o.total.r(), o.sum.r.r(), 1); within_div(o.total.r(), o.sum.g.r(), 2); within_div(o.total.r(), o.sum.b.r(), 3); } }
//@end
//@fn src/kmeans.rs Kmeans::iterate_batch
    requires km_ok(*old(self)), bounds_sane(), all_ok(old(batch)@), near_pal(*n) == colors@, colors@.len() == old(self).averages@.len(), pal_bnd3(colors@), forall|i: int| 0 <= i < old(batch)@.len() ==> (#[trigger] old(batch)@[i]).adjusted_weight.r() <= 1000000000000000000000000real,
    ensures km_ok(*final(self)), final(self).averages@.len() == old(self).averages@.len(), all_ok(final(batch)@), final(batch)@.len() == old(batch)@.len(),
        forall|i: int| 0 <= i < old(batch)@.len() ==> #[trigger] item_kept(old(batch)@[i], final(batch)@[i]) && final(batch)@[i].tmp.likely_palette_index < colors@.len(),
        final(self).weighed_diff_sum.r() <= old(self).weighed_diff_sum.r() + 48000000real * pwsum(old(batch)@, old(batch)@.len() as int),
        !adjust_weight ==> final(self).weighed_diff_sum.r() == old(self).weighed_diff_sum.r() + cost(old(batch)@, colors@, old(batch)@.len() as int),
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost b0 = batch@;
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == b0.len(), batch@.len() == b0.len(), km_ok(*self), self.averages@.len() == colors@.len(), vx_acc1.r() >= 0real, self.weighed_diff_sum == old(self).weighed_diff_sum,
        forall|i: int| vx_i1 <= i < b0.len() ==> #[trigger] batch@[i] == b0[i],
        forall|i: int| 0 <= i < vx_i1 ==> item_kept(b0[i], #[trigger] batch@[i]) && batch@[i].tmp.likely_palette_index < colors@.len(),
        vx_acc1.r() <= 48000000real * pwsum(b0, vx_i1 as int),
        !adjust_weight ==> vx_acc1.r() == cost(b0, colors@, vx_i1 as int),
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { assert(item_ok(b0[vx_i1 as int])); assert(batch@[vx_i1 as int] == b0[vx_i1 as int]); }
//@before let ( matched ,
    proof { let w = item.adjusted_weight.r(); let pw = item.perceptual_weight.r(); assert forall|d: real| d >= 0real implies (2real * w + pw) * #[trigger] half(d) > 0real by { n_pos(2real * w + pw, half(d)); } }
//@after likely_palette_index ( ) ) ;
    proof { mind_is(px, colors@, diff.r(), matched as int); }
//@before diff = new_diff ;
    assert(half(new_diff.r()) > 0real);
//@before self . update_color ( px
    proof { n_le(diff.r(), item.perceptual_weight.r(), pwsum(b0, vx_i1 - 1)); }
//@after loop 1
    assert forall|i: int| 0 <= i < batch@.len() implies item_ok(#[trigger] batch@[i]) by { assert(item_ok(b0[i])); assert(item_kept(b0[i], batch@[i])); }
//@end
//@fn src/kmeans.rs Kmeans::merge zipmode=0
    requires km_ok(self), km_ok(new), self.averages@.len() == new.averages@.len(),
    ensures km_ok(r), r.averages@.len() == self.averages@.len(), r.weighed_diff_sum.r() == self.weighed_diff_sum.r() + new.weighed_diff_sum.r(),
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == vx_self.averages@.len(), vx_n1 == new.averages@.len(), km_ok(vx_self), km_ok(new), vx_self.averages@.len() == self.averages@.len(), vx_self.weighed_diff_sum.r() == self.weighed_diff_sum.r() + new.weighed_diff_sum.r(),
    decreases vx_n1 - vx_i1,
//@in loop 1
    let ghost (gx, gy) = (vx_self.averages@[vx_i1 as int], new.averages@[vx_i1 as int]);
    assert forall|z: ColorAvg| z.total.r() == gx.total.r() + gy.total.r() && z.sum.a.r() == gx.sum.a.r() + gy.sum.a.r() && z.sum.r.r() == gx.sum.r.r() + gy.sum.r.r() && z.sum.g.r() == gx.sum.g.r() + gy.sum.g.r() && z.sum.b.r() == gx.sum.b.r() + gy.sum.b.r() implies #[trigger] avg_ok(z) by { avg_add(gx, gy, z); }
//@end
//@fn src/kmeans.rs Kmeans::try_merge
    requires vx_old.is_ok() && new.is_ok() ==> km_ok(vx_old->Ok_0) && km_ok(new->Ok_0) && (vx_old->Ok_0).averages@.len() == (new->Ok_0).averages@.len(),
    ensures r.is_ok() == (vx_old.is_ok() && new.is_ok()), r.is_ok() ==> km_ok(r->Ok_0) && (r->Ok_0).averages@.len() == (vx_old->Ok_0).averages@.len() && (r->Ok_0).weighed_diff_sum.r() == (vx_old->Ok_0).weighed_diff_sum.r() + (new->Ok_0).weighed_diff_sum.r(),
//@pre
old : Result => vx_old : Result
match ( old , new ) => match ( vx_old , new )
//@end
//@fn src/kmeans.rs Kmeans::iteration
    requires pal_wf(*old(palette)), bounds_sane(), pal_bnd3(old(palette).colors@), hist_good(*old(hist)),
    ensures pal_wf(*final(palette)), final(palette).colors@.len() == old(palette).colors@.len(), all_kept(*old(palette), *final(palette)), hist_good(*final(hist)), hist_kept(*old(hist), *final(hist)), pal_bnd3(final(palette).colors@),
        plain(r), r.is_ok() ==> 0real <= (r->Ok_0).r() <= 48000000real && (!adjust_weight && old(hist).items@.len() > 0 ==> (r->Ok_0).r() == cost(old(hist).items@, old(palette).colors@, old(hist).items@.len() as int) / old(hist).total_perceptual_weight.r()),
//@pre
let tls = ThreadLocal :: new ( ) ; =>
hist . items . par_chunks_mut ( 256 ) . for_each ( { let tls = & tls ; move | batch | { let kmeans = tls . get_or ( move | | CacheLineAlign ( RefCell :: new ( Self :: new ( len ) ) ) ) ; if let Ok ( ref mut kmeans ) = * kmeans . 0 . borrow_mut ( ) { kmeans . iterate_batch ( batch , & n , colors , adjust_weight ) ; } } } ) ; => let tls = vx_all_batches ( & mut hist . items , & n , colors , adjust_weight , len ) ;
tls . into_iter ( ) . map ( | c | c . 0 . into_inner ( ) ) . reduce ( Self :: try_merge ) . transpose ( ) ? => tls ?
hist . items . is_empty ( ) => hist . items . len ( ) == 0
//@entry
    let ghost gi = hist.items@;
//@before let diff =
    proof { pwsum_pos(gi, gi.len() as int); pwsum_same(gi, hist.items@, gi.len() as int); if tls.is_ok() && (tls->Ok_0).is_some() { let y = ((tls->Ok_0)->0).weighed_diff_sum.r(); n_divpos(y, total.r()); n_divle(y, total.r()); } }
//@end
}
//@fn src/kmeans.rs replace_unused_colors
    requires pal_wf(*old(palette)), bounds_sane(), pal_bnd3(old(palette).colors@), all_ok(hist.items@),
    ensures pal_wf(*final(palette)), final(palette).colors@.len() == old(palette).colors@.len(),
        all_kept(*old(palette), *final(palette)), plain(r),
//@attrs
#[verifier::loop_isolation(false)]
//@subst let mut worst = None => let mut worst : Option<&HistItem> = None
//@entry
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == palette.colors@.len(), pal_wf(*palette), palette.colors@.len() == old(palette).colors@.len(), pal_bnd3(palette.colors@),
        all_kept(*old(palette), *palette),
    decreases vx_n1 - vx_i1,
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == hist.items@.len(), worst.is_some() ==> item_ok(*worst->0),
    decreases vx_n2 - vx_i2,
//@in loop 2
    assert(item_ok(hist.items@[vx_i2 as int]));
//@end
}
fn main() {}
