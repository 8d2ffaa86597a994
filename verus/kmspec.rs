verus! {
/// fixed entries are left alone, the others stay or become an average of colours
pub open spec fn kept_or_avg(o: PalF, n: PalF, k: int) -> bool {
    if o.pops@[k].0.r() < 0real { n.colors@[k] == o.colors@[k] && n.pops@[k] == o.pops@[k] }
    else { n.pops@[k].0.r() >= 0real && (n.colors@[k] == o.colors@[k] || in_range(n.colors@[k])) }
}
pub open spec fn all_kept(o: PalF, n: PalF) -> bool { forall|k: int| #![trigger n.colors@[k]] #![trigger n.pops@[k]] 0 <= k < o.colors@.len() ==> kept_or_avg(o, n, k) }
/// the bounds of the colours are those of real colours (each channel is within -300..300; they are 0..1 in practice)
pub open spec fn bounds_sane() -> bool { lo(0) >= -300real && hi(0) <= 300real && lo(1) >= -300real && hi(1) <= 300real && lo(2) >= -300real && hi(2) <= 300real && lo(3) >= -300real && hi(3) <= 300real }
pub open spec fn b3(x: real) -> bool { -300real <= x <= 300real }
pub open spec fn bnd3(p: f_pixel) -> bool { b3(p.0.a.r()) && b3(p.0.r.r()) && b3(p.0.g.r()) && b3(p.0.b.r()) }
pub open spec fn pal_bnd3(pal: Seq<f_pixel>) -> bool { forall|i: int| 0 <= i < pal.len() ==> bnd3(#[trigger] pal[i]) }
/// the distance to the nearest colour
pub open spec fn mind(p: f_pixel, pal: Seq<f_pixel>) -> real decreases pal.len() { if pal.len() <= 1 { dist(p, pal[0]) } else { let m = mind(p, pal.drop_last()); let d = dist(p, pal.last()); if d < m { d } else { m } } }
proof fn mind_le(p: f_pixel, pal: Seq<f_pixel>, j: int) requires 0 <= j < pal.len() ensures mind(p, pal) <= dist(p, pal[j]) decreases pal.len() { if pal.len() > 1 { if j < pal.len() - 1 { mind_le(p, pal.drop_last(), j); } } }
proof fn mind_is(p: f_pixel, pal: Seq<f_pixel>, d: real, k: int) requires 0 <= k < pal.len(), d == dist(p, pal[k]), forall|j: int| 0 <= j < pal.len() ==> d <= dist(p, #[trigger] pal[j]) ensures d == mind(p, pal) { mind_le(p, pal, k); mind_ge(p, pal, d); }
proof fn mind_ge(p: f_pixel, pal: Seq<f_pixel>, d: real) requires pal.len() > 0, forall|j: int| 0 <= j < pal.len() ==> d <= dist(p, #[trigger] pal[j]) ensures d <= mind(p, pal) decreases pal.len()
{ assert(d <= dist(p, pal[pal.len() - 1])); if pal.len() > 1 { let q = pal.drop_last(); assert forall|j: int| 0 <= j < q.len() implies d <= dist(p, #[trigger] q[j]) by { assert(q[j] == pal[j]); } mind_ge(p, q, d); } else { assert(d <= dist(p, pal[0])); } }
/// what the palette costs: the distance of each colour to the nearest one of the palette, weighed by its importance
pub open spec fn cost(items: Seq<HistItem>, pal: Seq<f_pixel>, n: int) -> real decreases n { if n <= 0 { 0real } else { cost(items, pal, n - 1) + mind(items[n - 1].color, pal) * items[n - 1].perceptual_weight.r() } }
pub open spec fn weights_bounded(s: Seq<HistItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).adjusted_weight.r() <= 1000000000000000000000000real }
pub open spec fn hist_good(h: HistogramInternal) -> bool { all_ok(h.items@) && weights_bounded(h.items@) && h.total_perceptual_weight.r() == pwsum(h.items@, h.items@.len() as int) }
pub open spec fn pwsum(s: Seq<HistItem>, n: int) -> real decreases n { if n <= 0 { 0real } else { pwsum(s, n - 1) + s[n - 1].perceptual_weight.r() } }
proof fn pwsum_pos(s: Seq<HistItem>, n: int) requires all_ok(s), 0 <= n <= s.len() ensures pwsum(s, n) >= 0real, n > 0 ==> pwsum(s, n) > 0real decreases n { if n > 0 { pwsum_pos(s, n - 1); assert(item_ok(s[n - 1])); } }
proof fn pwsum_same(a: Seq<HistItem>, b: Seq<HistItem>, n: int) requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> (#[trigger] b[i]).perceptual_weight == a[i].perceptual_weight ensures pwsum(a, n) == pwsum(b, n) decreases n { if n > 0 { pwsum_same(a, b, n - 1); assert(b[n - 1].perceptual_weight == a[n - 1].perceptual_weight); } }
pub open spec fn hist_kept(o: HistogramInternal, n: HistogramInternal) -> bool { n.items@.len() == o.items@.len() && n.total_perceptual_weight == o.total_perceptual_weight && n.fixed_colors == o.fixed_colors && n.clusters == o.clusters && forall|i: int| 0 <= i < n.items@.len() ==> (#[trigger] n.items@[i]).color == o.items@[i].color && n.items@[i].perceptual_weight == o.items@[i].perceptual_weight }
}
