verus! {
pub open spec fn err_ok(e: F) -> bool { 0real <= e.r() <= 48000000real }
pub open spec fn hist_ready(h: HistogramInternal) -> bool { h.items@.len() > 0 && clusters_ok(h.clusters@, h.items@.len() as int) && hist_good(h) && pal_bnd3(h.fixed_colors@) && bounds_sane() }
pub open spec fn minlen(a: int, b: int) -> int { if a < b { a } else { b } }
/// every entry that is not fixed is within the range of the colours that were added
pub open spec fn range_or_fixed(p: PalF, fixed: Seq<f_pixel>) -> bool { forall|k: int| #![trigger p.colors@[k]] #![trigger p.pops@[k]] fixed.len() <= k < p.colors@.len() ==> in_range(p.colors@[k]) && p.pops@[k].0.r() >= 0real }
/// a palette that may be the result
pub open spec fn pal_res(p: PalF, fixed: Seq<f_pixel>, max: int) -> bool { pal_wf(p) && 1 <= p.colors@.len() <= max && p.colors@.len() >= minlen(fixed.len() as int, max) && front(p, fixed, minlen(fixed.len() as int, p.colors@.len() as int)) && pal_bnd3(p.colors@) }
pub open spec fn item_cols(s: Seq<HistItem>) -> Seq<f_pixel> { Seq::new(s.len(), |i: int| s[i].color) }
}
