// unit: props=C04,C02,C03,C05,C09,C16,C18
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include diff_assumed.rs
//@include default.rs
//@include bnd.rs
//@include palf.rs
//@include hitem.rs
//@include hint.rs
//@include nearest_assumed.rs
//@include kmspec.rs
//@include attr.rs
//@include qspec.rs
verus! {
pub struct Kmeans { x: u8 }
impl Kmeans {
//@assume kmeans.rs src/kmeans.rs Kmeans::iteration
}
impl PalF {
//@assume fixed.rs src/pal.rs PalF::with_fixed_colors
}
/// what of an item mediancut leaves alone
pub open spec fn hist_perm(o: HistogramInternal, n: HistogramInternal) -> bool { n.items@.len() == o.items@.len() && n.clusters == o.clusters && n.total_perceptual_weight == o.total_perceptual_weight && n.fixed_colors == o.fixed_colors && hist_good(n) }
/// proved in unit mediancut, but for hist_perm, ASSUMED: it only reorders the items within their slice and uses their scratch fields
#[verifier::external_body] pub fn mediancut(hist: &mut HistogramInternal, target_colors: PalLen, target_mse: F, max_mse_per_color: F) -> (r: Result<PalF, Error>)
    requires old(hist).items@.len() > 0, all_ok(old(hist).items@), clusters_ok(old(hist).clusters@, old(hist).items@.len() as int), 1 <= target_colors <= MAX_COLORS, hist_good(*old(hist)),
    ensures plain(r), r.is_ok() ==> pal_wf(r->Ok_0) && 1 <= (r->Ok_0).colors@.len() <= target_colors && pal_in_range(r->Ok_0) && pal_not_fixed(r->Ok_0), hist_perm(*old(hist), *final(hist)) { unimplemented!() }

proof fn n_sq(q: real) by (nonlinear_arith) requires 0real <= q <= 1real ensures -1real <= q * (-q) <= 0real {}
proof fn frac(a: real, b: real) by (nonlinear_arith) requires 0real <= a <= b, b > 0real ensures 0real <= a / b <= 1real {}
proof fn frac_mul(q: real, t: real) by (nonlinear_arith) requires 0real <= q <= 1real, t >= 0real ensures 0real <= q * t <= t {}
//@fn src/quant.rs palette_from_histogram
    requires hist.items@.len() <= max_colors, max_colors <= MAX_COLORS, hist_ready(*hist),
    ensures pal_res(r.0, hist.fixed_colors@, max_colors as int), kept_all(hist.fixed_colors@, item_cols(hist.items@)) && px_distinct(hist.fixed_colors@) ==> r.0.colors@.len() == hist.items@.len() && kept_all(item_cols(hist.items@), r.0.colors@), r.1.is_some() && (r.1->0).r() == 0real, range_or_fixed(r.0, hist.fixed_colors@),
        hist.fixed_colors@.len() == 0 ==> r.0.colors@.len() == hist.items@.len() && forall|i: int| 0 <= i < hist.items@.len() ==> #[trigger] r.0.colors@[i] == hist.items@[i].color && r.0.pops@[i].0 == hist.items@[i].perceptual_weight,
//@attrs
#[verifier::loop_isolation(false)]
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == hist.items@.len(), pal_wf(hist_pal), hist_pal.colors@.len() == vx_i1, pal_bnd3(hist_pal.colors@),
        forall|i: int| 0 <= i < vx_i1 ==> #[trigger] hist_pal.colors@[i] == hist.items@[i].color && hist_pal.pops@[i].0 == hist.items@[i].perceptual_weight,
    decreases vx_n1 - vx_i1,
//@in loop 1
    proof { assert(item_ok(hist.items@[vx_i1 as int])); }
//@after loop 1
    assert(hist_pal.colors@ =~= item_cols(hist.items@));
    assert forall|i: int| 0 <= i < hist_pal.colors@.len() implies in_range(#[trigger] hist_pal.colors@[i]) by { assert(item_ok(hist.items@[i])); }
    assert forall|i: int| 0 <= i < hist_pal.pops@.len() implies (#[trigger] hist_pal.pops@[i]).0.r() >= 0real by { assert(item_ok(hist.items@[i])); assert(hist_pal.colors@[i] == hist.items@[i].color); }
//@end
//@fn src/quant.rs refine_palette
    requires attr_ok(*attr), pal_res(*old(palette), old(hist).fixed_colors@, attr.max_colors as int), hist_ready(*old(hist)), old(palette_error).is_some() ==> err_ok(old(palette_error)->0),
    ensures pal_res(*final(palette), old(hist).fixed_colors@, attr.max_colors as int), final(palette).colors@.len() == old(palette).colors@.len(), final(palette_error).is_some() ==> err_ok(final(palette_error)->0),
        r.is_ok() && old(palette_error).is_some() ==> final(palette_error).is_some(), r.is_ok() && attr.max_mse.is_some() ==> final(palette_error).is_some(), all_kept(*old(palette), *final(palette)),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), !too_low(r), extends(old(log).calls, final(log).calls),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.progress => Tracked(log)
//@loop 1
    invariant attr_ok(*attr), 0 < iterations <= 31, i <= 64, pal_res(*palette, old(hist).fixed_colors@, attr.max_colors as int), all_kept(*old(palette), *palette), palette.colors@.len() == old(palette).colors@.len(), hist_ready(*hist), hist.fixed_colors == old(hist).fixed_colors, hist.clusters == old(hist).clusters,
        palette_error.is_some() ==> err_ok(palette_error->0), extends(old(log).calls, log.calls), !stopped(old(log).calls, log.calls),
        old(palette_error).is_some() || i > 0 ==> palette_error.is_some(),
    ensures palette_error.is_some(),
    decreases (if iterations >= i { iterations - i + 1 } else { 0 }),
//@before return Err ( Aborted ) ;
    proof { assert(log.calls[g.len() as int].1); }
//@in loop 1
    let ghost g = log.calls;
    proof { frac(i as real, iterations as real); let q = i as real / iterations as real; let t = attr.progress_stage3 as real; frac_mul(q, t); }
//@end
/// discharged over the whole domain of 256 values by execution (liqx C05), and by Kani for the special values
#[verifier::external_body] pub fn quality_to_mse(quality: u8) -> (z: F) ensures z.r() >= 0real, z.r() <= 100000000000000000000real { unimplemented!() }
//@fn src/quant.rs find_best_palette
    requires attr_ok(*attr), hist_ready(hist), target_mse.r() >= 0real,
    ensures r.is_ok() ==> pal_res((r->Ok_0).0, hist.fixed_colors@, attr.max_colors as int) && ((r->Ok_0).1.is_some() ==> err_ok((r->Ok_0).1->0)) && (attr.max_mse.is_some() ==> (r->Ok_0).1.is_some()),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), !too_low(r), extends(old(log).calls, final(log).calls),
        r.is_ok() ==> range_or_fixed((r->Ok_0).0, hist.fixed_colors@),
        hist.items@.len() <= attr.max_colors && target_mse_is_zero ==> r.is_ok() && (r->Ok_0).1.is_some() && ((r->Ok_0).1->0).r() == 0real
            && (kept_all(hist.fixed_colors@, item_cols(hist.items@)) && px_distinct(hist.fixed_colors@) ==> kept_all(item_cols(hist.items@), (r->Ok_0).0.colors@)),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.progress => Tracked(log)
refine_palette => Tracked(log)
//@subst let mut vx_brk1 = None => let mut vx_brk1 : Option<Option<PalF>> = None
//@subst let mut fails_in_a_row = 0 => let mut fails_in_a_row : i16 = 0
//@subst let mut best_palette = None => let mut best_palette : Option<PalF> = None
//@subst let mut palette_error = None => let mut palette_error : Option<F> = None
//@attrs
#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
//@loop 1
    invariant attr_ok(*attr), hist_ready(hist), hist.fixed_colors == h0.fixed_colors, 0 <= total_trials <= 47, trials_left <= total_trials, trials_left > 0 || (trials_left == total_trials && total_trials == 0), 0 <= fails_in_a_row, fails_in_a_row + trials_left <= total_trials,
        1 <= max_colors <= attr.max_colors, best_palette.is_some() ==> pal_res(best_palette->0, h0.fixed_colors@, attr.max_colors as int) && range_or_fixed(best_palette->0, h0.fixed_colors@) && palette_error.is_some(), palette_error.is_some() ==> err_ok(palette_error->0),
        extends(old(log).calls, log.calls), !stopped(old(log).calls, log.calls),
    ensures vx_brk1.is_some(), vx_brk1->0.is_some() ==> pal_res((vx_brk1->0)->0, h0.fixed_colors@, attr.max_colors as int) && range_or_fixed((vx_brk1->0)->0, h0.fixed_colors@),
    decreases trials_left,
//@entry
    let ghost h0 = hist;
//@before return Err ( Aborted ) ;
    proof { assert(log.calls[g.len() as int].1); }
//@in loop 1
    let ghost g = log.calls;
    proof { let t = if trials_left > 0 { trials_left as real } else { 0real }; let u = (total_trials + 1) as real; frac(t, u); let q = t / u; n_sq(q); frac_mul(1real + q * (-q), attr.progress_stage2 as real); }
//@end
}
fn main() {}
