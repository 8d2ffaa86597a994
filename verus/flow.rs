// unit: props=C02,C03,C04,C05,C09,C14,C16,C18
//@import hist.rs
//@import result.rs
//@import image.rs
verus! {
#[verifier::external_body] pub fn vx_map_deref<'a>(m: &'a Option<Vec<u8>>) -> (r: Option<&'a [u8]>) ensures r.is_some() == m.is_some(), r.is_some() ==> (r->0)@ == (m->0)@, mview(r) == (if m.is_some() { Some((m->0)@) } else { None::<Seq<u8>> }) { unimplemented!() }
impl Attributes {
//@fn src/attr.rs Attributes::posterize_bits pub
    requires attr_ok(*self),
    ensures r <= 4, r == (if self.min_posterization_output >= self.min_posterization_input { self.min_posterization_output } else { self.min_posterization_input }),
//@end
}
/// the fixed colours of an image, added one by one: those that are there already stay as they are
pub open spec fn fixed_after(f: Map<u32, HashColor>, c: Seq<RGBA>, n: int) -> Map<u32, HashColor> decreases n { if n <= 0 { f } else { let p = fixed_after(f, c, n - 1); fixed_add(p, HashColor { rgba: c[n - 1], index: p.len() as PalIndex }) } }
/// fixed colours are numbered in the order they were added
pub open spec fn numbered(f: Map<u32, HashColor>) -> bool { (forall|k: u32| #[trigger] f.dom().contains(k) ==> f[k].index < f.len()) && forall|j: u32, k: u32| #[trigger] f.dom().contains(j) && #[trigger] f.dom().contains(k) && j != k ==> f[j].index != f[k].index }
proof fn fixed_add_ok(f: Map<u32, HashColor>, c: HashColor) requires fixed_ok(f), numbered(f), f.len() <= 256, c.index == f.len() as PalIndex ensures fixed_ok(fixed_add(f, c)), fixed_add(f, c).len() <= f.len() + 1, f.len() < 256 || f.dom().contains(key_of(c.rgba, 0xFFFF_FFFFu32)) ==> numbered(fixed_add(f, c)) { and_all(); }
proof fn add_rows_same(h: HMap, m: u32, a: DynamicRows, b: DynamicRows, imp: Option<Seq<u8>>, n: int) requires a.pixels == b.pixels, a.width == b.width ensures add_rows(h, m, a, imp, n) == add_rows(h, m, b, imp, n) decreases n { if n > 0 { add_rows_same(h, m, a, b, imp, n - 1); assert(a.row(n - 1) == b.row(n - 1)); } }
/// a histogram between calls
pub open spec fn hist_inv(h: Histogram) -> bool { hist_ok(h) && fixed_ok(h.fixed_colors@) && numbered(h.fixed_colors@) && h.fixed_colors@.len() <= 256 && (h.gamma.is_some() ==> (h.gamma->0).r() > 0real) }
pub open spec fn eff_gamma(h: Histogram, g: real) -> bool { if h.gamma.is_some() { g == (h.gamma->0).r() } else { g == 45455real / 100000real } }
#[verifier::external_body] pub fn vx_new_map() -> (r: VxMap<u32, (u32, RGBA)>) ensures r@ == Map::<u32, (u32, RGBA)>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_new_set() -> (r: FixedSet) ensures r@ == Map::<u32, HashColor>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_oom<T>(r: Result<T, Error>) -> (z: Result<T, Error>) ensures r.is_ok() ==> z == r, r.is_err() ==> z.is_err() && z->Err_0 == Error::OutOfMemory { unimplemented!() }
proof fn put_some(h: HMap, s: Seq<HashColor>, n: int) requires n >= 0, h.len() > 0 || n > 0 ensures put_fixed(h, s, n).len() > 0 decreases n { if n > 0 { let p = put_fixed(h, s, n - 1); if n > 1 || h.len() > 0 { put_some(h, s, n - 1); } } }
impl Histogram {
//@fn src/hist.rs Histogram::new pub
    requires attr_ok(*attr),
    ensures hist_inv(r), r.hashmap@ == Map::<u32, (u32, RGBA)>::empty(), r.fixed_colors@ == Map::<u32, HashColor>::empty(), r.gamma.is_none(),
//@pre
HashSet :: with_hasher ( U32Hasher ( 0 ) ) => vx_new_set ( )
HashMap :: with_hasher ( U32Hasher ( 0 ) ) => vx_new_map ( )
//@end
//@fn src/hist.rs Histogram::add_image pub
    requires attr_ok(*attr), img_ok(*old(image)), hist_inv(*old(self)),
    ensures hist_inv(*final(self)), img_ok(*final(image)), same_px(old(image).px, final(image).px), final(image).fixed_colors == old(image).fixed_colors, final(image).background == old(image).background, final(image).dither_map == old(image).dither_map, r.is_ok() ==> has_source(old(image).px.pixels),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls), !too_low(r),
        r.is_ok() ==> final(self).gamma == Some(old(image).px.gm()) && final(self).fixed_colors@ == fixed_after(old(self).fixed_colors@, old(image).fixed_colors@, old(image).fixed_colors@.len() as int),
        r.is_ok() ==> counted(*old(self), *final(self), old(image).px, map_of(*final(image)), attr_bits(*attr)),
        old(image).importance_map.is_some() ==> final(image).importance_map == old(image).importance_map,
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.progress => Tracked(log)
//@pre
image . importance_map . as_deref ( ) => vx_map_deref ( & image . importance_map )
idx as _ => idx as PalIndex
len ( ) as _ => len ( ) as PalIndex
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (s0, i0) = (*self, *image);
    proof { n_img(image.px.w() as int, image.px.h() as int); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == i0.fixed_colors@.len(), image.fixed_colors == i0.fixed_colors, fixed_ok(self.fixed_colors@), numbered(self.fixed_colors@), self.fixed_colors@.len() <= 256, self.fixed_colors@ == fixed_after(s0.fixed_colors@, i0.fixed_colors@, vx_i1 as int),
        self.hashmap == s0.hashmap, self.posterize_bits == s0.posterize_bits, self.max_histogram_entries == s0.max_histogram_entries, self.gamma == Some(i0.px.gm()),
    decreases vx_n1 - vx_i1
//@before self . add_pixel_rows
    proof { add_rows_same(self.hashmap@, mask(self.posterize_bits), i0.px, image.px, map_of(*image), image.px.height as int); assert(image.px.pixels == i0.px.pixels); }
//@in loop 1
    proof { and_all(); fixed_add_ok(self.fixed_colors@, HashColor { rgba: i0.fixed_colors@[vx_i1 as int], index: self.fixed_colors@.len() as PalIndex }); }
//@end
//@fn src/hist.rs Histogram::add_fixed_color pub
    requires hist_inv(*old(self)),
    ensures hist_inv(*final(self)), r.is_ok() == (old(self).fixed_colors@.len() < 256 && gamma_ok(gamma)), r.is_err() ==> *final(self) == *old(self) && r->Err_0 == (if old(self).fixed_colors@.len() >= 256 { Error::Unsupported } else { Error::ValueOutOfRange }),
        r.is_ok() ==> final(self).fixed_colors@ == fixed_add(old(self).fixed_colors@, HashColor { rgba, index: old(self).fixed_colors@.len() as PalIndex }) && final(self).gamma == gamma_after(old(self).gamma, gamma) && final(self).hashmap == old(self).hashmap && final(self).posterize_bits == old(self).posterize_bits && final(self).max_histogram_entries == old(self).max_histogram_entries,
//@pre
idx as _ => idx as PalIndex
//@entry
    proof { fixed_add_ok(self.fixed_colors@, HashColor { rgba, index: self.fixed_colors@.len() as PalIndex }); }
//@end
//@fn src/hist.rs Histogram::quantize_internal pub
    requires attr_ok(*attr), hist_inv(*old(self)), old(self).hashmap@.len() + old(self).fixed_colors@.len() <= u32::MAX, bounds_sane(), forall|g: real| #[trigger] eff_gamma(*old(self), g) ==> cols_ok(old(self).hashmap@, old(self).fixed_colors@, g),
    ensures stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls),
        old(self).hashmap@.len() == 0 && old(self).fixed_colors@.len() == 0 ==> r.is_err() && r->Err_0 == Error::Unsupported && final(log).calls == old(log).calls,
        r.is_ok() ==> quantized(*old(self), *attr, r->Ok_0, freeze_result_colors),
        too_low(r) ==> attr.max_mse.is_some() && (attr.max_mse->0).r() < qmse(0),
        few(*final(self), *attr) && !is_aborted(r) && !(old(self).hashmap@.len() == 0 && old(self).fixed_colors@.len() == 0) ==> (r.is_err() ==> r->Err_0 == Error::OutOfMemory) && (r.is_ok() ==> exact(final(self).hashmap@, r->Ok_0)),
        r.is_ok() ==> exists|s: Seq<HashColor>| #[trigger] elems_of(s, old(self).fixed_colors@) && final(self).hashmap@ == put_fixed(old(self).hashmap@, s, s.len() as int),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.progress => Tracked(log)
QuantizationResult :: new => Tracked(log)
//@pre
self . finalize_builder ( gamma ) . map_err ( | _ | OutOfMemory ) ? => vx_oom ( self . finalize_builder ( gamma ) ) ?
attr . verbose_print ( format ! ( "  made histogram...{} colors found" , hist . items . len ( ) ) ) ; =>
//@entry
    let ghost (h0, f0) = (self.hashmap@, self.fixed_colors@); let ghost mut hg: HistogramInternal = arbitrary();
//@before let hist = 
    proof { assert(eff_gamma(*old(self), gamma.r())); }
//@before QuantizationResult :: new
    proof {
      let s = choose|s: Seq<HashColor>| #[trigger] elems_of(s, f0) && self.hashmap@ == put_fixed(h0, s, s.len() as int);
      let p = choose|p: Seq<(u32, HashColor)>| #[trigger] pairs_of(p, f0) && p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p[i].1;
      put_some(h0, s, s.len() as int);
      fixed_bnd(hist.fixed_colors@, f0, h0, gamma.r());
      hg = hist;
      if few(*self, *attr) { assert(eff_gamma(*self, gamma.r())); is_inj(gamma.r()); few_ok(hist, *attr, h0, f0, s, self.hashmap@, gamma.r()); }
    }
//@end
//@fn src/hist.rs Histogram::quantize pub
    requires attr_ok(*attr), hist_inv(*old(self)), old(self).hashmap@.len() + old(self).fixed_colors@.len() <= u32::MAX, bounds_sane(), forall|g: real| #[trigger] eff_gamma(*old(self), g) ==> cols_ok(old(self).hashmap@, old(self).fixed_colors@, g),
    ensures stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls),
        old(self).hashmap@.len() == 0 && old(self).fixed_colors@.len() == 0 ==> r.is_err() && r->Err_0 == Error::Unsupported && final(log).calls == old(log).calls,
        r.is_ok() ==> quantized(*old(self), *attr, r->Ok_0, true),
        too_low(r) ==> attr.max_mse.is_some() && (attr.max_mse->0).r() < qmse(0),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.quantize_internal => Tracked(log)
//@end
}
/// no two colours that differ are converted to the same
pub open spec fn conv_inj(g: real) -> bool { forall|c: RGBA, d: RGBA| px_eq(#[trigger] conv(g, c), #[trigger] conv(g, d)) ==> key_of(c, 0xFFFF_FFFFu32) == key_of(d, 0xFFFF_FFFFu32) }
pub open spec fn few(h: Histogram, a: Attributes) -> bool { h.hashmap@.len() <= a.max_colors && a.target_mse.r() == 0real }
proof fn is_inj(g: real) requires g > 0real ensures conv_inj(g) {
  assert forall|c: RGBA, d: RGBA| px_eq(#[trigger] conv(g, c), #[trigger] conv(g, d)) implies key_of(c, 0xFFFF_FFFFu32) == key_of(d, 0xFFFF_FFFFu32) by { broadcast use axiom_f_ext; round_trip(g, c); round_trip(g, d); assert(conv(g, c) == conv(g, d)); }
}
/// C04: every colour is in the palette, and the error is 0
pub open spec fn exact(h: HMap, q: QuantizationResult) -> bool { q.palette_error.is_some() && (q.palette_error->0).r() == 0real && all_present(h, q.palette.colors@, q.gamma.r()) }
pub open spec fn all_present(h: HMap, p: Seq<f_pixel>, g: real) -> bool { forall|k: u32| #[trigger] h.dom().contains(k) ==> px_in(p, conv(g, h[k].1)) }
proof fn put_at(h: HMap, s: Seq<HashColor>, n: int, i: int) requires 0 <= i < n <= s.len(), forall|a: int, b: int| 0 <= a < b < s.len() ==> key_of(#[trigger] s[a].rgba, 0xFFFF_FFFFu32) != key_of(#[trigger] s[b].rgba, 0xFFFF_FFFFu32)
  ensures ({ let m = put_fixed(h, s, n); let k = key_of(s[i].rgba, 0xFFFF_FFFFu32); m.dom().contains(k) && m[k] == (0u32, s[i].rgba) }) decreases n { if i < n - 1 { put_at(h, s, n - 1, i); } }
proof fn elems_keys(s: Seq<HashColor>, f: Map<u32, HashColor>) requires elems_of(s, f), fixed_ok(f) ensures forall|a: int, b: int| 0 <= a < b < s.len() ==> key_of(#[trigger] s[a].rgba, 0xFFFF_FFFFu32) != key_of(#[trigger] s[b].rgba, 0xFFFF_FFFFu32),
  forall|a: int| 0 <= a < s.len() ==> f.dom().contains(key_of(#[trigger] s[a].rgba, 0xFFFF_FFFFu32)) && f[key_of(s[a].rgba, 0xFFFF_FFFFu32)] == s[a]
{
  let p = choose|p: Seq<(u32, HashColor)>| #[trigger] pairs_of(p, f) && p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p[i].1;
  assert forall|a: int| 0 <= a < s.len() implies key_of(#[trigger] s[a].rgba, 0xFFFF_FFFFu32) == p[a].0 && f.dom().contains(p[a].0) && f[p[a].0] == s[a] by { assert(f.dom().contains(p[a].0)); assert(s[a] == p[a].1); }
}
/// the item of an entry
proof fn item_at(h: HMap, items: Seq<HistItem>, tw: real, g: real, k: u32) requires all_items(h, items, tw, g), h.dom().contains(k) ensures px_in(item_cols(items), conv(g, h[k].1)) {
  let (v, pos) = choose|v: Vals, pos: Seq<int>| #[trigger] items_are(h, items, tw, g, v, pos);
  let p = choose|p: Seq<(u32, (u32, RGBA))>| #[trigger] pairs_of(p, h) && p.len() == v.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] v[i] == p[i].1;
  let t = pair_at(p, h, k); assert(v[t] == p[t].1); assert(0 <= pos[t] < items.len()); assert(px_eq(item_cols(items)[pos[t]], conv(g, h[k].1)));
}
proof fn few_ok(hist: HistogramInternal, attr: Attributes, h0: HMap, f0: Map<u32, HashColor>, s: Seq<HashColor>, h1: HMap, g: real)
  requires conv_inj(g), fixed_ok(f0), elems_of(s, f0), h1 == put_fixed(h0, s, s.len() as int), h1.len() <= attr.max_colors, attr.target_mse.r() == 0real, fixed_list(hist.fixed_colors@, f0, g), all_items(h1, hist.items@, hist.total_perceptual_weight.r(), g)
  ensures few_colors(attr, hist), forall|p: Seq<f_pixel>| kept_all(item_cols(hist.items@), p) ==> #[trigger] all_present(h1, p, g)
{
  let r = hist.fixed_colors@;
  let (t, e, perm, inv) = choose|t: Seq<HashColor>, e: Seq<HashColor>, perm: Seq<int>, inv: Seq<int>| #[trigger] elems_of(e, f0) && #[trigger] sorted_ix(e, t, perm, inv) && r.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] r[i] == conv(g, t[i].rgba);
  elems_keys(s, f0); elems_keys(e, f0);
  assert forall|i: int, j: int| 0 <= i < j < r.len() implies !px_eq(#[trigger] r[i], #[trigger] r[j]) by {
    assert(r[i] == conv(g, t[i].rgba) && r[j] == conv(g, t[j].rgba)); assert(t[i] == e[perm[i]] && t[j] == e[perm[j]]);
    inj_of(t.len() as int, perm, inv, i, j);
    if perm[i] < perm[j] { assert(key_of(e[perm[i]].rgba, 0xFFFF_FFFFu32) != key_of(e[perm[j]].rgba, 0xFFFF_FFFFu32)); } else { assert(key_of(e[perm[j]].rgba, 0xFFFF_FFFFu32) != key_of(e[perm[i]].rgba, 0xFFFF_FFFFu32)); }
  }
  assert forall|i: int| 0 <= i < r.len() implies px_in(item_cols(hist.items@), #[trigger] r[i]) by {
    assert(r[i] == conv(g, t[i].rgba)); assert(t[i] == e[perm[i]]);
    let k = key_of(e[perm[i]].rgba, 0xFFFF_FFFFu32); assert(f0.dom().contains(k) && f0[k] == e[perm[i]]);
    let p = choose|p: Seq<(u32, HashColor)>| #[trigger] pairs_of(p, f0) && p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p[i].1;
    let a = pair_at(p, f0, k); assert(s[a] == p[a].1); assert(s[a] == e[perm[i]]);
    put_at(h0, s, s.len() as int, a); item_at(h1, hist.items@, hist.total_perceptual_weight.r(), g, k);
  }
  assert forall|p: Seq<f_pixel>| kept_all(item_cols(hist.items@), p) implies #[trigger] all_present(h1, p, g) by {
    assert forall|k: u32| #[trigger] h1.dom().contains(k) implies px_in(p, conv(g, h1[k].1)) by {
      let c = item_cols(hist.items@); item_at(h1, hist.items@, hist.total_perceptual_weight.r(), g, k);
      let j = choose|j: int| 0 <= j < c.len() && px_eq(#[trigger] c[j], conv(g, h1[k].1)); assert(px_in(p, c[j])); let x = choose|x: int| 0 <= x < p.len() && px_eq(#[trigger] p[x], c[j]); assert(px_eq(p[x], conv(g, h1[k].1)));
    }
  }
}
proof fn inj_of(n: int, perm: Seq<int>, inv: Seq<int>, i: int, j: int) requires perm.len() == n, inv.len() == n, 0 <= i < j < n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] perm[k] < n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] inv[k] < n && perm[inv[k]] == k ensures perm[i] != perm[j] {
  // a map of n places onto n places takes no place twice
  if perm[i] == perm[j] { onto_inj(n, perm, inv, i, j); }
}
proof fn onto_inj(n: int, perm: Seq<int>, inv: Seq<int>, i: int, j: int) requires perm.len() == n, inv.len() == n, 0 <= i < j < n, perm[i] == perm[j], forall|k: int| 0 <= k < n ==> 0 <= #[trigger] perm[k] < n, forall|k: int| 0 <= k < n ==> 0 <= #[trigger] inv[k] < n && perm[inv[k]] == k ensures false {
  // the values of perm without place j still take all n values
  let q = perm.remove(j);
  assert forall|k: int| 0 <= k < n implies q.to_set().contains(k) by { let x = inv[k]; assert(perm[x] == k); if x < j { assert(q[x] == k); } else if x > j { assert(q[x - 1] == k); } else { assert(q[i] == k); } }
  let all = vstd::set_lib::set_int_range(0, n); vstd::set_lib::lemma_int_range(0, n);
  assert(all.subset_of(q.to_set()));
  q.lemma_cardinality_of_set(); vstd::set_lib::lemma_len_subset(all, q.to_set());
}
pub open spec fn attr_bits(a: Attributes) -> u8 { if a.min_posterization_output >= a.min_posterization_input { a.min_posterization_output } else { a.min_posterization_input } }
proof fn n_img(w: int, h: int) by (nonlinear_arith) requires w >= 1, h >= 1, w * h * 16 <= isize::MAX ensures 1 <= w * h <= usize::MAX / 16, h * w == w * h {}
proof fn fixed_bnd(r: Seq<f_pixel>, f: Map<u32, HashColor>, h: HMap, g: real) requires fixed_list(r, f, g), cols_ok(h, f, g), bounds_sane() ensures pal_bnd3(r) {
  let (s, e, perm, inv) = choose|s: Seq<HashColor>, e: Seq<HashColor>, perm: Seq<int>, inv: Seq<int>| #[trigger] elems_of(e, f) && #[trigger] sorted_ix(e, s, perm, inv) && r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == conv(g, s[i].rgba);
  let p = choose|p: Seq<(u32, HashColor)>| #[trigger] pairs_of(p, f) && p.len() == e.len() && forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == p[i].1;
  assert forall|i: int| 0 <= i < r.len() implies bnd3(#[trigger] r[i]) by { assert(s[i] == e[perm[i]]); assert(e[perm[i]] == p[perm[i]].1); assert(f.dom().contains(p[perm[i]].0)); assert(in_range(conv(g, s[i].rgba))); }
}
/// what a successful quantization is: C02, C03, C05, C12, C15, C18
pub open spec fn quantized(h: Histogram, attr: Attributes, q: QuantizationResult, frozen_: bool) -> bool {
  &&& res_ok(q) && q.palette.colors@.len() <= attr.max_colors && eff_gamma(h, q.gamma.r()) && fresh(q, attr, q.gamma) && in_order(q.palette, attr.last_index_transparent)
  &&& exists|fl: Seq<f_pixel>| #[trigger] fixed_list(fl, h.fixed_colors@, q.gamma.r()) && fixed_in(fl, minlen(fl.len() as int, attr.max_colors as int), q.palette) && range_out(q.palette, fl)
  &&& frozen_ ==> frozen(q.palette)
  &&& attr.max_mse.is_some() ==> q.palette_error.is_some() && (q.palette_error->0).r() <= (attr.max_mse->0).r()
  &&& q.palette_error.is_some() ==> err_ok(q.palette_error->0)
}
pub open spec fn map_in(h: HMap, g: real) -> bool { forall|k: u32| #[trigger] h.dom().contains(k) ==> in_range(conv(g, h[k].1)) }
proof fn add_row_in(h: HMap, m: u32, row: Seq<RGBA>, imp: Option<Seq<u8>>, base: int, n: int, g: real) requires map_in(h, g), 0 <= n <= row.len(), forall|i: int| 0 <= i < row.len() ==> in_range(conv(g, #[trigger] row[i])) ensures map_in(add_row(h, m, row, imp, base, n), g), add_row(h, m, row, imp, base, n).len() <= h.len() + n decreases n {
  if n > 0 { add_row_in(h, m, row, imp, base, n - 1, g); assert(in_range(conv(g, row[n - 1]))); }
}
proof fn add_rows_in(h: HMap, m: u32, px: DynamicRows, imp: Option<Seq<u8>>, n: int, g: real) requires map_in(h, g), 0 <= n <= px.h(), px_in_range(px, g) ensures map_in(add_rows(h, m, px, imp, n), g), add_rows(h, m, px, imp, n).len() <= h.len() + n * px.w() decreases n {
  if n > 0 { add_rows_in(h, m, px, imp, n - 1, g); assert(row_in_range(px, n - 1, g)); add_row_in(add_rows(h, m, px, imp, n - 1), m, px.row(n - 1), imp, (n - 1) * px.w(), px.w() as int, g); n_step(n, px.w() as int); }
}
proof fn n_step(n: int, w: int) by (nonlinear_arith) ensures n * w == (n - 1) * w + w {}
proof fn reduced_in(h: HMap, m: u32, h2: HMap, g: real) requires map_in(h, g), reduced(h, m, h2) ensures map_in(h2, g) {
  let p = choose|p: Seq<(u32, (u32, RGBA))>| #[trigger] pairs_of(p, h) && merged(p, m, p.len() as int, h2);
  assert forall|q: u32| #[trigger] h2.dom().contains(q) implies in_range(conv(g, h2[q].1)) by { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).0 & m == q && p[j].1.1 == h2[q].1; assert(h.dom().contains(p[j].0)); }
}
pub open spec fn row_in_range(px: DynamicRows, r: int, g: real) -> bool { px.row(r).len() == px.w() && forall|i: int| 0 <= i < px.row(r).len() ==> in_range(conv(g, #[trigger] px.row(r)[i])) }
/// the bounds are bounds of the image's colours
pub open spec fn px_in_range(px: DynamicRows, g: real) -> bool { forall|r: int| 0 <= r < px.h() ==> #[trigger] row_in_range(px, r, g) }
proof fn fixed_after_in(f: Map<u32, HashColor>, c: Seq<RGBA>, n: int, g: real) requires forall|k: u32| #[trigger] f.dom().contains(k) ==> in_range(conv(g, f[k].rgba)), 0 <= n <= c.len(), forall|i: int| 0 <= i < c.len() ==> in_range(conv(g, #[trigger] c[i]))
  ensures forall|k: u32| #[trigger] fixed_after(f, c, n).dom().contains(k) ==> in_range(conv(g, fixed_after(f, c, n)[k].rgba)) decreases n {
  if n > 0 { fixed_after_in(f, c, n - 1, g); assert(in_range(conv(g, c[n - 1]))); let f1 = fixed_after(f, c, n - 1); let f2 = fixed_after(f, c, n); assert forall|k: u32| #[trigger] f2.dom().contains(k) implies in_range(conv(g, f2[k].rgba)) by { if f1.dom().contains(k) { assert(f2[k] == f1[k]); } } }
}
/// precision is only reduced by merging: there are no more entries than before
proof fn reduced_len(h: HMap, m: u32, h2: HMap) requires reduced(h, m, h2) ensures h2.len() <= h.len() {
  let p = choose|p: Seq<(u32, (u32, RGBA))>| #[trigger] pairs_of(p, h) && merged(p, m, p.len() as int, h2);
  let ks = Seq::new(p.len(), |i: int| p[i].0 & m);
  assert forall|q: u32| #[trigger] h2.dom().contains(q) implies ks.to_set().contains(q) by { let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).0 & m == q && p[j].1.1 == h2[q].1; assert(ks[j] == q); }
  vstd::set_lib::lemma_len_subset(h2.dom(), ks.to_set());
  ks.lemma_cardinality_of_set();
}
/// C02, C03, C05, C09, C18 end to end, for one image
impl Attributes {
//@fn src/attr.rs Attributes::quantize pub
    requires attr_ok(*self), img_ok(*old(image)), old(image).px.w() * old(image).px.h() + 256 <= u32::MAX, bounds_sane(), px_in_range(old(image).px, old(image).px.gm().r()), forall|i: int| 0 <= i < old(image).fixed_colors@.len() ==> in_range(conv(old(image).px.gm().r(), #[trigger] old(image).fixed_colors@[i])),
    ensures stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls),
        r.is_ok() ==> exists|h: Histogram| #[trigger] quantized(h, *self, r->Ok_0, false) && h.gamma == Some(old(image).px.gm()) && h.fixed_colors@ == fixed_after(Map::<u32, HashColor>::empty(), old(image).fixed_colors@, old(image).fixed_colors@.len() as int),
        too_low(r) ==> self.max_mse.is_some() && (self.max_mse->0).r() < qmse(0),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.add_image => Tracked(log)
.quantize_internal => Tracked(log)
//@pre
Image < '_ > => Image
//@entry
    let ghost (i0, g, e) = (*image, image.px.gm().r(), Map::<u32, (u32, RGBA)>::empty());
//@before hist . add_image
    let ghost hs = hist;
//@before hist . quantize_internal
    proof {
      counted_in(hs, hist, i0.px, map_of(*image), attr_bits(*self), g); n_mul_com(i0.px.w() as int, i0.px.h() as int);
      fixed_after_in(Map::<u32, HashColor>::empty(), i0.fixed_colors@, i0.fixed_colors@.len() as int, g);
    }
//@end
}
proof fn n_mul_com(a: int, b: int) by (nonlinear_arith) ensures a * b == b * a {}
proof fn counted_in(a: Histogram, b: Histogram, px: DynamicRows, imp: Option<Seq<u8>>, bits: u8, g: real) requires counted(a, b, px, imp, bits), map_in(a.hashmap@, g), px_in_range(px, g) ensures map_in(b.hashmap@, g), b.hashmap@.len() <= a.hashmap@.len() + px.h() * px.w() {
  let h = add_rows(a.hashmap@, mask(a.posterize_bits), px, imp, px.h() as int);
  let b1 = if a.posterize_bits >= bits { a.posterize_bits } else { bits };
  add_rows_in(a.hashmap@, mask(a.posterize_bits), px, imp, px.h() as int, g);
  let h2 = choose|h2: HMap| #[trigger] to_bits(a.posterize_bits, bits, h, h2) && b.posterize_bits == (if h2.len() > a.max_histogram_entries && b1 < 3 { (b1 + 1) as u8 } else { b1 }) && maybe_reduced(h2.len() > a.max_histogram_entries && b1 < 3, h2, mask((b1 + 1) as u8), b.hashmap@);
  if a.posterize_bits < bits { reduced_in(h, mask(bits), h2, g); reduced_len(h, mask(bits), h2); }
  if h2.len() > a.max_histogram_entries && b1 < 3 { reduced_in(h2, mask((b1 + 1) as u8), b.hashmap@, g); reduced_len(h2, mask((b1 + 1) as u8), b.hashmap@); }
}
}
fn main() {}
