// unit: props=C01,C04,C09,C10,C11,C16,C17
//@import image.rs
//@import kmeans.rs
//@include qres.rs
verus! {
pub open spec fn in01(x: real) -> bool { 0real <= x <= 1real }
/// colours as images and palettes have them: every channel is within 0..1
pub open spec fn px01(p: f_pixel) -> bool { in01(p.0.a.r()) && in01(p.0.r.r()) && in01(p.0.g.r()) && in01(p.0.b.r()) }
/// the bounds include full transparency
pub open spec fn zero_in() -> bool { forall|z: f_pixel| is_zero(z) ==> #[trigger] in_range(z) }
pub open spec fn all01(s: Seq<f_pixel>) -> bool { forall|i: int| 0 <= i < s.len() ==> px01(#[trigger] s[i]) }
pub open spec fn is_zero(p: f_pixel) -> bool { p.0.a.r() == 0real && p.0.r.r() == 0real && p.0.g.r() == 0real && p.0.b.r() == 0real }
//@local
proof fn m_divle(p: real, c: real, s: real) by (nonlinear_arith) requires s > 0real, p <= c / s ensures p * s <= c {}
proof fn m_divneg(p: real, c: real, s: real) by (nonlinear_arith) requires s < 0real, p <= c / s ensures p * s >= c {}
proof fn m_divpos(c: real, s: real) by (nonlinear_arith) requires s > 0real, c >= 0real ensures c / s >= 0real {}
proof fn m_divpos2(c: real, s: real) by (nonlinear_arith) requires s < 0real, c <= 0real ensures c / s >= 0real {}
proof fn m_shrink(p: real, s: real) by (nonlinear_arith) requires 0real <= p <= 1real ensures s >= 0real ==> 0real <= p * s <= s, s <= 0real ==> s <= p * s <= 0real {}
proof fn m_zero(x: real) by (nonlinear_arith) ensures 0real * x == 0real {}
proof fn m_comm(x: real, y: real) by (nonlinear_arith) ensures x * y == y * x {}
pub open spec fn lim(x: real, s: real) -> real { if x + s > 11real / 10real { (11real / 10real - x) / s } else if x + s < -(1real / 10real) { (-(1real / 10real) - x) / s } else { 1real } }
proof fn lim_pos(x: real, s: real) requires in01(x) ensures lim(x, s) >= 0real { if x + s > 11real / 10real { m_divpos(11real / 10real - x, s); } else if x + s < -(1real / 10real) { m_divpos2(-(1real / 10real) - x, s); } }
proof fn lim_ok(x: real, s: real, p: real) requires in01(x), 0real <= p <= 1real, p <= lim(x, s) ensures -(1real / 10real) <= s * p + x <= 11real / 10real {
  m_shrink(p, s); m_comm(p, s);
  if x + s > 11real / 10real { m_divle(p, 11real / 10real - x, s); } else if x + s < -(1real / 10real) { m_divneg(p, -(1real / 10real) - x, s); }
}
//@shared
//@fn src/remap.rs get_dithered_pixel
    requires px01(px),
    ensures is_zero(thiserr) ==> px_eq(r, px),
        -11real / 100real <= r.0.r.r() <= 12real / 10real, -11real / 100real <= r.0.g.r() <= 12real / 10real, -11real / 100real <= r.0.b.r() <= 12real / 10real, 0real <= r.0.a.r() <= 1real,
//@pre
px . r => px . 0 . r
px . g => px . 0 . g
px . b => px . 0 . b
px . a => px . 0 . a
//@after let s = thiserr . 0 * dither_level ;
    proof { m_zero(dither_level.r()); lim_pos(px.0.r.r(), s.r.r()); lim_pos(px.0.g.r(), s.g.r()); lim_pos(px.0.b.r(), s.b.r()); }
//@before if dither_error > max_dither_error
    assert(0real <= ratio.r() <= 1real && ratio.r() <= lim(px.0.r.r(), s.r.r()) && ratio.r() <= lim(px.0.g.r(), s.g.r()) && ratio.r() <= lim(px.0.b.r(), s.b.r()));
//@before f_pixel ( ARGBF {
    proof { let p = ratio.r(); lim_ok(px.0.r.r(), s.r.r(), p); lim_ok(px.0.g.r(), s.g.r(), p); lim_ok(px.0.b.r(), s.b.r(), p); m_zero(p); }
//@end
pub open spec fn written(s: Seq<MaybeUninit<PalIndexRemap>>, n: int, len: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] s[i])@.is_some() && s[i]@->0 < len }
#[verifier::external_body] pub fn vx_fill_default(s: &mut [f_pixel]) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < final(s)@.len() ==> is_zero(#[trigger] final(s)@[i]) { unimplemented!() }
pub open spec fn all_zero(s: Seq<f_pixel>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_zero(#[trigger] s[i]) }
pub open spec fn has_px(pal: Seq<f_pixel>, p: f_pixel) -> bool { exists|j: int| 0 <= j < pal.len() && px_eq(#[trigger] pal[j], p) }
/// every pixel can be reproduced exactly: it is like the background, or there is no background and it is a colour of the palette
pub open spec fn exact_row(row: Seq<f_pixel>, bg: Seq<f_pixel>, pal: Seq<f_pixel>) -> bool { forall|c: int| 0 <= c < row.len() ==> if c < bg.len() { px_eq(bg[c], #[trigger] row[c]) } else { has_px(pal, row[c]) } }
/// ... and it is
pub open spec fn exact_out(out: MaybeUninit<PalIndexRemap>, c: int, row: Seq<f_pixel>, bg: Seq<f_pixel>, pal: Seq<f_pixel>, ti: PalIndexRemap) -> bool { out@.is_some() && if c < bg.len() { out@->0 == ti } else { out@->0 < pal.len() && px_eq(pal[out@->0 as int], row[c]) } }
pub open spec fn doned(c: int, i: int, w: int, even: bool) -> bool { if even { 0 <= c < i } else { w - i <= c < w } }
//@local
proof fn sq_zero(x: real) by (nonlinear_arith) requires x * x <= 0real ensures x == 0real {}
proof fn dist_zero(p: f_pixel, q: f_pixel) requires dist(p, q) <= 0real ensures px_eq(p, q) {
  let da = q.0.a.r() - p.0.a.r();
  let (x, y, z) = (p.0.r.r() - q.0.r.r(), p.0.g.r() - q.0.g.r(), p.0.b.r() - q.0.b.r());
  sq_nonneg(x); sq_nonneg(y); sq_nonneg(z); sq_nonneg(x + da); sq_nonneg(y + da); sq_nonneg(z + da);
  sq_zero(x); sq_zero(y); sq_zero(z); sq_zero(x + da);
}
proof fn dist_same(p: f_pixel, q: f_pixel) requires px_eq(p, q) ensures dist(p, q) == 0real { m_zero(0real); }
//@shared
//@fn src/remap.rs dither_row
    requires width < 0xFFFF_FFF0, row_pixels@.len() == width, old(output_pixels_row)@.len() == width, all01(row_pixels@), old(diffusion)@.len() == 2 * (width + 2), near_pal(*n) == palette@, palette@.len() > 0, palette@.len() <= 256, transparent_index < palette@.len(), all01(palette@), all01(bg_pixels@),
        guess_from_remapped_pixels ==> written(old(output_pixels_row)@, width as int, palette@.len() as int),
    ensures final(output_pixels_row)@.len() == width, written(final(output_pixels_row)@, width as int, palette@.len() as int), final(diffusion)@.len() == old(diffusion)@.len(),
        exact_row(row_pixels@, bg_pixels@, palette@) && all_zero(old(diffusion)@) ==> all_zero(final(diffusion)@) && forall|c: int| 0 <= c < width ==> exact_out(#[trigger] final(output_pixels_row)@[c], c, row_pixels@, bg_pixels@, palette@, transparent_index),
//@pre
nexterr . fill_with ( f_pixel :: default ) => vx_fill_default ( nexterr )
if let Some ( & l ) = dither_map . get ( col ) => if let Some ( l ) = dither_map . get ( col )
f32 :: from ( l ) => f32 :: from ( * l )
//@entry
    let ghost ex = exact_row(row_pixels@, bg_pixels@, palette@) && all_zero(old(diffusion)@);
//@loop 1
    invariant vx_n1 == width, vx_i1 <= width, width < 0xFFFF_FFF0, row_pixels@.len() == width, output_pixels_row@.len() == width, all01(row_pixels@), thiserr@.len() == width + 2, nexterr@.len() == width + 2, near_pal(*n) == palette@, 0 < palette@.len() <= 256, transparent_index < palette@.len(), all01(palette@), all01(bg_pixels@),
        guess_from_remapped_pixels ==> written(output_pixels_row@, width as int, palette@.len() as int), last_match < palette@.len(), undithered_bg_used <= 2,
        forall|c: int| 0 <= c < width && doned(c, vx_i1 as int, width as int, even_row) ==> (#[trigger] output_pixels_row@[c])@.is_some() && output_pixels_row@[c]@->0 < palette@.len(),
        ex ==> exact_row(row_pixels@, bg_pixels@, palette@) && all_zero(thiserr@) && all_zero(nexterr@) && forall|c: int| 0 <= c < width && doned(c, vx_i1 as int, width as int, even_row) ==> exact_out(#[trigger] output_pixels_row@[c], c, row_pixels@, bg_pixels@, palette@, transparent_index),
    decreases width - vx_i1
//@after let ( matched , dither_diff ) = n . search ( & spx , guessed_match as _ ) ;
    proof { if ex { assert(px_eq(spx, input_px)); let c = col as int; assert(row_pixels@[c] == input_px);
      if c < bg_pixels@.len() { assert(px_eq(bg_pixels@[c], row_pixels@[c])); dist_same(spx, bg_pixels@[c]); }
      else { let j = choose|j: int| 0 <= j < palette@.len() && px_eq(#[trigger] palette@[j], row_pixels@[c]); dist_same(spx, palette@[j]); dist_zero(spx, palette@[matched as int]); } } }
//@after let mut err = spx . 0 - output_px . 0 ;
    proof { m_zero(75real / 100real); m_zero(7real / 16real); m_zero(1real / 16real); m_zero(3real / 16real); m_zero(5real / 16real); }
    assert(ex ==> is_zero(f_pixel(err)));
//@end

#[verifier::external_body] pub fn vx_tail<'a>(m: Option<&'a [u8]>, start: usize) -> (r: &'a [u8]) ensures r@ == tail(m, start as int) { unimplemented!() }
pub open spec fn tail(m: Option<&[u8]>, start: int) -> Seq<u8> { if m.is_some() && start <= m->0@.len() { m->0@.subrange(start, m->0@.len() as int) } else { Seq::empty() } }
pub open spec fn bg_wins(row: Seq<f_pixel>, bg: Seq<f_pixel>, pal: Seq<f_pixel>, c: int) -> bool { c < bg.len() && dist(bg[c], row[c]) <= mind(row[c], pal) }
/// a pixel shows the background where that is at least as close as the palette, and the nearest colour of the palette elsewhere
pub open spec fn pixel_ok(out: MaybeUninit<PalIndexRemap>, row: Seq<f_pixel>, bg: Seq<f_pixel>, pal: Seq<f_pixel>, ti: PalIndexRemap, c: int) -> bool {
  out@.is_some() && out@->0 < pal.len() && if bg_wins(row, bg, pal, c) { out@->0 == ti } else { dist(row[c], pal[out@->0 as int]) == mind(row[c], pal) }
}
pub open spec fn px_err(row: Seq<f_pixel>, bg: Seq<f_pixel>, pal: Seq<f_pixel>, c: int) -> real { if bg_wins(row, bg, pal, c) { dist(bg[c], row[c]) } else { mind(row[c], pal) } }
pub open spec fn row_err(row: Seq<f_pixel>, bg: Seq<f_pixel>, pal: Seq<f_pixel>, n: int) -> real decreases n { if n <= 0 { 0real } else { row_err(row, bg, pal, n - 1) + px_err(row, bg, pal, n - 1) } }
/// the row of the background, if there is one
pub open spec fn bg_row(background: Option<DynamicRowsIter>, row: int) -> Seq<f_pixel> { if background.is_some() { (background->0).px.frow(row) } else { Seq::empty() } }
/// the colours are in 0..1, and within the bounds that are considered
pub open spec fn rows_fit(d: DynamicRows) -> bool { forall|r: int| 0 <= r < d.height ==> row_fits(#[trigger] d.frow(r)) }
pub open spec fn row_fits(s: Seq<f_pixel>) -> bool { all01(s) && forall|i: int| 0 <= i < s.len() ==> in_range(#[trigger] s[i]) }
//@fn src/remap.rs remap_to_palette as=remap_row closure=(~row~,~output_pixels_row~) floats=remapping_error
//@sig fn remap_row(row: usize, output_pixels_row: &mut [MaybeUninit<PalIndexRemap>], width: usize, n: &Nearest, palette: Ghost<Seq<f_pixel>>, importance_map: Option<&[u8]>, input_rows: &DynamicRowsIter<'_>, background: &Option<DynamicRowsIter<'_>>, transparent_index: PalIndexRemap, kmeans: &mut Kmeans, temp_row: &mut [MaybeUninit<RGBA>], temp_row_f: &mut [MaybeUninit<f_pixel>], temp_row_f_bg: &mut [MaybeUninit<f_pixel>]) -> (r: F)
    requires old(output_pixels_row)@.len() >= width, near_pal(*n) == palette@, 0 < palette@.len() <= 256, transparent_index < palette@.len(),
        px_ok(*input_rows.px), input_rows.px.width == width, row < input_rows.px.height, rows_fit(*input_rows.px), background.is_some() ==> px_ok(*(background->0).px) && (background->0).px.width == width && row < (background->0).px.height && rows_fit(*(background->0).px),
        km_ok(*old(kmeans)), old(kmeans).averages@.len() == palette@.len(), old(temp_row)@.len() == width, old(temp_row_f)@.len() == width, old(temp_row_f_bg)@.len() == width,
    ensures final(output_pixels_row)@.len() == old(output_pixels_row)@.len(),
        forall|c: int| 0 <= c < width ==> pixel_ok(#[trigger] final(output_pixels_row)@[c], input_rows.px.frow(row as int), bg_row(*background, row as int), palette@, transparent_index, c),
        forall|c: int| width <= c < old(output_pixels_row)@.len() ==> #[trigger] final(output_pixels_row)@[c] == old(output_pixels_row)@[c],
        r.r() == row_err(input_rows.px.frow(row as int), bg_row(*background, row as int), palette@, width as int), r.r() >= 0real,
        km_ok(*final(kmeans)), final(kmeans).averages@.len() == old(kmeans).averages@.len(), final(temp_row)@.len() == width, final(temp_row_f)@.len() == width, final(temp_row_f_bg)@.len() == width,
//@pre
let Ok ( tls_res ) = tls . get_or_try ( per_thread_buffers ) else { return f64 :: NAN } ; =>
let ( kmeans , temp_row , temp_row_f , temp_row_f_bg ) = & mut * tls_res . 0 . borrow_mut ( ) ; =>
importance_map . and_then ( | m | m . get ( row * width .. ) ) . unwrap_or ( & [ ] ) => vx_tail ( importance_map , row * width )
. zip ( output_pixels_row ) => . zip ( output_pixels_row . iter_mut ( ) )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (R, B, P, M, O0) = (input_rows.px.frow(row as int), bg_row(*background, row as int), palette@, tail(importance_map, row * width), output_pixels_row@);
    proof { n_row(row as int, input_rows.px.height as int, width as int); n_prod(width as int, input_rows.px.height as int); n_com(row as int, width as int); n_com(width as int, input_rows.px.height as int); }
//@before let mut last_match = 0 ;
    assert(row_pixels@ == R); assert(bg_pixels@ == B); assert(row_fits(R));
    assert forall|c: int| 0 <= c < width implies bnd(#[trigger] row_pixels@[c]) by { assert(px01(R[c])); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == width, row_pixels@ == R, bg_pixels@ == B, output_pixels_row@.len() == width, km_ok(*kmeans), kmeans.averages@.len() == P.len(), remapping_error.r() == row_err(R, B, P, vx_i1 as int), remapping_error.r() >= 0real,
        forall|c: int| 0 <= c < vx_i1 ==> pixel_ok(#[trigger] output_pixels_row@[c], R, B, P, transparent_index, c),
    decreases vx_n1 - vx_i1
//@in loop 1
    proof { if vx_i1 < B.len() { dist_nonneg(B[vx_i1 as int], R[vx_i1 as int]); } assert(in_range(R[vx_i1 as int])); }
//@before let matched = matched as PalIndexRemap ;
    proof { assert(R[vx_j1 as int] == *inp); mind_is(*inp, P, diff.r(), matched as int); }
//@end
pub open spec fn minr(a: int, b: int) -> int { if a <= b { a } else { b } }
/// how many chunks there are
pub fn vx_chunks_len(len: usize, c: usize) -> (r: usize) requires c > 0 ensures r as int == len as int / c as int + (if len as int % c as int == 0 { 0int } else { 1int }) { if len % c == 0 { len / c } else { proof { n_qlt(len as int, c as int); } len / c + 1 } }
proof fn n_qlt(l: int, c: int) by (nonlinear_arith) requires c > 0, l >= 0, l % c != 0 ensures l / c < l {}
/// the output: rows of memory to be written. What rows_mut, chunks and assume_init do with pointers is checked by Kani (seacow.rs)
#[verifier::external_body] pub struct RowBitmapMut { x: u8 }
impl RowBitmapMut {
  pub uninterp spec fn rows_(&self) -> Seq<Seq<MaybeUninit<PalIndexRemap>>>;
  #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self.rows_().len() { unimplemented!() }
  #[verifier::external_body] pub fn vx_row_mut(&mut self, i: usize) -> (r: &mut [MaybeUninit<PalIndexRemap>]) requires i < old(self).rows_().len() ensures r@ == old(self).rows_()[i as int], final(self).rows_() == old(self).rows_().update(i as int, final(r)@) { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.rows_().len() { unimplemented!() }
  /// chunk `i` of `c` rows; the last one may be shorter
  #[verifier::external_body] pub fn vx_chunk(&mut self, i: usize, c: usize) -> (r: &mut RowBitmapMut) requires c > 0, i * c < old(self).rows_().len()
    ensures r.rows_() == old(self).rows_().subrange(i * c, minr(i * c + c, old(self).rows_().len() as int)), final(self).rows_() == old(self).rows_().subrange(0, i * c) + final(r).rows_() + old(self).rows_().subrange(minr(i * c + c, old(self).rows_().len() as int), old(self).rows_().len() as int) { unimplemented!() }
  #[verifier::external_body] pub fn assume_init(&mut self) -> (r: RowBitmap) requires forall|y: int| 0 <= y < old(self).rows_().len() ==> all_written(#[trigger] old(self).rows_()[y])
    ensures final(self).rows_() == old(self).rows_(), r.rows_().len() == old(self).rows_().len(), forall|y: int| 0 <= y < r.rows_().len() ==> all_are(old(self).rows_()[y], #[trigger] r.rows_()[y]) { unimplemented!() }
}
/// room for every pixel of the image, and nothing else
pub open spec fn out_ok(o: RowBitmapMut, w: int, h: int) -> bool { o.rows_().len() == h && forall|y: int| 0 <= y < h ==> (#[trigger] o.rows_()[y]).len() == w }
pub open spec fn all_rows_written(o: RowBitmapMut, w: int, n: int) -> bool { forall|y: int| 0 <= y < o.rows_().len() ==> written(#[trigger] o.rows_()[y], w, n) }
/// what the pixels of row `y` are compared with, if the background is used
pub open spec fn bg_seq(bg: Option<DynamicRows>, y: int) -> Seq<f_pixel> { if bg.is_some() { (bg->0).frow(y) } else { Seq::empty() } }
pub open spec fn img_err(px: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>, n: int) -> real decreases n { if n <= 0 { 0real } else { img_err(px, bg, pal, n - 1) + row_err(px.frow(n - 1), bg_seq(bg, n - 1), pal, px.width as int) } }
pub open spec fn row_done(o: Seq<MaybeUninit<PalIndexRemap>>, px: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>, ti: PalIndexRemap, y: int) -> bool { o.len() == px.width && forall|c: int| 0 <= c < px.width ==> pixel_ok(#[trigger] o[c], px.frow(y), bg_seq(bg, y), pal, ti, c) }
/// the background counts if the palette colour nearest to full transparency is fully transparent
pub open spec fn near_zero(pal: Seq<f_pixel>, q: int) -> bool { forall|z: f_pixel| #[trigger] is_zero(z) ==> dist(z, pal[q]) == mind(z, pal) }
pub open spec fn bg_used(bg: Option<DynamicRows>, pal: Seq<f_pixel>, ti: PalIndexRemap, used: Option<DynamicRows>) -> bool { ti < pal.len() && (bg.is_none() ==> used.is_none()) && (bg.is_some() ==> exists|q: int| 0 <= q < pal.len() && #[trigger] near_zero(pal, q) && used == (if pal[q].0.a.r() < MIN_OPAQUE_A_r() { bg } else { None }) && (used.is_some() ==> ti == q)) }
proof fn mind_same(y: f_pixel, z: f_pixel, pal: Seq<f_pixel>) requires is_zero(y), is_zero(z) ensures mind(y, pal) == mind(z, pal) decreases pal.len() { if pal.len() > 1 { mind_same(y, z, pal.drop_last()); } }
proof fn zero_near(z: f_pixel, pal: Seq<f_pixel>, q: int) requires is_zero(z), 0 <= q < pal.len(), forall|j: int| 0 <= j < pal.len() ==> dist(z, pal[q]) <= dist(z, #[trigger] pal[j]) ensures near_zero(pal, q) {
  mind_is(z, pal, dist(z, pal[q]), q);
  assert forall|y: f_pixel| #[trigger] is_zero(y) implies dist(y, pal[q]) == mind(y, pal) by { mind_same(y, z, pal); }
}
pub open spec fn remap_done(o: RowBitmapMut, err: real, px: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>) -> bool {
  exists|ti: PalIndexRemap, used: Option<DynamicRows>| #[trigger] bg_used(bg, pal, ti, used) && o.rows_().len() == px.height && (forall|y: int| 0 <= y < px.height ==> row_done(#[trigger] o.rows_()[y], px, used, pal, ti, y)) && err == img_err(px, used, pal, px.height as int) / ((px.width as real) * (px.height as real))
}
pub trait VxTranspose<T, E>: Sized { spec fn tr(self) -> Result<Option<T>, E>; fn vx_transpose(self) -> (r: Result<Option<T>, E>) ensures r == self.tr(); }
impl<T, E> VxTranspose<T, E> for Option<Result<T, E>> {
  open spec fn tr(self) -> Result<Option<T>, E> { match self { Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e), None => Ok(None) } }
  fn vx_transpose(self) -> (r: Result<Option<T>, E>) { match self { Some(Ok(t)) => Ok(Some(t)), Some(Err(e)) => Err(e), None => Ok(None) } }
}
impl F { #[verifier::external_body] pub fn is_nan(self) -> (z: bool) ensures !z { unimplemented!() } }
pub open spec fn bg_px(b: Option<&mut Image>) -> Option<DynamicRows> { if b.is_some() { Some((b->0).px) } else { None } }
/// only converted, if anything
pub open spec fn img_like(a: Image, b: Image) -> bool { px_ok(b.px) && same_px(a.px, b.px) && b.px.pixels == a.px.pixels && b.importance_map == a.importance_map && b.edges == a.edges && b.dither_map == a.dither_map && b.fixed_colors == a.fixed_colors && b.background == a.background }
pub open spec fn bgp(i: Image) -> Option<DynamicRows> { if i.background.is_some() { Some((i.background->0).px) } else { None } }
pub open spec fn img_like2(a: Image, b: Image) -> bool { px_ok(b.px) && same_px(a.px, b.px) && b.px.pixels == a.px.pixels && b.importance_map == a.importance_map && b.edges == a.edges && b.dither_map == a.dither_map && b.fixed_colors == a.fixed_colors && b.background.is_some() == a.background.is_some() && (a.background.is_some() ==> img_like(*(a.background->0), *(b.background->0))) }
proof fn m_pos(a: real, b: real) by (nonlinear_arith) requires a > 0real, b > 0real ensures a * b > 0real {}
proof fn fit_same(a: DynamicRows, b: DynamicRows) requires same_px(a, b), rows_fit(a) ensures rows_fit(b) { assert forall|r: int| 0 <= r < b.height implies row_fits(#[trigger] b.frow(r)) by { assert(a.frow(r) == b.frow(r)); } }
//@fn src/remap.rs remap_to_palette as=new_buffers closure=
//@sig fn new_buffers(palette_len: usize, width: usize) -> (r: Result<(Kmeans, Vec<MaybeUninit<RGBA>>, Vec<MaybeUninit<f_pixel>>, Vec<MaybeUninit<f_pixel>>), Error>)
    requires palette_len <= MAX_COLORS,
    ensures plain(r), r.is_ok() ==> km_ok((r->Ok_0).0) && (r->Ok_0).0.averages@.len() == palette_len && (r->Ok_0).1@.len() == width && (r->Ok_0).2@.len() == width && (r->Ok_0).3@.len() == width,
//@pre
CacheLineAlign ( RefCell :: new => (
//@end
//@fn src/remap.rs remap_to_palette hole= hole=(~row~,~output_pixels_row~) floats=remapping_error
//@sig fn remap_to_palette(px: &mut DynamicRows, background: Option<&mut Image>, importance_map: Option<&[u8]>, output_pixels: &mut RowBitmapMut, palette: &mut PalF) -> (r: Result<(F, RowBitmap), Error>)
    requires px_ok(*old(px)), rows_fit(*old(px)), background.is_some() ==> img_ok1(*old(background->0)) && rows_fit(old(background->0).px) && old(background->0).px.width == old(px).width && old(background->0).px.height == old(px).height,
        zero_in(), pal_wf(*old(palette)), pal_bnd3(old(palette).colors@), out_ok(*old(output_pixels), old(px).width as int, old(px).height as int),
    ensures px_ok(*final(px)), same_px(*old(px), *final(px)), final(px).pixels == old(px).pixels,
        pal_wf(*final(palette)), final(palette).colors@.len() == old(palette).colors@.len(), all_kept(*old(palette), *final(palette)), r.is_err() ==> *final(palette) == *old(palette),
        background.is_some() ==> img_like(*old(background->0), *final(background->0)),
        plain(r), out_ok(*final(output_pixels), old(px).width as int, old(px).height as int),
        r.is_ok() ==> remapped_ok((r->Ok_0).1, old(px).width as int, old(px).height as int, old(palette).colors@.len() as int) && (r->Ok_0).0.r() >= 0real && all_rows_written(*final(output_pixels), old(px).width as int, old(palette).colors@.len() as int)
          && remap_done(*final(output_pixels), (r->Ok_0).0.r(), *old(px), (if background.is_some() { Some(old(background->0).px) } else { None }), old(palette).colors@),
//@pre
let tls = ThreadLocal :: new ( ) ; =>
let per_thread_buffers = vx_hole0 ; =>
let tls_tmp1 = tls . get_or_try ( per_thread_buffers ) ? ; => let mut tls_tmp = new_buffers ( palette_len , width ) ? ;
let mut tls_tmp = tls_tmp1 . 0 . borrow_mut ( ) ; =>
. a < MIN_OPAQUE_A => . 0 . a < MIN_OPAQUE_A ( )
. transpose ( ) ? => . vx_transpose ( ) ?
drop ( tls_tmp ) ; =>
vx_hole1 => | ( row , output_pixels_row ) | remap_row ( row , output_pixels_row , width , & n , Ghost ( P ) , importance_map , & input_rows , & background , transparent_index , & mut tls_tmp . 0 , & mut tls_tmp . 1 , & mut tls_tmp . 2 , & mut tls_tmp . 3 )
tls . into_iter ( ) . map ( | t | t . 0 . into_inner ( ) . 0 ) . reduce ( Kmeans :: merge ) => Some ( tls_tmp . 0 )
//@after vx_drop ( vx_o ) ;
    proof { assert(has_resolved(vx_o.0)); assert(has_resolved(vx_o.0->0)); }
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (P, X0, O0, PAL0) = (palette.colors@, *px, *output_pixels, *palette);
    proof { assert forall|i: int| 0 <= i < P.len() implies bnd(#[trigger] P[i]) by { assert(bnd3(P[i])); } }
    proof { assert forall|z: f_pixel, q: int| 0 <= q < P.len() && is_zero(z) && (forall|j: int| 0 <= j < P.len() ==> dist(z, P[q]) <= dist(z, #[trigger] P[j])) && #[trigger] dist(z, P[q]) >= 0real implies near_zero(P, q) by { zero_near(z, P, q); } }
    let ghost B0: Option<DynamicRows> = if background.is_some() { Some(background->0.px) } else { None };
//@before loop 1
    let ghost U: Option<DynamicRows> = if background.is_some() { B0 } else { None };
    proof { fit_same(X0, *input_rows.px); if background.is_some() { fit_same(B0->0, *(background->0).px); } }
//@in loop 1
    let ghost O1 = *output_pixels;
    assert(O1.rows_()[vx_i1 as int].len() == width);
    assert(input_rows.px.frow(vx_i1 as int) == X0.frow(vx_i1 as int) && bg_row(background, vx_i1 as int) == bg_seq(U, vx_i1 as int));
//@end loop 1
    assert(row_done(output_pixels.rows_()[vx_j1 as int], X0, U, P, transparent_index, vx_j1 as int));
    assert forall|y: int| 0 <= y < vx_i1 implies row_done(#[trigger] output_pixels.rows_()[y], X0, U, P, transparent_index, y) by { if y < vx_j1 { assert(output_pixels.rows_()[y] == O1.rows_()[y]); } }
//@after loop 1
    proof {
      let n = P.len() as int;
      assert forall|y: int| 0 <= y < X0.height implies written(#[trigger] output_pixels.rows_()[y], X0.width as int, n) && all_written(output_pixels.rows_()[y]) by { assert(row_done(output_pixels.rows_()[y], X0, U, P, transparent_index, y)); assert forall|c: int| 0 <= c < X0.width implies (#[trigger] output_pixels.rows_()[y][c])@.is_some() && output_pixels.rows_()[y][c]@->0 < n by { assert(pixel_ok(output_pixels.rows_()[y][c], X0.frow(y), bg_seq(U, y), P, transparent_index, c)); } }
      assert(bg_used(B0, P, transparent_index, U));
      assert forall|y: int, s: Seq<PalIndexRemap>| 0 <= y < X0.height && #[trigger] all_are(output_pixels.rows_()[y], s) implies row_below(s, X0.width as int, n) by { let o = output_pixels.rows_()[y]; assert(written(o, X0.width as int, n)); assert forall|c: int| 0 <= c < X0.width implies #[trigger] s[c] < n by { assert(o[c]@ == Some(s[c])); } }
      m_pos(X0.width as real, X0.height as real); m_divpos(vx_acc1.r(), (X0.width as real) * (X0.height as real));
    }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == X0.height, out_ok(*output_pixels, X0.width as int, X0.height as int), km_ok(tls_tmp.0), tls_tmp.0.averages@.len() == P.len(), tls_tmp.1@.len() == width, tls_tmp.2@.len() == width, tls_tmp.3@.len() == width,
        forall|y: int| 0 <= y < vx_i1 ==> row_done(#[trigger] output_pixels.rows_()[y], X0, U, P, transparent_index, y), vx_acc1.r() == img_err(X0, U, P, vx_i1 as int), vx_acc1.r() >= 0real,
    decreases vx_n1 - vx_i1
//@end

#[verifier::external_body] pub fn num_cpus() -> (r: usize) ensures r >= 1 { unimplemented!() }
pub fn vx_either<'a>(a: &'a Option<Vec<u8>>, b: &'a Option<Vec<u8>>) -> (r: &'a [u8]) { match a { Some(v) => v.as_slice(), None => match b { Some(v) => v.as_slice(), None => &[] } } }
#[verifier::external_body] pub fn vx_get_range<'a>(m: &'a [u8], a: usize, b: usize) -> (r: &'a [u8]) requires a <= b ensures r@ == (if b <= m@.len() { m@.subrange(a as int, b as int) } else { Seq::empty() }) { unimplemented!() }
/// room for `n` more, or not
#[verifier::external_body] pub fn vx_reserve(v: &mut Vec<f_pixel>, n: usize) -> (r: Result<(), Error>) ensures final(v)@ == old(v)@, plain(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_resize(v: &mut Vec<f_pixel>, n: usize, x: f_pixel) ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x }) { unimplemented!() }
/// the background counts unless the palette colour nearest to full transparency is opaque
pub open spec fn fl_used(bg: Option<DynamicRows>, pal: Seq<f_pixel>, ti: PalIndexRemap, used: Option<DynamicRows>) -> bool { ti < pal.len() && (bg.is_none() ==> used.is_none()) && (bg.is_some() ==> near_zero(pal, ti as int) && used == (if pal[ti as int].0.a.r() > MIN_OPAQUE_A_r() { None } else { bg })) }
/// every pixel is like the background, or a colour of the palette where there is no background
pub open spec fn img_exact(px: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>) -> bool { forall|y: int| 0 <= y < px.height ==> exact_row(#[trigger] px.frow(y), bg_seq(bg, y), pal) }
pub open spec fn fl_row(o: Seq<MaybeUninit<PalIndexRemap>>, px: DynamicRows, used: Option<DynamicRows>, pal: Seq<f_pixel>, ti: PalIndexRemap, y: int) -> bool {
  o.len() == px.width && written(o, px.width as int, pal.len() as int) && (img_exact(px, used, pal) ==> forall|c: int| 0 <= c < px.width ==> exact_out(#[trigger] o[c], c, px.frow(y), bg_seq(used, y), pal, ti))
}
pub open spec fn fl_done(o: RowBitmapMut, px: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>) -> bool {
  exists|ti: PalIndexRemap, used: Option<DynamicRows>| #[trigger] fl_used(bg, pal, ti, used) && forall|y: int| 0 <= y < px.height ==> fl_row(#[trigger] o.rows_()[y], px, used, pal, ti, y)
}
pub open spec fn rows01(d: DynamicRows) -> bool { forall|r: int| 0 <= r < d.height ==> all01(#[trigger] d.frow(r)) }
//@local
proof fn n_chunks(a: int, h: int) requires a >= 0, h >= 1 ensures a / 524_288 <= a, a / 524_288 >= 0, h / 128 >= 0 {}
proof fn n_fit(w: int, h: int) by (nonlinear_arith) requires w >= 1, h >= 1, w * h * 16 <= isize::MAX ensures w * 16 <= isize::MAX, h * 16 <= isize::MAX {}
proof fn n_ceil(h: int, n: int) by (nonlinear_arith) requires h >= 1, n >= 1 ensures 1 <= (h + n - 1) / n {}
proof fn n_chunk(h: int, c: int, n: int, i: int) by (nonlinear_arith) requires c >= 1, h >= 1, n == h / c + (if h % c == 0 { 0int } else { 1int }), 0 <= i < n ensures 0 <= i * c < h, (i + 1) * c == i * c + c {}
proof fn n_chunk_end(h: int, c: int, n: int) by (nonlinear_arith) requires c >= 1, h >= 1, n == h / c + (if h % c == 0 { 0int } else { 1int }) ensures n * c >= h {}
proof fn m_percent(p: real, s: real, h: real) by (nonlinear_arith) requires 0real <= p <= 100real, 0real <= s <= h, h > 0real ensures 0real <= p + s * (100real - p) / h <= 100real {}
//@shared
proof fn ready(d: DynamicRows) requires px_ok(d), rows01(d) ensures rows_ready(d, d.width as int) { assert forall|y: int| 0 <= y < d.height implies all01(#[trigger] d.frow(y)) && d.frow(y).len() == d.width by { n_row(y, d.height as int, d.width as int); n_com(d.width as int, d.height as int); } }
pub fn vx_chunk_done() {}
pub open spec fn it_ok(i: DynamicRowsIter, d: DynamicRows) -> bool { iter_ok(i) && px_ok(*i.px) && same_px(d, *i.px) }
pub open spec fn rows_ready(d: DynamicRows, w: int) -> bool { forall|y: int| 0 <= y < d.height ==> all01(#[trigger] d.frow(y)) && d.frow(y).len() == w }
//@fn src/remap.rs remap_to_palette_floyd as=floyd_chunk closure=_ floats=base_dithering_level
//@sig fn floyd_chunk<'a>(chunk: &mut RowBitmapMut, chunk_start_row: usize, width: usize, mut input_image_iter: DynamicRowsIter<'a>, mut background: Option<DynamicRowsIter<'a>>, mut temp_row: Vec<MaybeUninit<RGBA>>, mut diffusion: Vec<f_pixel>, dither_map: &[u8], base_dithering_level: F, max_dither_error: F, n: &Nearest, palette: &[f_pixel], transparent_index: PalIndexRemap, guess_from_remapped_pixels: bool, X0: Ghost<DynamicRows>, U: Ghost<Option<DynamicRows>>)
    requires it_ok(input_image_iter, X0@), X0@.width == width, size_ok(width as int, X0@.height as int), rows_ready(X0@, width as int), background.is_some() == U@.is_some(), background.is_some() ==> it_ok(background->0, U@->0) && (U@->0).width == width && (U@->0).height == X0@.height && rows_ready(U@->0, width as int),
        chunk_start_row + old(chunk).rows_().len() <= X0@.height, forall|k: int| 0 <= k < old(chunk).rows_().len() ==> (#[trigger] old(chunk).rows_()[k]).len() == width && (guess_from_remapped_pixels ==> written(old(chunk).rows_()[k], width as int, palette@.len() as int)),
        temp_row@.len() == width, diffusion@.len() == 2 * (width + 2), near_pal(*n) == palette@, 0 < palette@.len() <= 256, transparent_index < palette@.len(), all01(palette@), img_exact(X0@, U@, palette@) ==> all_zero(diffusion@),
    ensures final(chunk).rows_().len() == old(chunk).rows_().len(), forall|k: int| 0 <= k < final(chunk).rows_().len() ==> fl_row(#[trigger] final(chunk).rows_()[k], X0@, U@, palette@, transparent_index, chunk_start_row + k),
//@pre
chunk . 0 => chunk
row_f ( & mut temp_row => row_f ( temp_row . as_mut_slice ( )
& mut diffusion , scan_forward => diffusion . as_mut_slice ( ) , scan_forward
dither_map . get ( row * width .. row * width + width ) . unwrap_or ( & [ ] ) => vx_get_range ( dither_map , row * width , row * width + width )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (C0, P, X, B) = (chunk.rows_(), palette@, X0@, U@); let ghost EX = img_exact(X, B, P); let ghost (W, H) = (X.width as int, X.height as int);
    proof { n_fit(W, H); n_prod(W, H); n_com(W, H); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == C0.len(), temp_row@.len() == width, diffusion@.len() == 2 * (width + 2), it_ok(input_image_iter, X), background.is_some() == B.is_some(), background.is_some() ==> it_ok(background->0, B->0),
        EX ==> all_zero(diffusion@), chunk.rows_().len() == C0.len(), forall|k: int| vx_i1 <= k < C0.len() ==> #[trigger] chunk.rows_()[k] == C0[k], forall|k: int| 0 <= k < vx_i1 ==> fl_row(#[trigger] chunk.rows_()[k], X, B, P, transparent_index, chunk_start_row + k),
    decreases vx_n1 - vx_i1
//@in loop 1
    proof { let y = (chunk_start_row + vx_i1) as int; n_row(y, H, W); assert(C0[vx_i1 as int].len() == W); assert(X.frow(y).len() == W && all01(X.frow(y))); if B.is_some() { assert(all01((B->0).frow(y))); } if EX { assert(exact_row(X.frow(y), bg_seq(B, y), P)); } }
    let ghost C1 = chunk.rows_();
//@end loop 1
    proof { assert forall|k: int| 0 <= k < vx_i1 implies fl_row(#[trigger] chunk.rows_()[k], X, B, P, transparent_index, chunk_start_row + k) by { if k < vx_j1 { assert(chunk.rows_()[k] == C1[k]); } } }
//@end
//@fn src/remap.rs remap_to_palette_floyd inline=scope hole=_ floats=base_dithering_level
//@sig fn remap_to_palette_floyd(input_image: &mut Image, output_pixels: &mut RowBitmapMut, palette: &PalF, quant: &QuantizationResult, max_dither_error: F, output_image_is_remapped: bool, Tracked(log): Tracked<&mut Log>) -> (r: Result<(), Error>)
    requires img_ok(*old(input_image)), size_ok(old(input_image).px.width as int, old(input_image).px.height as int), rows01(old(input_image).px), old(input_image).background.is_some() ==> rows01((old(input_image).background->0).px),
        zero_in(), pal_wf(*palette), all01(palette.colors@), out_ok(*old(output_pixels), old(input_image).px.width as int, old(input_image).px.height as int), output_image_is_remapped ==> all_rows_written(*old(output_pixels), old(input_image).px.width as int, palette.colors@.len() as int),
    ensures out_ok(*final(output_pixels), old(input_image).px.width as int, old(input_image).px.height as int), img_ok(*final(input_image)), img_like2(*old(input_image), *final(input_image)),
        r.is_ok() ==> all_rows_written(*final(output_pixels), old(input_image).px.width as int, palette.colors@.len() as int) && fl_done(*final(output_pixels), old(input_image).px, bgp(*old(input_image)), palette.colors@),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls), !too_low(r),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.remap_progress => Tracked(log)
//@pre
input_image . dither_map . as_deref ( ) . or ( input_image . edges . as_deref ( ) ) . unwrap_or ( & [ ] ) => vx_either ( & input_image . dither_map , & input_image . edges )
bg . px . prepare_iter ( & mut temp_row , true ) ? ; => bg . px . prepare_iter ( temp_row . as_mut_slice ( ) , true ) ? ;
Ok :: < _ , Error > ( & bg . px ) => & bg . px
} ) . transpose ( ) ? ; let transparent_index => } ) ; let transparent_index
. a > MIN_OPAQUE_A => . 0 . a > MIN_OPAQUE_A ( )
input_image . px . prepare_iter ( & mut temp_row , true ) => input_image . px . prepare_iter ( temp_row . as_mut_slice ( ) , true )
let chunks = output_pixels . chunks ( => let vx_size = (
. map ( CacheLineAlign ) ; => ;
for mut chunk in chunks => for chunk in output_pixels . vx_chunks ( vx_size )
chunk . 0 => chunk
s . spawn ( vx_hole0 ) ; => floyd_chunk ( chunk , chunk_start_row , width , input_image_iter , background , temp_row , diffusion , dither_map , base_dithering_level , max_dither_error , n , palette , transparent_index , guess_from_remapped_pixels , Ghost ( X0 ) , Ghost ( U ) ) ; vx_chunk_done ( ) ;
. transpose ( ) ? => . vx_transpose ( ) ?
diffusion . try_reserve_exact ( => vx_reserve ( & mut diffusion ,
diffusion . resize ( => vx_resize ( & mut diffusion ,
row_f ( & mut temp_row => row_f ( temp_row . as_mut_slice ( )
& mut discard_row => discard_row . as_mut_slice ( )
& mut diffusion , scan_forward => diffusion . as_mut_slice ( ) , scan_forward
dither_map . get ( row * width .. row * width + width ) . unwrap_or ( & [ ] ) => vx_get_range ( dither_map , row * width , row * width + width )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (P, X0, O0, I0, c0) = (palette.colors@, input_image.px, *output_pixels, *input_image, log.calls);
    let ghost (W, H, B0) = (X0.width as int, X0.height as int, bgp(I0));
    proof { n_fit(W, H); n_prod(W, H); n_com(W, H); assert forall|i: int| 0 <= i < P.len() implies bnd(#[trigger] P[i]) by { assert(px01(P[i])); } }
    proof { assert forall|z: f_pixel, q: int| 0 <= q < P.len() && is_zero(z) && (forall|j: int| 0 <= j < P.len() ==> dist(z, P[q]) <= dist(z, #[trigger] P[j])) && #[trigger] dist(z, P[q]) >= 0real implies near_zero(P, q) by { zero_near(z, P, q); } }
//@before let n = & n ;
    let ghost U: Option<DynamicRows> = if background.is_some() { B0 } else { None };
    let ghost EX = img_exact(X0, U, P);
    proof { assert(fl_used(B0, P, transparent_index, U)); ready(X0); if U.is_some() { ready(U->0); } }
//@before let vx_size =
    proof { n_chunks(W * H, H); assert(1 <= num_chunks <= W * H + 2); n_ceil(H, num_chunks as int); }
//@loop 1
    invariant vx_i1 <= vx_n1, out_ok(*output_pixels, W, H), chunk_start_row == minr(vx_i1 * vx_c1_0, H), extends(c0, log.calls), !stopped(c0, log.calls),
        forall|y: int| 0 <= y < chunk_start_row ==> fl_row(#[trigger] output_pixels.rows_()[y], X0, U, P, transparent_index, y), guess_from_remapped_pixels ==> all_rows_written(*output_pixels, W, P.len() as int),
    decreases vx_n1 - vx_i1
//@before loop 1
    proof { assert(output_pixels.rows_() == O0.rows_()); }
//@in loop 1
    proof { n_chunk(H, vx_c1_0 as int, vx_n1 as int, vx_i1 as int); }
    let ghost O1 = *output_pixels; let ghost S = chunk_start_row as int; let ghost mut C2 = O1.rows_();
//@before let chunk_len =
    let ghost C0 = chunk.rows_();
    proof { assert forall|k: int| 0 <= k < C0.len() implies #[trigger] C0[k] == O1.rows_()[S + k] && C0[k].len() == W && (guess_from_remapped_pixels ==> written(C0[k], W, P.len() as int)) by { assert(O1.rows_()[S + k].len() == W); } }
//@loop 2
    invariant vx_i2 <= vx_n2, temp_row@.len() == width, discard_row@.len() == width, diffusion@.len() == 2 * (width + 2), it_ok(input_image_iter, X0), background.is_some() == U.is_some(), background.is_some() ==> it_ok(background->0, U->0),
        EX ==> all_zero(diffusion@),
    decreases vx_n2 - vx_i2
//@in loop 2
    proof { let y = (vx_a2_0 + vx_i2) as int; n_row(y, H, W); assert(X0.frow(y).len() == W && all01(X0.frow(y)) && all01(bg_seq(U, y))); if EX { assert(exact_row(X0.frow(y), bg_seq(U, y), P)); } }
//@before if quant . remap_progress
    proof { m_percent(progress_stage1 as real, chunk_start_row as real, height as real); }
//@after vx_chunk_done ( ) ;
    proof { C2 = chunk.rows_(); }
//@end loop 1
    proof { assert(output_pixels.rows_() == O1.rows_().subrange(0, S) + C2 + O1.rows_().subrange(S + C2.len(), H));
      assert forall|y: int| 0 <= y < H implies (#[trigger] output_pixels.rows_()[y]).len() == W && (y < chunk_start_row ==> fl_row(output_pixels.rows_()[y], X0, U, P, transparent_index, y)) && (guess_from_remapped_pixels ==> written(output_pixels.rows_()[y], W, P.len() as int)) by {
        if y < S { assert(output_pixels.rows_()[y] == O1.rows_()[y]); } else if y < S + C2.len() { assert(output_pixels.rows_()[y] == C2[y - S]); } else { assert(output_pixels.rows_()[y] == O1.rows_()[y]); } } }
//@after loop 1
    proof { n_chunk_end(H, vx_c1_0 as int, vx_n1 as int); assert(chunk_start_row == H); assert(fl_used(B0, P, transparent_index, U)); }
//@end
}
fn main() {}
