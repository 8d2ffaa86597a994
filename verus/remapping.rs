// unit: props=C01,C04,C09,C10,C12,C13,C15,C16
//@import result.rs
//@import remap.rs
verus! {
/// every colour is converted to channels within 0..1
pub proof fn conv01(g: real) requires g > 0real ensures forall|c: RGBA| px01(#[trigger] conv(g, c)) { assert forall|c: RGBA| px01(#[trigger] conv(g, c)) by { conv_in_01(g, c); } }
pub open spec fn fits(i: Image) -> bool { rows_fit(i.px) && (i.background.is_some() ==> rows_fit((i.background->0).px)) && size_ok(i.px.width as int, i.px.height as int) }
proof fn n_pos(a: int, b: int) by (nonlinear_arith) requires a >= 1, b >= 1 ensures a * b >= 1 {}
/// the palette in the output
pub open spec fn shown(q: QuantizationResult, r: Remapped, p: PalF) -> bool { ints(r.int_palette, p, q.gamma.r(), q.min_posterization_output) && pal_wf(p) && p.colors@.len() == q.palette.colors@.len() && all_kept(q.palette, p) }
/// the palette that is shown, exact to what the output can hold
pub open spec fn exact_pal(q: QuantizationResult, r: Remapped, p: PalF, x: PalF) -> bool { shown(q, r, p) && rounded(p, x, q.gamma.r(), q.min_posterization_output) }
/// what the pixels are: without dithering the nearest colours of the palette that is shown, with dithering the colours themselves if they all are in it
pub open spec fn drawn(q: QuantizationResult, r: Remapped, o: RowBitmapMut, px: DynamicRows, bg: Option<DynamicRows>) -> bool {
  exists|p: PalF, x: PalF| #[trigger] exact_pal(q, r, p, x) && if q.dither_level.r() == 0real { p.colors@ == q.palette.colors@ && r.palette_error.is_some() && remap_done(o, (r.palette_error->0).r(), px, bg, x.colors@) } else { fl_done(o, px, bg, x.colors@) }
}
pub open spec fn kept_img(a: Image, b: Image) -> bool { same_px(a.px, b.px) && a.fixed_colors == b.fixed_colors && a.background.is_some() == b.background.is_some() && (a.background.is_some() ==> img_like(*(a.background->0), *(b.background->0))) }
#[verifier::external_body] pub fn vx_deref_mut(b: &mut Option<Box<Image>>) -> (r: Option<&mut Image>) ensures r.is_some() == old(b).is_some(), final(b).is_some() == old(b).is_some(), r.is_some() ==> *(r->0) == *(old(b)->0) && *(final(b)->0) == *final(r->0) { unimplemented!() }
proof fn same_err(a: DynamicRows, b: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>, n: int) requires same_px(a, b), 0 <= n <= a.height ensures img_err(a, bg, pal, n) == img_err(b, bg, pal, n) decreases n { if n > 0 { same_err(a, b, bg, pal, n - 1); assert(a.frow(n - 1) == b.frow(n - 1)); } }
proof fn same_remap(o: RowBitmapMut, e: real, a: DynamicRows, b: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>) requires same_px(a, b), remap_done(o, e, a, bg, pal) ensures remap_done(o, e, b, bg, pal) {
  let (ti, u) = choose|ti: PalIndexRemap, u: Option<DynamicRows>| #[trigger] bg_used(bg, pal, ti, u) && o.rows_().len() == a.height && (forall|y: int| 0 <= y < a.height ==> row_done(#[trigger] o.rows_()[y], a, u, pal, ti, y)) && e == img_err(a, u, pal, a.height as int) / ((a.width as real) * (a.height as real));
  same_err(a, b, u, pal, a.height as int);
  assert forall|y: int| 0 <= y < b.height implies row_done(#[trigger] o.rows_()[y], b, u, pal, ti, y) by { assert(row_done(o.rows_()[y], a, u, pal, ti, y)); assert(a.frow(y) == b.frow(y)); }
  assert(bg_used(bg, pal, ti, u));
}
proof fn same_fl(o: RowBitmapMut, a: DynamicRows, b: DynamicRows, bg: Option<DynamicRows>, pal: Seq<f_pixel>) requires same_px(a, b), fl_done(o, a, bg, pal) ensures fl_done(o, b, bg, pal) {
  let (ti, u) = choose|ti: PalIndexRemap, u: Option<DynamicRows>| #[trigger] fl_used(bg, pal, ti, u) && forall|y: int| 0 <= y < a.height ==> fl_row(#[trigger] o.rows_()[y], a, u, pal, ti, y);
  if img_exact(b, u, pal) { assert forall|y: int| 0 <= y < a.height implies exact_row(#[trigger] a.frow(y), bg_seq(u, y), pal) by { assert(exact_row(b.frow(y), bg_seq(u, y), pal)); } assert(img_exact(a, u, pal)); }
  assert forall|y: int| 0 <= y < b.height implies fl_row(#[trigger] o.rows_()[y], b, u, pal, ti, y) by { assert(fl_row(o.rows_()[y], a, u, pal, ti, y)); assert(a.frow(y) == b.frow(y)); }
  assert(fl_used(bg, pal, ti, u));
}
proof fn same_fit(a: DynamicRows, b: DynamicRows) requires same_px(a, b), rows_fit(a) ensures rows_fit(b) { assert forall|r: int| 0 <= r < b.height implies row_fits(#[trigger] b.frow(r)) by { assert(a.frow(r) == b.frow(r)); } }
proof fn fit01(a: DynamicRows) requires rows_fit(a) ensures rows01(a) { assert forall|r: int| 0 <= r < a.height implies all01(#[trigger] a.frow(r)) by { assert(row_fits(a.frow(r))); } }
pub open spec fn area(i: Image) -> int { i.px.width * i.px.height }
/// what every result and image are like that the library gives out: palettes are of converted or averaged colours, images have a size that was checked
pub open spec fn can_remap(q: QuantizationResult, i: Image) -> bool { res_ok(q) && pal_bnd3(q.palette.colors@) && zero_in() && 0real <= q.dither_level.r() <= 1real && img_ok(i) && fits(i) && (q.palette_error.is_some() ==> (q.palette_error->0).r() >= 0real) }
/// row after row
pub open spec fn same_rows(b: Seq<MaybeUninit<PalIndexRemap>>, o: RowBitmapMut, w: int, h: int) -> bool { out_ok(o, w, h) && forall|y: int, c: int| 0 <= y < h && 0 <= c < w ==> #[trigger] o.rows_()[y][c] == b[y * w + c] }
pub open spec fn buf_drawn(q: QuantizationResult, r: Remapped, b: Seq<MaybeUninit<PalIndexRemap>>, px: DynamicRows, bg: Option<DynamicRows>) -> bool { exists|o: RowBitmapMut| #[trigger] same_rows(b, o, px.width as int, px.height as int) && drawn(q, r, o, px, bg) }
/// the pixels are colours of the palette that is given out (there may not be memory for it)
pub open spec fn vec_drawn(q: QuantizationResult, r: Remapped, v: Seq<u8>, pal: Seq<RGBA>, px: DynamicRows, bg: Option<DynamicRows>) -> bool {
  &&& pal.len() == 0 || pal == r.int_palette.entries@.subrange(0, q.palette.colors@.len() as int)
  &&& forall|k: int| 0 <= k < v.len() ==> #[trigger] v[k] < q.palette.colors@.len()
  &&& exists|b: Seq<MaybeUninit<PalIndexRemap>>| #[trigger] all_are(b, v) && buf_drawn(q, r, b, px, bg)
}
/// the first `n` places, if there are as many (get_mut(0..n), ASSUMED of std)
#[verifier::external_body] pub fn vx_get(b: &mut [MaybeUninit<PalIndexRemap>], n: usize) -> (r: Option<&mut [MaybeUninit<PalIndexRemap>]>) ensures r.is_some() == (n <= old(b)@.len()), final(b)@.len() == old(b)@.len(), r.is_none() ==> final(b)@ == old(b)@,
  r.is_some() ==> (r->0)@ == old(b)@.subrange(0, n as int) && final(r->0)@.len() == n && final(b)@ == final(r->0)@ + old(b)@.subrange(n as int, old(b)@.len() as int) { unimplemented!() }
impl RowBitmapMut {
  /// needs whole rows; what it does with pointers is checked by Kani (seacow.rs)
  #[verifier::external_body] pub fn new_contiguous(data: &mut [MaybeUninit<PalIndexRemap>], width: usize) -> (r: &mut RowBitmapMut) requires width > 0
    ensures same_rows(old(data)@, *r, width as int, old(data)@.len() as int / width as int), final(data)@.len() == old(data)@.len(), out_ok(*final(r), width as int, old(data)@.len() as int / width as int) ==> same_rows(final(data)@, *final(r), width as int, old(data)@.len() as int / width as int) { unimplemented!() }
}
/// memory of a Vec beyond its length, after try_reserve_exact
#[verifier::external_body] pub fn vx_room(v: &mut Vec<PalIndexRemap>, n: usize) -> (r: Result<Vec<MaybeUninit<PalIndexRemap>>, Error>) ensures final(v)@ == old(v)@, plain(r), r.is_ok() ==> (r->Ok_0)@.len() == n { unimplemented!() }
/// set_len: everything up to the new length must have been written
#[verifier::external_body] pub fn vx_init(v: &mut Vec<PalIndexRemap>, m: Vec<MaybeUninit<PalIndexRemap>>) requires all_written(m@), old(v)@.len() == 0 ensures all_are(m@, final(v)@) { unimplemented!() }
proof fn rows_buf(b: Seq<MaybeUninit<PalIndexRemap>>, o: RowBitmapMut, w: int, h: int, n: int, ok: bool) requires same_rows(b, o, w, h), b.len() == w * h, w >= 1, h >= 1, ok ==> all_rows_written(o, w, n) ensures ok ==> written(b, w * h, n) {
  if ok { assert forall|k: int| 0 <= k < w * h implies (#[trigger] b[k])@.is_some() && b[k]@->0 < n by { n_mod(k, w, h); let (y, c) = (k / w, k % w); assert(written(o.rows_()[y], w, n)); assert(o.rows_()[y][c] == b[y * w + c]); } }
}
proof fn in_buf(b: Seq<MaybeUninit<PalIndexRemap>>, t: Seq<MaybeUninit<PalIndexRemap>>, o: RowBitmapMut, w: int, h: int) requires same_rows(b, o, w, h), b.len() == w * h, w >= 1 ensures same_rows(b + t, o, w, h) {
  assert forall|y: int, c: int| 0 <= y < h && 0 <= c < w implies #[trigger] o.rows_()[y][c] == (b + t)[y * w + c] by { n_row(y, h, w); }
}
/// bounds that leave nothing out: with them the conditions on images and palettes always hold
pub open spec fn wide() -> bool { lo(0) <= 0real && hi(0) >= 1real && lo(1) <= 0real && hi(1) >= 1real && lo(2) <= 0real && hi(2) >= 1real && lo(3) <= 0real && hi(3) >= 1real }
proof fn any_image_fits(d: DynamicRows) requires px_ok(d), has_source(d.pixels), wide() ensures rows_fit(d), zero_in() {
  conv01(d.gamma.r());
  assert forall|r: int| 0 <= r < d.height implies row_fits(#[trigger] d.frow(r)) by { assert(d.frow(r) == fpx(d.gamma.r(), d.row(r))); assert forall|i: int| 0 <= i < d.frow(r).len() implies px01(#[trigger] d.frow(r)[i]) && in_range(d.frow(r)[i]) by { assert(d.frow(r)[i] == conv(d.gamma.r(), d.row(r)[i])); } }
}
proof fn new_fits(p: PalF, fixed: Seq<f_pixel>) requires range_out(p, fixed), bounds_sane(), all01(fixed) ensures pal_bnd3(p.colors@) {
  assert forall|i: int| 0 <= i < p.colors@.len() implies bnd3(#[trigger] p.colors@[i]) by { if !in_range(p.colors@[i]) { assert(px_in(fixed, p.colors@[i])); let j = choose|j: int| 0 <= j < fixed.len() && px_eq(#[trigger] fixed[j], p.colors@[i]); assert(px01(fixed[j])); } }
}
impl QuantizationResult {
//@fn src/quant.rs QuantizationResult::optionally_generate_dither_map
    requires pal_wf(*old(palette)), pal_bnd3(old(palette).colors@), zero_in(), old(palette).colors@.len() >= 1, img_ok(*old(image)), fits(*old(image)), out_ok(*old(output_pixels), old(image).px.width as int, old(image).px.height as int),
    ensures plain(r), pal_wf(*final(palette)), final(palette).colors@.len() == old(palette).colors@.len(), all_kept(*old(palette), *final(palette)), img_ok(*final(image)), same_img(*old(image), *final(image)), out_ok(*final(output_pixels), old(image).px.width as int, old(image).px.height as int),
        r.is_ok() && (r->Ok_0).is_some() ==> ((r->Ok_0)->0).r() >= 0real && all_rows_written(*final(output_pixels), old(image).px.width as int, old(palette).colors@.len() as int), r.is_ok() && (r->Ok_0).is_none() ==> *final(palette) == *old(palette),
//@pre
Image < '_ > => Image
RowBitmapMut < '_ , MaybeUninit < PalIndexRemap > > => RowBitmapMut
image . importance_map . as_deref ( ) => vx_deref_opt ( & image . importance_map )
//@entry
    proof { n_pos(image.px.width as int, image.px.height as int); }
//@end
//@fn src/quant.rs QuantizationResult::write_remapped_image_rows_internal
//@sig fn write_remapped_image_rows_internal(&mut self, image: &mut Image, output_pixels: &mut RowBitmapMut, Tracked(log): Tracked<&mut Log>) -> (r: Result<(), Error>)
    requires res_ok(*old(self)), pal_bnd3(old(self).palette.colors@), zero_in(), 0real <= old(self).dither_level.r() <= 1real, img_ok(*old(image)), fits(*old(image)), old(self).palette_error.is_some() ==> (old(self).palette_error->0).r() >= 0real, out_ok(*old(output_pixels), old(image).px.width as int, old(image).px.height as int),
    ensures res_ok(*final(self)), r.is_err() ==> *final(self) == *old(self), r.is_ok() ==> *final(self) == (QuantizationResult { remapped: final(self).remapped, ..*old(self) }) && final(self).remapped.is_some() && remap_of(*old(self), *(final(self).remapped->0)),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls), !too_low(r),
        img_ok(*final(image)), kept_img(*old(image), *final(image)), out_ok(*final(output_pixels), old(image).px.width as int, old(image).px.height as int),
        r.is_ok() ==> all_rows_written(*final(output_pixels), old(image).px.width as int, old(self).palette.colors@.len() as int) && drawn(*old(self), *(final(self).remapped->0), *final(output_pixels), old(image).px, bgp(*old(image))),
//@ghostarg
.remap_progress => Tracked(log)
remap_to_palette_floyd => Tracked(log)
//@pre
image . importance_map . as_deref ( ) => vx_deref_opt ( & image . importance_map )
image . background . as_deref_mut ( ) => vx_deref_mut ( & mut image . background )
& mut output_pixels => output_pixels
//@entry
    proof { qmse_ok(); conv01(self.gamma.r()); }
    let ghost mut gp = self.palette; let ghost I0 = *image; let ghost X0 = image.px; let ghost Q0 = *self;
//@after image . free_histogram_inputs ( ) ;
    proof { same_fit(X0, image.px); }
    let ghost X1 = image.px; let ghost mut xp = self.palette;
//@after ( self . use_dither_map , image , uses_background , output_pixels , & mut palette ) ? ;
    let ghost X2 = image.px;
    proof { same_fit(X0, image.px); fit01(image.px); if image.background.is_some() { fit01((image.background->0).px); } }
//@after max_dither_error , output_image_is_remapped , Tracked ( log ) ) ? ;
    proof { same_fl(*output_pixels, X2, X0, bgp(I0), xp.colors@); }
//@after output_pixels , & mut palette ) ? . 0 ) ;
    proof { same_remap(*output_pixels, (remapped.palette_error->0).r(), X1, X0, bgp(I0), xp.colors@); }
//@before * palette . init_int_palette (
    proof { gp = palette; }
//@after * palette . init_int_palette ( & mut remapped . int_palette , self . gamma , self . min_posterization_output ) ;
    proof { assert(rounded(gp, palette, Q0.gamma.r(), Q0.min_posterization_output)); xp = palette; assert(all01(palette.colors@)); }
//@before self . remapped = Some ( remapped ) ;
    assert(ints(remapped.int_palette, gp, self.gamma.r(), self.min_posterization_output)); assert(exact_pal(Q0, *remapped, gp, xp));
//@end
//@fn src/quant.rs QuantizationResult::remap_into
    requires can_remap(*old(self), *old(image)),
    ensures res_ok(*final(self)), r.is_err() ==> *final(self) == *old(self), r.is_ok() ==> *final(self) == (QuantizationResult { remapped: final(self).remapped, ..*old(self) }) && final(self).remapped.is_some() && remap_of(*old(self), *(final(self).remapped->0)),
        old(output_buf)@.len() < area(*old(image)) ==> r.is_err() && r->Err_0 == Error::BufferTooSmall && final(log).calls == old(log).calls && *final(image) == *old(image),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls), !too_low(r), img_ok(*final(image)), kept_img(*old(image), *final(image)),
        final(output_buf)@.len() == old(output_buf)@.len(), forall|k: int| area(*old(image)) <= k < old(output_buf)@.len() ==> #[trigger] final(output_buf)@[k] == old(output_buf)@[k],
        r.is_ok() ==> written(final(output_buf)@, area(*old(image)), old(self).palette.colors@.len() as int) && buf_drawn(*old(self), *(final(self).remapped->0), final(output_buf)@, old(image).px, bgp(*old(image))),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.write_remapped_image_rows_internal => Tracked(log)
//@pre
Image < '_ > => Image
output_buf . get_mut ( 0 .. required_size ) . ok_or ( BufferTooSmall ) ? => vx_get ( output_buf , required_size ) . ok_or ( BufferTooSmall ) ?
self . write_remapped_image_rows_internal ( image , rows ) => let vx_r = self . write_remapped_image_rows_internal ( image , rows ) ; vx_r
//@before let vx_r =
    let ghost mut O = *rows;
//@after let vx_r = self . write_remapped_image_rows_internal ( image , rows , Tracked ( log ) ) ;
    proof {
        O = *rows;
        // the part of the buffer that is written, whether or not the code has narrowed output_buf to it
        let B = output_buf@.subrange(0, W * H);
        assert(output_buf@ =~= B || output_buf@ =~= B + T0);
        assert(same_rows(B, O, W, H)); rows_buf(B, O, W, H, self.palette.colors@.len() as int, vx_r.is_ok());
        if vx_r.is_ok() { in_buf(B, T0, O, W, H); assert(same_rows(B + T0, O, W, H)); }
    }
//@entry
    let ghost T0 = output_buf@.subrange(minr(image.px.width * image.px.height, output_buf@.len() as int), output_buf@.len() as int);
    let ghost (W, H) = (image.px.width as int, image.px.height as int);
    proof { n_pos(W, H); n_div(W, H); }
//@end
//@fn src/quant.rs QuantizationResult::remap_into_vec
    requires can_remap(*old(self), *old(image)),
    ensures res_ok(*final(self)), r.is_err() ==> *final(self) == *old(self), r.is_ok() ==> *final(self) == (QuantizationResult { remapped: final(self).remapped, ..*old(self) }) && final(self).remapped.is_some() && remap_of(*old(self), *(final(self).remapped->0)),
        stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls), !too_low(r), img_ok(*final(image)), kept_img(*old(image), *final(image)),
        r.is_ok() ==> final(buf)@.len() == area(*old(image)) && vec_drawn(*old(self), *(final(self).remapped->0), final(buf)@, r->Ok_0@, old(image).px, bgp(*old(image))),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.remap_into => Tracked(log)
//@pre
Image < '_ > => Image
buf . try_reserve_exact ( len ) ? ; => let mut vx_room = vx_room ( buf , len ) ? ;
& mut buf . spare_capacity_mut ( ) [ .. len ] => vx_room . as_mut_slice ( )
buf . set_len ( len ) => vx_init ( buf , vx_room )
//@entry
    proof { n_pos(image.px.width as int, image.px.height as int); }
    let ghost mut B = Seq::<MaybeUninit<PalIndexRemap>>::empty();
//@before vx_init (
    proof { B = vx_room@; }
//@after vx_init ( buf , vx_room ) ;
    proof { assert(all_are(B, buf@)); assert forall|k: int| 0 <= k < buf@.len() implies #[trigger] buf@[k] < self.palette.colors@.len() by { assert(B[k]@ == Some(buf@[k])); } }
//@end
//@fn src/quant.rs QuantizationResult::remapped
    requires can_remap(*old(self), *old(image)),
    ensures res_ok(*final(self)), r.is_err() ==> *final(self) == *old(self), stopped(old(log).calls, final(log).calls) == is_aborted(r), extends(old(log).calls, final(log).calls), !too_low(r), img_ok(*final(image)), kept_img(*old(image), *final(image)),
        r.is_ok() ==> *final(self) == (QuantizationResult { remapped: final(self).remapped, ..*old(self) }) && final(self).remapped.is_some() && (r->Ok_0).1@.len() == area(*old(image)) && vec_drawn(*old(self), *(final(self).remapped->0), (r->Ok_0).1@, (r->Ok_0).0@, old(image).px, bgp(*old(image))),
//@ghostparam
Tracked(log): Tracked<&mut Log>
//@ghostarg
.remap_into_vec => Tracked(log)
//@pre
Image < '_ > => Image
//@end
}
}
fn main() {}
