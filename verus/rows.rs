// unit: props=C07,C11,C14,C16
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include default.rs
//@include palf.rs
//@include hitem.rs
//@include rgba.rs
//@include uninit.rs
verus! {
//@const src/lib.rs LIQ_HIGH_MEMORY_LIMIT int
/// a raw pointer to pixels: px() is the readable memory it points at
#[verifier::external_body] pub struct Pointer { x: u8 }
impl Pointer { pub uninterp spec fn px(&self) -> Seq<RGBA>; }
/// owned or borrowed pixels (contracts of its functions: Kani, kani/src/seacow.rs)
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct SeaCow<T> { t: T }
impl<T> View for SeaCow<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> SeaCow<T> {
  pub uninterp spec fn borrowed_(&self) -> bool;
  #[verifier::external_body] pub fn is_borrowed(&self) -> (r: bool) ensures r == self.borrowed_() { unimplemented!() }
  /// SeaCow::clone
  #[verifier::external_body] pub fn clone(&self) -> (r: Self) ensures r@ == self@, self.borrowed_() ==> r.borrowed_() { unimplemented!() }
  #[verifier::external_body] pub fn as_slice(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn boxed(v: Vec<T>) -> (r: Self) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn borrowed(v: &[T]) -> (r: Self) ensures r@ == v@ { unimplemented!() }
}
/// the user's callback. ASSUMED, as the documentation of the unsafe Image::new_fn demands: it writes every pixel of the row it is given, and gives the same row each time
#[verifier::external_body] pub struct Callback { x: u8 }
impl Callback {
  pub uninterp spec fn row(&self, r: int, w: int) -> Seq<RGBA>;
  #[verifier::external_body] pub fn vx_call(&self, temp_row: &mut [MaybeUninit<RGBA>], row: usize)
    ensures final(temp_row)@.len() == old(temp_row)@.len(), self.row(row as int, old(temp_row)@.len() as int).len() == old(temp_row)@.len(), all_are(final(temp_row)@, self.row(row as int, old(temp_row)@.len() as int)) { unimplemented!() }
}
/// every element is written, and these are the values
pub open spec fn all_are<T>(s: Seq<MaybeUninit<T>>, v: Seq<T>) -> bool { s.len() == v.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == Some(v[i]) }
pub open spec fn all_written<T>(s: Seq<MaybeUninit<T>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@.is_some() }
#[verifier::external_body] pub fn vx_from_raw<'a>(p: &'a Pointer, n: usize) -> (r: &'a [RGBA]) requires p.px().len() >= n ensures r@ == p.px().subrange(0, n as int) { unimplemented!() }
#[verifier::external_body] pub fn slice_assume_init_mut<T>(s: &mut [MaybeUninit<T>]) -> (r: &mut [T]) requires all_written(old(s)@) ensures all_are(old(s)@, r@), forall|v: Seq<T>| #[trigger] all_are(old(s)@, v) ==> r@ == v, final(r)@.len() == r@.len(), all_are(final(s)@, final(r)@) { unimplemented!() }
#[verifier::external_body] pub fn box_assume_init<T>(s: Vec<MaybeUninit<T>>) -> (r: Vec<T>) requires all_written(s@) ensures all_are(s@, r@), forall|v: Seq<T>| #[trigger] all_are(s@, v) ==> r@ == v { unimplemented!() }
#[verifier::external_body] pub fn vx_deref_opt<T>(m: &Option<Vec<T>>) -> (r: Option<&[T]>) ensures r.is_some() == m.is_some(), r.is_some() ==> (r->0)@ == (m->0)@ { unimplemented!() }
/// temp_buf: memory that holds nothing yet
#[verifier::external_body] pub fn temp_buf<T>(n: usize) -> (r: Result<Vec<MaybeUninit<T>>, Error>) ensures r.is_ok() ==> (r->Ok_0)@.len() == n, r.is_err() ==> r->Err_0 == Error::OutOfMemory { unimplemented!() }
/// the pixels of each chunk of `stride`, for the first `height` of them: chunks(stride).map(as_ptr).take(height).collect()
#[verifier::external_body] pub fn vx_chunk_ptrs(s: &[RGBA], stride: usize, height: usize) -> (r: Vec<Pointer>) requires stride > 0
  ensures r@.len() <= height, r@.len() == height || r@.len() * stride >= s@.len(), forall|k: int| 0 <= k < r@.len() ==> k * stride < s@.len() && #[trigger] r@[k].px() == s@.subrange(k * stride, if (k + 1) * stride <= s@.len() { (k + 1) * stride } else { s@.len() as int }) { unimplemented!() }
//@type src/rows.rs PixelsSource PixelsSource~<~'pixels~,~'rows~>=>PixelsSource SeaCow~<~'rows~,~Pointer~<~RGBA~>~>=>SeaCow<Pointer> SeaCow~<~'pixels~,~RGBA~>=>SeaCow<RGBA> Box~<~RowCallback~<~'rows~>~>=>Callback
//@type src/rows.rs DynamicRows DynamicRows~<~'pixels~,~'rows~>=>DynamicRows PixelsSource~<~'pixels~,~'rows~>=>PixelsSource Option~<~Box~<~[~f_pixel~]~>~>=>Option<Vec<f_pixel>>
//@type src/rows.rs DynamicRowsIter DynamicRowsIter~<~'parent~,~'pixels~,~'rows~>=>DynamicRowsIter<'parent> DynamicRows~<~'pixels~,~'rows~>=>DynamicRows Option~<~Box~<~[~MaybeUninit~<~f_pixel~>~]~>~>=>Option<Vec<MaybeUninit<f_pixel>>>
/// the pixels are still there (free_histogram_inputs has not dropped them)
pub open spec fn has_source(p: PixelsSource) -> bool { match p { PixelsSource::Pixels { rows, pixels } => rows@.len() != 0, PixelsSource::Callback(cb) => true } }
pub open spec fn source_ok(p: PixelsSource, w: int, h: int) -> bool { match p { PixelsSource::Pixels { rows, pixels } => rows@.len() == h && forall|r: int| 0 <= r < h ==> (#[trigger] rows@[r]).px().len() >= w, PixelsSource::Callback(cb) => forall|r: int| 0 <= r < h ==> (#[trigger] cb.row(r, w)).len() == w } }
pub open spec fn source_row(p: PixelsSource, r: int, w: int) -> Seq<RGBA> { match p { PixelsSource::Pixels { rows, pixels } => rows@[r].px().subrange(0, w), PixelsSource::Callback(cb) => cb.row(r, w) } }
pub open spec fn fpx(g: real, s: Seq<RGBA>) -> Seq<f_pixel> { Seq::new(s.len(), |i: int| conv(g, s[i])) }
impl DynamicRows {
  pub open spec fn w(&self) -> u32 { self.width }
  pub open spec fn h(&self) -> u32 { self.height }
  pub open spec fn gm(&self) -> F { self.gamma }
  /// row `r` of the image
  pub open spec fn row(&self, r: int) -> Seq<RGBA> { source_row(self.pixels, r, self.width as int) }
  /// row `r` as colours
  pub open spec fn frow(&self, r: int) -> Seq<f_pixel> { if self.f_pixels.is_some() { (self.f_pixels->0)@.subrange(r * self.width, r * self.width + self.width) } else { fpx(self.gamma.r(), self.row(r)) } }
}
pub open spec fn nothing_owned(p: PixelsSource) -> bool { match p { PixelsSource::Pixels { rows, pixels } => pixels.is_none(), PixelsSource::Callback(cb) => true } }
pub open spec fn owned(p: PixelsSource) -> bool { match p { PixelsSource::Pixels { rows, pixels } => pixels.is_some() && !(pixels->0).borrowed_(), PixelsSource::Callback(cb) => true } }
/// an image: it has its rows, or their colours, or both, and then they agree
pub open spec fn px_ok(d: DynamicRows) -> bool {
  &&& d.width >= 1 && d.height >= 1 && d.width * d.height * 16 <= isize::MAX && d.gamma.r() > 0real
  &&& has_source(d.pixels) ==> source_ok(d.pixels, d.width as int, d.height as int)
  &&& d.f_pixels.is_some() ==> (d.f_pixels->0)@.len() == d.width * d.height
  &&& !has_source(d.pixels) ==> d.f_pixels.is_some() && nothing_owned(d.pixels)
  &&& has_source(d.pixels) ==> forall|r: int| 0 <= r < d.height ==> #[trigger] d.frow(r) == fpx(d.gamma.r(), d.row(r))
}
/// nothing about the image itself changed
pub open spec fn same_px(a: DynamicRows, b: DynamicRows) -> bool { a.width == b.width && a.height == b.height && a.gamma == b.gamma && forall|r: int| 0 <= r < a.height ==> #[trigger] a.frow(r) == b.frow(r) }
/// settles when f_pixels is there
pub open spec fn big(d: DynamicRows) -> bool { d.width * d.height > LIQ_HIGH_MEMORY_LIMIT / 16 }
pub proof fn n_row(r: int, h: int, w: int) by (nonlinear_arith) requires 0 <= r < h, w >= 1 ensures 0 <= r * w, r * w + w <= h * w, (r + 1) * w == r * w + w, h * w == w * h {}
proof fn n_area(w: int, h: int, s: int) by (nonlinear_arith) requires h >= 1, s >= 0 ensures s * h >= s, (h - 1) * s == s * h - s, s * h == h * s {}
proof fn n_all(w: int, h: int, s: int, len: int, n: int) by (nonlinear_arith) requires 1 <= w <= s, h >= 1, len >= (h - 1) * s + w, 0 <= n <= h, n == h || n * s >= len ensures n == h {}
proof fn n_at(y: int, w: int, h: int, s: int, len: int) by (nonlinear_arith) requires 1 <= w <= s, 0 <= y < h, len >= (h - 1) * s + w ensures 0 <= y * s, y * s + w <= len, (y + 1) * s == y * s + s {}
pub proof fn n_prod(w: int, h: int) by (nonlinear_arith) requires w >= 1, h >= 1, w * h * 16 <= isize::MAX ensures 1 <= w * h <= isize::MAX / 16 {}
#[verifier::external_body] pub fn vx_size_f_pixel() -> (r: usize) ensures r == 16 { unimplemented!() }
/// there is a buffer for the colours unless they are there already
pub open spec fn iter_ok(i: DynamicRowsIter) -> bool { i.px.f_pixels.is_none() ==> i.temp_f_row.is_some() && (i.temp_f_row->0)@.len() == i.px.width }
pub open spec fn filled(f: Seq<MaybeUninit<f_pixel>>, d: DynamicRows, r: int, c: int) -> bool { f[r * d.width + c]@ == Some(conv(d.gamma.r(), d.row(r)[c])) }
proof fn n_div(w: int, h: int) by (nonlinear_arith) requires w >= 1, h >= 1 ensures (w * h) / w == h {}
proof fn n_lt(r: int, j: int, w: int) by (nonlinear_arith) requires 0 <= r < j, w >= 1 ensures r * w + w <= j * w {}
proof fn n_mod(k: int, w: int, h: int) by (nonlinear_arith) requires w >= 1, 0 <= k < w * h ensures 0 <= k / w < h, 0 <= k % w < w, (k / w) * w + k % w == k {}
proof fn n_dm(r: int, c: int, w: int) requires w >= 1, 0 <= r, 0 <= c < w ensures (r * w + c) / w == r, (r * w + c) % w == c { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(r * w + c, w, r, c); }
pub proof fn n_com(a: int, b: int) by (nonlinear_arith) ensures a * b == b * a {}
/// the colours of all pixels
pub open spec fn all_f(d: DynamicRows) -> Seq<f_pixel> { Seq::new((d.width * d.height) as nat, |k: int| conv(d.gamma.r(), d.row(k / (d.width as int))[k % (d.width as int)])) }
impl PixelsSource {
//@fn src/rows.rs PixelsSource::for_pixels pub
    ensures r.is_ok() ==> 1 <= width <= stride && height >= 1 && pixels@.len() >= (height - 1) * stride + width && source_ok(r->Ok_0, width as int, height as int) && has_source(r->Ok_0) && forall|y: int| 0 <= y < height ==> #[trigger] source_row(r->Ok_0, y, width as int) == pixels@.subrange(y * stride, y * stride + width),
        r.is_err() == (width == 0 || height == 0 || stride < width || height * stride + width > usize::MAX || pixels@.len() < (height - 1) * stride + width), r.is_err() ==> r->Err_0 == (if width == 0 || height == 0 || stride < width || height * stride + width > usize::MAX { Error::ValueOutOfRange } else { Error::BufferTooSmall }),
//@pre
SeaCow < 'pixels , RGBA > => SeaCow < RGBA >
slice . chunks ( stride ) . map ( | row | Pointer ( row . as_ptr ( ) ) ) . take ( height ) . collect ( ) => vx_chunk_ptrs ( slice , stride , height )
//@entry
    let ghost (W, H, S, P) = (width as int, height as int, stride as int, pixels@);
    proof { if height > 0 { n_area(W, H, S); } }
//@before Ok ( Self :: Pixels
    proof { n_all(W, H, S, P.len() as int, rows@.len() as int);
      assert forall|y: int| 0 <= y < H implies (#[trigger] rows@[y]).px().len() >= W && rows@[y].px().subrange(0, W) == P.subrange(y * S, y * S + W) by { n_at(y, W, H, S, P.len() as int);
        assert(rows@[y].px().subrange(0, W) =~= P.subrange(y * S, y * S + W)); } }
//@end
}
impl DynamicRows {
//@fn src/rows.rs DynamicRows::width pub
    ensures r == self.width,
//@pre
const fn => fn
//@end
//@fn src/rows.rs DynamicRows::height pub
    ensures r == self.height,
//@pre
const fn => fn
//@end
//@fn src/rows.rs DynamicRows::new pub
    requires width >= 1, height >= 1, width * height * 16 <= isize::MAX, gamma.r() > 0real, has_source(pixels), source_ok(pixels, width as int, height as int),
    ensures px_ok(r), r.width == width, r.height == height, r.pixels == pixels, r.gamma == gamma, r.f_pixels.is_none(),
//@pre
PixelsSource < 'pixels , 'rows > => PixelsSource
//@end
//@fn src/rows.rs DynamicRows::row_rgba pub
    requires px_ok(*self), has_source(self.pixels), row < self.height, self.pixels is Callback ==> old(temp_row)@.len() == self.width,
    ensures r@ == self.row(row as int), r@.len() == self.width, final(temp_row)@.len() == old(temp_row)@.len(),
//@pre
std :: slice :: from_raw_parts ( rows . as_slice ( ) [ row ] . 0 , self . width ( ) ) => vx_from_raw ( & rows . as_slice ( ) [ row ] , self . width ( ) )
cb ( temp_row , row ) => cb . vx_call ( temp_row , row )
//@end
//@fn src/rows.rs DynamicRows::convert_row_to_f pub
    requires old(row_f_pixels)@.len() == row_pixels@.len(),
    ensures r@ == fpx(gamma_lut.g(), row_pixels@), all_are(final(row_f_pixels)@, final(r)@),
//@pre
gamma_lut : & [ f32 ; 256 ] => gamma_lut : & Lut
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == row_pixels@.len(), row_f_pixels@.len() == row_pixels@.len(), forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] row_f_pixels@[i])@ == Some(conv(gamma_lut.g(), row_pixels@[i])),
    decreases vx_n1 - vx_i1
//@after loop 1
    assert(all_are(row_f_pixels@, fpx(gamma_lut.g(), row_pixels@)));
//@end
//@fn src/rows.rs DynamicRows::should_use_low_memory pub
    requires px_ok(*self),
    ensures r == big(*self),
//@pre
std :: mem :: size_of :: < f_pixel > ( ) => vx_size_f_pixel ( )
//@entry
    proof { n_prod(self.width as int, self.height as int); }
//@end
//@fn src/rows.rs DynamicRows::temp_f_row_for_iter pub
    ensures r.is_ok() ==> ((r->Ok_0).is_some() == self.f_pixels.is_none()) && ((r->Ok_0).is_some() ==> ((r->Ok_0)->0)@.len() == self.width), r.is_err() ==> r->Err_0 == Error::OutOfMemory,
//@pre
Box < [ MaybeUninit < f_pixel > ] > => Vec < MaybeUninit < f_pixel > >
//@end
//@fn src/rows.rs DynamicRows::prepare_iter pub
    requires px_ok(*old(self)), old(temp_row)@.len() == old(self).width,
    ensures px_ok(*final(self)), same_px(*old(self), *final(self)), final(self).pixels == old(self).pixels, final(temp_row)@.len() == old(temp_row)@.len(),
        r.is_ok() && (!allow_steamed || !big(*old(self)) || old(self).f_pixels.is_some()) ==> final(self).f_pixels.is_some(), r.is_err() ==> r->Err_0 == Error::OutOfMemory && *final(self) == *old(self),
//@pre
f_pixels . chunks_exact_mut ( width ) => f_pixels . as_mut_slice ( ) . chunks_exact_mut ( width )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost s0 = *self;
    proof { n_prod(self.width as int, self.height as int); }
//@before loop 1
    proof { n_div(self.width as int, self.height as int); }
//@in loop 1
    let ghost f0 = vx_s1_0@;
    proof { n_row(vx_i1 as int, s0.height as int, s0.width as int); }
//@end loop 1
    proof { assert forall|r: int, c: int| 0 <= r < vx_i1 && 0 <= c < s0.width implies #[trigger] filled(vx_s1_0@, s0, r, c) by { n_row(r, s0.height as int, s0.width as int); n_row(vx_j1 as int, s0.height as int, s0.width as int);
      if r < vx_j1 { n_lt(r, vx_j1 as int, s0.width as int); assert(filled(f0, s0, r, c)); } else { let k = r * s0.width + c; } } }
//@after loop 1
    let ghost F = all_f(s0);
    proof {
      assert forall|k: int| 0 <= k < f_pixels@.len() implies (#[trigger] f_pixels@[k])@ == Some(F[k]) by { n_mod(k, s0.width as int, s0.height as int); assert(filled(f_pixels@, s0, k / (s0.width as int), k % (s0.width as int))); }
      assert(all_are(f_pixels@, F));
      assert forall|r: int| 0 <= r < s0.height implies F.subrange(r * s0.width, r * s0.width + s0.width) == #[trigger] fpx(s0.gamma.r(), s0.row(r)) by {
        n_row(r, s0.height as int, s0.width as int);
        assert forall|c: int| 0 <= c < s0.width implies F.subrange(r * s0.width, r * s0.width + s0.width)[c] == fpx(s0.gamma.r(), s0.row(r))[c] by { n_dm(r, c, s0.width as int); }
        assert(F.subrange(r * s0.width, r * s0.width + s0.width) =~= fpx(s0.gamma.r(), s0.row(r)));
      }
    }
//@after self . f_pixels = Some ( { box_assume_init ( f_pixels ) } ) ;
    proof { assert((self.f_pixels->0)@ == all_f(s0)); assert forall|r: int| 0 <= r < self.height implies #[trigger] self.frow(r) == fpx(self.gamma.r(), self.row(r)) && s0.frow(r) == self.frow(r) by { assert(s0.row(r) == self.row(r)); } }
//@loop 1
    invariant vx_i1 <= vx_n1, *self == s0, vx_n1 == s0.height, vx_s1_0@.len() == s0.width * s0.height, temp_row@.len() == s0.width,
        forall|r: int, c: int| 0 <= r < vx_i1 && 0 <= c < s0.width ==> #[trigger] filled(vx_s1_0@, s0, r, c),
    decreases vx_n1 - vx_i1
//@end
//@fn src/rows.rs DynamicRows::rows_iter pub
    requires px_ok(*old(self)), old(temp_row)@.len() == old(self).width,
    ensures px_ok(*final(self)), same_px(*old(self), *final(self)), final(self).pixels == old(self).pixels, final(temp_row)@.len() == old(temp_row)@.len(), r.is_ok() ==> iter_ok(r->Ok_0) && *(r->Ok_0).px == *final(self), r.is_err() ==> r->Err_0 == Error::OutOfMemory,
//@pre
DynamicRowsIter < '_ , 'pixels , 'rows > => DynamicRowsIter < '_ >
//@end
//@fn src/rows.rs DynamicRows::rows_iter_prepared pub
    requires px_ok(*self),
    ensures r.is_ok() ==> iter_ok(r->Ok_0) && *(r->Ok_0).px == *self, r.is_err() ==> r->Err_0 == Error::OutOfMemory,
//@pre
DynamicRowsIter < '_ , 'pixels , 'rows > => DynamicRowsIter < '_ >
//@end
//@fn src/rows.rs DynamicRows::rgba_rows_iter pub
    requires px_ok(*self),
    ensures r.is_ok() == has_source(self.pixels), r.is_ok() ==> *(r->Ok_0).px == *self, r.is_err() ==> r->Err_0 == Error::Unsupported,
//@pre
DynamicRowsIter < '_ , 'pixels , 'rows > => DynamicRowsIter < '_ >
//@end
//@fn src/rows.rs DynamicRows::all_rows_f pub
    requires px_ok(*old(self)),
    ensures px_ok(*final(self)), same_px(*old(self), *final(self)), final(self).pixels == old(self).pixels, r.is_err() ==> r->Err_0 == Error::OutOfMemory, r.is_ok() ==> final(self).f_pixels.is_some() && r->Ok_0@ == (final(self).f_pixels->0)@,
//@pre
self . f_pixels . as_deref ( ) => vx_deref_opt ( & self . f_pixels )
//@end
//@fn src/rows.rs DynamicRows::free_histogram_inputs pub
    requires px_ok(*old(self)),
    ensures px_ok(*final(self)), same_px(*old(self), *final(self)), final(self).f_pixels == old(self).f_pixels,
//@end
}
impl<'parent> DynamicRowsIter<'parent> {
//@fn src/rows.rs DynamicRowsIter::row_f pub
    requires px_ok(*old(self).px), iter_ok(*old(self)), row < old(self).px.height, old(temp_row)@.len() == old(self).px.width,
    ensures r@ == old(self).px.frow(row as int), r@.len() == old(self).px.width, final(self).px == old(self).px, iter_ok(*final(self)), final(temp_row)@.len() == old(temp_row)@.len(),
//@entry
    proof { n_row(row as int, self.px.height as int, self.px.width as int); n_prod(self.px.width as int, self.px.height as int); n_com(row as int, self.px.width as int); }
//@end
//@fn src/rows.rs DynamicRowsIter::row_f_shared pub
    requires px_ok(*self.px), row < self.px.height, old(temp_row)@.len() == self.px.width, old(temp_row_f)@.len() == self.px.width,
    ensures r@.len() >= self.px.width, r@.subrange(0, self.px.width as int) == self.px.frow(row as int), final(temp_row)@.len() == old(temp_row)@.len(), final(temp_row_f)@.len() == old(temp_row_f)@.len(),
//@entry
    proof { n_row(row as int, self.px.height as int, self.px.width as int); n_prod(self.px.width as int, self.px.height as int); n_com(row as int, self.px.width as int); }
//@end
//@fn src/rows.rs DynamicRowsIter::row_rgba pub
    requires px_ok(*self.px), has_source(self.px.pixels), row < self.px.height, self.px.pixels is Callback ==> old(temp_row)@.len() == self.px.width,
    ensures r@ == self.px.row(row as int), r@.len() == self.px.width, final(temp_row)@.len() == old(temp_row)@.len(),
//@end
}
#[verifier::external_body] pub fn vx_clone_cow(m: &Option<SeaCow<RGBA>>) -> (r: Option<SeaCow<RGBA>>) ensures r.is_some() == m.is_some(), r.is_some() ==> (r->0)@ == (m->0)@, m.is_some() && (m->0).borrowed_() ==> (r->0).borrowed_() { unimplemented!() }
#[verifier::external_body] pub fn vx_clone_f(m: &Option<Vec<f_pixel>>) -> (r: Option<Vec<f_pixel>>) ensures r.is_some() == m.is_some(), r.is_some() ==> (r->0)@ == (m->0)@ { unimplemented!() }
pub trait VxUnwrap<T>: Sized { spec fn has(self) -> bool; spec fn val(self) -> T; fn vx_unwrap(self) -> (r: T) requires self.has() ensures r == self.val(); }
impl<T> VxUnwrap<T> for Result<T, Error> { open spec fn has(self) -> bool { self.is_ok() } open spec fn val(self) -> T { self->Ok_0 } fn vx_unwrap(self) -> (r: T) { match self { Ok(t) => t, Err(e) => vx_no() } } }
#[verifier::external_body] fn vx_no<T>() -> T requires false { unimplemented!() }
/// a copy of an image
pub open spec fn like(a: DynamicRows, b: DynamicRows) -> bool {
  a.width == b.width && a.height == b.height && a.gamma == b.gamma && a.f_pixels.is_some() == b.f_pixels.is_some() && (a.f_pixels.is_some() ==> (a.f_pixels->0)@ == (b.f_pixels->0)@) && has_source(a.pixels) == has_source(b.pixels)
  && (has_source(a.pixels) ==> source_ok(b.pixels, b.width as int, b.height as int) && forall|y: int| 0 <= y < a.height ==> #[trigger] b.row(y) == a.row(y)) && (!has_source(a.pixels) ==> nothing_owned(b.pixels))
}
proof fn like_ok(a: DynamicRows, b: DynamicRows) requires px_ok(a), like(a, b) ensures px_ok(b), same_px(a, b) {
  assert forall|r: int| 0 <= r < a.height implies #[trigger] b.frow(r) == a.frow(r) by { if a.f_pixels.is_none() { assert(b.row(r) == a.row(r)); } }
  if has_source(a.pixels) { assert forall|r: int| 0 <= r < b.height implies #[trigger] b.frow(r) == fpx(b.gamma.r(), b.row(r)) by { assert(b.frow(r) == a.frow(r)); assert(b.row(r) == a.row(r)); } }
}
pub fn vx_may_share(m: &Option<SeaCow<RGBA>>) -> (r: bool) ensures r == (m.is_none() || (m->0).borrowed_()) { match m { Some(p) => p.is_borrowed(), None => true } }
/// memory not written yet
#[verifier::external_body] pub fn vx_spare(n: usize) -> (r: Vec<MaybeUninit<RGBA>>) ensures r@.len() == n { unimplemented!() }
pub open spec fn copied_px(f: Seq<MaybeUninit<RGBA>>, d: DynamicRows, r: int, c: int) -> bool { f[r * d.width + c]@ == Some(d.row(r)[c]) }
pub open spec fn all_px(d: DynamicRows) -> Seq<RGBA> { Seq::new((d.width * d.height) as nat, |k: int| d.row(k / (d.width as int))[k % (d.width as int)]) }
impl DynamicRows {
//@fn src/rows.rs DynamicRows@Clone::clone pub
    requires px_ok(*self), self.width * self.height + self.width <= usize::MAX,
    ensures px_ok(r), same_px(*self, r), has_source(r.pixels) == has_source(self.pixels), has_source(self.pixels) ==> forall|y: int| 0 <= y < self.height ==> #[trigger] r.row(y) == self.row(y),
//@pre
self . f_pixels . clone ( ) => vx_clone_f ( & self . f_pixels )
pixels . as_ref ( ) . map_or ( true , | p | p . is_borrowed ( ) ) => vx_may_share ( pixels )
pixels : pixels . clone ( ) => pixels : vx_clone_cow ( pixels )
Vec :: with_capacity ( area ) => vx_spare ( area )
let out_rows = out . spare_capacity_mut ( ) [ .. area ] . chunks_exact_mut ( self . width as usize ) ; for ( i , row ) in out_rows . enumerate ( ) => for ( i , row ) in out . as_mut_slice ( ) . chunks_exact_mut ( self . width as usize ) . enumerate ( )
cb ( row , i ) => cb . vx_call ( row , i )
row . iter_mut ( ) . zip ( self . row_rgba ( & mut [ ] , i ) ) . for_each ( | ( dst , src ) | { dst . write ( * src ) ; } ) ; => for ( dst , src ) in row . iter_mut ( ) . zip ( self . row_rgba ( & mut [ ] , i ) . iter ( ) ) { dst . write ( * src ) ; }
unsafe { out . set_len ( area ) ; } => let out = box_assume_init ( out ) ;
out . into_boxed_slice ( ) => out
. unwrap ( ) => . vx_unwrap ( )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost s0 = *self;
    proof { n_prod(self.width as int, self.height as int); assert forall|d: DynamicRows| like(s0, d) implies #[trigger] px_ok(d) && same_px(s0, d) by { like_ok(s0, d); } }
//@before loop 1
    proof { n_div(self.width as int, self.height as int); assert(has_source(s0.pixels)); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == s0.height, vx_s1_0@.len() == s0.width * s0.height, vx_c1_1 == s0.width,
        forall|r: int, c: int| 0 <= r < vx_i1 && 0 <= c < s0.width ==> #[trigger] copied_px(vx_s1_0@, s0, r, c),
    decreases vx_n1 - vx_i1
//@in loop 1
    let ghost f0 = vx_s1_0@;
    proof { n_row(vx_i1 as int, s0.height as int, s0.width as int); }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == s0.width, row@.len() == s0.width, vx_s2_0@ == s0.row(vx_j1 as int), forall|c: int| 0 <= c < vx_i2 ==> (#[trigger] row@[c])@ == Some(s0.row(vx_j1 as int)[c]),
    decreases vx_n2 - vx_i2
//@end loop 1
    proof { assert forall|r: int, c: int| 0 <= r < vx_i1 && 0 <= c < s0.width implies #[trigger] copied_px(vx_s1_0@, s0, r, c) by { n_row(r, s0.height as int, s0.width as int); n_row(vx_j1 as int, s0.height as int, s0.width as int);
      if r < vx_j1 { n_lt(r, vx_j1 as int, s0.width as int); assert(copied_px(f0, s0, r, c)); } else { let k = r * s0.width + c; } } }
//@before PixelsSource :: for_pixels
    proof { n_row(s0.height - 1, s0.height as int, s0.width as int); assert(pixels@ == all_px(s0)); }
//@before let out = box_assume_init
    proof {
      let P = all_px(s0);
      assert forall|k: int| 0 <= k < out@.len() implies (#[trigger] out@[k])@ == Some(P[k]) by { n_mod(k, s0.width as int, s0.height as int); assert(copied_px(out@, s0, k / (s0.width as int), k % (s0.width as int))); }
      assert(all_are(out@, P));
      assert forall|r: int| 0 <= r < s0.height implies P.subrange(r * s0.width, r * s0.width + s0.width) == #[trigger] s0.row(r) by {
        n_row(r, s0.height as int, s0.width as int);
        assert forall|c: int| 0 <= c < s0.width implies P.subrange(r * s0.width, r * s0.width + s0.width)[c] == s0.row(r)[c] by { n_dm(r, c, s0.width as int); }
        assert(P.subrange(r * s0.width, r * s0.width + s0.width) =~= s0.row(r));
      }
    }
//@end
}
}
fn main() {}
