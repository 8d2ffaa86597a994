// unit: props=C01,C07,C11,C16
//@import rows.rs
//@import blur.rs
//@include attr.rs
//@include consts.rs
verus! {
//@type src/image.rs Image DynamicRows~<~'pixels~,~'pixels~>=>DynamicRows Image~<~'pixels~>=>Image Option~<~Box~<~[~u8~]~>~>=>Option<Vec<u8>>
pub open spec fn sized(m: Option<Vec<u8>>, n: int) -> bool { m.is_some() ==> (m->0)@.len() == n }
pub open spec fn img_ok1(i: Image) -> bool { px_ok(i.px) && i.fixed_colors@.len() <= 256 && sized(i.importance_map, i.px.width * i.px.height) && sized(i.edges, i.px.width * i.px.height) && (i.edges.is_some() ==> 3 * i.px.width * i.px.height <= LIQ_HIGH_MEMORY_LIMIT) && sized(i.dither_map, i.px.width * i.px.height) }
/// every image: made by new_internal, kept by everything that changes an image
pub open spec fn img_ok(i: Image) -> bool { img_ok1(i) && (i.background.is_some() ==> bg_ok(*(i.background->0), i.px)) }
pub open spec fn bg_ok(b: Image, px: DynamicRows) -> bool { img_ok1(b) && b.background.is_none() && b.px.width == px.width && b.px.height == px.height }
pub open spec fn map_of(i: Image) -> Option<Seq<u8>> { if i.importance_map.is_some() { Some((i.importance_map->0)@) } else { None } }
pub open spec fn size_ok(w: int, h: int) -> bool { 1 <= w <= i32::MAX && 1 <= h <= i32::MAX && w * h * 16 <= isize::MAX }
/// an iterator over chunks of a slice
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct VxChunkIter<'a, T> { x: &'a [T] }
impl<'a, T> VxChunkIter<'a, T> {
  pub uninterp spec fn all(&self) -> Seq<T>;
  pub uninterp spec fn size(&self) -> int;
  pub uninterp spec fn at(&self) -> int;
  #[verifier::external_body] pub fn new(s: &'a [T], c: usize) -> (r: Self) requires c > 0 ensures r.all() == s@, r.size() == c, r.at() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a [T]>) ensures final(self).all() == old(self).all(), final(self).size() == old(self).size(), r.is_some() == ((old(self).at() + 1) * old(self).size() <= old(self).all().len()),
    r.is_some() ==> final(self).at() == old(self).at() + 1 && (r->0)@ == old(self).all().subrange(old(self).at() * old(self).size(), (old(self).at() + 1) * old(self).size()) && (r->0)@.len() == old(self).size() { unimplemented!() }
}
impl ARGBF { pub fn vx_abs(self) -> (z: ARGBF) ensures z.a.r() >= 0real && z.r.r() >= 0real && z.g.r() >= 0real && z.b.r() >= 0real { ARGBF { a: self.a.abs(), r: self.r.abs(), g: self.g.abs(), b: self.b.abs() } } }
/// Option::get_or_insert_with
#[verifier::external_body] pub fn vx_get_or_insert(o: &mut Option<Vec<u8>>, v: Vec<u8>) -> (r: &mut Vec<u8>) ensures r@ == (if old(o).is_some() { (old(o)->0)@ } else { v@ }), final(o).is_some(), final(o)->0 == *final(r) { unimplemented!() }
#[verifier::external_body] pub fn vx_try_reserve_exact<T>(v: &mut Vec<T>, n: usize) -> (r: Result<(), Error>) ensures final(v)@ == old(v)@, r.is_err() ==> r->Err_0 == Error::OutOfMemory { unimplemented!() }
/// a remapped image; rows() gives its rows
#[verifier::external_body] pub struct RowBitmap { x: u8 }
impl RowBitmap {
  pub uninterp spec fn rows_(&self) -> Seq<Seq<PalIndexRemap>>;
  #[verifier::external_body] pub fn vx_len(&self) -> (r: usize) ensures r == self.rows_().len() { unimplemented!() }
  #[verifier::external_body] pub fn vx_row(&self, i: usize) -> (r: &[PalIndexRemap]) requires i < self.rows_().len() ensures r@ == self.rows_()[i as int] { unimplemented!() }
}
pub fn vx_peek<'a>(b: &'a RowBitmap, i: usize, n: usize) -> (r: Option<&'a [PalIndexRemap]>) requires n <= b.rows_().len() ensures r.is_some() == (i < n), r.is_some() ==> (r->0)@ == b.rows_()[i as int] { if i < n { Some(b.vx_row(i)) } else { None } }
/// the remapped rows fill the image and hold indices of the palette
pub open spec fn remapped_ok(b: RowBitmap, w: int, h: int, n: int) -> bool { b.rows_().len() == h && forall|r: int| 0 <= r < h ==> row_below(#[trigger] b.rows_()[r], w, n) }
pub open spec fn row_below(s: Seq<PalIndexRemap>, w: int, n: int) -> bool { s.len() == w && forall|c: int| 0 <= c < w ==> #[trigger] s[c] < n }
/// all but the maps
pub open spec fn same_img(a: Image, b: Image) -> bool { same_px(a.px, b.px) && a.px.pixels == b.px.pixels && a.fixed_colors == b.fixed_colors && a.background == b.background }
pub trait VxU32: Sized { spec fn v_(self) -> int; fn vx_u32(self) -> (r: Result<u32, Error>) ensures r.is_ok() == (self.v_() <= u32::MAX), r.is_ok() ==> r->Ok_0 == self.v_(), r.is_err() ==> r->Err_0 == Error::ValueOutOfRange; }
impl VxU32 for usize { open spec fn v_(self) -> int { self as int } fn vx_u32(self) -> (r: Result<u32, Error>) { if self <= 0xFFFF_FFFF { Ok(self as u32) } else { Err(Error::ValueOutOfRange) } } }
/// whether there is such an image
pub open spec fn made_ok(len: int, w: int, h: int, stride: int, g: F) -> bool { size_ok(w, h) && w <= stride <= u32::MAX && h * stride + w <= usize::MAX && len >= (h - 1) * stride + w && 0real <= g.r() <= 1real }
/// the image of these pixels
pub open spec fn img_of(i: Image, p: Seq<RGBA>, w: int, h: int, stride: int, g: F) -> bool {
  img_ok(i) && i.px.width == w && i.px.height == h && i.background.is_none() && map_of(i).is_none() && i.fixed_colors@.len() == 0 && i.px.gamma.r() == (if g.r() > 0real { g.r() } else { 45455real / 100000real }) && forall|y: int| 0 <= y < h ==> #[trigger] i.px.row(y) == p.subrange(y * stride, y * stride + w)
}
//@fn src/image.rs try_zero_vec pub
    ensures r.is_ok() ==> (r->Ok_0)@.len() == len, r.is_err() ==> r->Err_0 == Error::OutOfMemory,
//@pre
let mut vec = Vec :: new ( ) => let mut vec : Vec < u8 > = Vec :: new ( )
vec . try_reserve_exact ( len ) ? => vx_try_reserve_exact ( & mut vec , len ) ?
//@end
impl Image {
//@fn src/image.rs Image::width pub
    ensures r == self.px.width,
//@pre
const fn => fn
self . px . width as _ => self . px . width as usize
//@end
//@fn src/image.rs Image::height pub
    ensures r == self.px.height,
//@pre
const fn => fn
self . px . height as _ => self . px . height as usize
//@end
//@fn src/image.rs Image::gamma pub
    ensures r.is_some() == (self.px.gamma.r() > 0real), r.is_some() ==> r->0 == self.px.gamma,
//@end
//@fn src/image.rs Image::check_image_size pub
    ensures r == size_ok(width as int, height as int),
//@pre
std :: mem :: size_of :: < f_pixel > ( ) => vx_size_f_pixel ( )
//@entry
    proof { if height > 0 { n_size(width as int, height as int, isize::MAX as int); } }
//@end
//@fn src/image.rs Image::free_histogram_inputs pub
    requires img_ok(*old(self)),
    ensures img_ok(*final(self)), same_px(old(self).px, final(self).px), final(self).importance_map == old(self).importance_map, final(self).edges == old(self).edges, final(self).dither_map == old(self).dither_map, final(self).background == old(self).background, final(self).fixed_colors == old(self).fixed_colors,
//@end
//@fn src/image.rs Image::new_internal pub
    requires has_source(pixels), source_ok(pixels, width as int, height as int),
    ensures r.is_ok() == (size_ok(width as int, height as int) && 0real <= gamma.r() <= 1real), r.is_err() ==> r->Err_0 == Error::ValueOutOfRange,
        r.is_ok() ==> img_ok(r->Ok_0) && (r->Ok_0).px.width == width && (r->Ok_0).px.height == height && (r->Ok_0).px.pixels == pixels && (r->Ok_0).px.f_pixels.is_none() && (r->Ok_0).px.gamma.r() == (if gamma.r() > 0real { gamma.r() } else { 45455real / 100000real })
          && (r->Ok_0).importance_map.is_none() && (r->Ok_0).edges.is_none() && (r->Ok_0).dither_map.is_none() && (r->Ok_0).background.is_none() && (r->Ok_0).fixed_colors@.len() == 0,
//@pre
PixelsSource < 'pixels , 'pixels > => PixelsSource
( 0. ..= 1. ) . contains ( & gamma ) => ( gamma >= 0. && gamma <= 1. )
std :: mem :: size_of :: < f_pixel > ( ) => vx_size_f_pixel ( )
//@before if ( img . width ( ) ) * ( img . height ( ) )
    proof { n_prod(width as int, height as int); }
//@end
//@fn src/image.rs Image::set_importance_map pub
//@sig fn set_importance_map(&mut self, map: Vec<u8>) -> (r: Result<(), Error>)
    requires img_ok(*old(self)),
    ensures img_ok(*final(self)), r.is_ok() == (map@.len() == old(self).px.width * old(self).px.height), r.is_ok() ==> final(self).importance_map == Some(map), r.is_err() ==> r->Err_0 == Error::BufferTooSmall && *final(self) == *old(self),
        final(self).px == old(self).px, final(self).background == old(self).background, final(self).fixed_colors == old(self).fixed_colors, final(self).edges == old(self).edges, final(self).dither_map == old(self).dither_map,
//@pre
let map = map . into ( ) ; =>
//@entry
    proof { n_prod(self.px.width as int, self.px.height as int); }
//@end
//@fn src/image.rs Image::set_background pub
    requires img_ok(*old(self)), img_ok(background),
    ensures img_ok(*final(self)), r.is_ok() == (background.background.is_none() && background.px.width == old(self).px.width && background.px.height == old(self).px.height), r.is_err() ==> *final(self) == *old(self) && r->Err_0 == (if background.background.is_some() { Error::Unsupported } else { Error::BufferTooSmall }),
        r.is_ok() ==> final(self).background == Some(Box::new(background)), final(self).px == old(self).px, final(self).importance_map == old(self).importance_map, final(self).fixed_colors == old(self).fixed_colors, final(self).edges == old(self).edges, final(self).dither_map == old(self).dither_map,
//@end
//@fn src/image.rs Image::add_fixed_color pub
    requires img_ok(*old(self)),
    ensures img_ok(*final(self)), old(self).fixed_colors@.len() >= 256 ==> r.is_err() && r->Err_0 == Error::Unsupported, old(self).fixed_colors@.len() < 256 && r.is_err() ==> r->Err_0 == Error::OutOfMemory, r.is_err() ==> final(self).fixed_colors@ == old(self).fixed_colors@,
        r.is_ok() ==> final(self).fixed_colors@ == old(self).fixed_colors@.push(color), final(self).px == old(self).px, final(self).importance_map == old(self).importance_map, final(self).background == old(self).background, final(self).edges == old(self).edges, final(self).dither_map == old(self).dither_map,
//@pre
self . fixed_colors . try_reserve ( 1 ) ? => vx_try_reserve_exact ( & mut self . fixed_colors , 1 ) ?
. push_in_cap ( color ) => . push ( color )
//@end
//@fn src/image.rs Image::contrast_maps pub
    requires img_ok(*old(self)),
    ensures img_ok(*final(self)), same_img(*old(self), *final(self)), final(self).dither_map == old(self).dither_map, r.is_err() ==> r->Err_0 == Error::OutOfMemory,
//@pre
self . importance_map . as_deref_mut ( ) => & mut self . importance_map
{ n } else => { n . as_mut_slice ( ) } else
self . importance_map . get_or_insert_with ( move | | vec . into_boxed_slice ( ) ) => vx_get_or_insert ( & mut self . importance_map , vec ) . as_mut_slice ( )
self . edges . as_mut ( ) => & mut self . edges
{ e } else => { e . as_mut_slice ( ) } else
self . edges . get_or_insert_with ( move | | vec . into_boxed_slice ( ) ) => vx_get_or_insert ( & mut self . edges , vec ) . as_mut_slice ( )
let mut rows_iter = self . px . all_rows_f ( ) ? . chunks_exact ( width ) => let mut rows_iter = VxChunkIter :: new ( self . px . all_rows_f ( ) ? , width )
. map ( f32 :: abs ) => . vx_abs ( )
. zip ( noise ) => . zip ( noise . iter_mut ( ) )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    proof { n_prod(self.px.width as int, self.px.height as int); n_3(self.px.width as int, self.px.height as int); n_row(0, self.px.height as int, self.px.width as int); n_div(self.px.width as int, self.px.height as int); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == height, vx_s1_0@.len() == width * height, vx_s1_2@.len() == width * height, vx_c1_1 == width, vx_c1_3 == width, next_row@.len() == width, curr_row@.len() == width, rows_iter.size() == width,
    decreases vx_n1 - vx_i1
//@in loop 1
    proof { n_row(vx_i1 as int, height as int, width as int); }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == width, noise_row@.len() == width, edges_row@.len() == width, prev_row@.len() == width, curr_row@.len() == width, next_row@.len() == width,
    decreases vx_n2 - vx_i2
//@loop 3
    invariant vx_i3 <= vx_n3, vx_n3 == width * height, noise@.len() == width * height, edges@.len() == width * height,
    decreases vx_n3 - vx_i3
//@end
//@fn src/image.rs Image::new_stride_internal pub
    ensures r.is_ok() == made_ok(pixels@.len() as int, width as int, height as int, stride as int, gamma), r.is_ok() ==> img_of(r->Ok_0, pixels@, width as int, height as int, stride as int, gamma),
        r.is_err() ==> r->Err_0 == Error::ValueOutOfRange || r->Err_0 == Error::BufferTooSmall && pixels@.len() < (height - 1) * stride + width,
//@pre
SeaCow < 'a , RGBA > => SeaCow < RGBA >
Image < 'a > => Image
< 'a > =>
. try_into ( ) . map_err ( | _ | ValueOutOfRange ) ? => . vx_u32 ( ) ?
attr . verbose_print ( format ! ( "Buffer length is {} bytes, which is not enough for {}×{}×4 RGBA bytes" , pixels_len * 4 , stride , height ) ) ; =>
//@end
//@fn src/image.rs Image::new_stride_borrowed pub
    ensures r.is_ok() == made_ok(pixels@.len() as int, width as int, height as int, stride as int, gamma), r.is_ok() ==> img_of(r->Ok_0, pixels@, width as int, height as int, stride as int, gamma),
        r.is_err() ==> r->Err_0 == Error::ValueOutOfRange || r->Err_0 == Error::BufferTooSmall && pixels@.len() < (height - 1) * stride + width,
//@pre
& 'pixels [ RGBA ] => & [ RGBA ]
//@end
//@fn src/image.rs Image::new_borrowed pub
    ensures r.is_ok() == made_ok(pixels@.len() as int, width as int, height as int, width as int, gamma), r.is_ok() ==> img_of(r->Ok_0, pixels@, width as int, height as int, width as int, gamma),
//@pre
& 'pixels [ RGBA ] => & [ RGBA ]
//@end
//@fn src/image.rs Image::new_stride pub
//@sig fn new_stride(attr: &Attributes, pixels: Vec<RGBA>, width: usize, height: usize, stride: usize, gamma: F) -> (r: Result<Image, Error>)
    ensures r.is_ok() == made_ok(pixels@.len() as int, width as int, height as int, stride as int, gamma), r.is_ok() ==> img_of(r->Ok_0, pixels@, width as int, height as int, stride as int, gamma),
//@pre
pixels . into ( ) => pixels
//@end
//@fn src/image.rs Image::new pub
//@sig fn new(attr: &Attributes, pixels: Vec<RGBA>, width: usize, height: usize, gamma: F) -> (r: Result<Image, Error>)
    ensures r.is_ok() == made_ok(pixels@.len() as int, width as int, height as int, width as int, gamma), r.is_ok() ==> img_of(r->Ok_0, pixels@, width as int, height as int, width as int, gamma),
//@end
//@fn src/image.rs Image::new_fn pub
//@sig fn new_fn(attr: &Attributes, convert_row_fn: Callback, width: usize, height: usize, gamma: F) -> (r: Result<Image, Error>)
    requires forall|y: int, w: int| 0 <= y && 0 <= w ==> (#[trigger] convert_row_fn.row(y, w)).len() == w,
    ensures r.is_ok() == (size_ok(width as int, height as int) && 0real <= gamma.r() <= 1real), r.is_err() ==> r->Err_0 == Error::ValueOutOfRange,
        r.is_ok() ==> img_ok(r->Ok_0) && (r->Ok_0).px.width == width && (r->Ok_0).px.height == height && (r->Ok_0).background.is_none() && map_of(r->Ok_0).is_none() && forall|y: int| 0 <= y < height ==> #[trigger] (r->Ok_0).px.row(y) == convert_row_fn.row(y, width as int),
//@pre
. try_into ( ) . map_err ( | _ | ValueOutOfRange ) ? => . vx_u32 ( ) ?
Box :: new ( convert_row_fn ) => convert_row_fn
//@end
//@fn src/image.rs Image::update_dither_map pub
    requires img_ok(*old(self)), pal_wf(*palette), remapped_ok(*remapped_image, old(self).px.width as int, old(self).px.height as int, palette.colors@.len() as int),
    ensures img_ok(*final(self)), same_img(*old(self), *final(self)), r.is_err() ==> r->Err_0 == Error::OutOfMemory,
//@pre
RowBitmap < '_ , PalIndexRemap > => RowBitmap
Option < & [ _ ] > => Option < & [ PalIndexRemap ] >
let mut rows = remapped_image . rows ( ) . zip ( edges . chunks_exact_mut ( width ) ) . peekable ( ) ; => let vx_n0 = vx_min ( remapped_image . vx_len ( ) , vx_chunks_exact_len ( edges . len ( ) , width ) ) ; let mut vx_i0 : usize = 0 ;
while let Some ( ( this_row , edges ) ) = rows . next ( ) { => while vx_i0 < vx_n0 { let this_row = remapped_image . vx_row ( vx_i0 ) ; let edges = & mut edges [ vx_i0 * width .. vx_i0 * width + width ] ; vx_i0 = vx_i0 + 1 ;
if let Some ( ( next_row , _ ) ) = rows . peek ( ) => if let Some ( next_row ) = vx_peek ( remapped_image , vx_i0 , vx_n0 )
let Some ( mut edges ) = self . edges . take ( ) else { return Ok ( ( ) ) } ; => let Some ( mut vx_edges ) = self . edges . take ( ) else { return Ok ( ( ) ) } ; let edges = vx_edges . as_mut_slice ( ) ;
Some ( edges ) => Some ( vx_edges )
( colors [ px as usize ] ) . a < MIN_OPAQUE_A => ( colors [ px as usize ] ) . 0 . a < MIN_OPAQUE_A ( )
u16 :: from ( edges [ lastcol ] ) => ( edges [ lastcol ] as u16 )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost (W, H, N) = (self.px.width as int, self.px.height as int, palette.colors@.len() as int);
    proof { n_prod(W, H); n_div(W, H); }
//@loop 1
    invariant vx_i0 <= vx_n0, vx_n0 == H, width == W, edges@.len() == W * H, prev_row.is_some() ==> (prev_row->0)@.len() == W,
    decreases vx_n0 - vx_i0
//@before let this_row
    proof { limit_small(); n_w(W, H); n_row(vx_i0 as int, H, W); assert(row_below(remapped_image.rows_()[vx_i0 as int], W, N)); if vx_i0 + 1 < H { assert(row_below(remapped_image.rows_()[vx_i0 + 1], W, N)); } }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == W, edges@.len() == W, lastcol <= vx_i2,
    decreases vx_n2 - vx_i2
//@loop 3
    invariant lastcol <= i <= col, neighbor_count <= 10 * (col - lastcol) + 30 * (i - lastcol),
    decreases col - i
//@loop 4
    invariant lastcol <= col + 1, edges@.len() == W,
    decreases col + 1 - lastcol
//@end
}
proof fn limit_small() ensures LIQ_HIGH_MEMORY_LIMIT <= 0x1000_0000 { assert(LIQ_HIGH_MEMORY_LIMIT <= 0x1000_0000) by (compute); }
proof fn n_w(w: int, h: int) by (nonlinear_arith) requires w >= 1, h >= 1, 3 * w * h <= 0x1000_0000 ensures 3 * w <= 0x1000_0000 {}
proof fn n_3(w: int, h: int) by (nonlinear_arith) requires w >= 1, h >= 1, w * h * 16 <= isize::MAX ensures 3 * w * h <= isize::MAX, 3 * w <= isize::MAX {}
proof fn n_size(w: int, h: int, m: int) by (nonlinear_arith) requires w >= 0, h >= 1, m >= 0 ensures (w > m / 16 / h) == (w * h * 16 > m) {}
}
fn main() {}
