// unit: props=C14,C16
//@import rows.rs
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include default.rs
//@include palf.rs
//@include hitem.rs
//@include hint.rs
//@include kmspec.rs
//@include map.rs
//@include rgba.rs
verus! {
/// the bytes of a colour read as an integer (a union in the source)
pub uninterp spec fn enc(c: RGBA) -> u32;
#[verifier::external_body] pub fn vx_rgba_int(c: RGBA) -> (r: u32) ensures r == enc(c) { unimplemented!() }
#[verifier::external_body] pub fn vx_u32_from_bytes(a: u8, b: u8, c: u8, d: u8) -> (r: u32) ensures a == b && b == c && c == d ==> r == (a as u32 | (a as u32) << 8 | (a as u32) << 16 | (a as u32) << 24) { unimplemented!() }
//@type src/hist.rs HistogramEntry derive=Clone,Copy
//@type src/hist.rs Histogram HashMap<u32,(u32,RGBA),U32Hasher>=>VxMap<u32,(u32,RGBA)> FixedColorsSet=>FixedSet
pub type HMap = Map<u32, (u32, RGBA)>;
//@type src/hist.rs HashColor derive=Clone,Copy
//@type src/hist.rs TempHistItem derive=Clone,Copy
/// HashSet<HashColor>, whose elements are told apart by their key (Kani: k_hashcolor)
#[verifier::external_body] pub struct FixedSet { x: u8 }
impl View for FixedSet { type V = Map<u32, HashColor>; uninterp spec fn view(&self) -> Map<u32, HashColor>; }
pub open spec fn fixed_ok(f: Map<u32, HashColor>) -> bool { forall|k: u32| #[trigger] f.dom().contains(k) ==> key_of(f[k].rgba, 0xFFFF_FFFFu32) == k }
/// the elements in some order, each once
pub open spec fn elems_of(s: Seq<HashColor>, f: Map<u32, HashColor>) -> bool { exists|p: Seq<(u32, HashColor)>| #[trigger] pairs_of(p, f) && p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p[i].1 }
impl FixedSet {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn contains(&self, c: &HashColor) -> (r: bool) ensures r == self@.dom().contains(key_of(c.rgba, 0xFFFF_FFFFu32)) { unimplemented!() }
  #[verifier::external_body] pub fn insert(&mut self, c: HashColor) -> (r: bool) ensures final(self)@ == fixed_add(old(self)@, c) { unimplemented!() }
  #[verifier::external_body] pub fn vx_elems(&self) -> (r: Vec<HashColor>) ensures elems_of(r@, self@) { unimplemented!() }
}
pub open spec fn fixed_add(f: Map<u32, HashColor>, c: HashColor) -> Map<u32, HashColor> { let k = key_of(c.rgba, 0xFFFF_FFFFu32); if f.dom().contains(k) { f } else { f.insert(k, c) } }
pub open spec fn mask(bits: u8) -> u32 { let c = (255u8 << bits) as u32; c | c << 8 | c << 16 | c << 24 }
pub open spec fn key_of(c: RGBA, m: u32) -> u32 { if c.a != 0 { m & enc(c) } else { 0 } }
pub open spec fn satadd(a: u32, b: u32) -> u32 { if a + b > u32::MAX { u32::MAX } else { (a + b) as u32 } }
/// adding a colour: weightless ones are ignored, equal ones accumulate, the others stay as they were
pub open spec fn add1(h: HMap, m: u32, c: RGBA, boost: u32) -> HMap {
  let k = key_of(c, m);
  if boost == 0 { h } else if h.dom().contains(k) { h.insert(k, (satadd(h[k].0, boost), h[k].1)) } else { h.insert(k, (boost, c)) }
}
/// every entry is of colours that agree with its key in the bits that are kept
pub open spec fn map_ok(h: HMap, m: u32) -> bool { forall|k: u32| #[trigger] h.dom().contains(k) ==> k & m == key_of(h[k].1, m) }
pub open spec fn hist_ok(h: Histogram) -> bool { h.posterize_bits <= 4 && map_ok(h.hashmap@, mask(h.posterize_bits)) }
proof fn and_idem(m: u32, x: u32) by (bit_vector) ensures (m & x) & m == m & x, 0u32 & m == 0 {}
proof fn add1_ok(h: HMap, m: u32, c: RGBA, boost: u32) requires map_ok(h, m) ensures map_ok(add1(h, m, c, boost), m) { and_idem(m, enc(c)); }
proof fn mask_sub(a: u8, b: u8) by (bit_vector) requires a <= b, b <= 7 ensures mask(a) & mask(b) == mask(b) {}
impl Histogram {
//@fn src/hist.rs Histogram::posterize_mask
    requires self.posterize_bits <= 7,
    ensures r == mask(self.posterize_bits),
//@pre
const fn => fn
u32 :: from_ne_bytes ( [ channel_mask , channel_mask , channel_mask , channel_mask ] ) => vx_u32_from_bytes ( channel_mask , channel_mask , channel_mask , channel_mask )
//@end
//@fn src/hist.rs Histogram::add_color
    requires hist_ok(*old(self)),
    ensures hist_ok(*final(self)), final(self).hashmap@ == add1(old(self).hashmap@, mask(old(self).posterize_bits), rgba, boost), same_settings(*old(self), *final(self)),
//@pre
unsafe { RGBAInt { rgba } . int } => vx_rgba_int ( rgba )
//@entry
    proof { add1_ok(self.hashmap@, mask(self.posterize_bits), rgba, boost); }
//@end
}
pub open spec fn same_settings(a: Histogram, b: Histogram) -> bool { a.posterize_bits == b.posterize_bits && a.fixed_colors == b.fixed_colors && a.gamma == b.gamma && a.max_histogram_entries == b.max_histogram_entries }

/// the weight of the entries whose key agrees with q in the bits that are kept
pub open spec fn wsum(p: Seq<(u32, (u32, RGBA))>, q: u32, m: u32, n: int) -> int decreases n { if n <= 0 { 0 } else { wsum(p, q, m, n - 1) + (if p[n - 1].0 & m == q { p[n - 1].1.0 as int } else { 0 }) } }
proof fn wsum_pos(p: Seq<(u32, (u32, RGBA))>, q: u32, m: u32, n: int) ensures wsum(p, q, m, n) >= 0 decreases n { if n > 0 { wsum_pos(p, q, m, n - 1); } }
pub open spec fn sat32(x: int) -> int { if x > u32::MAX { u32::MAX as int } else { x } }
/// the first n entries, merged: one entry per key that occurs, with the summed weight and the colour of one of them
pub open spec fn merged(p: Seq<(u32, (u32, RGBA))>, m: u32, n: int, h: HMap) -> bool {
  &&& forall|q: u32| #[trigger] h.dom().contains(q) ==> h[q].0 == sat32(wsum(p, q, m, n)) && exists|j: int| 0 <= j < n && (#[trigger] p[j]).0 & m == q && p[j].1.1 == h[q].1
  &&& forall|j: int| 0 <= j < n ==> h.dom().contains((#[trigger] p[j]).0 & m)
  &&& forall|q: u32| !(#[trigger] h.dom().contains(q)) ==> wsum(p, q, m, n) == 0
}
proof fn and_sub(k: u32, e: u32, m1: u32, m2: u32) by (bit_vector) requires k & m1 == m1 & e, m1 & m2 == m2 ensures (k & m2) & m2 == m2 & e {}
proof fn and_sub0(k: u32, m1: u32, m2: u32) by (bit_vector) requires k & m1 == 0, m1 & m2 == m2 ensures (k & m2) & m2 == 0 {}
proof fn merged_ok(p: Seq<(u32, (u32, RGBA))>, h0: HMap, h: HMap, m1: u32, m2: u32) requires pairs_of(p, h0), map_ok(h0, m1), m1 & m2 == m2, merged(p, m2, p.len() as int, h) ensures map_ok(h, m2) {
  assert forall|q: u32| #[trigger] h.dom().contains(q) implies q & m2 == key_of(h[q].1, m2) by {
    let j = choose|j: int| 0 <= j < p.len() && (#[trigger] p[j]).0 & m2 == q && p[j].1.1 == h[q].1;
    let k = p[j].0; assert(h0.dom().contains(k)); let c = h0[k].1;
    if c.a != 0 { and_sub(k, enc(c), m1, m2); } else { and_sub0(k, m1, m2); }
  }
}
/// precision was reduced from h0: entries that agree in the remaining bits were merged, their weights added up
pub open spec fn reduced(h0: HMap, m: u32, h: HMap) -> bool { exists|p: Seq<(u32, (u32, RGBA))>| #[trigger] pairs_of(p, h0) && merged(p, m, p.len() as int, h) }
impl Histogram {
//@fn src/hist.rs Histogram::init_posterize_bits
    requires hist_ok(*old(self)), posterize_bits <= 4,
    ensures hist_ok(*final(self)), final(self).posterize_bits == (if old(self).posterize_bits >= posterize_bits { old(self).posterize_bits } else { posterize_bits }),
        final(self).fixed_colors == old(self).fixed_colors, final(self).gamma == old(self).gamma, final(self).max_histogram_entries == old(self).max_histogram_entries,
        old(self).posterize_bits >= posterize_bits ==> final(self).hashmap@ == old(self).hashmap@,
        old(self).posterize_bits < posterize_bits ==> reduced(old(self).hashmap@, mask(posterize_bits), final(self).hashmap@),
//@pre
std :: mem :: replace ( & mut self . hashmap , HashMap :: with_capacity_and_hasher ( new_size , U32Hasher ( 0 ) ) ) => vx_take ( & mut self . hashmap )
in old_hashmap => in old_hashmap . vx_pairs ( ) . iter ( ) . copied ( )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    let ghost h0 = self.hashmap@; let ghost b0 = self.posterize_bits; let ghost mut gp = Seq::<(u32, (u32, RGBA))>::empty();
//@before loop 1
    proof { gp = vx_s1_0@; assert(pairs_of(gp, h0)); }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == gp.len(), vx_s1_0@ == gp, merged(gp, new_posterize_mask, vx_i1 as int, self.hashmap@),
        self.posterize_bits == posterize_bits, self.fixed_colors == old(self).fixed_colors, self.gamma == old(self).gamma, self.max_histogram_entries == old(self).max_histogram_entries,
    decreases vx_n1 - vx_i1
//@in loop 1
    let ghost h1 = self.hashmap@;
    proof { wsum_pos(gp, gp[vx_i1 as int].0 & new_posterize_mask, new_posterize_mask, vx_i1 as int); }
//@after loop 1
    proof { mask_sub(b0, posterize_bits); merged_ok(gp, h0, self.hashmap@, mask(b0), mask(posterize_bits)); }
//@end
//@fn src/hist.rs Histogram::reserve
    ensures final(self).hashmap@ == old(self).hashmap@, same_settings(*old(self), *final(self)),
//@end
}
#[verifier::external_body] pub fn vx_take<K, V>(m: &mut VxMap<K, V>) -> (r: VxMap<K, V>) ensures r@ == old(m)@, final(m)@ == Map::<K, V>::empty() { unimplemented!() }

pub open spec fn addn(h: HMap, m: u32, e: Seq<HistogramEntry>, n: int) -> HMap decreases n { if n <= 0 { h } else { add1(addn(h, m, e, n - 1), m, e[n - 1].color, e[n - 1].count) } }
pub open spec fn gamma_ok(g: F) -> bool { 0real <= g.r() < 1real }
pub open spec fn gamma_after(old_: Option<F>, g: F) -> Option<F> { if old_.is_none() && g.r() > 0real { Some(g) } else { old_ } }
/// chunks_exact(width).fuse(), which is advanced once per row
#[verifier::external_body] pub struct VxChunks<'a> { x: &'a u8 }
impl<'a> VxChunks<'a> {
  pub uninterp spec fn all(&self) -> Seq<u8>;
  pub uninterp spec fn size(&self) -> int;
  pub uninterp spec fn at(&self) -> int;
  #[verifier::external_body] pub fn new(s: &'a [u8], c: usize) -> (r: Self) requires c > 0 ensures r.all() == s@, r.size() == c, r.at() == 0 { unimplemented!() }
  #[verifier::external_body] pub fn vx_next_or_empty(&mut self) -> (r: &'a [u8]) ensures final(self).all() == old(self).all(), final(self).size() == old(self).size(), final(self).at() == old(self).at() + 1,
    r@ == (if (old(self).at() + 1) * old(self).size() <= old(self).all().len() { old(self).all().subrange(old(self).at() * old(self).size(), (old(self).at() + 1) * old(self).size()) } else { Seq::empty() }) { unimplemented!() }
}
/// the weight of a pixel: its value in the importance map, or 255 without one
pub open spec fn weight_at(m: Option<Seq<u8>>, i: int) -> u32 { if m.is_some() { m->0[i] as u32 } else { 255 } }
pub open spec fn mview(m: Option<&[u8]>) -> Option<Seq<u8>> { if m.is_some() { Some(m->0@) } else { None } }
pub open spec fn add_row(h: HMap, m: u32, row: Seq<RGBA>, imp: Option<Seq<u8>>, base: int, n: int) -> HMap decreases n { if n <= 0 { h } else { add1(add_row(h, m, row, imp, base, n - 1), m, row[n - 1], weight_at(imp, base + n - 1)) } }
/// the pixels of the first n rows, added one by one
pub open spec fn add_rows(h: HMap, m: u32, px: DynamicRows, imp: Option<Seq<u8>>, n: int) -> HMap decreases n { if n <= 0 { h } else { add_row(add_rows(h, m, px, imp, n - 1), m, px.row(n - 1), imp, (n - 1) * px.w(), px.w() as int) } }
proof fn n_le(a: int, b: int, w: int) by (nonlinear_arith) requires a < b, w >= 0 ensures (a + 1) * w <= b * w, a * w + w == (a + 1) * w, 0 <= a ==> 0 <= a * w {}
impl Histogram {
//@fn src/hist.rs Histogram::add_colors
    requires hist_ok(*old(self)),
    ensures hist_ok(*final(self)), r.is_ok() == (0 < entries@.len() <= 0x1000000 && gamma_ok(gamma)), r.is_err() ==> *final(self) == *old(self) && r->Err_0 == Error::ValueOutOfRange,
        r.is_ok() ==> final(self).hashmap@ == addn(old(self).hashmap@, mask(old(self).posterize_bits), entries@, entries@.len() as int) && final(self).gamma == gamma_after(old(self).gamma, gamma)
            && final(self).posterize_bits == old(self).posterize_bits && final(self).fixed_colors == old(self).fixed_colors && final(self).max_histogram_entries == old(self).max_histogram_entries,
//@pre
ValueOutOfRange => Error::ValueOutOfRange
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    assert(1usize << 24 == 0x1000000) by (compute);
    let ghost h0 = self.hashmap@;
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == entries@.len(), hist_ok(*self), self.hashmap@ == addn(h0, mask(old(self).posterize_bits), entries@, vx_i1 as int), self.gamma == gamma_after(old(self).gamma, gamma), self.posterize_bits == old(self).posterize_bits, self.fixed_colors == old(self).fixed_colors, self.max_histogram_entries == old(self).max_histogram_entries,
    decreases vx_n1 - vx_i1
//@end
//@fn src/hist.rs Histogram::add_pixel_rows
    requires hist_ok(*old(self)), posterize_bits <= 4, px_ok(*image), importance_map.is_some() ==> importance_map->0@.len() == image.w() * image.h(),
    ensures hist_ok(*final(self)), final(self).fixed_colors == old(self).fixed_colors, final(self).gamma == old(self).gamma, final(self).max_histogram_entries == old(self).max_histogram_entries,
        r.is_ok() ==> counted(*old(self), *final(self), *image, mview(importance_map), posterize_bits),
        r.is_err() ==> *final(self) == *old(self) && (r->Err_0 == Error::OutOfMemory || r->Err_0 == Error::Unsupported && !has_source(image.pixels)), plain(r), r.is_ok() ==> has_source(image.pixels),
//@pre
image : & DynamicRows < '_ , '_ > => image : & DynamicRows
importance_map . unwrap_or ( & [ ] ) . chunks_exact ( width ) . fuse ( ) => VxChunks :: new ( vx_map_or_empty ( importance_map ) , width )
importance_map . next ( ) . map ( move | m | & m [ .. width ] ) . unwrap_or ( & [ ] ) => importance_map . vx_next_or_empty ( )
let mut temp_row = temp_buf ( width ) ? => let mut temp_row : Vec < MaybeUninit < RGBA > > = temp_buf ( width ) ?
& mut temp_row => temp_row . as_mut_slice ( )
//@attrs
#[verifier::loop_isolation(false)]
//@entry
    proof { n_prod(image.width as int, image.height as int); }
    let ghost h0 = self.hashmap@; let ghost imp = mview(importance_map); let ghost M = mask(self.posterize_bits);
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == height, temp_row@.len() == width, hist_ok(*self), same_settings(*old(self), *self), self.hashmap@ == add_rows(h0, M, *image, imp, vx_i1 as int),
        importance_map.size() == width, importance_map.at() == vx_i1, importance_map.all() == (if imp.is_some() { imp->0 } else { Seq::<u8>::empty() }),
    decreases vx_n1 - vx_i1
//@in loop 1
    let ghost (h1, r0) = (self.hashmap@, vx_i1 as int);
    proof { n_le(vx_i1 as int, height as int, width as int); n_com(image.w() as int, image.h() as int); }
//@before loop 2
    assert(imp.is_some() ==> importance_map@.len() == width && importance_map@ == imp->0.subrange(r0 * width, (r0 + 1) * width));
    assert(imp.is_none() ==> importance_map@.len() == 0);
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == width, hist_ok(*self), same_settings(*old(self), *self), self.hashmap@ == add_row(h1, M, image.row(r0), imp, r0 * width, vx_i2 as int),
    decreases vx_n2 - vx_i2
//@before self . add_color ( px , boost . into ( ) ) ;
    assert(boost as u32 == weight_at(imp, r0 * width + vx_j2));
//@after self . init_posterize_bits ( posterize_bits ) ;
    let ghost h2 = self.hashmap@;
    assert(to_bits(old(self).posterize_bits, posterize_bits, add_rows(h0, M, *image, imp, image.h() as int), h2));
//@end
}
#[verifier::external_body] pub fn vx_map_or_empty<'a>(m: Option<&'a [u8]>) -> (r: &'a [u8]) ensures r@ == (if m.is_some() { m->0@ } else { Seq::<u8>::empty() }) { unimplemented!() }
pub open spec fn maybe_reduced(c: bool, h: HMap, m: u32, h2: HMap) -> bool { if c { reduced(h, m, h2) } else { h2 == h } }
pub open spec fn to_bits(b0: u8, bits: u8, h: HMap, h2: HMap) -> bool { maybe_reduced(b0 < bits, h, mask(bits), h2) }
/// every pixel was counted once; then the precision was reduced to what was asked for, and once more if there are too many colours
pub open spec fn counted(a: Histogram, b: Histogram, px: DynamicRows, imp: Option<Seq<u8>>, bits: u8) -> bool {
  let h = add_rows(a.hashmap@, mask(a.posterize_bits), px, imp, px.h() as int);
  let b1 = if a.posterize_bits >= bits { a.posterize_bits } else { bits };
  exists|h2: HMap| #[trigger] to_bits(a.posterize_bits, bits, h, h2)
    && b.posterize_bits == (if h2.len() > a.max_histogram_entries && b1 < 3 { (b1 + 1) as u8 } else { b1 })
    && maybe_reduced(h2.len() > a.max_histogram_entries && b1 < 3, h2, mask((b1 + 1) as u8), b.hashmap@)
}

impl Clone for HistItem { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn F_NAN() -> F { unimplemented!() }
#[verifier::external_body] pub fn vx_any_tmp() -> HistSortTmp { unimplemented!() }
#[verifier::external_body] pub fn vx_try_reserve(n: usize) -> Result<(), Error> { unimplemented!() }
#[verifier::external_body] pub fn vx_sort_keys(s: &mut Vec<HashColor>, keys: &Vec<PalIndex>) requires keys@.len() == old(s)@.len(), forall|i: int| 0 <= i < keys@.len() ==> #[trigger] keys@[i] == old(s)@[i].index
  ensures exists|perm: Seq<int>, inv: Seq<int>| #[trigger] sorted_ix(old(s)@, final(s)@, perm, inv) { unimplemented!() }
pub open spec fn sorted_ix(o: Seq<HashColor>, n: Seq<HashColor>, perm: Seq<int>, inv: Seq<int>) -> bool {
  n.len() == o.len() && perm.len() == o.len() && inv.len() == o.len()
  && (forall|k: int| 0 <= k < o.len() ==> 0 <= #[trigger] perm[k] < o.len() && n[k] == o[perm[k]])
  && (forall|k: int| 0 <= k < o.len() ==> 0 <= #[trigger] inv[k] < o.len() && perm[inv[k]] == k)
  && (forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] n[i]).index <= (#[trigger] n[j]).index)
}
/// the histogram with the fixed colours put in, marked by a weight of 0
pub open spec fn put_fixed(h: HMap, s: Seq<HashColor>, n: int) -> HMap decreases n { if n <= 0 { h } else { put_fixed(h, s, n - 1).insert(key_of(s[n - 1].rgba, 0xFFFF_FFFFu32), (0u32, s[n - 1].rgba)) } }
proof fn put_len(h: HMap, s: Seq<HashColor>, n: int) requires n >= 0 ensures put_fixed(h, s, n).len() <= h.len() + n decreases n { if n > 0 { put_len(h, s, n - 1); } }
pub open spec fn cidx(c: RGBA) -> u8 { ((c.r >> 7) << 3) | ((c.g >> 7) << 2) | ((c.b >> 7) << 1) | (c.a >> 7) }
proof fn cidx_lt(r: u8, g: u8, b: u8, a: u8) by (bit_vector) ensures (((r >> 7) << 3) | ((g >> 7) << 2) | ((b >> 7) << 1) | (a >> 7)) < 16 {}
type Vals = Seq<(u32, RGBA)>;
pub open spec fn cnt(v: Vals, c: int, n: int) -> int decreases n { if n <= 0 { 0 } else { cnt(v, c, n - 1) + (if cidx(v[n - 1].1) == c { 1int } else { 0 }) } }
/// where a cluster begins
pub open spec fn csum(v: Vals, c: int, n: int) -> int decreases c { if c <= 0 { 0 } else { csum(v, c - 1, n) + cnt(v, c - 1, n) } }
proof fn cnt_mono(v: Vals, c: int, a: int, b: int) requires 0 <= a <= b ensures 0 <= cnt(v, c, a) <= cnt(v, c, b) decreases b { if a < b { cnt_mono(v, c, a, b - 1); } else if a > 0 { cnt_mono(v, c, a - 1, a - 1); } }
proof fn csum_mono(v: Vals, c: int, d: int, n: int) requires 0 <= c <= d, n >= 0 ensures 0 <= csum(v, c, n) <= csum(v, d, n) decreases d { if c < d { cnt_mono(v, d - 1, n, n); csum_mono(v, c, d - 1, n); } else if c > 0 { cnt_mono(v, c - 1, n, n); csum_mono(v, c - 1, c - 1, n); } }
proof fn csum_step(v: Vals, c: int, n: int) requires n > 0, c >= 0 ensures csum(v, c, n) == csum(v, c, n - 1) + (if cidx(v[n - 1].1) < c { 1int } else { 0 }) decreases c { if c > 0 { csum_step(v, c - 1, n); } }
proof fn csum_all(v: Vals, n: int) requires n >= 0 ensures csum(v, 16, n) == n decreases n { if n > 0 { csum_all(v, n - 1); csum_step(v, 16, n); let c = v[n - 1].1; cidx_lt(c.r, c.g, c.b, c.a); } else { csum_zero(v, 16); } }
proof fn csum_zero(v: Vals, c: int) ensures csum(v, c, 0) == 0 decreases c { if c > 0 { csum_zero(v, c - 1); } }
proof fn find_cluster(v: Vals, c: int, n: int, x: int) -> (r: int) requires 0 <= c <= 16, 0 <= x < csum(v, c, n), n >= 0 ensures 0 <= r < c, csum(v, r, n) <= x < csum(v, r + 1, n) decreases c { if x < csum(v, c - 1, n) { find_cluster(v, c - 1, n, x) } else { c - 1 } }
pub open spec fn total(v: Vals, n: int) -> real decreases n { if n <= 0 { 0real } else { total(v, n - 1) + (v[n - 1].0 as real) } }
pub open spec fn maxw(t: real) -> real { if t > 0real { 1real / 10real * (t / 256real) } else { 1real / 10real } }
/// the weight of a colour counts no more than a tenth of all; a fixed colour (0) counts as much as all
pub open spec fn wt(b: u32, m: real) -> real { if b > 0 { if (b as real) * (1real / 256real) <= m { (b as real) * (1real / 256real) } else { m } } else { m * 10real } }
pub open spec fn twt(v: Vals, m: real, n: int) -> real decreases n { if n <= 0 { 0real } else { twt(v, m, n - 1) + wt(v[n - 1].0, m) } }
proof fn maxw_pos(t: real) ensures maxw(t) > 0real {}
proof fn wt_pos(b: u32, m: real) requires m > 0real ensures wt(b, m) > 0real { if b > 0 { n_bpos(b as real); } }
proof fn n_bpos(b: real) by (nonlinear_arith) requires b > 0real ensures b * (1real / 256real) > 0real {}
pub open spec fn vals_of(v: Vals, h: HMap) -> bool { exists|p: Seq<(u32, (u32, RGBA))>| #[trigger] pairs_of(p, h) && p.len() == v.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] v[i] == p[i].1 }
pub open spec fn item_is(i: HistItem, v: (u32, RGBA), g: real, m: real) -> bool { i.color == conv(g, v.1) && i.perceptual_weight.r() == wt(v.0, m) && i.adjusted_weight.r() == wt(v.0, m) }
/// each entry of the histogram is one item, and there are no other items
pub open spec fn items_of(items: Seq<HistItem>, v: Vals, pos: Seq<int>, g: real) -> bool {
  items.len() == v.len() && pos.len() == v.len()
  && (forall|t: int| 0 <= t < v.len() ==> 0 <= #[trigger] pos[t] < items.len() && item_is(items[pos[t]], v[t], g, maxw(total(v, v.len() as int))))
  && (forall|s: int, t: int| 0 <= s < v.len() && 0 <= t < v.len() && s != t ==> #[trigger] pos[s] != #[trigger] pos[t])
}
/// all colours are within the bounds
pub open spec fn cols_ok(h: HMap, f: Map<u32, HashColor>, g: real) -> bool { (forall|k: u32| #[trigger] h.dom().contains(k) ==> in_range(conv(g, h[k].1))) && (forall|k: u32| #[trigger] f.dom().contains(k) ==> in_range(conv(g, f[k].rgba))) }
pub open spec fn fixed_list(r: Seq<f_pixel>, f: Map<u32, HashColor>, g: real) -> bool { exists|s: Seq<HashColor>, e: Seq<HashColor>, perm: Seq<int>, inv: Seq<int>| #[trigger] elems_of(e, f) && #[trigger] sorted_ix(e, s, perm, inv) && r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r[i] == conv(g, s[i].rgba) }
proof fn put_cols(h: HMap, s: Seq<HashColor>, f: Map<u32, HashColor>, g: real, n: int) requires cols_ok(h, f, g), elems_of(s, f), 0 <= n <= s.len() ensures cols_ok(put_fixed(h, s, n), f, g) decreases n {
  if n > 0 { put_cols(h, s, f, g, n - 1); let p = choose|p: Seq<(u32, HashColor)>| #[trigger] pairs_of(p, f) && p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == p[i].1; assert(s[n - 1] == p[n - 1].1); assert(f.dom().contains(p[n - 1].0)); }
}
proof fn and_all() ensures forall|x: u32| #[trigger] (0xFFFF_FFFFu32 & x) == x { assert forall|x: u32| #[trigger] (0xFFFF_FFFFu32 & x) == x by { and_one(x); } }
proof fn and_one(x: u32) by (bit_vector) ensures 0xFFFF_FFFFu32 & x == x {}
pub open spec fn temp_is(t: TempHistItem, v: (u32, RGBA)) -> bool { t.color == v.1 && t.weight.r() == v.0 as real && t.cluster_index == cidx(v.1) }
pub open spec fn temps_ok(t: Seq<TempHistItem>, v: Vals, n: int) -> bool { forall|i: int| 0 <= i < n ==> temp_is(#[trigger] t[i], v[i]) }
proof fn cnt_le(v: Vals, c: int, n: int) requires n >= 0 ensures cnt(v, c, n) <= n decreases n { if n > 0 { cnt_le(v, c, n - 1); } }
/// the place of an item is within its cluster
pub open spec fn pos_ok(v: Vals, t: int, x: int, n: int) -> bool { let c = cidx(v[t].1) as int; csum(v, c, v.len() as int) <= x < csum(v, c, v.len() as int) + cnt(v, c, n) }
pub open spec fn hit(v: Vals, c: int, pos: Seq<int>, x: int) -> bool { exists|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x }
proof fn pos_sep(v: Vals, t: int, x: int, n: int, ci: int, N: int) requires pos_ok(v, t, x, n), N == v.len(), 0 <= n < N, 0 <= ci < 16, cidx(v[n].1) == ci, 0 <= t < N ensures x != csum(v, ci, N) + cnt(v, ci, n) {
  let c = cidx(v[t].1) as int; cnt_mono(v, c, n, N); cnt_mono(v, ci, 0, n); cnt_mono(v, ci, n + 1, N);
  if c < ci { csum_mono(v, c + 1, ci, N); } else if c > ci { csum_mono(v, ci + 1, c, N); assert(csum(v, ci + 1, N) == csum(v, ci, N) + cnt(v, ci, N)); }
}
proof fn val_col(v: Vals, h: HMap, f: Map<u32, HashColor>, g: real, t: int) requires vals_of(v, h), cols_ok(h, f, g), 0 <= t < v.len() ensures in_range(conv(g, v[t].1)) {
  let p = choose|p: Seq<(u32, (u32, RGBA))>| #[trigger] pairs_of(p, h) && p.len() == v.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] v[i] == p[i].1;
  assert(v[t] == p[t].1); assert(h.dom().contains(p[t].0));
}
spec fn rsum(s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() } }
proof fn rsum_remove(s: Seq<real>, i: int) requires 0 <= i < s.len() ensures rsum(s) == rsum(s.remove(i)) + s[i] decreases s.len()
{ if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); } else { rsum_remove(s.drop_last(), i); assert(s.remove(i).drop_last() =~= s.drop_last().remove(i)); } }
spec fn at(f: Seq<real>, pos: Seq<int>) -> Seq<real> { Seq::new(pos.len(), |t: int| f[pos[t]]) }
/// the order does not matter for the sum
proof fn rsum_perm(f: Seq<real>, pos: Seq<int>)
  requires pos.len() == f.len(), forall|t: int| 0 <= t < pos.len() ==> 0 <= #[trigger] pos[t] < f.len(), forall|s: int, t: int| 0 <= s < pos.len() && 0 <= t < pos.len() && s != t ==> #[trigger] pos[s] != #[trigger] pos[t], forall|x: int| 0 <= x < f.len() ==> #[trigger] surj(pos, x)
  ensures rsum(at(f, pos)) == rsum(f) decreases f.len()
{
  if f.len() > 0 {
    let n = f.len() - 1; assert(surj(pos, n as int)); let t0 = choose|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == n;
    let (g, q) = (f.drop_last(), pos.remove(t0));
    assert forall|t: int| 0 <= t < q.len() implies 0 <= #[trigger] q[t] < g.len() by { if t < t0 { assert(q[t] == pos[t]); } else { assert(q[t] == pos[t + 1]); } }
    assert forall|s: int, t: int| 0 <= s < q.len() && 0 <= t < q.len() && s != t implies #[trigger] q[s] != #[trigger] q[t] by { let a = if s < t0 { s } else { s + 1 }; let b = if t < t0 { t } else { t + 1 }; assert(pos[a] != pos[b]); }
    assert forall|x: int| 0 <= x < g.len() implies #[trigger] surj(q, x) by { assert(surj(pos, x)); let t = choose|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x; if t < t0 { assert(q[t] == x); } else { assert(t != t0); assert(q[t - 1] == x); } }
    rsum_perm(g, q);
    rsum_remove(at(f, pos), t0);
    assert(at(f, pos).remove(t0) =~= at(g, q)) by { assert forall|t: int| 0 <= t < q.len() implies f[q[t]] == #[trigger] g[q[t]] by {} }
  } else { assert(at(f, pos) =~= f); }
}
spec fn surj(pos: Seq<int>, x: int) -> bool { exists|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x }
spec fn pws(s: Seq<HistItem>) -> Seq<real> { Seq::new(s.len(), |i: int| s[i].perceptual_weight.r()) }
proof fn pws_sum(s: Seq<HistItem>, n: int) requires 0 <= n <= s.len() ensures pwsum(s, n) == rsum(pws(s).take(n)) decreases n { if n > 0 { pws_sum(s, n - 1); assert(pws(s).take(n).drop_last() =~= pws(s).take(n - 1)); } else { assert(pws(s).take(0) =~= Seq::empty()); } }
spec fn wts(v: Vals, m: real) -> Seq<real> { Seq::new(v.len(), |i: int| wt(v[i].0, m)) }
proof fn wts_sum(v: Vals, m: real, n: int) requires 0 <= n <= v.len() ensures twt(v, m, n) == rsum(wts(v, m).take(n)) decreases n { if n > 0 { wts_sum(v, m, n - 1); assert(wts(v, m).take(n).drop_last() =~= wts(v, m).take(n - 1)); } else { assert(wts(v, m).take(0) =~= Seq::empty()); } }
proof fn total_le(v: Vals, n: int) requires 0 <= n <= v.len() ensures 0real <= total(v, n) <= 4294967295real * (n as real) decreases n { if n > 0 { total_le(v, n - 1); n_mul1(n as real); } }
proof fn n_mul1(n: real) by (nonlinear_arith) ensures 4294967295real * n == 4294967295real * (n - 1real) + 4294967295real {}
proof fn wt_le(v: Vals, t: int) requires 0 <= t < v.len(), v.len() <= 0x1_0000_0000 ensures wt(v[t].0, maxw(total(v, v.len() as int))) <= 1000000000000000000000000real { let n = v.len() as int; total_le(v, n); n_mul2(n as real); }
proof fn n_mul2(n: real) by (nonlinear_arith) requires 0real <= n <= 4294967296real ensures 4294967295real * n <= 4294967295real * 4294967296real {}
/// the items have the weights of the entries, in another order
proof fn weights_ok(items: Seq<HistItem>, v: Vals, pos: Seq<int>, g: real)
  requires items_of(items, v, pos, g), v.len() <= 0x1_0000_0000, forall|x: int| 0 <= x < items.len() ==> #[trigger] surj(pos, x)
  ensures pwsum(items, items.len() as int) == twt(v, maxw(total(v, v.len() as int)), v.len() as int), weights_bounded(items)
{
  let m = maxw(total(v, v.len() as int)); let n = v.len() as int;
  pws_sum(items, n); wts_sum(v, m, n); assert(pws(items).take(n) =~= pws(items)); assert(wts(v, m).take(n) =~= wts(v, m));
  rsum_perm(pws(items), pos);
  assert(at(pws(items), pos) =~= wts(v, m)) by { assert forall|t: int| 0 <= t < n implies #[trigger] pws(items)[pos[t]] == wt(v[t].0, m) by { assert(item_is(items[pos[t]], v[t], g, m)); } }
  assert forall|x: int| 0 <= x < items.len() implies (#[trigger] items[x]).adjusted_weight.r() <= 1000000000000000000000000real by { assert(surj(pos, x)); let t = choose|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x; assert(item_is(items[pos[t]], v[t], g, m)); wt_le(v, t); }
}
/// the items are the entries of the histogram, with their weights, and no others
pub open spec fn all_items(h: HMap, items: Seq<HistItem>, tw: real, g: real) -> bool { exists|v: Vals, pos: Seq<int>| #[trigger] items_are(h, items, tw, g, v, pos) }
pub open spec fn items_are(h: HMap, items: Seq<HistItem>, tw: real, g: real, v: Vals, pos: Seq<int>) -> bool { vals_of(v, h) && items_of(items, v, pos, g) && tw == twt(v, maxw(total(v, v.len() as int)), v.len() as int) }
/// the first `n` entries have their items, each in the range of its cluster
#[verifier::opaque]
spec fn placed(v: Vals, N: int, g: real, mw: real, pos: Seq<int>, items: Seq<HistItem>, cl: Seq<Cluster>, n: int) -> bool {
  N == v.len() && 0 <= n <= N && items.len() == N && cl.len() == 16 && pos.len() == n
  && (forall|c: int| 0 <= c < 16 ==> (#[trigger] cl[c]).begin == csum(v, c, N) && cl[c].end == csum(v, c, N) + cnt(v, c, n))
  && (forall|t: int| 0 <= t < n ==> pos_ok(v, t, #[trigger] pos[t], n) && 0 <= pos[t] < N && item_is(items[pos[t]], v[t], g, mw))
  && (forall|s: int, t: int| 0 <= s < n && 0 <= t < n && s != t ==> #[trigger] pos[s] != #[trigger] pos[t])
  && (forall|c: int, x: int| 0 <= c < 16 && csum(v, c, N) <= x < csum(v, c, N) + cnt(v, c, n) ==> #[trigger] hit(v, c, pos, x))
}
proof fn placed_begin(v: Vals, g: real, mw: real, items: Seq<HistItem>, cl: Seq<Cluster>) requires items.len() == v.len(), cl.len() == 16, forall|c: int| 0 <= c < 16 ==> (#[trigger] cl[c]).begin == csum(v, c, v.len() as int) && cl[c].end == csum(v, c, v.len() as int) ensures placed(v, v.len() as int, g, mw, Seq::empty(), items, cl, 0) { reveal(placed); }
proof fn placed_room(v: Vals, N: int, g: real, mw: real, pos: Seq<int>, items: Seq<HistItem>, cl: Seq<Cluster>, n: int) requires placed(v, N, g, mw, pos, items, cl, n), 0 <= n < N
  ensures ({ let ci = cidx(v[n].1) as int; 0 <= ci < 16 && 0 <= cl[ci].end < N }), items.len() == N, cl.len() == 16, pos.len() == n
{ reveal(placed); let c = v[n].1; let ci = cidx(c) as int; cidx_lt(c.r, c.g, c.b, c.a); cnt_mono(v, ci, n + 1, N); csum_mono(v, ci + 1, 16, N); csum_mono(v, 0, ci, N); csum_all(v, N); cnt_mono(v, ci, 0, n); assert(csum(v, ci + 1, N) == csum(v, ci, N) + cnt(v, ci, N)); }
proof fn placed_step(v: Vals, N: int, g: real, mw: real, pos: Seq<int>, items: Seq<HistItem>, cl: Seq<Cluster>, n: int, items2: Seq<HistItem>, cl2: Seq<Cluster>)
  requires placed(v, N, g, mw, pos, items, cl, n), 0 <= n < N, ({ let ci = cidx(v[n].1) as int; let x = cl[ci].end as int; 0 <= ci < 16 && 0 <= x < N && items2 == items.update(x, items2[x]) && item_is(items2[x], v[n], g, mw) && cl2 == cl.update(ci, cl2[ci]) && cl2[ci].begin == cl[ci].begin && cl2[ci].end == x + 1 })
  ensures placed(v, N, g, mw, pos.push(cl[cidx(v[n].1) as int].end as int), items2, cl2, n + 1)
{
  reveal(placed);
  let ci = cidx(v[n].1) as int; let x0 = cl[ci].end as int; let pos2 = pos.push(x0); let m = n + 1;
  assert forall|t: int| 0 <= t < n implies pos[t] != x0 && pos_ok(v, t, #[trigger] pos[t], m) by { assert(pos_ok(v, t, pos[t], n)); pos_sep(v, t, pos[t], n, ci, N); cnt_mono(v, cidx(v[t].1) as int, n, m); }
  cnt_mono(v, ci, 0, n);
  assert(pos_ok(v, n, x0, m));
  assert forall|t: int| 0 <= t < m implies pos_ok(v, t, #[trigger] pos2[t], m) && 0 <= pos2[t] < N && item_is(items2[pos2[t]], v[t], g, mw) by { if t < n { assert(pos2[t] == pos[t]); assert(item_is(items[pos[t]], v[t], g, mw)); } }
  assert forall|s: int, t: int| 0 <= s < m && 0 <= t < m && s != t implies #[trigger] pos2[s] != #[trigger] pos2[t] by { if s < n { assert(pos2[s] == pos[s]); } if t < n { assert(pos2[t] == pos[t]); } }
  assert forall|c: int, x: int| 0 <= c < 16 && csum(v, c, N) <= x < csum(v, c, N) + cnt(v, c, m) implies #[trigger] hit(v, c, pos2, x) by {
    if x < csum(v, c, N) + cnt(v, c, n) { assert(hit(v, c, pos, x)); let t = choose|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x; assert(pos2[t] == x); } else { assert(c == ci && x == x0); assert(pos2[n] == x); } }
}
proof fn placed_done(v: Vals, N: int, g: real, mw: real, pos: Seq<int>, items: Seq<HistItem>, cl: Seq<Cluster>, h1: HMap, f0: Map<u32, HashColor>)
  requires placed(v, N, g, mw, pos, items, cl, N), mw == maxw(total(v, N)), vals_of(v, h1), cols_ok(h1, f0, g), N <= 0x1_0000_0000
  ensures items_of(items, v, pos, g), all_ok(items), pwsum(items, N) == twt(v, mw, N), weights_bounded(items), clusters_ok(cl, N), items.len() == N
{
  reveal(placed);
  maxw_pos(total(v, N)); csum_all(v, N);
  assert forall|x: int| 0 <= x < N implies #[trigger] surj(pos, x) by { let c = find_cluster(v, 16, N, x); assert(hit(v, c, pos, x)); let t = choose|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x; assert(pos[t] == x); }
  assert forall|x: int| 0 <= x < N implies item_ok(#[trigger] items[x]) by { assert(surj(pos, x)); let t = choose|t: int| 0 <= t < pos.len() && #[trigger] pos[t] == x; assert(pos_ok(v, t, pos[t], N)); wt_pos(v[t].0, mw); val_col(v, h1, f0, g, t); }
  assert(items_of(items, v, pos, g));
  weights_ok(items, v, pos, g);
  csum_zero(v, 0);
  assert forall|i: int| 0 <= i < 16 implies (#[trigger] cl[i]).end == csum(v, i + 1, N) by {}
  assert forall|i: int| 0 <= i < 16 implies (#[trigger] cl[i]).begin <= cl[i].end by { cnt_mono(v, i, 0, N); }
  assert forall|i: int| 0 < i < 16 implies cl[i - 1].end == (#[trigger] cl[i]).begin by { assert(cl[i - 1].end == csum(v, i, N)); }
}
impl Histogram {
//@fn src/hist.rs Histogram::finalize_builder closed zipmode=2 sortkeys floats=weight,total_weight
    requires gamma.r() > 0real, fixed_ok(old(self).fixed_colors@), old(self).hashmap@.len() + old(self).fixed_colors@.len() <= u32::MAX, cols_ok(old(self).hashmap@, old(self).fixed_colors@, gamma.r()),
    ensures same_settings(*old(self), *final(self)), exists|s: Seq<HashColor>| #[trigger] elems_of(s, old(self).fixed_colors@) && final(self).hashmap@ == put_fixed(old(self).hashmap@, s, s.len() as int),
        r.is_ok() ==> hist_good(r->Ok_0),
        r.is_ok() ==> clusters_ok((r->Ok_0).clusters@, (r->Ok_0).items@.len() as int) && all_ok((r->Ok_0).items@) && fixed_list((r->Ok_0).fixed_colors@, old(self).fixed_colors@, gamma.r()),
        r.is_ok() ==> all_items(final(self).hashmap@, (r->Ok_0).items@, (r->Ok_0).total_perceptual_weight.r(), gamma.r()),
//@pre
for & HashColor { rgba , .. } in & self . fixed_colors => for rgba in vx_rgbas ( & self . fixed_colors ) . iter ( ) . copied ( )
unsafe { RGBAInt { rgba } . int } => vx_rgba_int ( rgba )
temp . try_reserve_exact ( self . hashmap . len ( ) ) ? => vx_try_reserve ( self . hashmap . len ( ) ) ?
items . try_reserve_exact ( temp . len ( ) ) ? => vx_try_reserve ( temp . len ( ) ) ?
self . hashmap . values ( ) => self . hashmap . vx_values ( ) . iter ( )
let mut temp = Vec :: new ( ) => let mut temp : Vec < TempHistItem > = Vec :: new ( )
let mut items = Vec :: new ( ) => let mut items : Vec < HistItem > = Vec :: new ( )
cfg ! ( debug_assertions ) => vx_any_bool ( )
tmp : HistSortTmp { mc_sort_value : if vx_any_bool ( ) { ! 0 } else { 0 } } => tmp : vx_any_tmp ( )
let mut items = items . into_boxed_slice ( ) ; =>
self . fixed_colors . iter ( ) . collect ( ) => self . fixed_colors . vx_elems ( )
let mut counts = [ 0 ; LIQ_MAXCLUSTER ] => let mut counts = [ 0u32 ; LIQ_MAXCLUSTER ]
//@attrs
#[verifier::loop_isolation(false)] #[verifier::rlimit(60)]
//@entry
    let ghost (h0, f0, g) = (self.hashmap@, self.fixed_colors@, gamma.r());
    let ghost mut gs = Seq::<HashColor>::empty(); let ghost mut v: Vals = Seq::empty(); let ghost mut pos: Seq<int> = Seq::empty();
    let ghost mut N: int = 0; let ghost mut h1: HMap = Map::empty(); let ghost mut mw: real = 0real; let ghost mut ge = Seq::<HashColor>::empty(); let ghost mut gf = Seq::<HashColor>::empty(); let ghost mut gperm = Seq::<int>::empty(); let ghost mut ginv = Seq::<int>::empty(); let ghost mut gi = Seq::<HistItem>::empty(); let ghost mut gc = Seq::<Cluster>::empty();
    proof { and_all(); }
//@before loop 1
    proof { gs = choose|s: Seq<HashColor>| #[trigger] elems_of(s, f0) && s.len() == vx_s1_0@.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] vx_s1_0@[i] == s[i].rgba; }
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == gs.len(), same_settings(*old(self), *self), self.hashmap@ == put_fixed(h0, gs, vx_i1 as int),
    decreases vx_n1 - vx_i1
//@in loop 1
    proof { assert(vx_s1_0@[vx_i1 as int] == gs[vx_i1 as int].rgba); }
//@after loop 1
    proof { h1 = self.hashmap@; put_len(h0, gs, gs.len() as int); put_cols(h0, gs, f0, g, gs.len() as int); }
//@before loop 2
    proof { v = vx_s2_0@; assert(vals_of(v, h1)); }
//@loop 2
    invariant vx_i2 <= vx_n2, vx_n2 == v.len(), vx_s2_0@ == v, temp@.len() == vx_i2, temps_ok(temp@, v, vx_i2 as int), forall|c: int| 0 <= c < 16 ==> #[trigger] counts@[c] == cnt(v, c, vx_i2 as int),
    decreases vx_n2 - vx_i2
//@in loop 2
    proof { let c = v[vx_i2 as int].1; cidx_lt(c.r, c.g, c.b, c.a); assert forall|c: int| 0 <= c < 16 implies cnt(v, c, vx_i2 as int) <= vx_i2 by { cnt_le(v, c, vx_i2 as int); } }
//@after loop 2
    proof { N = v.len() as int; csum_all(v, N); }
//@loop 3
    invariant vx_i3 <= vx_n3, vx_n3 == 16, clusters@.len() == 16, next_begin == csum(v, vx_i3 as int, N), forall|c: int| 0 <= c < vx_i3 ==> (#[trigger] clusters@[c]).begin == csum(v, c, N) && clusters@[c].end == csum(v, c, N),
    decreases vx_n3 - vx_i3
//@in loop 3
    proof { csum_mono(v, vx_i3 + 1, 16, N); assert(csum(v, vx_i3 + 1, N) == csum(v, vx_i3 as int, N) + cnt(v, vx_i3 as int, N)); assert(counts@[vx_i3 as int] == cnt(v, vx_i3 as int, N)); }
//@loop 4
    invariant vx_i4 <= vx_n4, vx_n4 == N, vx_acc4.r() == total(v, vx_i4 as int),
    decreases vx_n4 - vx_i4
//@in loop 4
    assert(temp_is(temp@[vx_i4 as int], v[vx_i4 as int]));
//@before loop 5
    proof { mw = maxw(total(v, N)); maxw_pos(total(v, N)); placed_begin(v, g, mw, items@, clusters@); }
//@loop 5
    invariant vx_i5 <= vx_n5, vx_n5 == N, placed(v, N, g, mw, pos, items@, clusters@, vx_i5 as int), clusters@.len() == 16, max_perceptual_weight.r() == mw, total_perceptual_weight.r() == twt(v, mw, vx_i5 as int),
    decreases vx_n5 - vx_i5
//@in loop 5
    let ghost (i0, pos0, items0, cl0) = (vx_i5 as int, pos, items@, clusters@);
    let ghost ci = cidx(v[i0].1) as int;
    proof { assert(temp_is(temp@[i0], v[i0])); placed_room(v, N, g, mw, pos, items@, clusters@, i0); }
//@end loop 5
    proof { let x0 = cl0[ci].end as int; pos = pos0.push(x0); assert(items@ =~= items0.update(x0, items@[x0])); assert(clusters@ =~= cl0.update(ci, clusters@[ci])); placed_step(v, N, g, mw, pos0, items0, cl0, i0, items@, clusters@); }
//@after loop 5
    proof { placed_done(v, N, g, mw, pos, items@, clusters@, h1, f0); gi = items@; gc = clusters@; }
//@loop 6
    invariant vx_i6 <= vx_n6, vx_n6 == fixed_colors@.len(), vx_keys6@.len() == vx_i6, forall|i: int| 0 <= i < vx_i6 ==> #[trigger] vx_keys6@[i] == fixed_colors@[i].index, elems_of(fixed_colors@, f0),
    decreases vx_n6 - vx_i6
//@before loop 6
    proof { ge = fixed_colors@; }
//@before loop 7
    proof { gf = fixed_colors@; let (a, b) = choose|a: Seq<int>, b: Seq<int>| #[trigger] sorted_ix(ge, gf, a, b); gperm = a; ginv = b; }
//@loop 7
    invariant vx_i7 <= vx_n7, vx_n7 == gf.len(), fixed_colors@ == gf, vx_acc7@.len() == vx_i7, forall|i: int| 0 <= i < vx_i7 ==> #[trigger] vx_acc7@[i] == conv(g, gf[i].rgba),
    decreases vx_n7 - vx_i7
//@before Ok ( HistogramInternal {
    assert(items_are(self.hashmap@, items@, total_perceptual_weight.r(), g, v, pos));
    assert(fixed_list(fixed_colors@, f0, g)) by { assert(elems_of(ge, f0) && sorted_ix(ge, gf, gperm, ginv)); }
//@end
}
#[verifier::external_body] pub fn vx_rgbas(f: &FixedSet) -> (r: Vec<RGBA>) ensures exists|s: Seq<HashColor>| #[trigger] elems_of(s, f@) && s.len() == r@.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] r@[i] == s[i].rgba { unimplemented!() }
}
fn main() {}
