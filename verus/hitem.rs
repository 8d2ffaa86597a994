verus! {
use Error::*;
pub enum Error { OutOfMemory, Unsupported, QualityTooLow, Aborted, ValueOutOfRange, BufferTooSmall, InvalidPointer }
pub open spec fn is_aborted<T>(r: Result<T, Error>) -> bool { r.is_err() && r->Err_0 == Error::Aborted }
/// an error that is neither about quality nor an abort
pub open spec fn plain<T>(r: Result<T, Error>) -> bool { r.is_err() ==> r->Err_0 != Error::Aborted && r->Err_0 != Error::QualityTooLow }
pub open spec fn too_low<T>(r: Result<T, Error>) -> bool { r.is_err() && r->Err_0 == Error::QualityTooLow }
/// a union in the source; the two fields are kept apart here (each is written before it is read)
#[derive(Clone, Copy)]
pub struct HistSortTmp { pub mc_sort_value: u32, pub likely_palette_index: PalIndex }
//@type src/hist.rs HistItem
impl HistItem {
//@fn src/hist.rs HistItem::mc_sort_value pub
    ensures r == self.tmp.mc_sort_value,
//@end
//@fn src/hist.rs HistItem::likely_palette_index pub
    ensures r == self.tmp.likely_palette_index,
//@pre
std :: mem :: size_of :: < PalIndex > ( ) <= std :: mem :: size_of :: < u32 > ( ) => true
//@end
}
/// arbitrary per-channel bounds: what is proved holds for every choice of them
pub uninterp spec fn lo(c: int) -> real;
pub uninterp spec fn hi(c: int) -> real;
pub open spec fn chan(p: f_pixel, c: int) -> real { if c == 0 { p.0.a.r() } else if c == 1 { p.0.r.r() } else if c == 2 { p.0.g.r() } else { p.0.b.r() } }
pub open spec fn in_range(p: f_pixel) -> bool { lo(0) <= p.0.a.r() <= hi(0) && lo(1) <= p.0.r.r() <= hi(1) && lo(2) <= p.0.g.r() <= hi(2) && lo(3) <= p.0.b.r() <= hi(3) }
pub open spec fn item_ok(i: HistItem) -> bool { in_range(i.color) && i.adjusted_weight.r() > 0real && i.perceptual_weight.r() > 0real }
pub open spec fn all_ok(s: Seq<HistItem>) -> bool { forall|i: int| 0 <= i < s.len() ==> item_ok(#[trigger] s[i]) }
}
