verus! {
/// contracts of the search tree; proved on its code in unit nearest
#[verifier::external_body] pub struct Nearest<'pal> { p: &'pal PalF }
pub uninterp spec fn near_pal(n: Nearest<'_>) -> Seq<f_pixel>;
pub open spec fn pal_bnd(pal: Seq<f_pixel>) -> bool { forall|i: int| 0 <= i < pal.len() ==> bnd(#[trigger] pal[i]) }
impl<'pal> Nearest<'pal> {
  #[verifier::external_body] pub fn new(palette: &'pal PalF) -> (r: Result<Nearest<'pal>, Error>)
    requires pal_wf(*palette), pal_bnd(palette.colors@)
    ensures palette.colors@.len() > 0 ==> r.is_ok(), plain(r), r.is_ok() ==> near_pal(r->Ok_0) == palette.colors@ && palette.colors@.len() > 0 { unimplemented!() }
  #[verifier::external_body] pub fn search(&self, px: &f_pixel, likely_colormap_index: PalIndex) -> (r: (PalIndex, F))
    requires bnd(*px)
    ensures r.0 < near_pal(*self).len(), r.1.r() == dist(*px, near_pal(*self)[r.0 as int]), 0real <= r.1.r() <= 48000000real,
        forall|j: int| 0 <= j < near_pal(*self).len() ==> r.1.r() <= dist(*px, #[trigger] near_pal(*self)[j]) { unimplemented!() }
}
}
