//@include convspec.rs
//@include convlem.rs
verus! {
/// a table made by gamma_lut; unit conv verifies gamma_lut, from_rgba and to_rgb against these contracts
#[verifier::external_body] pub struct Lut { x: u8 }
impl Lut { pub uninterp spec fn g(&self) -> real; }
#[verifier::external_body] pub fn gamma_lut(gamma: F) -> (r: Lut) requires gamma.r() > 0real ensures r.g() == gamma.r() { unimplemented!() }
impl f_pixel {
  #[verifier::external_body] pub fn from_rgba(lut: &Lut, c: RGBA) -> (r: f_pixel) ensures r == conv(lut.g(), c) { unimplemented!() }
  #[verifier::external_body] pub fn to_rgb(self, gamma: F) -> (r: RGBA) requires gamma.r() > 0real ensures r == unconv(gamma.r(), self) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_any_bool() -> bool { unimplemented!() }
}
