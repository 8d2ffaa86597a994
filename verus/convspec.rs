verus! {
#[derive(Clone, Copy)]
pub struct RGBA { pub r: u8, pub g: u8, pub b: u8, pub a: u8 }
impl RGBA {
  pub fn default() -> (z: RGBA) ensures z == (RGBA { r: 0, g: 0, b: 0, a: 0 }) { RGBA { r: 0, g: 0, b: 0, a: 0 } }
  pub fn new(r: u8, g: u8, b: u8, a: u8) -> (z: RGBA) ensures z == (RGBA { r, g, b, a }) { RGBA { r, g, b, a } }
}
//@const src/pal.rs INTERNAL_GAMMA
//@const src/pal.rs LIQ_WEIGHT_A
//@const src/pal.rs LIQ_WEIGHT_R
//@const src/pal.rs LIQ_WEIGHT_G
//@const src/pal.rs LIQ_WEIGHT_B
//@const src/pal.rs MIN_OPAQUE_A
/// x to the power e, for x in 0..=1 and e > 0 (ASSUMED of mathematics: in 0..=1, and undone by the power of 1/e)
pub uninterp spec fn powr(x: real, e: real) -> real;
pub axiom fn powr_01(x: real, e: real) requires 0real <= x <= 1real, e > 0real ensures 0real <= powr(x, e) <= 1real;
pub axiom fn powr_inv(x: real, e: real, f: real) requires 0real <= x <= 1real, e > 0real, e * f == 1real ensures powr(powr(x, e), f) == x;
impl F { #[verifier::external_body] pub fn powf(self, e: F) -> (z: F) ensures z.r() == powr(self.r(), e.r()) { unimplemented!() } }
/// the number with this value
pub uninterp spec fn f_of(x: real) -> F;
pub broadcast axiom fn axiom_f_of(x: real) ensures (#[trigger] f_of(x)).r() == x;
pub open spec fn lut_at(g: real, i: int) -> real { powr(i as real / 255real, INTERNAL_GAMMA_r() / g) }
/// premultiplied, weighted, in internal gamma
#[verifier::opaque] pub open spec fn conv(g: real, c: RGBA) -> f_pixel {
  let a = c.a as real / 255real;
  f_pixel(ARGBF { a: f_of(a * LIQ_WEIGHT_A_r()), r: f_of(lut_at(g, c.r as int) * LIQ_WEIGHT_R_r() * a), g: f_of(lut_at(g, c.g as int) * LIQ_WEIGHT_G_r() * a), b: f_of(lut_at(g, c.b as int) * LIQ_WEIGHT_B_r() * a) })
}
pub open spec fn chan_out(x: real, w: real, a: real, g: real) -> u8 { sat(powr(LIQ_WEIGHT_A_r() / w * x / a, g / INTERNAL_GAMMA_r()) * 256real, 255) as u8 }
#[verifier::opaque] pub open spec fn unconv(g: real, p: f_pixel) -> RGBA {
  if p.0.a.r() < MIN_OPAQUE_A_r() { RGBA { r: 0, g: 0, b: 0, a: 0 } } else {
    RGBA { r: chan_out(p.0.r.r(), LIQ_WEIGHT_R_r(), p.0.a.r(), g), g: chan_out(p.0.g.r(), LIQ_WEIGHT_G_r(), p.0.a.r(), g), b: chan_out(p.0.b.r(), LIQ_WEIGHT_B_r(), p.0.a.r(), g), a: sat(256real / LIQ_WEIGHT_A_r() * p.0.a.r(), 255) as u8 }
  }
}
}
