verus! {
// ---- rgb::Argb<f32> and f_pixel; the operators of the rgb crate are per channel (ASSUMED of the dependency, written out here)
#[derive(Clone, Copy)]
pub struct ARGBF { pub a: F, pub r: F, pub g: F, pub b: F }
#[derive(Clone, Copy)]
pub struct f_pixel(pub ARGBF);
impl ARGBF { pub fn default() -> (z: ARGBF) ensures z.a.r() == 0real, z.r.r() == 0real, z.g.r() == 0real, z.b.r() == 0real { ARGBF { a: f_zero(), r: f_zero(), g: f_zero(), b: f_zero() } } }
impl f_pixel { pub fn default() -> (z: f_pixel) ensures z.0.a.r() == 0real, z.0.r.r() == 0real, z.0.g.r() == 0real, z.0.b.r() == 0real { f_pixel(ARGBF::default()) } }
impl AddSpecImpl for ARGBF { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: ARGBF) -> bool { true } open spec fn add_spec(self, o: ARGBF) -> ARGBF { self } }
impl SubSpecImpl for ARGBF { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: ARGBF) -> bool { true } open spec fn sub_spec(self, o: ARGBF) -> ARGBF { self } }
impl MulSpecImpl<F> for ARGBF { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> ARGBF { self } }
impl DivSpecImpl<F> for ARGBF { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: F) -> bool { true } open spec fn div_spec(self, o: F) -> ARGBF { self } }
impl core::ops::Add for ARGBF { type Output = ARGBF; fn add(self, o: ARGBF) -> (z: ARGBF) ensures z.a.r() == self.a.r() + o.a.r(), z.r.r() == self.r.r() + o.r.r(), z.g.r() == self.g.r() + o.g.r(), z.b.r() == self.b.r() + o.b.r() { ARGBF { a: self.a + o.a, r: self.r + o.r, g: self.g + o.g, b: self.b + o.b } } }
impl core::ops::Sub for ARGBF { type Output = ARGBF; fn sub(self, o: ARGBF) -> (z: ARGBF) ensures z.a.r() == self.a.r() - o.a.r(), z.r.r() == self.r.r() - o.r.r(), z.g.r() == self.g.r() - o.g.r(), z.b.r() == self.b.r() - o.b.r() { ARGBF { a: self.a - o.a, r: self.r - o.r, g: self.g - o.g, b: self.b - o.b } } }
impl core::ops::Mul<F> for ARGBF { type Output = ARGBF; fn mul(self, o: F) -> (z: ARGBF) ensures z.a.r() == self.a.r() * o.r(), z.r.r() == self.r.r() * o.r(), z.g.r() == self.g.r() * o.r(), z.b.r() == self.b.r() * o.r() { ARGBF { a: self.a * o, r: self.r * o, g: self.g * o, b: self.b * o } } }
impl core::ops::Div<F> for ARGBF { type Output = ARGBF; fn div(self, o: F) -> (z: ARGBF) ensures o.r() != 0real ==> z.a.r() == self.a.r() / o.r() && z.r.r() == self.r.r() / o.r() && z.g.r() == self.g.r() / o.r() && z.b.r() == self.b.r() / o.r() { ARGBF { a: self.a / o, r: self.r / o, g: self.g / o, b: self.b / o } } }
pub open spec fn sq(x: real) -> real { x * x }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
pub open spec fn chan_d(x: real, y: real, da: real) -> real { rmax(sq(x - y), sq(x - y + da)) }
/// the perceptual difference
pub open spec fn dist(p: f_pixel, q: f_pixel) -> real {
  let da = q.0.a.r() - p.0.a.r();
  chan_d(p.0.r.r(), q.0.r.r(), da) + chan_d(p.0.g.r(), q.0.g.r(), da) + chan_d(p.0.b.r(), q.0.b.r(), da)
}
pub proof fn sq_nonneg(x: real) by (nonlinear_arith) ensures x * x >= 0real {}
pub proof fn dist_nonneg(p: f_pixel, q: f_pixel) ensures dist(p, q) >= 0real { let da = q.0.a.r() - p.0.a.r(); sq_nonneg(p.0.r.r() - q.0.r.r()); sq_nonneg(p.0.g.r() - q.0.g.r()); sq_nonneg(p.0.b.r() - q.0.b.r()); }
#[verifier::external_body] pub fn vx_default_key<T>() -> T { unimplemented!() }
/// From<Argb<f32>> for f_pixel
impl ARGBF { pub fn vx_into(self) -> (z: f_pixel) ensures z.0 == self { f_pixel(self) } }
}
