verus! {
/// colours of sane magnitude (what images and palettes hold, with room for what dithering and feedback add)
pub open spec fn bnd1(x: real) -> bool { -1000real <= x <= 1000real }
pub open spec fn bnd(p: f_pixel) -> bool { bnd1(p.0.a.r()) && bnd1(p.0.r.r()) && bnd1(p.0.g.r()) && bnd1(p.0.b.r()) }
pub open spec fn BIG() -> real { 100000000000000000000000000000000000000real }
pub proof fn sq_bound(x: real) requires -4000real <= x <= 4000real ensures sq(x) <= 16000000real { assert(x * x <= 16000000real) by (nonlinear_arith) requires -4000real <= x <= 4000real; }
pub proof fn dist_bound(p: f_pixel, q: f_pixel) requires bnd(p), bnd(q) ensures 0real <= dist(p, q) <= 48000000real {
  let da = q.0.a.r() - p.0.a.r();
  dist_nonneg(p, q);
  sq_bound(p.0.r.r() - q.0.r.r()); sq_bound(p.0.g.r() - q.0.g.r()); sq_bound(p.0.b.r() - q.0.b.r());
  sq_bound(p.0.r.r() - q.0.r.r() + da); sq_bound(p.0.g.r() - q.0.g.r() + da); sq_bound(p.0.b.r() - q.0.b.r() + da);
}
/// f32::INFINITY and f32::MAX: some number larger than any distance between sane colours (ASSUMED)
#[verifier::external_body] pub fn F_INFINITY() -> (z: F) ensures z.r() >= BIG() { unimplemented!() }
#[verifier::external_body] pub fn F_MAX() -> (z: F) ensures z.r() >= BIG() { unimplemented!() }
}
