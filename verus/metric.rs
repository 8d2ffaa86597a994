verus! {
// ---- dist is the square of a norm: what the search tree relies on
pub open spec fn rabs(x: real) -> real { if x >= 0real { x } else { -x } }
pub open spec fn cn(dx: real, da: real) -> real { rmax(rabs(dx), rabs(dx + da)) }
pub proof fn sq_abs(x: real) ensures sq(rabs(x)) == sq(x) { assert((-x) * (-x) == x * x) by (nonlinear_arith); }
pub proof fn sq_mono(x: real, y: real) requires 0real <= x <= y ensures sq(x) <= sq(y) { assert(x * x <= y * y) by (nonlinear_arith) requires 0real <= x <= y; }
pub proof fn cn_sq(x: real, y: real, da: real) ensures chan_d(x, y, da) == sq(cn(x - y, da)), cn(x - y, da) >= 0real {
  let u = x - y; let v = x - y + da;
  sq_abs(u); sq_abs(v);
  if rabs(u) >= rabs(v) { sq_mono(rabs(v), rabs(u)); } else { sq_mono(rabs(u), rabs(v)); }
}
pub proof fn rearr(x: real, y: real, u: real, v: real) by (nonlinear_arith) ensures (x * v) * (u * y) == (x * y) * (u * v) {}
pub proof fn sqdiff(p: real, q: real) by (nonlinear_arith) ensures (p - q) * (p - q) == p * p - 2real * (p * q) + q * q {}
pub proof fn cs2(x: real, y: real, u: real, v: real) ensures 2real * ((x * y) * (u * v)) <= (x * x) * (v * v) + (u * u) * (y * y) {
  let (p, q) = (x * v, u * y);
  sq_nonneg(p - q); sqdiff(p, q); comm2(x, v); comm2(u, y); rearr(x, y, u, v);
}
pub proof fn dist2(a: real, b: real, x: real) by (nonlinear_arith) ensures (a + b) * x == a * x + b * x, x * (a + b) == x * a + x * b {}
pub proof fn dist3(a: real, b: real, c: real, d: real, e: real, f: real) ensures (a + b + c) * (d + e + f) == a * d + a * e + a * f + b * d + b * e + b * f + c * d + c * e + c * f {
  let x = d + e + f;
  dist2(a + b, c, x); dist2(a, b, x);
  dist2(d + e, f, a); dist2(d, e, a); dist2(d + e, f, b); dist2(d, e, b); dist2(d + e, f, c); dist2(d, e, c);
}
pub proof fn comm2(x: real, y: real) by (nonlinear_arith) ensures (x * y) * (x * y) == (x * x) * (y * y), x * y == y * x {}
/// Cauchy-Schwarz in three dimensions
pub proof fn cs(x1: real, x2: real, x3: real, y1: real, y2: real, y3: real)
  ensures sq(x1*y1 + x2*y2 + x3*y3) <= (sq(x1) + sq(x2) + sq(x3)) * (sq(y1) + sq(y2) + sq(y3))
{
  let (s1, s2, s3) = (x1 * y1, x2 * y2, x3 * y3);
  dist3(s1, s2, s3, s1, s2, s3);
  dist3(x1 * x1, x2 * x2, x3 * x3, y1 * y1, y2 * y2, y3 * y3);
  comm2(x1, y1); comm2(x2, y2); comm2(x3, y3); comm2(s1, s2); comm2(s1, s3); comm2(s2, s3);
  cs2(x1, y1, x2, y2); cs2(x1, y1, x3, y3); cs2(x2, y2, x3, y3);
}
pub proof fn mink(x1: real, x2: real, x3: real, y1: real, y2: real, y3: real, a: real, b: real)
  requires a >= 0real, b >= 0real, sq(x1) + sq(x2) + sq(x3) <= sq(a), sq(y1) + sq(y2) + sq(y3) <= sq(b), x1 >= 0real, x2 >= 0real, x3 >= 0real, y1 >= 0real, y2 >= 0real, y3 >= 0real
  ensures sq(x1 + y1) + sq(x2 + y2) + sq(x3 + y3) <= sq(a + b)
{
  cs(x1, x2, x3, y1, y2, y3);
  let (xx, yy, xy) = (sq(x1) + sq(x2) + sq(x3), sq(y1) + sq(y2) + sq(y3), x1*y1 + x2*y2 + x3*y3);
  sq_nonneg(x1); sq_nonneg(x2); sq_nonneg(x3); sq_nonneg(y1); sq_nonneg(y2); sq_nonneg(y3);
  assert(xx * yy <= sq(a) * sq(b)) by (nonlinear_arith) requires 0real <= xx <= sq(a), 0real <= yy <= sq(b);
  assert(sq(a) * sq(b) == sq(a * b)) by { assert((a * a) * (b * b) == (a * b) * (a * b)) by (nonlinear_arith); }
  assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real;
  assert(xy <= a * b) by { if xy > a * b { let ab = a * b; assert(xy * xy > ab * ab) by (nonlinear_arith) requires xy > ab, ab >= 0real; } }
  assert(sq(x1 + y1) == sq(x1) + 2real * (x1 * y1) + sq(y1)) by { assert((x1 + y1) * (x1 + y1) == x1 * x1 + 2real * (x1 * y1) + y1 * y1) by (nonlinear_arith); }
  assert(sq(x2 + y2) == sq(x2) + 2real * (x2 * y2) + sq(y2)) by { assert((x2 + y2) * (x2 + y2) == x2 * x2 + 2real * (x2 * y2) + y2 * y2) by (nonlinear_arith); }
  assert(sq(x3 + y3) == sq(x3) + 2real * (x3 * y3) + sq(y3)) by { assert((x3 + y3) * (x3 + y3) == x3 * x3 + 2real * (x3 * y3) + y3 * y3) by (nonlinear_arith); }
  assert(sq(a + b) == sq(a) + 2real * (a * b) + sq(b)) by { assert((a + b) * (a + b) == a * a + 2real * (a * b) + b * b) by (nonlinear_arith); }
}
pub proof fn dist_sym(p: f_pixel, q: f_pixel) ensures dist(p, q) == dist(q, p) {
  let da = q.0.a.r() - p.0.a.r();
  chan_sym(p.0.r.r(), q.0.r.r(), da); chan_sym(p.0.g.r(), q.0.g.r(), da); chan_sym(p.0.b.r(), q.0.b.r(), da);
  assert(p.0.a.r() - q.0.a.r() == -da);
}
pub proof fn chan_sym(x: real, y: real, da: real) ensures chan_d(x, y, da) == chan_d(y, x, -da) {
  let (u, v) = (x - y, x - y + da);
  assert((-u) * (-u) == u * u) by (nonlinear_arith); assert((-v) * (-v) == v * v) by (nonlinear_arith);
  assert(y - x == -u); assert(y - x + (-da) == -v);
}
/// the triangle inequality, for upper bounds a and b of the two distances
pub proof fn triangle(p: f_pixel, q: f_pixel, s: f_pixel, a: real, b: real)
  requires a >= 0real, b >= 0real, dist(p, q) <= sq(a), dist(q, s) <= sq(b)
  ensures dist(p, s) <= sq(a + b)
{
  let (d1, d2) = (q.0.a.r() - p.0.a.r(), s.0.a.r() - q.0.a.r());
  let d3 = s.0.a.r() - p.0.a.r();
  cn_sq(p.0.r.r(), q.0.r.r(), d1); cn_sq(p.0.g.r(), q.0.g.r(), d1); cn_sq(p.0.b.r(), q.0.b.r(), d1);
  cn_sq(q.0.r.r(), s.0.r.r(), d2); cn_sq(q.0.g.r(), s.0.g.r(), d2); cn_sq(q.0.b.r(), s.0.b.r(), d2);
  cn_sq(p.0.r.r(), s.0.r.r(), d3); cn_sq(p.0.g.r(), s.0.g.r(), d3); cn_sq(p.0.b.r(), s.0.b.r(), d3);
  let (x1, x2, x3) = (cn(p.0.r.r() - q.0.r.r(), d1), cn(p.0.g.r() - q.0.g.r(), d1), cn(p.0.b.r() - q.0.b.r(), d1));
  let (y1, y2, y3) = (cn(q.0.r.r() - s.0.r.r(), d2), cn(q.0.g.r() - s.0.g.r(), d2), cn(q.0.b.r() - s.0.b.r(), d2));
  let (z1, z2, z3) = (cn(p.0.r.r() - s.0.r.r(), d3), cn(p.0.g.r() - s.0.g.r(), d3), cn(p.0.b.r() - s.0.b.r(), d3));
  mink(x1, x2, x3, y1, y2, y3, a, b);
  assert(z1 <= x1 + y1); assert(z2 <= x2 + y2); assert(z3 <= x3 + y3);
  sq_mono(z1, x1 + y1); sq_mono(z2, x2 + y2); sq_mono(z3, x3 + y3);
}
pub proof fn par(u: real, v: real) ensures sq(u + v) <= 2real * sq(u) + 2real * sq(v) { sq_nonneg(u - v); assert((u + v) * (u + v) + (u - v) * (u - v) == 2real * (u * u) + 2real * (v * v)) by (nonlinear_arith); }
/// without square roots
pub proof fn half_triangle(p: f_pixel, q: f_pixel, s: f_pixel) ensures dist(p, s) <= 2real * dist(p, q) + 2real * dist(q, s)
{
  let (d1, d2) = (q.0.a.r() - p.0.a.r(), s.0.a.r() - q.0.a.r());
  let d3 = s.0.a.r() - p.0.a.r();
  par(p.0.r.r() - q.0.r.r(), q.0.r.r() - s.0.r.r()); par(p.0.g.r() - q.0.g.r(), q.0.g.r() - s.0.g.r()); par(p.0.b.r() - q.0.b.r(), q.0.b.r() - s.0.b.r());
  par(p.0.r.r() - q.0.r.r() + d1, q.0.r.r() - s.0.r.r() + d2); par(p.0.g.r() - q.0.g.r() + d1, q.0.g.r() - s.0.g.r() + d2); par(p.0.b.r() - q.0.b.r() + d1, q.0.b.r() - s.0.b.r() + d2);
  assert((p.0.r.r() - q.0.r.r()) + (q.0.r.r() - s.0.r.r()) == p.0.r.r() - s.0.r.r());
  assert((p.0.g.r() - q.0.g.r()) + (q.0.g.r() - s.0.g.r()) == p.0.g.r() - s.0.g.r());
  assert((p.0.b.r() - q.0.b.r()) + (q.0.b.r() - s.0.b.r()) == p.0.b.r() - s.0.b.r());
  assert((p.0.r.r() - q.0.r.r() + d1) + (q.0.r.r() - s.0.r.r() + d2) == p.0.r.r() - s.0.r.r() + d3);
  assert((p.0.g.r() - q.0.g.r() + d1) + (q.0.g.r() - s.0.g.r() + d2) == p.0.g.r() - s.0.g.r() + d3);
  assert((p.0.b.r() - q.0.b.r() + d1) + (q.0.b.r() - s.0.b.r() + d2) == p.0.b.r() - s.0.b.r() + d3);
}
}
