verus! {
/// C03, C04: a colour comes back from its conversion as it was
proof fn cv_channel(v: u8) ensures sat(v as real / 255real * 256real, 255) == v as int
{
  let x = v as real / 255real * 256real;
  assert(x == v as real + v as real / 255real) by (nonlinear_arith) requires x == v as real / 255real * 256real;
  if v == 0 { } else if v == 255 { assert(x == 256real); } else { assert(v as real <= x < v as real + 1real); assert(x.floor() == v as int); }
}
proof fn cv_undo(p: real, w: real, a: real, wa: real) by (nonlinear_arith) requires w > 0real, a > 0real, wa > 0real ensures wa / w * (p * w * a) / (a * wa) == p {}
proof fn round_trip(g: real, c: RGBA) requires g > 0real ensures unconv(g, conv(g, c)) == (if c.a == 0 { RGBA { r: 0, g: 0, b: 0, a: 0 } } else { c })
{
  reveal(conv); reveal(unconv); broadcast use axiom_f_of;
  let a = c.a as real / 255real;
  let e = INTERNAL_GAMMA_r() / g;
  let f = g / INTERNAL_GAMMA_r();
  assert(e > 0real && e * f == 1real) by (nonlinear_arith) requires g > 0real, e == INTERNAL_GAMMA_r() / g, f == g / INTERNAL_GAMMA_r(), INTERNAL_GAMMA_r() > 0real;
  if c.a > 0 {
    cv_undo(lut_at(g, c.r as int), LIQ_WEIGHT_R_r(), a, LIQ_WEIGHT_A_r());
    cv_undo(lut_at(g, c.g as int), LIQ_WEIGHT_G_r(), a, LIQ_WEIGHT_A_r());
    cv_undo(lut_at(g, c.b as int), LIQ_WEIGHT_B_r(), a, LIQ_WEIGHT_A_r());
    powr_inv(c.r as real / 255real, e, f); powr_inv(c.g as real / 255real, e, f); powr_inv(c.b as real / 255real, e, f);
    cv_channel(c.r); cv_channel(c.g); cv_channel(c.b); cv_channel(c.a);
    assert(256real / LIQ_WEIGHT_A_r() * (a * LIQ_WEIGHT_A_r()) == a * 256real);
    assert(!(a * LIQ_WEIGHT_A_r() < MIN_OPAQUE_A_r()));
  }
}
proof fn cv_chan01(l: real, w: real, a: real) by (nonlinear_arith) requires 0real <= l <= 1real, 0real < w <= 1real, 0real <= a <= 1real ensures 0real <= l * w * a <= 1real {}
proof fn conv_in_01(g: real, c: RGBA) requires g > 0real ensures 0real <= conv(g, c).0.a.r() <= 1real, 0real <= conv(g, c).0.r.r() <= 1real, 0real <= conv(g, c).0.g.r() <= 1real, 0real <= conv(g, c).0.b.r() <= 1real
{
  reveal(conv); broadcast use axiom_f_of;
  let e = INTERNAL_GAMMA_r() / g;
  assert(e > 0real) by (nonlinear_arith) requires g > 0real, e == INTERNAL_GAMMA_r() / g, INTERNAL_GAMMA_r() > 0real;
  powr_01(c.r as real / 255real, e); powr_01(c.g as real / 255real, e); powr_01(c.b as real / 255real, e);
  let a = c.a as real / 255real;
  cv_chan01(1real, LIQ_WEIGHT_A_r(), a); assert(1real * LIQ_WEIGHT_A_r() * a == a * LIQ_WEIGHT_A_r()) by (nonlinear_arith);
  cv_chan01(lut_at(g, c.r as int), LIQ_WEIGHT_R_r(), a); cv_chan01(lut_at(g, c.g as int), LIQ_WEIGHT_G_r(), a); cv_chan01(lut_at(g, c.b as int), LIQ_WEIGHT_B_r(), a);
}
}
