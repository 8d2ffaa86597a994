verus! {
// ---- f32/f64 as real numbers (no NaN, no rounding, no overflow): ASSUMED, see DESIGN.md
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F { x: f64 }
impl F { pub uninterp spec fn r(self) -> real; }
pub broadcast axiom fn axiom_f_ext(a: F, b: F) requires #[trigger] a.r() == #[trigger] b.r() ensures a == b;
#[verifier::external_body] pub fn fl(Ghost(v): Ghost<real>) -> (z: F) ensures z.r() == v { unimplemented!() }
#[verifier::external_body] pub fn f_zero() -> (z: F) ensures z.r() == 0real { unimplemented!() }
impl AddSpecImpl for F { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F) -> bool { true } open spec fn add_spec(self, o: F) -> F { self } }
impl SubSpecImpl for F { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F) -> bool { true } open spec fn sub_spec(self, o: F) -> F { self } }
impl MulSpecImpl for F { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F) -> bool { true } open spec fn mul_spec(self, o: F) -> F { self } }
impl DivSpecImpl for F { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: F) -> bool { true } open spec fn div_spec(self, o: F) -> F { self } }
impl NegSpecImpl for F { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> F { self } }
impl core::ops::Add for F { type Output = F; #[verifier::external_body] fn add(self, o: F) -> (z: F) ensures z.r() == self.r() + o.r() { unimplemented!() } }
impl core::ops::Sub for F { type Output = F; #[verifier::external_body] fn sub(self, o: F) -> (z: F) ensures z.r() == self.r() - o.r() { unimplemented!() } }
impl core::ops::Mul for F { type Output = F; #[verifier::external_body] fn mul(self, o: F) -> (z: F) ensures z.r() == self.r() * o.r(), (self.r() >= 0real && o.r() >= 0real) ==> z.r() >= 0real { unimplemented!() } }
impl core::ops::Div for F { type Output = F; #[verifier::external_body] fn div(self, o: F) -> (z: F) ensures o.r() != 0real ==> z.r() == self.r() / o.r() { unimplemented!() } }
impl core::ops::Neg for F { type Output = F; #[verifier::external_body] fn neg(self) -> (z: F) ensures z.r() == -self.r() { unimplemented!() } }
impl PartialEqSpecImpl for F { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F) -> bool { self.r() == o.r() } }
impl PartialEq for F { #[verifier::external_body] fn eq(&self, o: &F) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for F { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &F) -> Option<Ordering> { if self.r() < o.r() { Some(Ordering::Less) } else if self.r() > o.r() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl PartialOrd for F { #[verifier::external_body] fn partial_cmp(&self, o: &F) -> Option<Ordering> { unimplemented!() } }
impl F {
  #[verifier::external_body] pub fn max(self, o: F) -> (z: F) ensures z.r() == (if self.r() >= o.r() { self.r() } else { o.r() }) { unimplemented!() }
  #[verifier::external_body] pub fn min(self, o: F) -> (z: F) ensures z.r() == (if self.r() <= o.r() { self.r() } else { o.r() }) { unimplemented!() }
  #[verifier::external_body] pub fn abs(self) -> (z: F) ensures z.r() == (if self.r() >= 0real { self.r() } else { -self.r() }) { unimplemented!() }
  #[verifier::external_body] pub fn sqrt(self) -> (z: F) requires self.r() >= 0real ensures z.r() >= 0real, z.r() * z.r() == self.r() { unimplemented!() }
  #[verifier::external_body] pub fn mul_add(self, a: F, b: F) -> (z: F) ensures z.r() == self.r() * a.r() + b.r() { unimplemented!() }
  #[verifier::external_body] pub fn clamp(self, a: F, b: F) -> (z: F) requires a.r() <= b.r() ensures z.r() == (if self.r() < a.r() { a.r() } else if self.r() > b.r() { b.r() } else { self.r() }) { unimplemented!() }
  #[verifier::external_body] pub fn powi(self, n: i32) -> (z: F) ensures n == 2 ==> z.r() == self.r() * self.r() && z.r() >= 0real { unimplemented!() }
  #[verifier::external_body] pub fn is_finite(self) -> (z: bool) ensures z { unimplemented!() }
}
pub trait ToF: Sized { spec fn real_of(self) -> real; fn conv(self) -> (z: F) ensures z.r() == self.real_of(); }
impl ToF for F { open spec fn real_of(self) -> real { self.r() } fn conv(self) -> (z: F) { self } }
impl ToF for u8 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
impl ToF for u16 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
impl ToF for u32 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
impl ToF for i16 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
impl ToF for i32 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
impl ToF for u64 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
impl ToF for usize { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn conv(self) -> (z: F) { unimplemented!() } }
pub fn to_f<T: ToF>(t: T) -> (z: F) ensures z.r() == t.real_of() { t.conv() }
pub open spec fn sat(v: real, hi: int) -> int { if v <= 0real { 0 } else if v >= hi as real { hi } else { v.floor() } }
#[verifier::external_body] pub fn f_to_u8(v: F) -> (z: u8) ensures z as int == sat(v.r(), 255) { unimplemented!() }
#[verifier::external_body] pub fn f_to_u16(v: F) -> (z: u16) ensures z as int == sat(v.r(), 65535) { unimplemented!() }
#[verifier::external_body] pub fn f_to_u32(v: F) -> (z: u32) ensures z as int == sat(v.r(), 0xFFFF_FFFF) { unimplemented!() }
#[verifier::external_body] pub fn f_to_usize(v: F) -> (z: usize) ensures z as int == sat(v.r(), usize::MAX as int) { unimplemented!() }
}
