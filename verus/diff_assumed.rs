verus! {
/// contract of f_pixel::diff; proved on its body (portable and x86_64 variants) in unit pal_diff
impl f_pixel { #[verifier::external_body] pub fn diff(&self, other: &f_pixel) -> (z: F) ensures z.r() == dist(*self, *other), z.r() >= 0real { unimplemented!() } }
}
