// unit: props=C03,C04,C13,C07,C16
//@include prelude.rs
//@include float.rs
//@include types.rs
//@include convspec.rs
//@include convlem.rs
verus! {
pub open spec fn lut_ok(s: Seq<F>, g: real) -> bool { s.len() == 256 && forall|i: int| 0 <= i < 256 ==> (#[trigger] s[i]).r() == lut_at(g, i) }
//@fn src/pal.rs gamma_lut
    requires gamma.r() > 0real,
    ensures lut_ok(r@, gamma.r()),
//@pre
[ f32 ; 256 ] => [ F ; 256 ]
INTERNAL_GAMMA => INTERNAL_GAMMA ( )
//@loop 1
    invariant vx_i1 <= vx_n1, vx_n1 == 256, gamma.r() > 0real, forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] tmp@[i]).r() == lut_at(gamma.r(), i),
    decreases vx_n1 - vx_i1
//@end
impl f_pixel {
//@fn src/pal.rs f_pixel::from_rgba
    ensures forall|g: real| #[trigger] lut_ok(gamma_lut@, g) ==> r == conv(g, px),
//@pre
[ f32 ; 256 ] => [ F ; 256 ]
LIQ_WEIGHT_A => LIQ_WEIGHT_A ( )
LIQ_WEIGHT_R => LIQ_WEIGHT_R ( )
LIQ_WEIGHT_G => LIQ_WEIGHT_G ( )
LIQ_WEIGHT_B => LIQ_WEIGHT_B ( )
//@entry
    proof { reveal(conv); broadcast use axiom_f_of, axiom_f_ext; }
//@end
//@fn src/pal.rs f_pixel::to_rgb floats=a
    requires gamma.r() > 0real,
    ensures r == unconv(gamma.r(), self),
//@pre
LIQ_WEIGHT_A => LIQ_WEIGHT_A ( )
LIQ_WEIGHT_R => LIQ_WEIGHT_R ( )
LIQ_WEIGHT_G => LIQ_WEIGHT_G ( )
LIQ_WEIGHT_B => LIQ_WEIGHT_B ( )
MIN_OPAQUE_A => MIN_OPAQUE_A ( )
INTERNAL_GAMMA => INTERNAL_GAMMA ( )
self . a => self . 0 . a
self . r => self . 0 . r
self . g => self . 0 . g
self . b => self . 0 . b
//@entry
    proof { reveal(unconv); }
//@end
}
}
fn main() {}
