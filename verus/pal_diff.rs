// unit: props=C10,C11,C17,C01
//@include prelude.rs
//@include float.rs
//@include types.rs
verus! {
// SSE intrinsics used by f_pixel::diff, lane by lane (ASSUMED of the architecture); lanes in memory order a, r, g, b
#[derive(Clone, Copy)]
pub struct M128 { pub l0: F, pub l1: F, pub l2: F, pub l3: F }
#[verifier::external_body] fn load4(p: &f_pixel) -> (m: M128) ensures m.l0.r() == p.0.a.r(), m.l1.r() == p.0.r.r(), m.l2.r() == p.0.g.r(), m.l3.r() == p.0.b.r() { unimplemented!() }
fn _mm_sub_ss(x: M128, y: M128) -> (m: M128) ensures m.l0.r() == x.l0.r() - y.l0.r(), m.l1 == x.l1, m.l2 == x.l2, m.l3 == x.l3 { M128 { l0: x.l0 - y.l0, l1: x.l1, l2: x.l2, l3: x.l3 } }
fn _mm_add_ss(x: M128, y: M128) -> (m: M128) ensures m.l0.r() == x.l0.r() + y.l0.r(), m.l1 == x.l1, m.l2 == x.l2, m.l3 == x.l3 { M128 { l0: x.l0 + y.l0, l1: x.l1, l2: x.l2, l3: x.l3 } }
fn _mm_sub_ps(x: M128, y: M128) -> (m: M128) ensures m.l0.r() == x.l0.r() - y.l0.r(), m.l1.r() == x.l1.r() - y.l1.r(), m.l2.r() == x.l2.r() - y.l2.r(), m.l3.r() == x.l3.r() - y.l3.r() { M128 { l0: x.l0 - y.l0, l1: x.l1 - y.l1, l2: x.l2 - y.l2, l3: x.l3 - y.l3 } }
fn _mm_add_ps(x: M128, y: M128) -> (m: M128) ensures m.l0.r() == x.l0.r() + y.l0.r(), m.l1.r() == x.l1.r() + y.l1.r(), m.l2.r() == x.l2.r() + y.l2.r(), m.l3.r() == x.l3.r() + y.l3.r() { M128 { l0: x.l0 + y.l0, l1: x.l1 + y.l1, l2: x.l2 + y.l2, l3: x.l3 + y.l3 } }
fn _mm_mul_ps(x: M128, y: M128) -> (m: M128) ensures m.l0.r() == x.l0.r() * y.l0.r(), m.l1.r() == x.l1.r() * y.l1.r(), m.l2.r() == x.l2.r() * y.l2.r(), m.l3.r() == x.l3.r() * y.l3.r() { M128 { l0: x.l0 * y.l0, l1: x.l1 * y.l1, l2: x.l2 * y.l2, l3: x.l3 * y.l3 } }
fn _mm_max_ps(x: M128, y: M128) -> (m: M128) ensures m.l0.r() == rmax(x.l0.r(), y.l0.r()), m.l1.r() == rmax(x.l1.r(), y.l1.r()), m.l2.r() == rmax(x.l2.r(), y.l2.r()), m.l3.r() == rmax(x.l3.r(), y.l3.r()) { M128 { l0: x.l0.max(y.l0), l1: x.l1.max(y.l1), l2: x.l2.max(y.l2), l3: x.l3.max(y.l3) } }
fn _mm_min_ps(x: M128, y: M128) -> (m: M128) { M128 { l0: x.l0.min(y.l0), l1: x.l1.min(y.l1), l2: x.l2.min(y.l2), l3: x.l3.min(y.l3) } }
/// the shuffle control is split into its four 2-bit lane selectors
fn _mm_shuffle_ps(x: M128, y: M128, c: u32) -> (m: M128) ensures c == 0 ==> m.l0 == x.l0 && m.l1 == x.l0 && m.l2 == y.l0 && m.l3 == y.l0 { if c == 0 { M128 { l0: x.l0, l1: x.l0, l2: y.l0, l3: y.l0 } } else { M128 { l0: f_zero(), l1: f_zero(), l2: f_zero(), l3: f_zero() } } }
fn store4(m: M128) -> (z: [F; 4]) ensures z[0] == m.l0, z[1] == m.l1, z[2] == m.l2, z[3] == m.l3 { [m.l0, m.l1, m.l2, m.l3] }
impl f_pixel {
//@fn src/pal.rs f_pixel::diff cfg=#[cfg(target_arch="x86_64")] as=diff_x86
    ensures r.r() == dist(*self, *other), r.r() >= 0real,
//@pre
use std :: arch :: x86_64 :: * ; =>  
_mm_loadu_ps ( self as * const f_pixel as * const f32 ) => load4 ( self )
_mm_loadu_ps ( other as * const f_pixel as * const f32 ) => load4 ( other )
_mm_storeu_ps ( tmp . as_mut_ptr ( ) , max ) ; => tmp = store4 ( max ) ;
[ 0. ; 4 ] => [ 0. , 0. , 0. , 0. ]
//@entry
    proof { dist_nonneg(*self, *other); }
//@end
//@fn src/pal.rs f_pixel::diff cfg=#[cfg(not(any(target_arch="x86_64" as=diff_portable
    ensures r.r() == dist(*self, *other), r.r() >= 0real,
//@entry
    proof { dist_nonneg(*self, *other); }
//@end
}
}
fn main() {}
