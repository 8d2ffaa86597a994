//@ prelude
//@ harness k_posterize_channel props=C13,C12,C03 fn=posterize_channel
#[kani::proof]
fn k_posterize_channel() {
    let (c, n): (u8, u8) = (kani::any(), kani::any());
    kani::assume(n <= 4);
    let r = posterize_channel(c, n);
    kani::cover!(n == 4 && r != c);
    let low = if n == 0 { 0 } else { r & ((1u16 << n) - 1) as u8 };
    let top = if n == 0 { 0 } else { r >> (8 - n) };
    assert!(low == top, "the lowest n bits repeat the highest n bits");
    assert!(c.abs_diff(r) < 1 << n, "a channel changes by less than 2^n");
    assert!(posterize_channel(0, n) == 0 && posterize_channel(255, n) == 255, "0 stays 0 and 255 stays 255");
    assert!(posterize_channel(r, n) == r, "posterization is idempotent");
    let d: u8 = kani::any();
    assert!(c > d || r <= posterize_channel(d, n), "posterization is monotone");
}

//@ harness k_palpop props=C03,C12 fn=PalPop::new,PalPop::to_fixed,PalPop::is_fixed,PalPop::popularity
#[kani::proof]
fn k_palpop() {
    let x: f32 = kani::any();
    kani::assume(x >= 0.);
    let p = PalPop::new(x);
    assert!(!p.is_fixed() && p.popularity() == x, "a new popularity is not fixed");
    let f = p.to_fixed();
    assert!(f.is_fixed(), "to_fixed makes it fixed, whatever the popularity");
    assert!(f.popularity() == x || x == 0., "to_fixed keeps the popularity");
    assert!(f.to_fixed().is_fixed() && f.to_fixed().popularity() == f.popularity(), "to_fixed is idempotent");
}

//@ harness k_alpha_roundtrip props=C03,C04,C13 fn=f_pixel::to_rgb,f_pixel::from_rgba
fn powf_any(_: f32, _: f32) -> f32 { kani::any() }
#[kani::proof]
#[kani::stub(f32::powf, powf_any)]
fn k_alpha_roundtrip() {
    let lut = [0f32; 256];
    let a: u8 = kani::any();
    let p = f_pixel::from_rgba(&lut, RGBA { r: kani::any(), g: kani::any(), b: kani::any(), a });
    let q = p.to_rgb(0.45455);
    assert!(q.a == a, "alpha survives conversion to the internal format and back");
    assert!(a != 0 || q == RGBA::new(0, 0, 0, 0), "fully transparent is converted to transparent black");
}

//@ harness k_to_rgb_total props=C16,C13 fn=f_pixel::to_rgb
fn powf_any2(_: f32, _: f32) -> f32 { kani::any() }
#[kani::proof]
#[kani::stub(f32::powf, powf_any2)]
fn k_to_rgb_total() {
    let p = f_pixel(ARGBF { a: kani::any(), r: kani::any(), g: kani::any(), b: kani::any() });
    let gamma: f64 = kani::any();
    kani::assume(gamma > 0. && gamma <= 1.);
    let q = p.to_rgb(gamma);
    assert!(!(p.a < MIN_OPAQUE_A) || q == RGBA::new(0, 0, 0, 0), "nearly transparent colours become transparent black");
}

//@ harness k_transparency_classes props=C12,C11 fn=MAX_TRANSP_A,MIN_OPAQUE_A,f_pixel::to_rgb
fn powf_any3(_: f32, _: f32) -> f32 { kani::any() }
#[kani::proof]
#[kani::stub(f32::powf, powf_any3)]
fn k_transparency_classes() {
    let p = f_pixel(ARGBF { a: kani::any(), r: 0., g: 0., b: 0. });
    kani::assume(p.a >= 0. && p.a <= LIQ_WEIGHT_A);
    let q = p.to_rgb(0.45455);
    assert!((p.a < MAX_TRANSP_A) == (q.a < 255), "an entry below the threshold is one that is not opaque in the palette");
    assert!((p.a < MIN_OPAQUE_A) == (q.a == 0), "an entry counts as fully transparent exactly when its alpha is 0");
}
