//! Independent reference for the perceptual distance, in f64.
use imagequant::RGBA;
pub const IG: f64 = 0.57;
pub struct Lut([f64; 256]);
impl Lut {
    pub fn new(gamma: f64) -> Self {
        let g = if gamma > 0. { gamma } else { 0.45455 };
        let mut l = [0.; 256];
        for (i, v) in l.iter_mut().enumerate() { *v = (i as f64 / 255.).powf(IG / g); }
        Lut(l)
    }
    pub fn px(&self, p: RGBA) -> [f64; 4] {
        let a = p.a as f64 / 255.;
        [a * 0.625, self.0[p.r as usize] * 0.5 * a, self.0[p.g as usize] * a, self.0[p.b as usize] * 0.45 * a]
    }
}
/// squared distance: the worse of the differences on black and on white, per channel
pub fn diff(x: [f64; 4], y: [f64; 4]) -> f64 {
    let al = y[0] - x[0];
    (1..4).map(|c| { let b = x[c] - y[c]; (b * b).max((b + al) * (b + al)) }).sum()
}
pub const EPS: f64 = 4e-6; // on the (unsquared) distance
