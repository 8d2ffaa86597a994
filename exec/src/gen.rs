//! Case generator: everything is a function of one u64.
use imagequant::*;
use std::mem::MaybeUninit;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Self { let mut r = Rng(s ^ 0x9E3779B97F4A7C15); r.next(); r.next(); r }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn u8(&mut self) -> u8 { self.next() as u8 }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Src { Owned, Borrowed, Stride, StrideOwned, Callback, Clone, CloneCallback }
pub const ALL_SRC: [Src; 7] = [Src::Owned, Src::Borrowed, Src::Stride, Src::StrideOwned, Src::Callback, Src::Clone, Src::CloneCallback];

#[derive(Clone)]
pub struct Case {
    pub seed: u64,
    pub w: usize, pub h: usize,
    pub px: Vec<RGBA>,
    pub pattern: &'static str,
    pub speed: i32,
    pub max_colors: u32,
    pub quality: Option<(u8, u8)>,
    pub post: u8,
    pub last_transp: bool,
    pub fixed: Vec<RGBA>,
    pub imp: Option<Vec<u8>>,
    pub bg: Option<Vec<RGBA>>,
    pub dither: f32,
    pub gamma: f64,
    pub src: Src,
}

/// What a property wants from the generator
#[derive(Clone, Copy, Default)]
pub struct Want {
    pub few_colors: bool,
    pub opaque: bool,
    pub no_post: bool,
    pub no_fixed: bool,
    pub no_imp: bool,
    pub imp_nonzero: bool,
    pub no_bg: bool,
    pub must_bg: bool,
    pub no_quality: bool,
    pub must_quality: bool,
    pub must_fixed: bool,
    pub must_post: bool,
    pub no_dither: bool,
    pub max_speed: i32,
    pub default_gamma: bool,
    pub small: bool,
}

pub fn sizes(r: &mut Rng, idx: u64, small: bool) -> (usize, usize) {
    if !small {
        // a few fixed ones early in every run: multi-chunk, memory-limit and "huge" paths
        match idx {
            0 => return (1, 1), 1 => return (3, 129), 2 => return (5, 131), 3 => return (1, 300), 4 => return (300, 1),
            5 => return (16, 513), 6 => return (1100, 1000), 7 => return (2, 2), 8 => return (4, 4), 9 => return (7, 257), 10 => return (2050, 2050),
            11 => return (1400, 1200), 12 => return (2001, 2000),
            _ => {}
        }
    }
    match r.below(100) {
        0..=14 => (r.range(1, 8), r.range(1, 8)),
        15..=24 => (r.range(1, 3), r.range(1, 140)),
        25..=34 => (r.range(1, 140), r.range(1, 3)),
        35..=54 if !small => (r.range(1, 24), r.range(120, 420)),
        35..=54 => (r.range(4, 20), r.range(4, 20)),
        55..=59 if !small && r.chance(25) => (r.range(500, 900), r.range(600, 1000)),
        55..=94 => (r.range(4, 64), r.range(4, 64)),
        _ => (r.range(60, 200), r.range(60, 150)),
    }
}

fn color(r: &mut Rng, opaque: bool) -> RGBA {
    let a = if opaque { 255 } else { match r.below(10) { 0 => 0, 1..=4 => 255, 5 => *r.pick(&[1u8, 2, 127, 128, 254]), _ => r.u8() } };
    match r.below(8) {
        0 => { let v = r.u8(); RGBA::new(v, v, v, a) },
        1 => RGBA::new(*r.pick(&[0u8, 255, 127, 128]), *r.pick(&[0u8, 255, 127, 128]), *r.pick(&[0u8, 255, 127, 128]), a),
        2 => RGBA::new(r.u8() / 16, r.u8() / 16, r.u8() / 16, a),
        _ => RGBA::new(r.u8(), r.u8(), r.u8(), a),
    }
}

pub fn distinct(px: &[RGBA]) -> std::collections::HashSet<[u8; 4]> {
    px.iter().map(|p| key(*p)).collect()
}
/// all fully transparent colours are one
pub fn key(p: RGBA) -> [u8; 4] { if p.a == 0 { [0; 4] } else { [p.r, p.g, p.b, p.a] } }

pub fn pixels(r: &mut Rng, w: usize, h: usize, few: Option<usize>, opaque: bool) -> (Vec<RGBA>, &'static str) {
    let n = w * h;
    if few.is_some() || r.chance(35) {
        let k = match few { Some(k) => k, None => *r.pick(&[1usize, 2, 3, 6, 7, 8, 9, 13, 31, 100, 255, 256, 257, 300]) };
        let mut pal: Vec<RGBA> = (0..k).map(|_| color(r, opaque)).collect();
        if r.chance(25) {
            // near-duplicates
            let base = pal[0];
            for p in pal.iter_mut() {
                let j = r.below(4);
                *p = base;
                let d = r.u8() % 6;
                match j { 0 => p.r = p.r.wrapping_add(d), 1 => p.g = p.g.wrapping_add(d), 2 => p.b = p.b.wrapping_add(d), _ => if !opaque { p.a = p.a.wrapping_add(d) } }
            }
        }
        let mode = r.below(4);
        let v = (0..n).map(|i| {
            let j = match mode { 0 => r.below(k), 1 => i % k, 2 => (i / w + (i % w) / 3) % k, _ => if r.chance(80) { 0 } else { r.below(k) } };
            pal[j]
        }).collect();
        return (v, "few");
    }
    match r.below(6) {
        0 => ((0..n).map(|_| color(r, opaque)).collect(), "noise"),
        1 => { let (a, b, c) = (r.range(1, 9), r.range(1, 9), r.range(1, 9));
            ((0..n).map(|i| { let (x, y) = (i % w, i / w); RGBA::new((x * a) as u8, (y * b) as u8, ((x + y) * c / 2) as u8, if opaque { 255 } else { 255 - (x * y / 7) as u8 }) }).collect(), "gradient") },
        2 => { let base = color(r, opaque);
            ((0..n).map(|_| { let mut p = base; let d = (r.next() & 15) as u8; p.r = p.r.saturating_add(d); p.g = p.g.saturating_sub((r.next() & 7) as u8); p.b ^= (r.next() & 3) as u8; p }).collect(), "close") },
        3 => { ((0..n).map(|i| { let (x, y) = (i % w, i / w); let s = ((x as f32 * 0.13).sin() + (y as f32 * 0.07).cos()) * 60. + 128.; let d = (r.next() % 17) as f32;
                RGBA::new((s + d) as u8, (s * 0.8 + d) as u8, (255. - s) as u8, if opaque || y % 3 != 0 { 255 } else { (s / 2.) as u8 }) }).collect(), "photo") },
        4 => { let (c1, c2) = (color(r, opaque), color(r, opaque)); let s = r.range(1, 5);
            ((0..n).map(|i| if (i % w / s + i / w / s) % 2 == 0 { c1 } else { let mut c = c2; c.r = c.r.wrapping_add((i / w) as u8); c }).collect(), "checker") },
        _ => ((0..n).map(|_| { let mut c = color(r, opaque); if !opaque && r.chance(70) { c.a = 0 } c }).collect(), "mostly-transparent"),
    }
}

impl Case {
    pub fn make(seed: u64, idx: u64, want: Want) -> Case {
        let r = &mut Rng::new(seed);
        let (w, h) = sizes(r, idx, want.small);
        let big = w * h > 400_000;
        let max_colors = *r.pick(&[2u32, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 64, 100, 128, 200, 255, 256, 256, 256]);
        let few = if want.few_colors || big { Some(r.range(1, max_colors as usize)) } else { None };
        let op = want.opaque || r.chance(40);
        let (px, pattern) = pixels(r, w, h, few, op);
        let mut max_speed = if want.max_speed > 0 { want.max_speed } else { 10 };
        let mut min_speed = 1;
        if big { min_speed = max_speed.min(if r.chance(50) { 7 } else { 10 }); max_speed = min_speed; }
        let speed = r.range(min_speed as usize, max_speed as usize) as i32;
        let quality = if want.no_quality { None } else if want.must_quality || r.chance(40) {
            let t = if r.chance(25) { 100 } else { r.below(101) as u8 };
            let m = match r.below(4) { 0 => 0, 1 => t, _ => r.below(t as usize + 1) as u8 };
            Some((m, t))
        } else { None };
        let post = if want.no_post { 0 } else if want.must_post { r.range(1, 4) as u8 } else if r.chance(20) { r.range(0, 4) as u8 } else { 0 };
        let fixed = if want.no_fixed { vec![] } else if want.must_fixed || r.chance(30) {
            let n = *r.pick(&[1usize, 1, 2, 3, 5, 8, 17, 40]);
            let n = if r.chance(10) { *r.pick(&[255, 256]) } else { n };
            let mut f: Vec<RGBA> = (0..n).map(|_| if r.chance(25) { px[r.below(px.len())] } else { color(r, false) }).collect();
            if r.chance(30) && f.len() > 1 { let i = r.below(f.len()); f[i] = f[0]; }
            if r.chance(20) { let i = r.below(f.len()); f[i] = RGBA::new(r.u8(), 0, 0, 0); }
            f
        } else { vec![] };
        let imp = if want.no_imp { None } else if r.chance(25) {
            let lo = if want.imp_nonzero { 1 } else { 0 };
            let m = r.below(3);
            Some((0..w * h).map(|i| match m { 0 => r.range(lo, 255) as u8, 1 => if i % 3 == 0 { 255 } else { lo as u8 }, _ => r.range(lo, lo + 2) as u8 }).collect())
        } else { None };
        let bg = if want.no_bg { None } else if want.must_bg || r.chance(20) {
            Some(match r.below(4) {
                0 => px.clone(),
                1 => px.iter().map(|p| if r.chance(50) { *p } else { color(r, true) }).collect(),
                2 => { let c = color(r, false); vec![c; w * h] },
                _ => { let op = r.chance(50); pixels(r, w, h, None, op).0 },
            })
        } else { None };
        let dither = if want.no_dither { 0. } else { *r.pick(&[0f32, 1., 1., 0.5, 0.9, 0.1]) };
        let gamma = if want.default_gamma { 0. } else { match r.below(5) { 0 => 0.45455, 1 => 0.3 + r.f() * 0.6, 2 => 1., _ => 0. } };
        let src = *r.pick(&ALL_SRC);
        Case { seed, w, h, px, pattern, speed, max_colors, quality, post, last_transp: r.chance(25), fixed, imp, bg, dither, gamma, src }
    }

    pub fn desc(&self) -> String {
        format!("{}x{} {} ({} distinct) speed={} max_colors={} quality={:?} post={} last_transp={} fixed={} imp={} bg={} dither={} gamma={} src={:?} case_seed={}",
            self.w, self.h, self.pattern, distinct(&self.px).len(), self.speed, self.max_colors, self.quality, self.post, self.last_transp,
            self.fixed.len(), self.imp.is_some(), self.bg.is_some(), self.dither, self.gamma, self.src, self.seed)
    }

    pub fn attr(&self) -> Attributes {
        let mut a = Attributes::new();
        a.set_speed(self.speed).expect("speed");
        a.set_max_colors(self.max_colors).expect("max_colors");
        if let Some((m, t)) = self.quality { a.set_quality(m, t).expect("quality"); }
        a.set_min_posterization(self.post).expect("post");
        a.set_last_index_transparent(self.last_transp);
        a
    }

    /// Image without background/importance/fixed colours
    pub fn plain<'a>(&'a self, a: &Attributes, px: &'a [RGBA], src: Src) -> Result<Image<'a>, Error> {
        let (w, h) = (self.w, self.h);
        let stride = w + 1 + (self.seed % 3) as usize;
        let strided = || {
            let mut v = vec![RGBA::new(11, 22, 33, 44); stride * (h - 1) + w];
            for y in 0..h { v[y * stride..y * stride + w].copy_from_slice(&px[y * w..y * w + w]); }
            v
        };
        match src {
            Src::Owned => a.new_image(px, w, h, self.gamma),
            Src::Borrowed => a.new_image_borrowed(px, w, h, self.gamma),
            Src::Stride => {
                let v: &'static [RGBA] = Box::leak(strided().into_boxed_slice());
                a.new_image_stride_borrowed_(v, w, h, stride, self.gamma)
            },
            Src::StrideOwned => a.new_image_stride(strided(), w, h, stride, self.gamma),
            Src::Callback => unsafe { Image::new_fn(a, move |row: &mut [MaybeUninit<RGBA>], y| { for (x, o) in row.iter_mut().enumerate() { o.write(px[y * w + x]); } }, w, h, self.gamma) },
            Src::Clone => { let i = a.new_image(px, w, h, self.gamma)?; let c = i.clone(); drop(i); Ok(c) },
            Src::CloneCallback => { let i = self.plain(a, px, Src::Callback)?; let c = i.clone(); drop(i); Ok(c) },
        }
    }

    pub fn decorate<'a>(&'a self, a: &Attributes, mut i: Image<'a>) -> Result<Image<'a>, String> {
        for f in &self.fixed { i.add_fixed_color(*f).map_err(|e| format!("add_fixed_color: {e:?}"))?; }
        if let Some(m) = &self.imp { i.set_importance_map(&m[..]).map_err(|e| format!("set_importance_map: {e:?}"))?; }
        if let Some(b) = &self.bg {
            let bg = self.plain(a, b, Src::Borrowed).map_err(|e| format!("bg: {e:?}"))?;
            i.set_background(bg).map_err(|e| format!("set_background: {e:?}"))?;
        }
        Ok(i)
    }

    pub fn image<'a>(&'a self, a: &Attributes) -> Result<Image<'a>, String> {
        let i = self.plain(a, &self.px, self.src).map_err(|e| format!("valid image was rejected: {e:?}"))?;
        self.decorate(a, i)
    }

    pub fn distinct_with_fixed(&self) -> usize {
        let mut d = distinct(&self.px);
        d.extend(self.fixed.iter().map(|f| key(*f)));
        d.len()
    }
}

pub trait Ext { fn new_image_stride_borrowed_<'p>(&self, px: &'p [RGBA], w: usize, h: usize, stride: usize, gamma: f64) -> Result<Image<'p>, Error>; }
impl Ext for Attributes {
    fn new_image_stride_borrowed_<'p>(&self, px: &'p [RGBA], w: usize, h: usize, stride: usize, gamma: f64) -> Result<Image<'p>, Error> { Image::new_stride_borrowed(self, px, w, h, stride, gamma) }
}
