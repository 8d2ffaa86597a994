PRE = '''
use imagequant::*;
#[allow(dead_code)] fn rng(s: &mut u64) -> u32 { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*s >> 33) as u32 }
#[allow(dead_code)] fn diff_ref(a: RGBA, b: RGBA) -> f64 {
    let f = |p: RGBA| { let g = |c: u8| (c as f64 / 255.).powf(0.57 / 0.45455); let al = p.a as f64 / 255.; [al * 0.625, g(p.r) * 0.5 * al, g(p.g) * al, g(p.b) * 0.45 * al] };
    let (x, y) = (f(a), f(b)); let da = y[0] - x[0];
    (1..4).map(|i| { let k = x[i] - y[i]; (k * k).max((k + da) * (k + da)) }).sum()
}
'''
seeds = [
 dict(id='c10-hint-radius', property='C10', needs='a pixel between a third and a quarter of the squared distance to the second-nearest colour, reached with the hint of the farther one',
  what='search() trusts the hint inside a radius that is too large, so the palette entry chosen depends on the neighbouring pixel',
  edits=[('src/nearest.rs', 'best.distance_squared / 4.;', 'best.distance_squared / 3.;')],
  demo=PRE+'''
fn main() {
    let mut seed = 7;
    let mut bad = 0;
    for _ in 0..40 {
        let px: Vec<RGBA> = (0..64*64).map(|_| RGBA::new(rng(&mut seed) as u8, rng(&mut seed) as u8, rng(&mut seed) as u8, 255)).collect();
        let mut attr = new(); attr.set_max_colors(24).unwrap();
        let mut h = Histogram::new(&attr);
        for _ in 0..24 { h.add_fixed_color(RGBA::new(rng(&mut seed) as u8, rng(&mut seed) as u8, rng(&mut seed) as u8, 255), 0.).unwrap(); }
        let mut res = h.quantize(&attr).unwrap();
        res.set_dithering_level(0.).unwrap();
        let mut img = attr.new_image_borrowed(&px, 64, 64, 0.).unwrap();
        let (pal, idx) = res.remapped(&mut img).unwrap();
        for (p, i) in px.iter().zip(&idx) {
            let d = diff_ref(*p, pal[*i as usize]);
            let best = pal.iter().map(|c| diff_ref(*p, *c)).fold(f64::MAX, f64::min);
            if d > best * 1.01 + 1e-5 { bad += 1; }
        }
    }
    if bad > 0 { eprintln!("{bad} pixels not mapped to the closest colour"); std::process::exit(1); }
}
'''),
 dict(id='c02-fixed-over-limit', property='C02', needs='more fixed colours than the maximum number of colours, and a histogram small enough for the low-colour path',
  what='the palette gets one entry per fixed colour even when that exceeds the maximum',
  edits=[('src/pal.rs', 'fixed_colors.len().min(max_colors as usize);', 'fixed_colors.len().min(MAX_COLORS);'), ('src/pal.rs','pub(crate) fn with_fixed_colors(mut self, max_colors: PalLen,','pub(crate) fn with_fixed_colors(mut self, _max_colors: PalLen,')],
  demo=PRE+'''
fn main() {
    let mut attr = new(); attr.set_max_colors(5).unwrap();
    let px: Vec<RGBA> = (0..100).map(|i| RGBA::new(i * 2, 10, 20, 255)).collect();
    let mut img = attr.new_image_borrowed(&px, 10, 10, 0.).unwrap();
    for i in 0..40 { img.add_fixed_color(RGBA::new(i * 5, i, 0, 255)).unwrap(); }
    let mut res = attr.quantize(&mut img).unwrap();
    let n = res.palette().len();
    if n > 5 { eprintln!("{n} colours, at most 5 wanted"); std::process::exit(1); }
}
'''),
 dict(id='c03-fixed-zero-popularity', property='C03', needs='a fixed colour added for a palette entry with no popularity, then a k-means step or remap that moves it',
  what='an unpopular fixed colour is not marked as fixed, so remapping moves it or it becomes the transparent placeholder',
  edits=[('src/pal.rs', 'Self(if self.0 > 0. { -self.0 } else { -1. })', 'Self(-self.0)'),
         ('src/pal.rs', '        debug_assert!(self.pops.iter().take(fixed_colors.len()).all(|pop| pop.is_fixed()));\n', '')],
  demo=PRE+'''
fn main() {
    let mut bad = 0;
    let mut seed = 9;
    for round in 0..400u32 {
        let mut attr = new(); attr.set_max_colors(12).unwrap(); attr.set_quality(0, 1 + (rng(&mut seed) % 60) as u8).unwrap();
        let px: Vec<RGBA> = (0..32*32).map(|_| RGBA::new(100 + (rng(&mut seed) % (1 + round % 90)) as u8, 100 + (rng(&mut seed) % 20) as u8, 100, 255)).collect();
        let mut img = attr.new_image_borrowed(&px, 32, 32, 0.).unwrap();
        let fixed: Vec<RGBA> = (0..11).map(|_| RGBA::new(90 + (rng(&mut seed) % 90) as u8, 90 + (rng(&mut seed) % 50) as u8, rng(&mut seed) as u8, 255)).collect();
        for f in &fixed { img.add_fixed_color(*f).unwrap(); }
        let mut res = attr.quantize(&mut img).unwrap();
        let pal0 = res.palette_vec();
        res.set_dithering_level(0.).unwrap();
        let (pal, _) = res.remapped(&mut img).unwrap();
        for f in &fixed { if !pal.contains(f) || !pal0.contains(f) { bad += 1; } }
    }
    if bad > 0 { eprintln!("{bad} fixed colours missing"); std::process::exit(1); }
}
'''),
 dict(id='c05-histogram-ignores-limit', property='C05', needs='a shared histogram (not a single image) with a minimum quality that cannot be met',
  what='the minimum quality is not enforced for palettes made from a Histogram',
  edits=[('src/quant.rs', 'if palette_error > max_mse {', 'if palette_error > max_mse && !freeze_result_colors {')],
  demo=PRE+'''
fn main() {
    let mut seed = 3;
    let mut attr = new(); attr.set_max_colors(4).unwrap(); attr.set_quality(90, 100).unwrap();
    let mut h = Histogram::new(&attr);
    let e: Vec<_> = (0..3000).map(|_| HistogramEntry { color: RGBA::new(rng(&mut seed) as u8, rng(&mut seed) as u8, rng(&mut seed) as u8, 255), count: 5 }).collect();
    h.add_colors(&e, 0.).unwrap();
    match h.quantize(&attr) {
        Err(Error::QualityTooLow) => {},
        Err(e) => { eprintln!("{e:?}"); std::process::exit(1) },
        Ok(r) => if r.quantization_quality().map_or(true, |q| q < 90) { eprintln!("quality {:?}", r.quantization_quality()); std::process::exit(1) },
    }
}
'''),
 dict(id='c06-dithering-nan', property='C06', needs='NaN (or another value that no comparison rejects) as the dithering level',
  what='set_dithering_level accepts NaN',
  edits=[('src/quant.rs', 'if !(0. ..=1.).contains(&value) {', 'if value < 0. || value > 1. {')],
  demo=PRE+'''
fn main() {
    let attr = new();
    let px = vec![RGBA::new(1, 2, 3, 255); 16];
    let mut img = attr.new_image_borrowed(&px, 4, 4, 0.).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    if res.set_dithering_level(f32::NAN).is_ok() { eprintln!("NaN accepted"); std::process::exit(1); }
}
'''),
 dict(id='c09-progress-over-100', property='C09', needs='a dithered remap with a dither map of an image tall enough to be split into chunks',
  what='the progress callback gets values over 100',
  edits=[('src/remap.rs', 'progress_stage1 as f32 + chunk_start_row as f32 * (100. - progress_stage1 as f32) / height as f32', 'progress_stage1 as f32 * 4. + chunk_start_row as f32 * (100. - progress_stage1 as f32) / height as f32')],
  features='threads',
  demo=PRE+'''
use std::sync::{Arc, Mutex};
fn main() {
    let mut seed = 3;
    let px: Vec<RGBA> = (0..64*1200).map(|_| RGBA::new(rng(&mut seed) as u8, rng(&mut seed) as u8, 3, 255)).collect();
    let attr = new();
    let mut img = attr.new_image_borrowed(&px, 64, 1200, 0.).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    let m = Arc::new(Mutex::new(0f32)); let m2 = m.clone();
    res.set_progress_callback(move |p| { let mut m = m2.lock().unwrap(); if p > *m { *m = p; } ControlFlow::Continue });
    res.remapped(&mut img).unwrap();
    let m = *m.lock().unwrap();
    if m > 100. { eprintln!("progress {m}"); std::process::exit(1); }
}
'''),
 dict(id='c13-alpha-not-posterized', property='C13', needs='output posterization and a palette with semitransparent colours',
  what='the alpha channel is not reduced to the requested precision',
  edits=[('src/pal.rs', '''            let mut px = f_color.to_rgb(gamma)
                .map(move |c| posterize_channel(c, posterize));''', '''            let mut px = f_color.to_rgb(gamma);
            px.r = posterize_channel(px.r, posterize);
            px.g = posterize_channel(px.g, posterize);
            px.b = posterize_channel(px.b, posterize);''')],
  demo=PRE+'''
fn main() {
    let mut attr = new(); attr.set_min_posterization(4).unwrap();
    let px: Vec<RGBA> = (0..256).map(|i| RGBA::new(i as u8, 10, 20, i as u8)).collect();
    let mut img = attr.new_image_borrowed(&px, 16, 16, 0.).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    let bad = res.palette().iter().filter(|c| c.a != 0 && (c.a & 15) != (c.a >> 4)).count();
    if bad > 0 { eprintln!("{bad} alphas not posterized"); std::process::exit(1); }
}
'''),
 dict(id='c15-failed-remap-forgets', property='C15', needs='a successful remap, then a remap aborted by the progress callback, then reading the palette and error',
  what='a failed remap discards the palette and error of the last successful one',
  edits=[('src/quant.rs', '''        image.free_histogram_inputs();

        let mut palette = self.palette.clone();''', '''        image.free_histogram_inputs();

        self.remapped = None;
        let mut palette = self.palette.clone();''')],
  demo=PRE+'''
use std::sync::{Arc, atomic::*};
fn main() {
    let mut seed = 5;
    let px: Vec<RGBA> = (0..80*80).map(|_| RGBA::new(rng(&mut seed) as u8, rng(&mut seed) as u8, 3, 255)).collect();
    let mut attr = new(); attr.set_max_colors(16).unwrap();
    let mut img = attr.new_image_borrowed(&px, 80, 80, 0.).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    let n = Arc::new(AtomicUsize::new(usize::MAX / 2)); let n2 = n.clone();
    res.set_progress_callback(move |_| if n2.fetch_sub(1, Ordering::SeqCst) == 0 { ControlFlow::Break } else { ControlFlow::Continue });
    res.remapped(&mut img).unwrap();
    let before = (res.palette_vec(), res.remapping_error());
    for k in 0..4 {
        let mut img = attr.new_image_borrowed(&px, 80, 80, 0.).unwrap();
        n.store(k, Ordering::SeqCst);
        if res.remapped(&mut img).is_ok() { break; }
        n.store(usize::MAX / 2, Ordering::SeqCst);
        if (res.palette_vec(), res.remapping_error()) != before { eprintln!("changed by a failed remap"); std::process::exit(1); }
    }
}
'''),
 dict(id='c17-unimportant-not-counted', property='C17', needs='an importance map with zeros and an undithered remap',
  what='pixels of zero importance are left out of the reported error',
  edits=[('src/remap.rs', '''            remapping_error += f64::from(diff);
            out.write(matched);
            let importance = f32::from(importance_map.get(col).copied().unwrap_or(1));
''', '''            out.write(matched);
            let importance = f32::from(importance_map.get(col).copied().unwrap_or(1));
            if importance > 0. {
                remapping_error += f64::from(diff);
            }
''')],
  demo=PRE+'''
fn main() {
    let mut seed = 5;
    let px: Vec<RGBA> = (0..80*80).map(|_| RGBA::new(rng(&mut seed) as u8, rng(&mut seed) as u8, 3, 255)).collect();
    let mut attr = new(); attr.set_max_colors(16).unwrap();
    let mut h = Histogram::new(&attr);
    let e: Vec<_> = px.iter().map(|&color| HistogramEntry { color, count: 1 }).collect();
    h.add_colors(&e, 0.).unwrap();
    let mut res = h.quantize(&attr).unwrap();
    res.set_dithering_level(0.).unwrap();
    let mut img = attr.new_image_borrowed(&px, 80, 80, 0.).unwrap();
    res.remapped(&mut img).unwrap();
    let a = res.remapping_error().unwrap();
    let mut img = attr.new_image_borrowed(&px, 80, 80, 0.).unwrap();
    img.set_importance_map((0..80*80).map(|i| if i % 3 == 0 { 0 } else { 255 }).collect::<Vec<u8>>()).unwrap();
    res.remapped(&mut img).unwrap();
    let b = res.remapping_error().unwrap();
    if (a - b).abs() > 1e-3 * a { eprintln!("{a} {b}"); std::process::exit(1); }
}
'''),
 dict(id='c18-tiny-weight-average', property='C18', needs='a colour with almost no weight alone in its box, at a speed that does no k-means afterwards',
  what="the average of a box with a tiny weight is not normalised, so the palette gets a colour outside of the range of the box's colours",
  edits=[('src/mediancut.rs', 'if sum != 0. {', 'if sum > 1. / 256. {')],
  demo=PRE+'''
fn main() {
    let mut bad = 0;
    for max in 3..20 {
        let mut seed = 11;
        let mut attr = new(); attr.set_max_colors(max).unwrap(); attr.set_speed(10).unwrap();
        let mut h = Histogram::new(&attr);
        let e: Vec<_> = (0..30).map(|_| HistogramEntry { color: RGBA::new(140 + (rng(&mut seed) % 100) as u8, 140 + (rng(&mut seed) % 100) as u8, 140 + (rng(&mut seed) % 100) as u8, 255), count: 90 }).chain([HistogramEntry { color: RGBA::new(220, 110, 110, 255), count: 1 }]).collect();
        h.add_colors(&e, 0.).unwrap();
        let mut res = h.quantize(&attr).unwrap();
        for c in res.palette() { if c.r < 96 || c.g < 96 || c.b < 96 || c.a != 255 { bad += 1; eprintln!("{c}"); } }
    }
    if bad > 0 { eprintln!("{bad} colours outside of the range of the input"); std::process::exit(1); }
}
'''),
]
