use crate::gen::*;
use crate::refm::{self, Lut, EPS};
use crate::{capi, Check, Ctx};
use imagequant::*;
use std::collections::{HashMap, HashSet};
use std::mem::MaybeUninit;
use std::sync::atomic::*;
use std::sync::{Arc, Mutex};

pub fn get(p: &str) -> Option<Check> {
    Some(match p {
        "C01" => c01, "C02" => c02, "C03" => c03, "C04" => c04, "C05" => c05, "C06" => c06, "C07" => c07, "C08" => capi::c08, "C09" => c09,
        "C10" => c10, "C11" => c11, "C12" => c12, "C13" => c13, "C14" => c14, "C15" => c15, "C16" => c16, "C17" => c17, "C18" => c18, "C19" => c19,
        _ => return None,
    })
}

macro_rules! ensure { ($c:expr, $($f:tt)+) => { if !$c { return Err(format!($($f)+)); } } }

const THREADS: bool = cfg!(feature = "threads");

/// Quantize; Ok(None) if it failed the way it may fail
pub fn quantize(c: &Case, a: &Attributes, img: &mut Image) -> Result<Option<QuantizationResult>, String> {
    match a.quantize(img) {
        Ok(r) => Ok(Some(r)),
        Err(Error::QualityTooLow) if c.quality.map_or(false, |q| q.0 > 0) => Ok(None),
        Err(Error::Unsupported) if c.imp.as_ref().map_or(false, |i| i.iter().all(|&x| x == 0)) && c.fixed.is_empty() => Ok(None),
        Err(e) => Err(format!("quantize of a valid image failed: {e:?}")),
    }
}

fn eq_px(pal: RGBA, px: RGBA) -> bool { if px.a == 0 { pal.a == 0 } else { pal == px } }

/// C01: complete, valid indices, in bounds, in row order
fn c01(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC01);
    let lossless = r.chance(60) || idx < 13;
    let want = if lossless { Want { few_colors: true, no_post: true, no_quality: true, max_speed: 7, imp_nonzero: true, no_bg: r.chance(70), ..Want::default() } } else { Want::default() };
    let mut c = Case::make(seed, idx, want);
    if lossless { let d = c.distinct_with_fixed(); if d > 256 { c.fixed.clear(); } c.max_colors = (c.distinct_with_fixed() as u32).max(c.max_colors).max(2); }
    ctx.desc = c.desc();
    let a = c.attr();
    let mut img = c.image(&a)?;
    let Some(mut res) = quantize(&c, &a, &mut img)? else { return Ok(()) };
    res.set_dithering_level(c.dither).map_err(|e| format!("{e:?}"))?;
    let (w, h) = (c.w, c.h);
    let n = w * h;
    let mode = r.below(4);
    let out: Vec<u8> = match mode {
        0 => { let (p, o) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
            ensure!(p == res.palette(), "palette returned by the remap is not the palette reported");
            o },
        1 => {
            let extra = r.below(40);
            let mut buf = vec![MaybeUninit::new(0xFFu8); n + extra];
            // a guard before, too
            let mut full = vec![MaybeUninit::new(0xFFu8); 8];
            full.append(&mut buf);
            res.remap_into(&mut img, &mut full[8..]).map_err(|e| format!("remap failed {e:?}"))?;
            let v: Vec<u8> = full.iter().map(|x| unsafe { x.assume_init() }).collect();
            ensure!(v[..8].iter().chain(&v[8 + n..]).all(|&x| x == 0xFF), "wrote outside the output pixels");
            if n > 0 { let mut small = vec![MaybeUninit::new(0xEEu8); n - 1];
                let e = res.clone().remap_into(&mut img, &mut small);
                ensure!(matches!(e, Err(Error::BufferTooSmall)), "too small buffer: {e:?}");
                ensure!(small.iter().all(|x| unsafe { x.assume_init() } == 0xEE), "wrote to a too small buffer"); }
            v[8..8 + n].to_vec()
        },
        2 => { // row pointers, rows shuffled and padded
            let pad = r.range(1, 9); let st = w + pad;
            let mut buf = vec![0xFFu8; st * h + pad];
            let mut order: Vec<usize> = (0..h).collect();
            for i in (1..h).rev() { let j = r.below(i + 1); order.swap(i, j); }
            let base = buf.as_mut_ptr();
            let mut rows: Vec<*mut MaybeUninit<u8>> = order.iter().map(|&o| unsafe { base.add(pad + o * st) }.cast()).collect();
            unsafe { imagequant::capi::liq_write_remapped_image_rows_impl(&mut res, &mut img, &mut rows) }.map_err(|e| format!("remap failed {e:?}"))?;
            let mut o = Vec::new();
            for y in 0..h { o.extend_from_slice(&buf[pad + order[y] * st..][..w]); }
            ensure!(buf[..pad].iter().all(|&x| x == 0xFF), "wrote before the first row");
            for y in 0..h { ensure!(buf[pad + y * st + w..pad + (y + 1) * st].iter().all(|&x| x == 0xFF), "wrote outside the row"); }
            o
        },
        _ => {
            let mut o = vec![0xFFu8; r.below(50)];
            if r.chance(40) {
                // nothing that was not written is shown when it fails
                let mut b = res.clone();
                b.set_progress_callback(|_| ControlFlow::Break);
                let (mut i2, mut o2) = (img.clone(), o.clone());
                let e = b.remap_into_vec(&mut i2, &mut o2);
                ensure!(matches!(e, Err(Error::Aborted)), "aborted remap: {e:?}");
                ensure!(o2.is_empty() || o2 == o, "an aborted remap left {} indices in the output", o2.len());
            }
            let p = res.remap_into_vec(&mut img, &mut o).map_err(|e| format!("remap failed {e:?}"))?;
            ensure!(p == res.palette(), "palette returned by the remap is not the palette reported");
            o
        },
    };
    ctx.nontrivial = n > 1;
    ensure!(out.len() == n, "output has {} indices for {} pixels", out.len(), n);
    let pal = res.palette_vec();
    if let Some(i) = out.iter().position(|&x| x as usize >= pal.len()) {
        return Err(format!("index {} at pixel {} ({},{}) but the palette has {} entries (output mode {mode})", out[i], i, i % w, i / w, pal.len()));
    }
    if lossless && c.bg.is_none() {
        if let Some(i) = (0..n).find(|&i| !eq_px(pal[out[i] as usize], c.px[i])) {
            return Err(format!("pixel {i} ({},{}) {:?} got {:?} although all colours are in the palette (output mode {mode})", i % w, i / w, c.px[i], pal[out[i] as usize]));
        }
    }
    // the C functions
    if n < 20_000 && r.chance(20) && (!THREADS || (lossless && c.bg.is_none())) { capi::c_sources(&c, Some(&(pal, out)), THREADS)?; }
    Ok(())
}

fn hist_entries(r: &mut Rng, n: usize) -> Vec<HistogramEntry> {
    let op = r.chance(40);
    let (px, _) = pixels(r, n, 1, None, op);
    px.into_iter().map(|color| HistogramEntry { color, count: match r.below(6) { 0 => 0, 1 => 1, 2 => u32::MAX, _ => r.range(1, 100000) as u32 } }).collect()
}

/// C02
fn c02(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut c = Case::make(seed, idx, Want::default());
    let mut r = Rng::new(seed ^ 0xC02);
    if r.chance(25) { c.max_colors = r.range(2, 12) as u32; }
    ctx.desc = c.desc();
    let mut a = c.attr();
    let mut max = c.max_colors as usize;
    if cfg!(feature = "large") && r.chance(50) { a = Attributes::new(); max = 2048; let _ = a.set_speed(r.range(3, 10) as i32); }
    if r.chance(30) {
        let mut hist = Histogram::new(&a);
        let k = r.range(0, 2);
        let mut any = false;
        for _ in 0..k { let n = r.range(1, 600); let e = hist_entries(&mut r, n); any |= e.iter().any(|e| e.count > 0); hist.add_colors(&e, 0.).map_err(|e| format!("{e:?}"))?; }
        if any && r.chance(30) { for f in &c.fixed { hist.add_fixed_color(*f, 0.).map_err(|e| format!("{e:?}"))?; } }
        if !any || r.chance(50) { for f in &c.fixed { hist.add_fixed_color(*f, 0.).map_err(|e| format!("{e:?}"))?; any = true; } }
        ctx.desc += &format!(" histogram any={any}");
        match hist.quantize(&a) {
            Ok(mut res) => {
                ctx.nontrivial = true;
                let l = res.palette_len();
                ensure!((1..=max).contains(&l), "palette length {l}, max {max}");
                ensure!(res.palette().len() == l, "palette() has {} entries, palette_len() {l}", res.palette().len());
                ensure!(res.palette_vec().len() == l, "palette_vec() differs");
            },
            Err(Error::QualityTooLow) if c.quality.map_or(false, |q| q.0 > 0) => {},
            Err(Error::Unsupported) if !any => {},
            Err(e) => return Err(format!("histogram quantize failed: {e:?}")),
        }
        return Ok(());
    }
    let mut img = c.image(&a)?;
    let Some(mut res) = quantize(&c, &a, &mut img)? else { return Ok(()) };
    ctx.nontrivial = true;
    let l = res.palette_len();
    ensure!((1..=max).contains(&l), "palette length {l}, max {max}");
    if r.chance(50) { ensure!(res.palette().len() == l, "palette() has {} entries, palette_len() {l}", res.palette().len()); }
    for d in [c.dither, 1. - c.dither] {
        res.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
        if l > 256 { break; }
        let (p, _) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        ensure!(p.len() == l && res.palette_len() == l && res.palette().len() == l, "palette has {} entries after remap, {l} before", p.len());
        ensure!(imagequant::capi::liq_get_palette_impl(&mut res).count as usize == l, "C palette count differs");
    }
    Ok(())
}

/// C03
fn c03(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    if idx < 8 && !cfg!(feature = "large") { return all_conversions(idx, ctx); }
    let mut r = Rng::new(seed ^ 0xC03);
    let mut c = Case::make(seed, idx, Want { must_fixed: true, no_post: true, ..Want::default() });
    if r.chance(30) { c.max_colors = r.range(2, 9) as u32; }
    if r.chance(30) { c.quality = Some((0, r.below(60) as u8)); }
    ctx.desc = c.desc();
    let a = c.attr();
    let mut seen = HashSet::new();
    let expect: Vec<RGBA> = c.fixed.iter().copied().filter(|f| seen.insert(key(*f))).take(c.max_colors as usize).collect();
    let test = |pal: &[RGBA], when: &str| -> Result<(), String> {
        for (i, f) in expect.iter().enumerate() {
            ensure!(pal.iter().any(|p| eq_px(*p, *f)), "fixed colour #{i} {f:?} is not in the palette {when} ({} entries, {} fixed expected)", pal.len(), expect.len());
        }
        Ok(())
    };
    let use_hist = r.chance(30);
    let mut img = c.image(&a)?;
    let res = if use_hist {
        let mut hist = Histogram::new(&a);
        // consecutive parts of the list are added directly, or with an image
        let mut rest = &c.fixed[..];
        let mut images = 0;
        while !rest.is_empty() || images == 0 {
            let n = if r.chance(40) { rest.len() } else { r.below(rest.len() + 1) };
            let (part, next) = rest.split_at(n);
            rest = next;
            if r.chance(50) && images < 3 {
                let mut img2 = c.plain(&a, &c.px, c.src).map_err(|e| format!("{e:?}"))?;
                for f in part { img2.add_fixed_color(*f).map_err(|e| format!("{e:?}"))?; }
                hist.add_image(&a, &mut img2).map_err(|e| format!("{e:?}"))?;
                images += 1;
            } else {
                for f in part { hist.add_fixed_color(*f, 0.).map_err(|e| format!("{e:?}"))?; }
            }
        }
        match hist.quantize(&a) { Ok(r) => Some(r), Err(Error::QualityTooLow) => None, Err(e) => return Err(format!("quantize: {e:?}")) }
    } else { quantize(&c, &a, &mut img)? };
    let Some(mut res) = res else { return Ok(()) };
    ctx.nontrivial = true;
    if r.chance(50) { test(res.palette(), "before remapping")?; } else { test(res.clone().palette(), "before remapping")?; }
    for d in [c.dither, 1. - c.dither] {
        res.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
        let (p, _) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        test(&p, &format!("after remapping with dithering {d}"))?;
    }
    Ok(())
}

/// C04
fn c04(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC04);
    let mut c = Case::make(seed, idx, Want { few_colors: true, no_post: true, no_quality: true, max_speed: 7, imp_nonzero: true, no_bg: true, ..Want::default() });
    if idx >= 13 && idx < 13 + 256 && !cfg!(feature = "large") {
        // all channel values with each alpha, systematically
        let al = (idx - 13) as u8; c.w = 16; c.h = 16; c.imp = None; c.fixed.clear();
        c.px = (0..256).map(|i| RGBA::new(i as u8, 255 - i as u8, (i as u8).wrapping_mul(7), al)).collect();
    }
    if c.distinct_with_fixed() > 256 { c.fixed.clear(); }
    let d = c.distinct_with_fixed();
    c.max_colors = match r.below(3) { 0 => (d as u32).max(2), 1 => (d as u32 + 1).clamp(2, 256), _ => c.max_colors.max(d as u32) };
    if r.chance(30) { c.quality = Some((*r.pick(&[0u8, 50, 100]), 100)); }
    ctx.desc = c.desc();
    let a = c.attr();
    let mut img = c.image(&a)?;
    let mut res = match a.quantize(&mut img) { Ok(r) => r, Err(e) => return Err(format!("quantize: {e:?}")) };
    ctx.nontrivial = c.px.len() > 1;
    ensure!(res.quantization_quality() == Some(100) && res.quantization_error() == Some(0.), "reported quality {:?} error {:?}", res.quantization_quality(), res.quantization_error());
    let first = if r.chance(50) { 0. } else { 1. };
    for dl in [c.dither, first, 1. - first] {
        res.set_dithering_level(dl).map_err(|e| format!("{e:?}"))?;
        let (pal, out) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        ensure!(out.len() == c.px.len(), "output length");
        if let Some(i) = (0..out.len()).find(|&i| !pal.get(out[i] as usize).map_or(false, |p| eq_px(*p, c.px[i]))) {
            return Err(format!("dithering {dl}: pixel {i} {:?} became {:?}", c.px[i], pal.get(out[i] as usize)));
        }
        ensure!(res.remapping_quality() == Some(100), "remapping quality {:?} dithering {dl}", res.remapping_quality());
        ensure!(res.remapping_error().map_or(false, |e| e >= 0. && e < 1e-6), "remapping error {:?} dithering {dl}", res.remapping_error());
    }
    Ok(())
}

/// C05
/// Every pair of qualities. Reading back what was set means that errors of qualities are distinct and in order (see `mse_to_quality`)
fn all_qualities(ctx: &mut Ctx) -> Result<(), String> {
    ctx.desc = "all qualities".into();
    ctx.nontrivial = true;
    let mut a = Attributes::new();
    let mut cur = a.quality();
    for min in 0..=255u8 { for target in 0..=255u8 {
        let ok = target <= 100 && min <= target;
        let got = a.set_quality(min, target);
        ensure!(got.is_ok() == ok && (ok || matches!(got, Err(Error::ValueOutOfRange))), "set_quality({min}, {target}) = {got:?}");
        if ok { cur = (min, target); }
        if ok || target <= 101 { ensure!(a.quality() == cur, "quality() = {:?} after set_quality({min}, {target}), expected {cur:?}", a.quality()); }
    } }
    Ok(())
}

/// Every value of every channel at every alpha is converted to the internal format and back without a change
fn all_conversions(idx: u64, ctx: &mut Ctx) -> Result<(), String> {
    let gamma = [0., 0.45455, 0.5, 0.3, 0.8, 0.99, 0.6, 0.2][idx as usize % 8];
    ctx.desc = format!("all channel values, gamma {gamma}");
    ctx.nontrivial = true;
    let a = Attributes::new();
    for alpha in 1..=255u8 {
        let cols: Vec<RGBA> = (0..=255u8).map(|v| RGBA::new(v, 255 - v, v ^ 0x55, alpha)).collect();
        let mut h = Histogram::new(&a);
        h.add_colors(&cols.iter().map(|&color| HistogramEntry { color, count: 10 }).collect::<Vec<_>>(), gamma).map_err(|e| format!("{e:?}"))?;
        let mut res = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
        let mut pal = res.palette_vec();
        pal.sort_by_key(|c| (c.r, c.g, c.b, c.a));
        for (p, c) in pal.iter().zip(&cols) { ensure!(p == c, "{c:?} became {p:?} (gamma {gamma})"); }
        ensure!(pal.len() == 256, "{} of 256 colours", pal.len());
    }
    Ok(())
}

fn c05(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    if idx == 0 { return all_qualities(ctx); }
    let mut r = Rng::new(seed ^ 0xC05);
    let mut c = Case::make(seed, idx, Want { must_quality: true, ..Want::default() });
    if r.chance(40) { c.max_colors = r.range(2, 20) as u32; }
    if r.chance(50) { let t = c.quality.unwrap().1; c.quality = Some((t - (r.below(10) as u8).min(t), t)); }
    ctx.desc = c.desc();
    let a = c.attr();
    let (min, _) = c.quality.unwrap();
    let check = |res: &QuantizationResult| -> Result<(), String> {
        let Some(q) = res.quantization_quality() else { return Err("no quality reported although a minimum was set".into()) };
        ensure!(q <= 100 && q >= min, "quantization quality {q}, minimum {min}");
        let Some(e) = res.quantization_error() else { return Err("no error reported".into()) };
        ensure!(e.is_finite() && e >= 0., "quantization error {e}");
        Ok(())
    };
    if r.chance(30) {
        let mut hist = Histogram::new(&a);
        let mut any = false;
        if r.chance(70) { let n = r.range(1, 600); let e = hist_entries(&mut r, n); any = e.iter().any(|e| e.count > 0); hist.add_colors(&e, 0.).map_err(|e| format!("{e:?}"))?; }
        for f in &c.fixed { hist.add_fixed_color(*f, 0.).map_err(|e| format!("{e:?}"))?; any = true; }
        ctx.desc += &format!(" histogram");
        return match hist.quantize(&a) {
            Ok(res) => { ctx.nontrivial = min > 0; check(&res) },
            Err(Error::QualityTooLow) => { ctx.nontrivial = true; ensure!(min > 0, "QualityTooLow with minimum 0"); Ok(()) },
            Err(Error::Unsupported) if !any => Ok(()),
            Err(e) => Err(format!("quantize: {e:?}")),
        };
    }
    let mut img = c.image(&a)?;
    match a.quantize(&mut img) {
        Ok(mut res) => {
            ctx.nontrivial = min > 0;
            check(&res)?;
            res.set_dithering_level(c.dither).map_err(|e| format!("{e:?}"))?;
            res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
            check(&res)?;
            let (q, e) = (res.remapping_quality(), res.remapping_error());
            ensure!(q.map_or(false, |q| q <= 100), "remapping quality {q:?}");
            ensure!(e.map_or(false, |e| e.is_finite() && e >= 0.), "remapping error {e:?}");
            Ok(())
        },
        Err(Error::QualityTooLow) => {
            ctx.nontrivial = true; ensure!(min > 0, "QualityTooLow with minimum 0");
            // the failure must be about the palette: an image that can be kept exactly never fails
            if c.quality.unwrap().1 == 100 && c.post == 0 && c.speed <= 7 && c.imp.is_none() {
                ensure!(c.distinct_with_fixed() > c.max_colors as usize, "QualityTooLow although all colours fit the palette");
            }
            Ok(())
        },
        Err(Error::Unsupported) if c.imp.is_some() => Ok(()),
        Err(e) => Err(format!("quantize: {e:?}")),
    }
}

/// C06: random sequences of setters against a model, Rust and C API
fn c06(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    if idx == 0 { return all_qualities(ctx); }
    let mut r = Rng::new(seed ^ 0xC06);
    ctx.desc = format!("sequence seed {seed}");
    ctx.nontrivial = true;
    capi::settings_sequence(&mut r)?;
    // result setters
    let a = Attributes::new();
    let px = [RGBA::new(1, 2, 3, 255), RGBA::new(200, 100, 3, 255)];
    let mut img = a.new_image(&px[..], 2, 1, 0.).map_err(|e| format!("{e:?}"))?;
    let mut res = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
    let mut gamma = res.output_gamma();
    for _ in 0..20 {
        let special = [f64::NAN, f64::INFINITY, -f64::INFINITY, 0., -0., 1., 1. - f64::EPSILON, f64::MIN_POSITIVE, -1., 2., 1e308, 0.45455, 5e-324];
        let v = if r.chance(60) { *r.pick(&special) } else { r.f() * 3. - 1. };
        let ok = v > 0. && v < 1.;
        let got = res.set_output_gamma(v);
        ensure!(got.is_ok() == ok && (ok || matches!(got, Err(Error::ValueOutOfRange))), "set_output_gamma({v}) = {got:?}");
        if ok { gamma = v; }
        ensure!(res.output_gamma().to_bits() == gamma.to_bits(), "output_gamma() = {} after set {gamma}", res.output_gamma());
        let v = if r.chance(60) { *r.pick(&special) as f32 } else { (r.f() * 3. - 1.) as f32 };
        let ok = v >= 0. && v <= 1.;
        let got = res.set_dithering_level(v);
        ensure!(got.is_ok() == ok && (ok || matches!(got, Err(Error::ValueOutOfRange))), "set_dithering_level({v}) = {got:?}");
        ensure!(res.output_gamma().to_bits() == gamma.to_bits(), "output_gamma() changed by set_dithering_level");
    }
    Ok(())
}

fn same(a: &(Vec<RGBA>, Vec<u8>), b: &(Vec<RGBA>, Vec<u8>)) -> bool { a == b }

/// C07
/// Images so large that their pixels are converted only when needed, instead of being kept converted
fn low_memory(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC07);
    let (w, h) = if r.chance(50) { (4_200, 1_010 + r.below(20)) } else { (1_010 + r.below(20), 4_200) };
    let gamma = *r.pick(&[0.3, 0.7, 1.]);
    ctx.desc = format!("{w}x{h} gamma={gamma} idx={idx}");
    ctx.nontrivial = true;
    let px: Vec<RGBA> = (0..w * h).map(|i| { let (x, y) = (i % w, i / w); RGBA::new((x / 8) as u8, (y / 16) as u8, (x * y >> 12) as u8, 255) }).collect();
    let mut a = Attributes::new();
    a.set_speed(10).map_err(|e| format!("{e:?}"))?;
    a.set_max_colors(16).map_err(|e| format!("{e:?}"))?;
    let small = a.new_image(&px[..w * 16], w, 16, gamma).map_err(|e| format!("{e:?}"))?;
    let mut res = a.quantize(&mut { small }).map_err(|e| format!("{e:?}"))?;
    let d = (idx & 1) as f32;
    res.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
    let mut big = match r.below(3) {
        0 => a.new_image_borrowed(&px, w, h, gamma),
        1 => a.new_image(&px[..], w, h, gamma),
        _ => unsafe { Image::new_fn(&a, |row: &mut [MaybeUninit<RGBA>], y| { for (d, s) in row.iter_mut().zip(&px[y * w..]) { d.write(*s); } }, w, h, gamma) },
    }.map_err(|e| format!("{e:?}"))?;
    let (pal, out) = res.clone().remapped(&mut big).map_err(|e| format!("{e:?}"))?;
    ensure!(out.len() == w * h, "output length");
    if d == 0. {
        // same pixels, in images small enough
        for y in [0, 1, h / 2, h - 40] {
            let rows = 40.min(h - y);
            let mut part = a.new_image_borrowed(&px[y * w..][..w * rows], w, rows, gamma).map_err(|e| format!("{e:?}"))?;
            let (pal2, out2) = res.clone().remapped(&mut part).map_err(|e| format!("{e:?}"))?;
            ensure!(pal == pal2, "palette of a large image differs");
            if let Some(i) = (0..w * rows).find(|&i| out[y * w + i] != out2[i]) { return Err(format!("pixel {},{} of a large image is {:?}, and of a part of it {:?}", i % w, y + i / w, pal[out[y * w + i] as usize], pal[out2[i] as usize])); }
        }
    } else {
        // same pixels, already converted
        let mut again = a.new_image_borrowed(&px, w, h, gamma).map_err(|e| format!("{e:?}"))?;
        let mut other = Attributes::new();
        other.set_speed(7).map_err(|e| format!("{e:?}"))?;
        other.quantize(&mut again).map_err(|e| format!("{e:?}"))?;
        let (pal2, out2) = res.clone().remapped(&mut again).map_err(|e| format!("{e:?}"))?;
        ensure!(pal == pal2 && out == out2, "a large image remapped differently after it was converted");
    }
    Ok(())
}

fn c07(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC07);
    if (idx == 13 || idx == 14) && !THREADS && !cfg!(debug_assertions) { return low_memory(idx, seed, ctx); }
    // 1. which sizes are accepted
    let a = Attributes::new();
    for _ in 0..12 {
        let dim = |r: &mut Rng| match r.below(8) { 0 => 0, 1 => r.range(1, 4), 2 => *r.pick(&[usize::MAX, 1 << 32, (1 << 32) - 1, 1 << 31, (1 << 31) - 1, (1 << 33) + 2, (1 << 32) + 3]), _ => r.range(1, 12) };
        let (w, h) = (dim(&mut r), dim(&mut r));
        let stride = match r.below(5) { 0 => dim(&mut r), 1 => w.wrapping_sub(1), 2 => w.wrapping_add(r.below(4)), _ => w };
        let gamma = *r.pick(&[0., 0.45455, 1., 0.5, -0.1, 1.1, f64::NAN, f64::INFINITY, -0.]);
        let need = if w == 0 || h == 0 { None } else { stride.checked_mul(h - 1).and_then(|x| x.checked_add(w)) };
        let len = match need { Some(n) if n < 500 => *r.pick(&[n, n, n.saturating_sub(1), n + 1, 0, n + stride.min(9)]), _ => r.below(300) };
        let buf = vec![RGBA::new(9, 9, 9, 255); len];
        let geom = w > 0 && h > 0 && w <= u32::MAX as usize && h <= u32::MAX as usize && stride <= u32::MAX as usize && stride >= w && need.map_or(false, |n| n <= len);
        let sz = w <= i32::MAX as usize && h <= i32::MAX as usize;
        let g = gamma >= 0. && gamma <= 1.;
        let res = Image::new_stride_borrowed(&a, &buf, w, h, stride, gamma);
        let ok = geom && sz && g;
        ensure!(res.is_ok() == ok, "new_stride_borrowed(len={len}, {w}x{h}, stride={stride}, gamma={gamma}) accepted={} expected={ok}", res.is_ok());
        let res2 = Image::new_stride(&a, &buf[..], w, h, stride, gamma);
        ensure!(res2.is_ok() == ok, "new_stride(len={len}, {w}x{h}, stride={stride}, gamma={gamma}) accepted={} expected={ok}", res2.is_ok());
        if let Ok(mut i) = res {
            ensure!(i.width() == w && i.height() == h, "dimensions");
            if w * h < 200 { a.quantize(&mut i).map_err(|e| format!("{e:?}"))?; }
        }
        let res3 = unsafe { Image::new_fn(&a, |row: &mut [MaybeUninit<RGBA>], _| { for p in row.iter_mut() { p.write(RGBA::new(1, 1, 1, 1)); } }, w, h, gamma) };
        let ok3 = w > 0 && h > 0 && sz && g && (w as u128 * h as u128 * 16) < isize::MAX as u128;
        ensure!(res3.is_ok() == ok3, "new_fn({w}x{h}, gamma={gamma}) accepted={} expected={ok3}", res3.is_ok());
    }
    // 2. every source gives the same result
    let mut c = Case::make(seed, idx, Want { few_colors: THREADS, no_post: THREADS, no_quality: THREADS, imp_nonzero: true, max_speed: if THREADS { 7 } else { 10 }, ..Want::default() });
    if THREADS { if c.distinct_with_fixed() > 256 { c.fixed.clear(); } c.max_colors = c.max_colors.max(c.distinct_with_fixed() as u32); c.gamma = 0.; c.bg = None; }
    ctx.desc = c.desc();
    let a = c.attr();
    // when to clone (and drop the original): 0 never, 1 after quantization, 2 after the image was added to another histogram; pre: whether it was added to one at all
    let go = |src: Src, when: u8, pre: bool| -> Result<Option<(Vec<RGBA>, Vec<u8>)>, String> {
        let i = c.plain(&a, &c.px, src).map_err(|e| format!("{src:?}: {e:?}"))?;
        let mut i = c.decorate(&a, i)?;
        // whatever reuses the memory of the original must not matter
        let reclone = |i: Image<'_>| { let k = unsafe { std::mem::transmute::<Image<'_>, Image<'static>>(i.clone()) }; drop(i);
            let junk: Vec<Vec<u8>> = [4, 16, 8].iter().map(|m| vec![0xABu8; c.w * c.h * m]).collect(); std::hint::black_box(&junk); k };
        if pre { let mut h = Histogram::new(&a); h.add_image(&a, &mut i).map_err(|e| format!("{src:?}: add_image {e:?}"))?; }
        let mut i = if when == 2 { reclone(i) } else { i };
        let Some(mut res) = quantize(&c, &a, &mut i)? else { return Ok(None) };
        res.set_dithering_level(c.dither).map_err(|e| format!("{e:?}"))?;
        // the image may be cloned after it was analysed, too
        let mut i = if when == 1 { reclone(i) } else { i };
        Ok(Some(res.remapped(&mut i).map_err(|e| format!("remap failed {e:?}"))?))
    };
    let base = go(Src::Borrowed, 0, false)?;
    let base_pre = if r.chance(40) && c.w * c.h <= 100_000 { Some(go(Src::Borrowed, 0, true)?) } else { None };
    ctx.nontrivial = base.is_some();
    let big = c.w * c.h > 100_000;
    let expect_px = |o: &(Vec<RGBA>, Vec<u8>)| -> Option<usize> { (0..c.px.len()).find(|&i| o.1.get(i).and_then(|&x| o.0.get(x as usize)).map_or(true, |p| !eq_px(*p, c.px[i]))) };
    for s in ALL_SRC {
        if big && s != c.src { continue; }
        let pre = base_pre.is_some() && r.chance(70);
        let when = if r.chance(40) { if pre && r.chance(60) { 2 } else { 1 } } else { 0 };
        let o = go(s, when, pre)?;
        match (if pre { base_pre.as_ref().unwrap() } else { &base }, &o) {
            (None, None) => {},
            (Some(b), Some(o)) => if THREADS {
                if let Some(i) = expect_px(o) { return Err(format!("{s:?} source: pixel {i} was {:?}, became {:?} although all colours fit", c.px[i], o.1.get(i).and_then(|&x| o.0.get(x as usize)))); }
            } else { ensure!(same(b, o), "{s:?} source gives a different result than a borrowed slice (cloned: {when}, added to a histogram first: {pre})") },
            _ => return Err(format!("{s:?} source quantizes differently (fails or not)")),
        }
    }
    // C constructors
    if !big { capi::c_sources(&c, base.as_ref(), THREADS)?; }
    Ok(())
}

/// C09
fn c09(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC09);
    if r.chance(5) { let v = *r.pick(&[0, 1, -1, 2, 256, 1 << 16, i32::MIN, i32::MAX]); ctx.desc = format!("C callback answers {v}"); ctx.nontrivial = true; return capi::c_progress(v); }
    let mut c = Case::make(seed, idx, Want { ..Want::default() });
    if c.w * c.h > 300_000 { c.w = 20; c.h = 150 + r.below(200); c.px = pixels(&mut r, c.w, c.h, None, false).0; c.imp = None; c.bg = None; }
    if c.quality.map_or(false, |q| q.0 > 50) { c.quality = Some((0, c.quality.unwrap().1)); }
    ctx.desc = c.desc();
    let bad: Arc<Mutex<Option<f32>>> = Default::default();
    let count = Arc::new(AtomicUsize::new(0));
    let fire_at = Arc::new(AtomicUsize::new(usize::MAX));
    let fired = Arc::new(AtomicBool::new(false));
    let mk = || { let (bad, count, fire_at, fired) = (bad.clone(), count.clone(), fire_at.clone(), fired.clone());
        move |p: f32| {
            if !(p >= 0. && p <= 100.) { *bad.lock().unwrap() = Some(p); }
            if count.fetch_add(1, Ordering::SeqCst) == fire_at.load(Ordering::SeqCst) { fired.store(true, Ordering::SeqCst); ControlFlow::Break } else { ControlFlow::Continue }
        } };
    let mut a = c.attr();
    let plain = { let mut i = c.image(&a)?; match quantize(&c, &a, &mut i)? { Some(mut q) => { q.set_dithering_level(c.dither).unwrap(); let pal0 = q.palette_len(); let o = q.remapped(&mut i).map_err(|e| format!("remap {e:?}"))?; Some((pal0, o)) }, None => None } };
    a.set_progress_callback(mk());
    let mut img = c.image(&a)?;
    let r0 = quantize(&c, &a, &mut img)?;
    let n = count.load(Ordering::SeqCst);
    ensure!(n > 0, "progress callback was never called");
    let chk = || -> Result<(), String> { if let Some(p) = *bad.lock().unwrap() { return Err(format!("progress {p} is outside 0-100")); } Ok(()) };
    chk()?;
    ctx.nontrivial = true;
    if !THREADS {
        ensure!(r0.is_some() == plain.is_some(), "the callback changed whether quantization succeeds");
        if let (Some(res), Some(p)) = (&r0, &plain) {
            let mut q = res.clone(); q.set_dithering_level(c.dither).unwrap();
            q.set_progress_callback(mk());
            let mut i = c.image(&a)?;
            let mut a2 = c.attr(); a2.set_progress_callback(|_| ControlFlow::Continue);
            if quantize(&c, &a2, &mut i)?.is_some() { let o = q.remapped(&mut i).map_err(|e| format!("remap {e:?}"))?; ensure!(o == p.1, "the callback changed the result"); }
            chk()?;
        }
    }
    let mut ks: Vec<usize> = (0..n).collect();
    if n > 25 { for i in 0..n { let j = r.below(n); ks.swap(i, j); } ks.truncate(20); ks.push(0); ks.push(n - 1); }
    for k in ks {
        count.store(0, Ordering::SeqCst); fired.store(false, Ordering::SeqCst); fire_at.store(k, Ordering::SeqCst);
        let mut img = c.image(&a)?;
        let res = a.quantize(&mut img);
        if fired.load(Ordering::SeqCst) { ensure!(matches!(res, Err(Error::Aborted)), "abort at progress call {k} of {n}: quantize returned {:?}", res.map(|_| "a result")); }
        chk()?;
    }
    fire_at.store(usize::MAX, Ordering::SeqCst);
    // remapping
    let Some(res0) = r0 else { return Ok(()) };
    for d in [c.dither, 1. - c.dither] {
        let prepare = || -> Result<_, String> {
            let mut res = res0.clone();
            res.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
            res.set_progress_callback(mk());
            let mut i = c.image(&a)?;
            let mut h = Histogram::new(&a); let _ = h.add_image(&a, &mut i);
            Ok((res, i))
        };
        let (mut res, mut i) = prepare()?;
        count.store(0, Ordering::SeqCst);
        let o0 = res.remapped(&mut i).map_err(|e| format!("remap failed {e:?}"))?;
        let n = count.load(Ordering::SeqCst);
        ensure!(n > 0, "remapping progress callback was never called");
        chk()?;
        let p0 = o0.0;
        for k in 0..n {
            let (mut res, mut i) = prepare()?;
            let before = (res.remapping_error(), res.clone().palette_vec());
            count.store(0, Ordering::SeqCst); fired.store(false, Ordering::SeqCst); fire_at.store(k, Ordering::SeqCst);
            let o = res.remapped(&mut i);
            fire_at.store(usize::MAX, Ordering::SeqCst);
            if fired.load(Ordering::SeqCst) {
                ensure!(matches!(o, Err(Error::Aborted)), "abort at remap progress call {k} of {n} (dithering {d}): {:?}", o.map(|_| "a result"));
                ensure!((res.remapping_error(), res.palette_vec()) == before, "aborted remap changed the result object");
                if r.chance(30) {
                    // and the objects stay usable
                    let o = res.remapped(&mut i).map_err(|e| format!("remap after abort failed {e:?}"))?;
                    ensure!(o.0.len() == p0.len() && o.1.len() == c.w * c.h, "remap after abort");
                }
            }
            chk()?;
        }
    }
    Ok(())
}

/// palette entries in the internal space, as searched by an undithered remap
fn pal_f(pal: &[RGBA], gamma: f64) -> Vec<[f64; 4]> { let l = Lut::new(gamma); pal.iter().map(|p| l.px(*p)).collect() }

struct Undithered { pal: Vec<RGBA>, out: Vec<u8>, palf: Vec<[f64; 4]>, pxf: Lut, err: Option<f64>, q: Option<u8> }

fn undithered<'a>(c: &'a Case, r: &mut Rng) -> Result<Option<(Undithered, QuantizationResult, Image<'a>)>, String> {
    let a = c.attr();
    let mut img = c.image(&a)?;
    let res = if r.chance(25) {
        // palette made from something else, so that it does not fit
        let mut h = Histogram::new(&a);
        let n = r.range(1, 300);
        let mut e = hist_entries(r, n);
        for x in e.iter_mut() { x.count = x.count.max(1); }
        h.add_colors(&e, c.gamma.min(0.99)).map_err(|e| format!("{e:?}"))?;
        match h.quantize(&a) { Ok(r) => Some(r), Err(Error::QualityTooLow) => None, Err(e) => return Err(format!("{e:?}")) }
    } else { quantize(c, &a, &mut img)? };
    let Some(mut res) = res else { return Ok(None) };
    if r.chance(15) { res.set_output_gamma(0.3 + r.f() * 0.6).map_err(|e| format!("{e:?}"))?; }
    res.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?;
    let (pal, out) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
    let palf = pal_f(&pal, res.output_gamma());
    ensure!(out.len() == c.px.len() && out.iter().all(|&o| (o as usize) < pal.len()), "invalid output");
    Ok(Some((Undithered { pal, out, palf, pxf: Lut::new(c.gamma), err: res.remapping_error(), q: res.remapping_quality() }, res, img)))
}

fn best(palf: &[[f64; 4]], p: [f64; 4]) -> f64 { palf.iter().map(|q| refm::diff(p, *q)).fold(f64::INFINITY, f64::min) }

/// C10
fn c10(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC10);
    let c = Case::make(seed, idx, Want { no_bg: true, no_dither: true, ..Want::default() });
    ctx.desc = c.desc();
    let Some((u, ..)) = undithered(&c, &mut r)? else { return Ok(()) };
    ctx.nontrivial = u.pal.len() > 1;
    let mut cache: HashMap<[u8; 4], f64> = HashMap::new();
    for (i, (&p, &o)) in c.px.iter().zip(&u.out).enumerate() {
        let f = u.pxf.px(p);
        let b = *cache.entry(key(p)).or_insert_with(|| best(&u.palf, f));
        let d = refm::diff(f, u.palf[o as usize]);
        ensure!(d.sqrt() <= b.sqrt() + EPS, "pixel {i} ({},{}) {p:?} got entry {o} {:?} at distance {:.9}, but the closest is at {:.9} (palette of {})", i % c.w, i / c.w, u.pal[o as usize], d.sqrt(), b.sqrt(), u.pal.len());
    }
    Ok(())
}

fn quality_of(err_std: f64) -> (u8, u8) {
    // the documented scale, evaluated independently: bounds allow for rounding at the edge
    let mse = err_std * 0.45 * 6. / 65536.;
    let q2m = |q: f64| { let f = (0.016 / (0.001 + q) - 0.001).max(0.); 0.45 * (f + 2.5 / (210. + q).powf(1.2) * (100.1 - q) / 100.) };
    let of = |m: f64| (1..=100).rev().find(|&i| m <= (if i == 100 { 0. } else { q2m(i as f64) }) + 0.000001).unwrap_or(0) as u8;
    (of(mse * 1.0000001 + 1e-12), of((mse * 0.9999999 - 1e-12).max(0.)))
}

/// C17
fn c17(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC17);
    let c = Case::make(seed, idx, Want { no_bg: true, no_dither: true, ..Want::default() });
    ctx.desc = c.desc();
    let Some((u, ..)) = undithered(&c, &mut r)? else { return Ok(()) };
    ctx.nontrivial = u.pal.len() > 1;
    let Some(e) = u.err else { return Err("no remapping error reported".into()) };
    let sum: f64 = c.px.iter().zip(&u.out).map(|(p, &o)| refm::diff(u.pxf.px(*p), u.palf[o as usize])).sum();
    let mse = sum / c.px.len() as f64 * 65536. / 6. / 0.45;
    ensure!(e.is_finite() && (e - mse).abs() <= mse * 1e-4 + 1e-4 * mse.sqrt() + 1e-8, "reported remapping error {e}, actual mean error {mse}");
    let (lo, hi) = quality_of(e);
    ensure!(u.q.map_or(false, |q| q >= lo && q <= hi), "remapping quality {:?} for error {e}, expected {lo}..{hi}", u.q);
    Ok(())
}

/// C11
fn c11(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC11);
    let mut c = Case::make(seed, idx, Want { must_bg: true, ..Want::default() });
    if r.chance(60) { c.fixed.truncate(3); c.fixed.push(RGBA::new(0, 0, 0, 0)); }
    if r.chance(15) { c.bg = Some(c.px.clone()); }
    if r.chance(15) { // no transparency at all
        c.fixed.retain(|f| f.a == 255); for p in c.px.iter_mut() { p.a = 255; } }
    ctx.desc = c.desc();
    // rejected backgrounds
    {
        let a = c.attr();
        let mut i = c.plain(&a, &c.px, Src::Borrowed).map_err(|e| format!("{e:?}"))?;
        let (w, h) = match r.below(4) { 0 => (c.h, c.w), 1 if c.w % 2 == 0 => (c.w / 2, c.h * 2), _ => (c.w + r.below(2), c.h + r.below(2)) };
        let b = a.new_image(vec![RGBA::new(1, 2, 3, 255); w * h], w, h, 0.).map_err(|e| format!("{e:?}"))?;
        let ok = w == c.w && h == c.h;
        let res = i.set_background(b.clone());
        ensure!(res.is_ok() == ok, "background of {w}x{h} for image of {}x{}: {res:?}", c.w, c.h);
        let mut b2 = b.clone(); b2.set_background(b.clone()).map_err(|e| format!("{e:?}"))?;
        let mut j = a.new_image(vec![RGBA::new(1, 2, 3, 255); w * h], w, h, 0.).map_err(|e| format!("{e:?}"))?;
        ensure!(j.set_background(b2).is_err(), "nested background was accepted");
    }
    let nobg = Case { bg: None, ..c.clone() };
    let a = c.attr();
    let mut plain = nobg.image(&a)?;
    let Some(res0) = quantize(&c, &a, &mut plain)? else { return Ok(()) };
    let bgpx = c.bg.clone().unwrap();
    // undithered
    {
        let mut res = res0.clone();
        res.set_dithering_level(0.).map_err(|e| format!("{e:?}"))?;
        let (pal0, out0) = res.clone().remapped(&mut plain).map_err(|e| format!("{e:?}"))?;
        // the background may have its own gamma
        let bg_gamma = if r.chance(70) { c.gamma } else { *r.pick(&[0., 0.3, 0.6, 1.]) };
        let mut img = if bg_gamma == c.gamma { c.image(&a)? } else {
            ctx.desc += &format!(" bg_gamma={bg_gamma}");
            let mut i = nobg.image(&a)?;
            i.set_background(a.new_image(&bgpx[..], c.w, c.h, bg_gamma).map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
            i
        };
        let (pal, out) = res.remapped(&mut img).map_err(|e| format!("{e:?}"))?;
        ensure!(pal == pal0, "background changed the palette of an undithered remap");
        let palf = pal_f(&pal, res.output_gamma());
        let l = Lut::new(c.gamma);
        let lbg = Lut::new(bg_gamma);
        let has_transparent = pal.iter().any(|p| p.a == 0);
        ctx.nontrivial = has_transparent;
        let mut cache: HashMap<[u8; 4], f64> = HashMap::new();
        for i in 0..out.len() {
            ensure!((out[i] as usize) < pal.len(), "invalid index");
            if !has_transparent { ensure!(out[i] == out0[i], "pixel {i}: no transparent colour in the palette, but the background changed index {} to {}", out0[i], out[i]); continue; }
            let p = l.px(c.px[i]);
            let bd = refm::diff(lbg.px(bgpx[i]), p).sqrt();
            let pd = cache.entry(key(c.px[i])).or_insert_with(|| best(&palf, p)).sqrt();
            if bd <= pd - EPS || (bd == 0. && bg_gamma == c.gamma && key(c.px[i]) == key(bgpx[i])) { ensure!(pal[out[i] as usize].a == 0, "pixel {i} {:?} on background {:?} (distance {bd}) got {:?}; best palette distance {pd}", c.px[i], bgpx[i], pal[out[i] as usize]); }
            else if bd > pd + EPS {
                let d = refm::diff(p, palf[out[i] as usize]).sqrt();
                ensure!(out[i] == out0[i] || (d - pd).abs() < EPS, "pixel {i} {:?} on background {:?} (distance {bd}): index {} without background, {} with it; best palette distance {pd}", c.px[i], bgpx[i], out0[i], out[i]);
            }
        }
    }
    // identical to the background: everything transparent, at any dithering
    if bgpx == c.px {
        let mut res = res0.clone();
        res.set_dithering_level(c.dither.max(0.1)).map_err(|e| format!("{e:?}"))?;
        let mut img = c.image(&a)?;
        let (pal, out) = res.remapped(&mut img).map_err(|e| format!("{e:?}"))?;
        let a0: Vec<bool> = pal.iter().map(|p| p.a == 0).collect();
        if a0.iter().any(|&x| x) { if let Some(i) = out.iter().position(|&o| !a0[o as usize]) { return Err(format!("dithered image identical to its background: pixel {i} got {:?}", pal[out[i] as usize])); } }
    }
    // no transparent colour: dithered remap ignores the background
    if !THREADS {
        let mut p = res0.clone();
        if p.palette().iter().all(|p| p.a > 1) {
            let d = c.dither.max(0.1);
            let mut ra = res0.clone(); ra.set_dithering_level(d).unwrap();
            let mut rb = res0.clone(); rb.set_dithering_level(d).unwrap();
            let (mut ia, mut ib) = (nobg.image(&a)?, c.image(&a)?);
            // uses_background affects only the dither map of transparent entries, of which there are none
            let (oa, ob) = (ra.remapped(&mut ia).map_err(|e| format!("{e:?}"))?, rb.remapped(&mut ib).map_err(|e| format!("{e:?}"))?);
            if oa.0.iter().chain(&ob.0).all(|p| p.a > 1) { ensure!(oa == ob, "no transparent colour in the palette, but the background changed the dithered result"); }
        }
    }
    Ok(())
}

/// C12
fn c12(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC12);
    let order = |pal: &[RGBA], last: bool| -> Result<(), String> {
        let t: Vec<bool> = pal.iter().map(|p| p.a < 255).collect();
        for i in 1..t.len() {
            ensure!(if last { t[i] || !t[i - 1] } else { t[i - 1] || !t[i] }, "entries {} {:?} and {i} {:?} are in the wrong order (transparent last: {last})", i - 1, pal[i - 1], pal[i]);
        }
        if last && t.iter().any(|&x| x) {
            let m = pal.iter().map(|p| p.a).min().unwrap();
            let l = pal.last().unwrap().a;
            ensure!(l == m, "last entry has alpha {l}, the most transparent has {m}");
        }
        Ok(())
    };
    if r.chance(50) {
        let c = Case::make(seed, idx, Want { no_post: true, no_bg: true, ..Want::default() });
        ctx.desc = c.desc();
        let a = c.attr();
        let mut img = c.image(&a)?;
        let Some(mut res) = quantize(&c, &a, &mut img)? else { return Ok(()) };
        let pal = res.palette();
        ctx.nontrivial = pal.iter().any(|p| p.a < 255) && pal.len() > 1;
        return order(pal, c.last_transp);
    }
    // exact counts
    let (entries, last, mut res) = counted(&mut r, 0, ctx)?;
    let pal = res.palette_vec();
    order(&pal, last)?;
    ctx.nontrivial = true;
    ensure!(pal.len() == entries.len(), "{} colours became {} palette entries", entries.len(), pal.len());
    rank_check(&pal, &entries, last, key)
}

/// adds known colours with known counts through a random sequence of calls. Returns (colour -> total) per entry
fn counted(r: &mut Rng, post: u8, ctx: &mut Ctx) -> Result<(HashMap<[u8; 4], u64>, bool, QuantizationResult), String> {
    let mut a = Attributes::new();
    a.set_speed(r.range(1, 7) as i32).unwrap();
    // precision may be reduced after some colours have been added
    let late = post > 0 && r.chance(60);
    a.set_min_posterization(if late { r.below(post as usize) as u8 } else { post }).unwrap();
    let last = r.chance(40);
    a.set_last_index_transparent(last);
    let k = *r.pick(&[1usize, 2, 3, 11, 12, 15, 40, 120, 250]);
    let mut cols: Vec<RGBA> = (0..k).map(|_| RGBA::new(r.u8(), r.u8(), r.u8(), match r.below(5) { 0 => 0, 1 => r.u8(), 2 => 254, _ => 255 })).collect();
    if r.chance(30) { let b = cols[0]; for (i, c) in cols.iter_mut().enumerate() { *c = RGBA::new(b.r.wrapping_add((i % 7) as u8), b.g.wrapping_add((i / 7) as u8), b.b, 255); } }
    let mut hist = Histogram::new(&a);
    let mut total: HashMap<[u8; 4], u64> = HashMap::new();
    let calls = r.range(1, 6);
    let scale = *r.pick(&[1usize, 3, 50, 3000, 2_000_000]);
    let mut log = String::new();
    let mut add = |c: RGBA, n: u64| { if n > 0 { *total.entry(key(c)).or_default() += n; } };
    let switch = if late { r.below(calls) } else { calls };
    for ci in 0..calls {
        if ci == switch { a.set_min_posterization(post).unwrap(); log += " reduced"; }
        if ci != switch && r.chance(60) {
            let n = r.range(1, 300);
            let e: Vec<HistogramEntry> = (0..n).map(|_| { let mut c = *r.pick(&cols); if c.a == 0 { c = RGBA::new(r.u8(), r.u8(), r.u8(), 0); } HistogramEntry { color: c, count: r.below(scale + 1) as u32 } }).collect();
            for e in &e { add(e.color, e.count as u64); }
            hist.add_colors(&e, 0.).map_err(|e| format!("add_colors {e:?}"))?;
            log += &format!(" colors({n})");
        } else {
            let (w, h) = match r.below(8) { 0 => (r.range(1, 8), r.range(1, 1200)), 1 => (r.range(1, 1200), r.range(1, 8)), 2 => (r.range(20, 160), r.range(20, 160)), _ => (r.range(1, 20), r.range(1, 20)) };
            let px: Vec<RGBA> = (0..w * h).map(|_| *r.pick(&cols)).collect();
            let mut img = a.new_image(&px[..], w, h, 0.).map_err(|e| format!("{e:?}"))?;
            // in half of the cases some colours have no importance anywhere, so that they may not be counted at all
            let by_colour = r.chance(50);
            let imp: Vec<u8> = px.iter().map(|p| if by_colour && key(*p).iter().map(|&x| x as usize).sum::<usize>() % 3 == 0 { 0 } else if by_colour { 1 + r.u8() % 255 } else { match r.below(3) { 0 => 0, 1 => 255, _ => r.u8() } }).collect();
            img.set_importance_map(&imp[..]).map_err(|e| format!("{e:?}"))?;
            for (p, i) in px.iter().zip(&imp) { add(*p, *i as u64); }
            hist.add_image(&a, &mut img).map_err(|e| format!("add_image {e:?}"))?;
            log += &format!(" image({w}x{h})");
        }
        if ci + 1 < calls && r.chance(15) {
            // quantizing in between must not disturb anything
            let _ = hist.quantize(&a);
        }
    }
    if total.is_empty() { let c = RGBA::new(7, 7, 7, 255); hist.add_colors(&[HistogramEntry { color: c, count: 5 }], 0.).unwrap(); total.insert(key(c), 5); }
    ctx.desc = format!("histogram of {k} colours, scale {scale}, post {post}, last_transp {last}:{log}");
    let res = hist.quantize(&a).map_err(|e| format!("quantize {e:?}"))?;
    Ok((total, last, res))
}

/// palette order must follow the counts (capped at a tenth of the total)
fn rank_check(pal: &[RGBA], total: &HashMap<[u8; 4], u64>, last: bool, k: impl Fn(RGBA) -> [u8; 4]) -> Result<(), String> {
    let sum: u64 = total.values().sum();
    let cap = sum as f64 / 10.;
    let w: Vec<f64> = pal.iter().map(|p| total.get(&k(*p)).map(|&t| (t as f64).min(cap))).collect::<Option<_>>().ok_or_else(|| format!("a palette entry is not one of the colours added: {:?}", pal.iter().find(|p| !total.contains_key(&k(**p)))))?;
    for i in 1..pal.len() {
        if (pal[i].a < 255) != (pal[i - 1].a < 255) || (last && pal[i].a < 255) { continue; }
        ensure!(w[i - 1] >= w[i] - cap * 1e-6 - 1e-9 - w[i] * 1e-6, "entry {} {:?} has count {} but comes before {:?} with {} (total {sum})", i - 1, pal[i - 1], w[i - 1], pal[i], w[i]);
    }
    if last {
        // the most transparent one has changed places with the last one; the others are in order
        let t: Vec<f64> = (0..pal.len().saturating_sub(1)).filter(|&i| pal[i].a < 255).map(|i| w[i]).collect();
        let sorted = |skip: usize| { let mut prev = f64::INFINITY; t.iter().enumerate().all(|(i, &x)| i == skip || { let ok = prev >= x - cap * 1e-6 - 1e-9 - x * 1e-6; prev = x; ok }) };
        ensure!((0..=t.len()).any(sorted), "counts of transparent entries, which are last, are out of order: {t:?} (total {sum})");
    }
    Ok(())
}

/// C13
fn c13(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC13);
    let mut c = Case::make(seed, idx, Want { must_post: true, default_gamma: true, ..Want::default() });
    if r.chance(15) { c.post = 0; c.speed = c.speed.min(7); }
    ctx.desc = c.desc();
    let a = c.attr();
    let mut img = c.image(&a)?;
    let Some(mut res) = quantize(&c, &a, &mut img)? else { return Ok(()) };
    let n = c.post;
    let mut seen = HashSet::new();
    let fixed: Vec<RGBA> = c.fixed.iter().copied().filter(|f| seen.insert(key(*f))).take(c.max_colors as usize).collect();
    let test = |pal: &[RGBA]| -> Result<(), String> {
        for p in pal {
            if p.a == 0 && (p.r, p.g, p.b) == (71, 112, 76) { continue; }
            if n > 0 { for v in [p.r, p.g, p.b, p.a] { ensure!(v & ((1 << n) - 1) == v >> (8 - n), "channel {v} of {p:?} is not posterized to {n} bits"); } }
        }
        for f in &fixed {
            let close = |x: u8, y: u8| (x as i32 - y as i32).abs() < (1 << n);
            ensure!(pal.iter().any(|p| close(p.a, f.a) && (p.a == 0 || f.a == 0 || (close(p.r, f.r) && close(p.g, f.g) && close(p.b, f.b)))), "fixed colour {f:?} moved by more than the posterization of {n} bits");
        }
        Ok(())
    };
    ctx.nontrivial = true;
    if r.chance(50) { test(res.palette())?; } else { test(res.clone().palette())?; }
    for d in [c.dither, 1. - c.dither] {
        res.set_dithering_level(d).map_err(|e| format!("{e:?}"))?;
        let (p, o) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        test(&p)?;
        ensure!(o.iter().all(|&x| (x as usize) < p.len()), "invalid index");
    }
    Ok(())
}

/// C14
fn c14(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC14);
    if idx % 4096 == 5 || idx == 9 {
        // more colours than the histogram is supposed to hold, none of them important
        let mut a = Attributes::new();
        a.set_speed(10).unwrap();
        let (w, h) = (480, 360);
        let px: Vec<RGBA> = (0..w * h).map(|i| RGBA::new((i % 251) as u8, (i / 251) as u8, ((i / 251) >> 8) as u8 * 100 + r.u8() % 2, 255)).collect();
        let i = *r.pick(&[1u8, 7, 40, 90, 255]);
        ctx.desc = format!("{w}x{h} all different, importance {i}");
        ctx.nontrivial = true;
        let mut img = a.new_image(&px[..], w, h, 0.).map_err(|e| format!("{e:?}"))?;
        img.set_importance_map(&vec![i; w * h][..]).map_err(|e| format!("{e:?}"))?;
        let mut hist = Histogram::new(&a);
        hist.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?;
        let mut res = hist.quantize(&a).map_err(|e| format!("all colours were lost: {e:?}"))?;
        ensure!(res.palette_len() > 200, "{} colours of {} are left", res.palette_len(), px.len());
        return Ok(());
    }
    if r.chance(10) {
        // saturation instead of overflow
        let a = Attributes::new();
        let mut h = Histogram::new(&a);
        let (x, y) = (RGBA::new(10, 20, 30, 255), RGBA::new(200, 20, 30, 255));
        for _ in 0..3 { h.add_colors(&[HistogramEntry { color: x, count: u32::MAX }, HistogramEntry { color: y, count: 3 }], 0.).map_err(|e| format!("{e:?}"))?; }
        // 12 more so that nothing is capped but x
        let more: Vec<_> = (0..12u8).map(|i| HistogramEntry { color: RGBA::new(i * 3, 100, 200, 255), count: u32::MAX / 2 }).collect();
        h.add_colors(&more, 0.).map_err(|e| format!("{e:?}"))?;
        let mut res = h.quantize(&a).map_err(|e| format!("{e:?}"))?;
        let p = res.palette();
        ctx.desc = format!("saturation {seed}");
        ensure!(p.len() == 14 && p[0] == x && *p.last().unwrap() == y, "saturated counts: {p:?}");
        return Ok(());
    }
    let post = if r.chance(40) { r.range(1, 4) as u8 } else { 0 };
    let (total, last, mut res) = counted(&mut r, post, ctx)?;
    ctx.nontrivial = true;
    // what must remain: colours merged by masking
    let mask = |k: [u8; 4]| -> [u8; 4] { if k == [0; 4] { k } else { k.map(|c| c & (255 << post)) } };
    let mut merged: HashMap<[u8; 4], u64> = HashMap::new();
    for (k, n) in &total { *merged.entry(mask(*k)).or_default() += n; }
    let pal = res.palette_vec();
    if merged.len() > 256 { return Ok(()); }
    ensure!(pal.len() == merged.len(), "{} distinct colours (at this precision), {} palette entries", merged.len(), pal.len());
    if post == 0 {
        let got: HashSet<[u8; 4]> = pal.iter().map(|p| key(*p)).collect();
        let exp: HashSet<[u8; 4]> = total.keys().copied().collect();
        ensure!(got == exp, "colours lost or invented: missing {:?}, extra {:?}", exp.difference(&got).next(), got.difference(&exp).next());
        rank_check(&pal, &total, last, key)?;
    } else {
        let pm: HashSet<[u8; 4]> = pal.iter().map(|p| mask(key(*p))).collect();
        // alpha may become 0 by posterization: those entries lose their rgb
        let exp: HashSet<[u8; 4]> = merged.keys().copied().filter(|k| k[3] >> (8 - post) != 0 || k[3] & (255 << post) != 0).collect();
        for e in &exp { ensure!(pm.contains(e), "colour {e:?} (at this precision) was lost"); }
        let opaque: Vec<RGBA> = pal.iter().copied().filter(|p| p.a == 255).collect();
        let sum: u64 = total.values().sum();
        let cap = sum as f64 / 10.;
        // order only between colours that are opaque without posterization
        let w: Vec<Option<f64>> = opaque.iter().map(|p| { let k = mask([p.r, p.g, p.b, p.a]); if total.keys().any(|t| mask(*t) == k && t[3] != 255) { None } else { merged.get(&k).map(|&t| (t as f64).min(cap)) } }).collect();
        let w: Vec<f64> = w.into_iter().flatten().collect();
        for i in 1..w.len() { ensure!(w[i - 1] >= w[i] - cap * 1e-6 - 1e-9 - w[i] * 1e-6, "merged counts are out of order: {} before {}", w[i - 1], w[i]); }
    }
    Ok(())
}

/// C15
fn c15(_idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC15);
    // many: more colours than the palette has, so that remapping refines it
    let many = r.chance(50);
    let k = if many { r.range(100, 400) } else { r.range(1, 60) };
    let maxh = if r.chance(10) { 300 } else { 30 };
    let (w, h) = (r.range(1, 30), r.range(1, maxh));
    let pal: Vec<RGBA> = (0..k).map(|_| RGBA::new(60 + r.u8() % 180, 60 + r.u8() % 180, 60 + r.u8() % 180, 255)).collect();
    let px: Vec<RGBA> = (0..w * h).map(|_| *r.pick(&pal)).collect();
    let mut a = Attributes::new();
    if many { a.set_max_colors(r.range(2, 20) as u32).unwrap(); }
    if r.chance(30) { a.set_speed(r.range(1, 10) as i32).unwrap(); }
    let mut img = a.new_image(&px[..], w, h, 0.).map_err(|e| format!("{e:?}"))?;
    let mut other = a.new_image(&[RGBA::new(250, 250, 250, 255), RGBA::new(0, 0, 0, 255)][..], 2, 1, 0.).map_err(|e| format!("{e:?}"))?;
    let mut res = a.quantize(&mut img).map_err(|e| format!("{e:?}"))?;
    if r.chance(40) {
        // a small change of gamma is a change, too; both are rounded to 8 bits once or twice
        let g1 = 0.08 + r.below(800) as f64 / 1000.; let g2 = g1 + (r.below(81) as f64 - 40.) / 2000.;
        let mut b = res.clone(); b.set_output_gamma(g1).unwrap(); let _ = b.palette(); b.set_output_gamma(g2).map_err(|e| format!("{e:?}"))?;
        let mut c = res.clone(); c.set_output_gamma(g2).unwrap();
        for (x, y) in b.palette().iter().zip(c.palette()) { for (x, y) in [(x.r, y.r), (x.g, y.g), (x.b, y.b), (x.a, y.a)] { ensure!(x.abs_diff(y) <= 2, "gamma {g1} and then {g2}: the palette has {x}, and {y} with {g2} alone ({w}x{h} {k} colours)"); } }
    }
    let orig = res.clone().palette_vec();
    let expect = |g: f64| -> Vec<[f64; 3]> { orig.iter().map(|p| [p.r, p.g, p.b].map(|c| (c as f64 / 255.).powf(g / 0.45455) * 255.)).collect() };
    let mut gamma = res.output_gamma();
    let mut last: Option<(Vec<RGBA>, Option<f64>, Option<u8>)> = None; // most recent successful remap
    ctx.desc = format!("{w}x{h} {k} colours:");
    ctx.nontrivial = true;
    let qe = (res.quantization_error(), res.quantization_quality());
    for _ in 0..r.range(3, 12) {
        match r.below(8) {
            0 | 1 => { let g = *r.pick(&[0.3, 0.45455, 0.9, 0.6]); ctx.desc += &format!(" gamma({g})"); res.set_output_gamma(g).map_err(|e| format!("{e:?}"))?; gamma = g; last = None; },
            2 => { let d = *r.pick(&[0f32, 0.5, 1.]); ctx.desc += &format!(" dither({d})"); res.set_dithering_level(d).map_err(|e| format!("{e:?}"))?; last = None; },
            3 => { ctx.desc += " bad"; let before = (res.palette_vec(), res.output_gamma(), res.remapping_error(), res.remapping_quality());
                let e = match r.below(4) { 0 => res.set_output_gamma(*r.pick(&[0., 1., f64::NAN, -3.])).is_err(), 1 => res.set_dithering_level(*r.pick(&[-0.1f32, 1.5, f32::NAN])).is_err(),
                    2 => res.remap_into(&mut img, &mut []).is_err(),
                    _ => {
                        // aborted by the n-th call of the callback, if there are that many
                        let n = r.below(4); let left = AtomicUsize::new(n as usize);
                        res.set_progress_callback(move |_| if left.fetch_update(Ordering::SeqCst, Ordering::SeqCst, |x| x.checked_sub(1)).is_err() { ControlFlow::Break } else { ControlFlow::Continue });
                        let mut i2 = img.clone();
                        let e = res.remapped(&mut i2);
                        res.set_progress_callback(|_| ControlFlow::Continue);
                        if let Ok((p, _)) = e { last = Some((p, res.remapping_error(), res.remapping_quality())); ctx.desc += "(not aborted)"; continue; }
                        true } };
                ensure!(e, "an invalid call succeeded");
                ensure!(before == (res.palette_vec(), res.output_gamma(), res.remapping_error(), res.remapping_quality()), "a failed call changed the result ({})", ctx.desc); },
            4 | 5 => { let o = r.chance(20); ctx.desc += if o { " remap(other)" } else { " remap" }; let (p, out) = res.remapped(if o { &mut other } else { &mut img }).map_err(|e| format!("{e:?}"))?;
                let n = if o { 2 } else { w * h };
                ensure!(out.len() == n, "length"); last = Some((p, res.remapping_error(), res.remapping_quality())); },
            6 => { ctx.desc += " palette"; let _ = res.palette(); },
            _ => { ctx.desc += " clone"; let mut b = res.clone();
                ensure!(b.palette_vec() == res.palette_vec() && b.output_gamma().to_bits() == res.output_gamma().to_bits() && b.remapping_error() == res.remapping_error() && b.remapping_quality() == res.remapping_quality()
                    && b.quantization_error() == res.quantization_error() && b.quantization_quality() == res.quantization_quality() && b.palette_len() == res.palette_len(), "clone differs ({})", ctx.desc);
                if !THREADS { let (mut i1, mut i2) = (img.clone(), img.clone()); let (x, y) = (b.remapped(&mut i1), res.clone().remapped(&mut i2));
                    ensure!(x.is_ok() && x.as_ref().ok() == y.as_ref().ok(), "clone remaps differently ({})", ctx.desc); }
                if r.chance(50) { if !THREADS { last = Some((b.palette_vec(), b.remapping_error(), b.remapping_quality())); } res = b; } },
        }
        ensure!(res.output_gamma() == gamma, "gamma");
        ensure!((res.quantization_error(), res.quantization_quality()) == qe, "quantization error changed by later calls ({})", ctx.desc);
        if r.chance(60) || last.is_some() {
            let p = res.palette_vec();
            ensure!(p == res.palette_vec() && p == res.palette(), "reading the palette twice gives different colours ({})", ctx.desc);
            if let Some((lp, le, lq)) = &last {
                ensure!(*lp == p, "palette() is not that of the last remap ({})", ctx.desc);
                ensure!(*le == res.remapping_error() && *lq == res.remapping_quality(), "remapping error changed without a remap ({})", ctx.desc);
            } else {
                ensure!(res.remapping_error() == res.quantization_error() && res.remapping_quality() == res.quantization_quality(), "a remap is reported although a setting changed since ({})", ctx.desc);
            }
            let ex = expect(gamma);
            if last.is_none() && !ctx.desc.contains(" gamma(") { ensure!(p == orig, "nothing but the dithering level changed since the last remap, but the palette is not the original one ({})", ctx.desc); }
            if (!many && !ctx.desc.contains("other")) || last.is_none() { for (i, (g, e)) in p.iter().zip(&ex).enumerate() { for (g, e) in [g.r, g.g, g.b].iter().zip(e) { ensure!((*g as f64 - e).abs() < 9., "entry {i} is {:?}, expected about {ex:?} for the current output gamma {gamma} ({})", p[i], ctx.desc, ex = ex[i]); } } }
        }
    }
    Ok(())
}

/// Sizes that only counters too narrow would notice: very long rows and columns, long runs of one colour, very many distinct colours
fn extreme(c: &mut Case, r: &mut Rng, idx: u64) {
    let (w, h) = match idx { 8 => (70_000, 4), 9 => (4, 70_000), 10 => (140_000, 1), 11 => (1, 70_000), 12 => (8_000, 9), _ => (480, 360) };
    let colors: [RGBA; 3] = [0, 1, 2].map(|_| RGBA::new(r.u8(), r.u8(), r.u8(), if r.chance(30) { r.u8() } else { 255 }));
    let base = if r.chance(50) { 128 } else { 0 };
    let run = *r.pick(&[1, 7_000, 66_000, 100_000]);
    c.px = (0..w * h).map(|i| if idx <= 12 { if r.chance(1) && run == 1 { colors[1] } else { colors[(i / run + i / w / 3) % 3] } }
        else { let m = |v: u8| base + v % 128; RGBA::new(m(r.u8()), m(r.u8()), m(r.u8()), if idx == 13 { m(r.u8()) } else { 255 }) }).collect();
    c.w = w; c.h = h; c.imp = None; c.bg = None; c.post = 0;
    c.speed = if idx <= 12 { r.range(1, 5) as i32 } else { *r.pick(&[4, 7, 10]) };
    c.pattern = "extreme"; c.quality = None;
}

/// C16: anything goes, nothing may panic
fn c16(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC16);
    let mut c = Case::make(seed, idx, Want::default());
    if r.chance(10) { c.gamma = *r.pick(&[0.01, 1e-3, 0.05, 0.99]); }
    if (8..40).contains(&idx) { extreme(&mut c, &mut r, 8 + idx % 8); }
    ctx.desc = c.desc();
    ctx.nontrivial = true;
    let mut a = c.attr();
    if cfg!(feature = "large") && r.chance(40) { a = Attributes::new(); c.quality = None; a.set_speed(c.speed).unwrap(); }
    let logs = Arc::new(AtomicUsize::new(0));
    if r.chance(10) { let l = logs.clone(); a.set_log_callback(move |_, m| { l.fetch_add(m.len(), Ordering::SeqCst); }); a.set_log_flush_callback(|_| {}); }
    let mut img = c.image(&a)?;
    let res = if r.chance(30) {
        let mut h = Histogram::new(&a);
        let mut n = 0;
        for _ in 0..r.range(0, 3) { let k = r.range(1, 400); h.add_colors(&hist_entries(&mut r, k), c.gamma.min(0.99)).map_err(|e| format!("{e:?}"))?; n += 1; }
        if r.chance(60) { h.add_image(&a, &mut img).map_err(|e| format!("{e:?}"))?; n += 1; }
        for f in c.fixed.iter().take(200) { h.add_fixed_color(*f, c.gamma.min(0.99)).map_err(|e| format!("{e:?}"))?; n += 1; }
        if r.chance(20) { let _ = h.quantize(&a); }
        match h.quantize(&a) { Ok(x) => Some(x), Err(Error::QualityTooLow) if c.quality.map_or(false, |q| q.0 > 0) => None, Err(Error::Unsupported) if n == 0 || c.fixed.is_empty() => None, Err(e) => return Err(format!("{e:?}")) }
    } else { quantize(&c, &a, &mut img)? };
    let Some(mut res) = res else { return Ok(()) };
    if res.palette_len() > 256 {
        let _ = res.palette_vec();
        let e = res.remapped(&mut img);
        ensure!(matches!(e, Err(Error::Unsupported)), "remap with {} colours: {:?}", res.palette_len(), e.map(|_| ()));
        return Ok(());
    }
    for _ in 0..r.range(1, 3) {
        match r.below(5) { 0 => { let _ = res.palette(); }, 1 => { res.set_output_gamma(0.001 + r.f() * 0.99).map_err(|e| format!("{e:?}"))?; }, 2 => { res = res.clone(); }, 3 => { let k = img.clone(); img = k; }, _ => {} }
        res.set_dithering_level(*r.pick(&[0., 1., 0.3])).map_err(|e| format!("{e:?}"))?;
        let (p, o) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
        ensure!(o.len() == c.w * c.h && o.iter().all(|&x| (x as usize) < p.len()), "invalid output");
        let _ = (res.remapping_quality(), res.quantization_error(), format!("{res:?}"));
    }
    Ok(())
}

/// C18
fn c18(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC18);
    let mut c = Case::make(seed, idx, Want { no_bg: true, no_post: true, default_gamma: true, no_fixed: true, no_imp: r.chance(70), ..Want::default() });
    if r.chance(50) { c.max_colors = r.range(2, 24) as u32; }
    if r.chance(60) {
        // keep inside a sub-cube, so that anything made up stands out
        let (lo, hi) = (RGBA::new(r.u8() % 200, r.u8() % 200, r.u8() % 200, 1 + r.u8() % 200), [r.u8() % 56, r.u8() % 56, r.u8() % 56, r.u8() % 55]);
        let op = r.chance(50);
        for p in c.px.iter_mut() { let f = |v: u8, l: u8, h: u8| l + (v as u32 * h as u32 / 255) as u8; *p = RGBA::new(f(p.r, lo.r, hi[0]), f(p.g, lo.g, hi[1]), f(p.b, lo.b, hi[2]), if op { 255 } else { f(p.a, lo.a, hi[3]) }); }
    }
    ctx.desc = c.desc();
    let a = c.attr();
    let (mut lo, mut hi) = ([255u8; 4], [0u8; 4]);
    let rng = |px: &mut dyn Iterator<Item = RGBA>, lo: &mut [u8; 4], hi: &mut [u8; 4]| { for p in px { let v = [p.r, p.g, p.b, p.a]; if p.a == 0 { lo[3] = 0; continue; } for j in 0..4 { lo[j] = lo[j].min(v[j]); hi[j] = hi[j].max(v[j]); } } };
    let mut img = c.image(&a)?;
    let res = if r.chance(30) {
        let mut h = Histogram::new(&a);
        let e: Vec<HistogramEntry> = c.px.iter().map(|p| HistogramEntry { color: *p, count: match r.below(4) { 0 => 1, 1 => 1 << r.below(31), _ => r.range(1, 9) as u32 } }).collect();
        h.add_colors(&e, 0.).map_err(|e| format!("{e:?}"))?;
        match h.quantize(&a) { Ok(x) => Some(x), Err(Error::QualityTooLow) => None, Err(e) => return Err(format!("{e:?}")) }
    } else { quantize(&c, &a, &mut img)? };
    rng(&mut c.px.iter().copied(), &mut lo, &mut hi);
    let Some(mut res) = res else { return Ok(()) };
    ctx.nontrivial = distinct(&c.px).len() > c.max_colors as usize;
    let test = |pal: &[RGBA], when: &str| -> Result<(), String> {
        for (i, p) in pal.iter().enumerate() {
            let v = [p.r, p.g, p.b, p.a];
            ensure!(p.a as i32 >= lo[3] as i32 - 1 && p.a as i32 <= hi[3] as i32 + 1, "palette entry {i} {p:?} {when}: alpha is outside {}..{} of the colours added", lo[3], hi[3]);
            if p.a <= 2 { continue; }
            for j in 0..3 { ensure!(v[j] as i32 >= lo[j] as i32 - 2 && v[j] as i32 <= hi[j] as i32 + 2, "palette entry {i} {p:?} {when}: channel {j} is outside {}..{} of the colours added", lo[j], hi[j]); }
        }
        Ok(())
    };
    test(res.clone().palette(), "before remapping")?;
    res.set_dithering_level(c.dither).map_err(|e| format!("{e:?}"))?;
    let (p, _) = res.remapped(&mut img).map_err(|e| format!("remap failed {e:?}"))?;
    test(&p, "after remapping")
}

/// C19 (not claimed as proved; used to keep the other comparisons honest)
fn c19(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let c = Case::make(seed, idx, Want::default());
    ctx.desc = c.desc();
    if THREADS { return Ok(()); }
    let a = c.attr();
    let go = || -> Result<_, String> { let mut i = c.image(&a)?; let Some(mut q) = quantize(&c, &a, &mut i)? else { return Ok(None) }; q.set_dithering_level(c.dither).unwrap(); Ok(Some(q.remapped(&mut i).map_err(|e| format!("{e:?}"))?)) };
    ctx.nontrivial = true;
    ensure!(go()? == go()?, "two runs differ");
    Ok(())
}
