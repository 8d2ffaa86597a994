//@ prelude
fn any_palf(max: usize) -> PalF {
    let mut p = PalF::new();
    let n: usize = kani::any();
    kani::assume(n <= max);
    for i in 0..max {
        if i < n { p.push(crate::pal::f_pixel::default(), PalPop::new(1.)); }
    }
    p
}
fn any_palette() -> Palette { let p = Palette { count: kani::any(), entries: [RGBA::new(kani::any(), 0, 0, 0); MAX_COLORS] }; kani::assume(p.count as usize <= MAX_COLORS); p }
fn any_remapped() -> Option<Box<Remapped>> {
    if kani::any() { Some(Box::new(Remapped { int_palette: any_palette(), palette_error: kani::any() })) } else { None }
}
fn any_result() -> QuantizationResult {
    QuantizationResult {
        remapped: any_remapped(),
        palette: any_palf(1),
        progress_callback: None,
        int_palette: any_palette(),
        dither_level: kani::any(),
        gamma: kani::any(),
        palette_error: kani::any(),
        min_posterization_output: kani::any(),
        use_dither_map: DitherMapMode::Enabled,
        single_threaded_dithering: kani::any(),
    }
}
#[derive(PartialEq, Clone, Copy)]
struct Snap { remapped: Option<(u32, u8, Option<u64>)>, plen: usize, ip: (u32, u8), dl: u32, gamma: u64, pe: Option<u64>, po: u8, st: bool, dm: DitherMapMode }
fn snap(r: &QuantizationResult) -> Snap {
    Snap {
        remapped: r.remapped.as_ref().map(|r| (r.int_palette.count, r.int_palette.entries[0].r, r.palette_error.map(f64::to_bits))),
        plen: r.palette.len(), ip: (r.int_palette.count, r.int_palette.entries[0].r), dl: r.dither_level.to_bits(), gamma: r.gamma.to_bits(),
        pe: r.palette_error.map(f64::to_bits), po: r.min_posterization_output, st: r.single_threaded_dithering, dm: r.use_dither_map,
    }
}
fn m2q_any(m: f64) -> u8 { if m <= 0. { 100 } else if m >= 1. { 0 } else { 50 } }
fn m2s_any(m: f64) -> f64 { f64::from_bits(m.to_bits() ^ 1) }

//@ harness k_set_dithering_level props=C06,C15 fn=QuantizationResult::set_dithering_level
#[kani::proof]
#[kani::unwind(2)]
fn k_set_dithering_level() {
    let mut r = any_result();
    let (o, v) = (snap(&r), kani::any::<f32>());
    let res = r.set_dithering_level(v);
    let n = snap(&r);
    kani::cover!(res.is_ok());
    kani::cover!(res.is_err());
    assert!(res.is_ok() == (v >= 0. && v <= 1.), "set_dithering_level accepts exactly 0..=1");
    assert!(matches!(res, Ok(()) | Err(ValueOutOfRange)), "fails only with ValueOutOfRange");
    if res.is_ok() {
        assert!(n.dl == v.to_bits(), "the level is set");
        assert!(n.remapped.is_none() || o.dl == n.dl, "the previous remapping is not reported after a change");
        assert!(Snap { dl: o.dl, remapped: o.remapped, ..n } == o, "nothing else is changed");
    } else {
        assert!(n == o, "a failed set_dithering_level changes nothing");
    }
    std::mem::forget(r);
}

//@ harness k_set_output_gamma props=C06,C15,C16 fn=QuantizationResult::set_output_gamma,QuantizationResult::output_gamma
#[kani::proof]
#[kani::unwind(2)]
fn k_set_output_gamma() {
    let mut r = any_result();
    let (o, v) = (snap(&r), kani::any::<f64>());
    let res = r.set_output_gamma(v);
    let n = snap(&r);
    kani::cover!(res.is_ok());
    kani::cover!(res.is_err());
    assert!(res.is_ok() == (v > 0. && v < 1.), "set_output_gamma accepts exactly values between 0 and 1");
    assert!(matches!(res, Ok(()) | Err(ValueOutOfRange)), "fails only with ValueOutOfRange");
    if res.is_ok() {
        assert!(r.output_gamma() == v, "gamma reads back what was set");
        assert!(n.remapped.is_none() || o.gamma == n.gamma, "the previous remapping is not reported after a change");
        assert!(n.ip.0 == 0 || o.gamma == n.gamma, "the palette is recomputed after a change");
        assert!(Snap { gamma: o.gamma, remapped: o.remapped, ip: o.ip, ..n } == o, "nothing else is changed");
    } else {
        assert!(n == o, "a failed set_output_gamma changes nothing");
    }
    std::mem::forget(r);
}

//@ harness k_result_getters props=C15,C17,C05 fn=QuantizationResult::remapping_error,QuantizationResult::remapping_quality,QuantizationResult::quantization_error,QuantizationResult::quantization_quality
#[kani::proof]
#[kani::stub(crate::quant::mse_to_quality, m2q_any)]
#[kani::stub(crate::remap::mse_to_standard_mse, m2s_any)]
#[kani::unwind(2)]
fn k_result_getters() {
    let r = any_result();
    let o = snap(&r);
    let latest = r.remapped.as_ref().and_then(|r| r.palette_error).or(r.palette_error);
    let eq = |a: Option<f64>, b: Option<f64>| a.map(f64::to_bits) == b.map(f64::to_bits);
    kani::assume(latest.map_or(true, |v| v >= 0. && v < 1e20) && r.palette_error.map_or(true, |v| v >= 0. && v < 1e20));
    assert!(r.remapping_error().is_some() == latest.is_some() && r.remapping_quality() == latest.map(m2q_any), "remapping quality is that of the latest remapping, or of the palette");
    assert!(r.quantization_quality() == r.palette_error.map(m2q_any), "quantization quality is that of the palette");
    assert!(eq(r.remapping_error(), latest.map(m2s_any)) && eq(r.quantization_error(), r.palette_error.map(m2s_any)), "errors are those of the same");
    assert!(snap(&r) == o, "getters change nothing");
    std::mem::forget(r);
}

//@ harness k_standard_mse props=C05,C17 fn=mse_to_standard_mse
#[kani::proof]
fn k_standard_mse() {
    let m: f64 = kani::any();
    kani::assume(m >= 0. && m < 1e20);
    let e = mse_to_standard_mse(m);
    assert!(e >= 0. && e.is_finite(), "reported errors are finite and not negative");
    assert!(mse_to_standard_mse(0.) == 0., "no error is reported as 0");
}

//@ harness k_remap_progress props=C09,C15 fn=QuantizationResult::remap_progress,QuantizationResult::set_progress_callback
#[kani::proof]
#[kani::unwind(3)]
fn k_remap_progress() {
    static mut SEEN: (u32, u32) = (0, 0);
    static mut ANSWER: bool = false;
    let mut r = any_result();
    let o = snap(&r);
    let (p, stop): (f32, bool) = (kani::any(), kani::any());
    assert!(!r.remap_progress(p), "no callback never aborts");
    r.set_progress_callback(|p| unsafe { SEEN = (SEEN.0 + 1, p.to_bits()); if ANSWER { ControlFlow::Break } else { ControlFlow::Continue } });
    assert!(snap(&r) == o, "setting a callback changes nothing else");
    unsafe { ANSWER = stop; }
    let aborted = r.remap_progress(p);
    assert!(unsafe { SEEN } == (1, p.to_bits()), "the callback is called once, with the percentage given");
    assert!(aborted == stop, "the operation stops exactly when the callback says so");
    kani::cover!(aborted);
    assert!(snap(&r) == o, "a callback changes nothing");
    std::mem::forget(r);
}
