//@ prelude
/// Every reachable or unreachable value of the settings (all private fields are free)
fn any_attr() -> Attributes {
    let mut a = Attributes::new();
    a.target_mse = kani::any();
    a.max_mse = kani::any();
    a.max_colors = kani::any();
    a.speed = kani::any();
    a.min_posterization_output = kani::any();
    a.min_posterization_input = kani::any();
    a.kmeans_iterations = kani::any();
    a.kmeans_iteration_limit = kani::any();
    a.feedback_loop_trials = kani::any();
    a.max_histogram_entries = kani::any();
    a.last_index_transparent = kani::any();
    a.use_contrast_maps = kani::any();
    a.single_threaded_dithering = kani::any();
    a.progress_stage1 = kani::any();
    a.progress_stage2 = kani::any();
    a.progress_stage3 = kani::any();
    a
}
/// Representation invariant established by new() and kept by the setters
pub(crate) fn valid(a: &Attributes) -> bool {
    a.max_colors >= 2 && a.max_colors <= 256
        && a.target_mse >= 0. && a.target_mse <= 1e20
        && a.max_mse.map_or(true, |m| m >= 0. && m <= 1e20 && a.target_mse <= m)
        && a.speed >= 1 && a.speed <= 10
        && a.min_posterization_output <= 4 && a.min_posterization_input <= 1
        && a.kmeans_iterations <= 31 && a.feedback_loop_trials <= 47
        && a.kmeans_iteration_limit > 0. && a.kmeans_iteration_limit < 1.
        && a.max_histogram_entries >= 1 << 17
        && u32::from(a.progress_stage1) + u32::from(a.progress_stage2) + u32::from(a.progress_stage3) == 100
}
/// Any settings that can be reached through the setters
pub(crate) fn any_valid_attr() -> Attributes { let a = any_attr(); kani::assume(valid(&a)); a }
#[derive(PartialEq, Clone, Copy)]
struct Snap { colors: PalLen, target: u64, max: Option<u64>, kl: u64, ki: u16, fb: u16, mh: u32, po: u8, pi: u8, last: bool, cm: bool, st: bool, dm: DitherMapMode, speed: u8, s1: u8, s2: u8, s3: u8 }
fn snap(a: &Attributes) -> Snap {
    Snap { colors: a.max_colors, target: a.target_mse.to_bits(), max: a.max_mse.map(f64::to_bits), kl: a.kmeans_iteration_limit.to_bits(), ki: a.kmeans_iterations,
        fb: a.feedback_loop_trials, mh: a.max_histogram_entries, po: a.min_posterization_output, pi: a.min_posterization_input, last: a.last_index_transparent, cm: a.use_contrast_maps, st: a.single_threaded_dithering, dm: a.use_dither_map, speed: a.speed,
        s1: a.progress_stage1, s2: a.progress_stage2, s3: a.progress_stage3 }
}
/// Contract of quality_to_mse used here: 0 exactly for 100 and above, 1e20 exactly for 0, decreasing.
/// (discharged over its whole domain of 256 values by `liqx`, see DESIGN.md)
fn q2m_contract(q: u8) -> f64 { if q >= 100 { 0. } else if q == 0 { 1e20 } else { f64::from(100 - q) / 1000. } }
fn m2q_contract(m: f64) -> u8 {
    if m <= 0. { return 100; }
    if m >= 1e20 { return 0; }
    100 - (m * 1000. + 0.5) as u8
}

//@ harness k_set_max_colors props=C06,C02 fn=Attributes::set_max_colors
#[kani::proof]
fn k_set_max_colors() {
    let mut a = any_attr();
    let (o, c) = (snap(&a), kani::any::<u32>());
    let r = a.set_max_colors(c);
    let n = snap(&a);
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    assert!(r.is_ok() == (c >= 2 && c <= 256), "set_max_colors accepts exactly 2..=256");
    assert!(matches!(r, Ok(()) | Err(Error::ValueOutOfRange)), "set_max_colors fails only with ValueOutOfRange");
    if r.is_ok() {
        assert!(a.max_colors() == c, "max_colors reads back what was set");
        assert!(Snap { colors: o.colors, ..n } == o, "set_max_colors changes nothing else");
    } else {
        assert!(n == o, "a failed set_max_colors changes nothing");
    }
    std::mem::forget(a);
}

//@ harness k_set_speed props=C06,C09,C16 fn=Attributes::set_speed
#[kani::proof]
fn k_set_speed() {
    let mut a = any_attr();
    let (o, c) = (snap(&a), kani::any::<i32>());
    let was_valid = valid(&a);
    let r = a.set_speed(c);
    let n = snap(&a);
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    assert!(r.is_ok() == (c >= 1 && c <= 10), "set_speed accepts exactly 1..=10");
    assert!(matches!(r, Ok(()) | Err(Error::ValueOutOfRange)), "set_speed fails only with ValueOutOfRange");
    if r.is_ok() {
        assert!(a.speed() == c as u32, "speed reads back what was set");
        assert!(n.colors == o.colors && n.target == o.target && n.max == o.max && n.po == o.po && n.last == o.last, "set_speed changes no other setting");
        assert!(u32::from(n.s1) + u32::from(n.s2) + u32::from(n.s3) == 100, "progress stages add up to 100%");
        assert!(!was_valid || valid(&a), "set_speed keeps the invariant of Attributes");
        assert!((n.pi == 0) == (c <= 7), "input posterization only at speeds 8 and above");
    } else {
        assert!(n == o, "a failed set_speed changes nothing");
    }
    std::mem::forget(a);
}

//@ harness k_set_min_posterization props=C06,C13 fn=Attributes::set_min_posterization,Attributes::min_posterization
#[kani::proof]
fn k_set_min_posterization() {
    let mut a = any_attr();
    let (o, c) = (snap(&a), kani::any::<u8>());
    let r = a.set_min_posterization(c);
    let n = snap(&a);
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    assert!(r.is_ok() == (c <= 4), "set_min_posterization accepts exactly 0..=4");
    assert!(matches!(r, Ok(()) | Err(Error::ValueOutOfRange)), "set_min_posterization fails only with ValueOutOfRange");
    if r.is_ok() {
        assert!(a.min_posterization() == c, "min_posterization reads back what was set");
        assert!(Snap { po: o.po, ..n } == o, "set_min_posterization changes nothing else");
        assert!(a.posterize_bits() >= c, "histogram posterization is at least the output's");
    } else {
        assert!(n == o, "a failed set_min_posterization changes nothing");
    }
    std::mem::forget(a);
}

//@ harness k_set_quality props=C06,C05 fn=Attributes::set_quality,Attributes::quality
#[kani::proof]
#[kani::stub(crate::quant::quality_to_mse, q2m_contract)]
#[kani::stub(crate::quant::mse_to_quality, m2q_contract)]
fn k_set_quality() {
    let mut a = any_attr();
    let (o, min, target) = (snap(&a), kani::any::<u8>(), kani::any::<u8>());
    let was_valid = valid(&a);
    let r = a.set_quality(min, target);
    let n = snap(&a);
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    assert!(r.is_ok() == (target <= 100 && min <= target), "set_quality accepts exactly 0 <= min <= target <= 100");
    assert!(matches!(r, Ok(()) | Err(Error::ValueOutOfRange)), "set_quality fails only with ValueOutOfRange");
    if r.is_ok() {
        assert!(a.quality() == (min, target), "quality reads back what was set");
        assert!(Snap { target: o.target, max: o.max, ..n } == o, "set_quality changes nothing else");
        assert!(!was_valid || valid(&a), "set_quality keeps the invariant of Attributes");
    } else {
        assert!(n == o, "a failed set_quality changes nothing");
    }
    std::mem::forget(a);
}

//@ harness k_set_last_index_transparent props=C06,C12 fn=Attributes::set_last_index_transparent
#[kani::proof]
fn k_set_last_index_transparent() {
    let mut a = any_attr();
    let (o, v) = (snap(&a), kani::any::<bool>());
    a.set_last_index_transparent(v);
    assert!(snap(&a) == Snap { last: v, ..o }, "set_last_index_transparent sets the flag and nothing else");
    std::mem::forget(a);
}

//@ harness k_new props=C06 fn=Attributes::new
#[kani::proof]
fn k_new() {
    let a = Attributes::new();
    assert!(valid(&a), "new Attributes satisfy the invariant");
    assert!(a.max_colors() == 256 && a.speed() == 4 && a.min_posterization() == 0 && a.target_mse == 0. && a.max_mse.is_none(), "documented defaults");
    assert!(!a.progress(kani::any()), "no callback never aborts");
    std::mem::forget(a);
}

//@ harness k_feedback_loop_trials props=C16,C05 fn=Attributes::feedback_loop_trials
#[kani::proof]
fn k_feedback_loop_trials() {
    let a = any_valid_attr();
    let items: usize = kani::any();
    let t = a.feedback_loop_trials(items);
    assert!(t <= a.feedback_loop_trials, "number of trials never grows (or overflows)");
    assert!((t == 0) == (a.feedback_loop_trials == 0), "trials are reduced, not disabled");
    std::mem::forget(a);
}

//@ harness k_kmeans_iterations props=C05,C16 fn=Attributes::kmeans_iterations
#[kani::proof]
fn k_kmeans_iterations() {
    let a = any_valid_attr();
    let items: usize = kani::any();
    let known: bool = kani::any();
    let (n, limit) = a.kmeans_iterations(items, known);
    assert!(n <= a.kmeans_iterations.max(1), "number of iterations never grows (or overflows)");
    assert!(limit > 0. && limit < 2., "iteration limit is a positive number");
    assert!(known || a.max_mse.is_none() || n > 0, "error is always measured when there is a minimum quality");
    std::mem::forget(a);
}

//@ harness k_target_mse props=C05 fn=Attributes::target_mse
#[kani::proof]
fn k_target_mse() {
    let a = any_valid_attr();
    let items: usize = kani::any();
    let (max, target, zero) = a.target_mse(items);
    assert!(max.is_some() == a.max_mse.is_some(), "there is a limit if and only if a minimum quality was set");
    assert!(max.map_or(true, |m| m >= 0. && m <= a.max_mse.unwrap()), "the limit is never looser than the minimum quality");
    assert!(max.map_or(true, |m| target <= m) && target >= 0. && target <= 1e20, "target is at least as good as the limit");
    assert!(zero == (a.target_mse == 0.), "perfect quality is asked for only by quality 100");
    std::mem::forget(a);
}

//@ harness k_progress props=C09,C15 fn=Attributes::progress,Attributes::set_progress_callback
#[kani::proof]
#[kani::unwind(3)]
fn k_progress() {
    static mut SEEN: (u32, u32) = (0, 0);
    static mut ANSWER: bool = false;
    let mut a = any_attr();
    let o = snap(&a);
    a.set_progress_callback(|p| unsafe { SEEN = (SEEN.0 + 1, p.to_bits()); if ANSWER { ControlFlow::Break } else { ControlFlow::Continue } });
    assert!(snap(&a) == o, "setting a callback changes no setting");
    let (p, stop): (f32, bool) = (kani::any(), kani::any());
    unsafe { ANSWER = stop; }
    let aborted = a.progress(p);
    assert!(unsafe { SEEN } == (1, p.to_bits()), "the callback is called once, with the percentage given");
    assert!(aborted == stop, "the operation stops exactly when the callback says so");
    kani::cover!(aborted);
    assert!(snap(&a) == o, "a callback changes no setting");
    std::mem::forget(a);
}
