//@ prelude
static mut FREED: (usize, usize) = (0, 0);
unsafe extern "C" fn rec_free(p: *mut c_void) { FREED.0 += 1; FREED.1 = p as usize; }
/// How often, on what and with which arguments the wrapped operation was called
static mut CALLS: (usize, usize, f64, f64) = (0, 0, 0., 0.);
fn calls() -> usize { unsafe { CALLS.0 } }
fn rec<T>(on: &T, a: f64, b: f64) { unsafe { CALLS = (CALLS.0 + 1, on as *const T as usize, a, b); } }
fn rec_with<T>(on: *const T, a: f64, b: f64) -> bool { unsafe { CALLS.1 == on as usize && CALLS.2 == a && CALLS.3 == b } }
fn any_error() -> Result<(), Error> { match kani::any::<u8>() % 4 { 0 => Ok(()), 1 => Err(Error::ValueOutOfRange), 2 => Err(Error::BufferTooSmall), _ => Err(Error::Unsupported) } }
fn code(r: &Result<(), Error>) -> Error { match r { Ok(()) => LIQ_OK, Err(e) => *e } }
static mut ANSWER: Result<(), Error> = Ok(());
fn answer() -> Result<(), Error> { unsafe { ANSWER = any_error(); ANSWER } }
fn answered() -> Error { unsafe { code(&*std::ptr::addr_of!(ANSWER)) } }
/// any kind of handle, or freed memory
fn any_tag() -> MagicTag { match kani::any::<u8>() % 5 { 0 => LIQ_ATTR_MAGIC, 1 => LIQ_IMAGE_MAGIC, 2 => LIQ_RESULT_MAGIC, 3 => LIQ_HISTOGRAM_MAGIC, _ => LIQ_FREED_MAGIC } }
/// a live handle of any kind, with arbitrary content
struct Handle<T> { mem: MaybeUninit<T>, tag: MagicTag }
impl<T> Handle<T> {
    fn new() -> Self {
        let mut mem = MaybeUninit::<T>::uninit();
        let tag = any_tag();
        unsafe { mem.as_mut_ptr().cast::<MagicTag>().write(tag); }
        Self { mem, tag }
    }
    fn get(&mut self) -> &mut T { unsafe { &mut *self.mem.as_mut_ptr() } }
    fn kept(&self) -> bool { unsafe { self.mem.as_ptr().cast::<MagicTag>().read() == self.tag } }
}
impl Handle<liq_attr> { fn ok(&self) -> bool { self.tag == LIQ_ATTR_MAGIC } fn inner(&self) -> *const Attributes { unsafe { std::ptr::addr_of!((*self.mem.as_ptr()).inner) } } }
impl Handle<liq_result> { fn ok(&self) -> bool { self.tag == LIQ_RESULT_MAGIC } fn inner(&self) -> *const QuantizationResult { unsafe { std::ptr::addr_of!((*self.mem.as_ptr()).inner) } } }
impl Handle<liq_histogram> { fn ok(&self) -> bool { self.tag == LIQ_HISTOGRAM_MAGIC } fn inner(&self) -> *const Histogram { unsafe { std::ptr::addr_of!((*self.mem.as_ptr()).inner) } } }
impl Handle<liq_image<'static>> { fn ok(&self) -> bool { self.tag == LIQ_IMAGE_MAGIC } fn inner(&self) -> *const Image<'static> { unsafe { std::ptr::addr_of!((*self.mem.as_ptr()).inner).cast() } } }
/// A setter: passes the value on to the object if the handle is of the right kind, and touches nothing if it is not
macro_rules! setter {
    ($h:ident, $r:expr, $in_range:expr, $a:expr, $b:expr) => {{
        let r = $r;
        if !$h.ok() {
            assert!(r == Error::InvalidPointer, "a handle of another kind is refused");
            assert!(calls() == 0 && $h.kept(), "and the object is not touched");
        } else if !$in_range {
            assert!(r == Error::ValueOutOfRange && calls() == 0, "values that cannot be represented are out of range");
        } else {
            assert!(calls() == 1 && rec_with($h.inner(), $a, $b), "the values are passed on to the object");
            assert!(r == answered(), "its answer is returned");
        }
        kani::cover!(!$h.ok());
        kani::cover!(r == LIQ_OK);
    }};
}
macro_rules! getter {
    ($h:ident, $r:expr, $bad:expr, $want:expr) => {{
        let r = $r;
        if !$h.ok() {
            assert!(r == $bad, "a handle of another kind is refused with the documented value");
            assert!(calls() == 0 && $h.kept(), "and the object is not touched");
        } else {
            assert!(calls() == 1 && unsafe { CALLS.1 } == $h.inner() as usize && r == $want, "returns the object's value");
        }
        kani::cover!(!$h.ok());
        kani::cover!($h.ok());
    }};
}
fn s_set_max_colors(a: &mut Attributes, v: u32) -> Result<(), Error> { rec(a, v.into(), 0.); answer() }
fn s_set_speed(a: &mut Attributes, v: i32) -> Result<(), Error> { rec(a, v.into(), 0.); answer() }
fn s_set_min_posterization(a: &mut Attributes, v: u8) -> Result<(), Error> { rec(a, v.into(), 0.); answer() }
fn s_set_quality(a: &mut Attributes, v: u8, t: u8) -> Result<(), Error> { rec(a, v.into(), t.into()); answer() }
fn s_set_last_index_transparent(a: &mut Attributes, v: bool) { rec(a, v as u8 as f64, 0.); }
static mut VALUE: (u32, u32, f64, bool) = (0, 0, 0., false);
fn s_get_u32(a: &Attributes) -> u32 { rec(a, 0., 0.); unsafe { VALUE.0 = kani::any(); VALUE.0 } }
fn s_get_u8(a: &Attributes) -> u8 { rec(a, 0., 0.); let v: u8 = kani::any(); unsafe { VALUE.0 = v.into(); } v }
fn s_quality(a: &Attributes) -> (u8, u8) { rec(a, 0., 0.); let v: (u8, u8) = (kani::any(), kani::any()); unsafe { VALUE.0 = v.0.into(); VALUE.1 = v.1.into(); } v }
fn s_get_f64(a: &QuantizationResult) -> f64 { rec(a, 0., 0.); let v: f64 = kani::any(); kani::assume(!v.is_nan()); unsafe { VALUE.2 = v; } v }
fn s_opt_f64(a: &QuantizationResult) -> Option<f64> { let v = s_get_f64(a); if kani::any() { Some(v) } else { unsafe { VALUE.2 = -1.; } None } }
fn s_opt_u8(a: &QuantizationResult) -> Option<u8> { rec(a, 0., 0.); let v: u8 = kani::any(); unsafe { VALUE.3 = kani::any(); VALUE.0 = v.into(); if VALUE.3 { Some(v) } else { None } } }
fn opt_int() -> c_int { unsafe { if VALUE.3 { VALUE.0 as c_int } else { -1 } } }
fn s_set_output_gamma(r: &mut QuantizationResult, v: f64) -> Result<(), Error> { rec(r, v, 0.); answer() }
fn s_set_dithering_level(r: &mut QuantizationResult, v: f32) -> Result<(), Error> { rec(r, v.into(), 0.); answer() }
/// Any answer, with a handle's content left to the solver
fn any_obj<T>() -> Result<T, Error> { if let Err(e) = answer() { Err(e) } else { let r = Ok(unsafe { MaybeUninit::uninit().assume_init() }); kani::assume(r.is_ok()); r } }
fn some_obj<T>() -> Option<T> { any_obj().ok() }
fn gave() -> bool { unsafe { ANSWER.is_ok() } }
/// the size of the image behind the handle
static mut SIZE: (u32, u32) = (0, 0);
fn any_size() -> usize { let (w, h): (u32, u32) = (kani::any(), kani::any()); kani::assume(w > 0 && h > 0 && w as u64 * h as u64 <= 1 << 29); unsafe { SIZE = (w, h); } w as usize * h as usize }
fn s_width<'p: 'p>(_: &Image<'p>) -> usize { unsafe { SIZE.0 as usize } }
fn s_height<'p: 'p>(_: &Image<'p>) -> usize { unsafe { SIZE.1 as usize } }
fn rgba_key(c: RGBA) -> f64 { u32::from_le_bytes([c.r, c.g, c.b, c.a]).into() }
fn any_rgba() -> RGBA { RGBA::new(kani::any(), kani::any(), kani::any(), kani::any()) }
fn s_image_add_fixed_color<'p: 'p>(i: &mut Image<'p>, c: RGBA) -> Result<(), Error> { rec(i, rgba_key(c), 0.); answer() }
fn s_hist_add_fixed_color(h: &mut Histogram, c: RGBA, g: f64) -> Result<(), Error> { rec(h, rgba_key(c), g); answer() }
/// the memory that was passed on: address, length and (for a copy) a sample of its content
static mut MEM: (usize, usize) = (0, 0);
fn s_add_colors(h: &mut Histogram, e: &[HistogramEntry], g: f64) -> Result<(), Error> { rec(h, g, 0.); unsafe { MEM = (e.as_ptr() as usize, e.len()); } answer() }
static mut OTHERS: (usize, usize) = (0, 0);
fn s_hist_add_image<'p>(h: &mut Histogram, a: &Attributes, i: &mut Image<'p>) -> Result<(), Error> { rec(h, 0., 0.); unsafe { OTHERS = (a as *const Attributes as usize, i as *const Image<'p> as usize); } answer() }
fn s_quantize<'p>(a: &Attributes, i: &mut Image<'p>) -> Result<QuantizationResult, Error> { rec(a, 0., 0.); unsafe { OTHERS = (a as *const Attributes as usize, i as *const Image<'p> as usize); } any_obj() }
fn s_hist_quantize(h: &mut Histogram, a: &Attributes) -> Result<QuantizationResult, Error> { rec(h, 0., 0.); unsafe { OTHERS = (a as *const Attributes as usize, 0); } any_obj() }
unsafe fn s_write<'p>(r: &mut QuantizationResult, i: &mut Image<'p>, b: &mut [MaybeUninit<u8>]) -> Result<(), Error> { rec(r, 0., 0.); OTHERS.1 = i as *const Image<'p> as usize; MEM = (b.as_ptr() as usize, b.len()); answer() }
unsafe fn s_write_rows<'p>(r: &mut QuantizationResult, i: &mut Image<'p>, b: &mut [*mut MaybeUninit<u8>]) -> Result<(), Error> { rec(r, 0., 0.); OTHERS.1 = i as *const Image<'p> as usize; MEM = (b.as_ptr() as usize, b.len()); answer() }
static mut OWN: (bool, bool, usize) = (false, false, 0);
unsafe fn s_ownership(i: &mut Image<'_>, r: bool, p: bool, f: unsafe extern "C" fn(*mut c_void)) -> Result<(), Error> { rec(i, 0., 0.); OWN = (r, p, f as usize); answer() }
/// the importance map that was passed on
static mut MAP: (usize, u8, usize) = (0, 0, 0);
fn s_importance<'p: 'p>(i: &mut Image<'p>, m: impl Into<Box<[u8]>>) -> Result<(), Error> {
    rec(i, 0., 0.);
    let m: Box<[u8]> = m.into();
    unsafe { MAP = (m.len(), if MAP.2 < m.len() { m[MAP.2] } else { 0 }, MAP.2); }
    std::mem::forget(m);
    answer()
}
static mut SIZE_OK: bool = false;
static mut CREATED: (u32, u32) = (0, 0);
fn s_check_size(a: &liq_attr, w: u32, h: u32) -> bool { unsafe { SIZE_OK && SIZE == (w, h) && a.magic_header == LIQ_ATTR_MAGIC } }
unsafe fn s_create_rows<'rows>(a: &Attributes, r: &'rows [*const RGBA], w: u32, h: u32, g: f64) -> Option<Image<'rows>> { rec(a, g, 0.); CREATED = (w, h); MEM = (r.as_ptr() as usize, r.len()); some_obj() }
unsafe fn s_create_bitmap<'rows: 'rows>(a: &Attributes, r: Box<[*const RGBA]>, w: u32, h: u32, g: f64) -> Option<Image<'rows>> {
    rec(a, g, 0.); CREATED = (w, h); MEM = (if r.is_empty() { 0 } else { r[0] as usize }, r.len());
    let i: usize = kani::any();
    if i < r.len() { assert!(r[i] as usize == r[0] as usize + i * w as usize * 4, "rows follow each other"); }
    std::mem::forget(r);
    some_obj()
}
unsafe extern "C" fn row_callback(_: *mut MaybeUninit<RGBA>, _: c_int, _: c_int, _: AnySyncSendPtr) {}
unsafe fn s_create_custom<'rows>(a: &Attributes, r: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync + 'rows>, w: u32, h: u32, g: f64) -> Option<Image<'rows>> { rec(a, g, 0.); CREATED = (w, h); std::mem::forget(r); some_obj() }
fn s_hist_new(a: &Attributes) -> Histogram { rec(a, 0., 0.); unsafe { MaybeUninit::uninit().assume_init() } }
fn s_attr_clone(a: &Attributes) -> Attributes { rec(a, 0., 0.); unsafe { MaybeUninit::uninit().assume_init() } }
static mut PAL_AT: usize = 0;
fn s_get_palette(r: &mut QuantizationResult) -> &Palette { rec(r, 0., 0.); let p = Box::leak(Box::new(MaybeUninit::<Palette>::uninit())); unsafe { PAL_AT = p.as_ptr() as usize; &*p.as_ptr() } }
fn s_set_background<'p: 'p>(i: &mut Image<'p>, b: Image<'p>) -> Result<(), Error> { rec(i, 0., 0.); std::mem::forget(b); answer() }
static mut DROPS: usize = 0;
unsafe fn s_drop<T: ?Sized>(_: &mut ManuallyDrop<T>) { DROPS += 1; }
macro_rules! creates {
    ($a:ident, $w:ident, $t:ident, $g:ident, $null:ident, $call:block) => {{
        let mut $a = Handle::<liq_attr>::new();
        unsafe { std::ptr::addr_of_mut!((*$a.mem.as_mut_ptr()).c_api_free).write(rec_free); }
        let ($w, $t, $g): (u32, u32, f64) = (kani::any(), kani::any(), kani::any());
        kani::assume($w > 0 && $t > 0 && !$g.is_nan());
        let $null: bool = kani::any();
        unsafe { SIZE = ($w, $t); SIZE_OK = kani::any(); }
        let (r, p) = $call;
        if !$a.ok() { assert!(r.is_none() && calls() == 0, "a handle of another kind is refused"); }
        else if $null || !unsafe { SIZE_OK } { assert!(r.is_none() && calls() == 0, "null and sizes that are too large are refused"); }
        else {
            assert!(calls() == 1 && rec_with($a.inner(), $g, 0.), "passed on with these attributes and gamma");
            assert!(unsafe { CREATED } == ($w, $t), "and this size");
            assert!(unsafe { MEM } == (p, $t as usize), "and these rows");
            assert!(r.is_some() == gave(), "there is an image exactly when it's successful");
            if let Some(i) = &r { assert!(i.magic_header == LIQ_IMAGE_MAGIC && i.c_api_free as usize == rec_free as usize, "which is an image handle with the same free function"); }
        }
        assert!($a.kept(), "the attributes are not touched");
        kani::cover!(r.is_some());
        kani::cover!(r.is_none());
        std::mem::forget(r);
    }};
}
/// what the user's callback was given, and what it answered
static mut CB: (f32, usize, c_int) = (0., 0, 0);
unsafe extern "C" fn progress_cb(p: f32, user: AnySyncSendPtr) -> c_int { CB = (p, user.0 as usize, kani::any()); CB.2 }
fn try_progress<F: Fn(f32) -> ControlFlow>(cb: F) {
    let p: f32 = kani::any();
    kani::assume(!p.is_nan());
    let r = cb(p);
    unsafe {
        assert!(CB.0 == p && CB.1 == USER, "the callback gets the progress and the user's own pointer");
        assert!(matches!(r, ControlFlow::Break) == (CB.2 == 0), "0 aborts, and everything else doesn't");
    }
}
static mut USER: usize = 0;
fn s_attr_progress<F: Fn(f32) -> ControlFlow + Send + Sync + 'static>(a: &mut Attributes, cb: F) { rec(a, 0., 0.); try_progress(cb); }
fn s_res_progress<F: Fn(f32) -> ControlFlow + Sync + Send + 'static>(a: &mut QuantizationResult, cb: F) { rec(a, 0., 0.); try_progress(cb); }

//@ harness k_liq_set_max_colors props=C06,C08 fn=liq_set_max_colors
#[kani::proof]
#[kani::stub(imagequant::Attributes::set_max_colors, s_set_max_colors)]
fn k_liq_set_max_colors() {
    let mut h = Handle::<liq_attr>::new();
    let v: c_uint = kani::any();
    setter!(h, liq_set_max_colors(h.get(), v), true, v.into(), 0.);
}

//@ harness k_liq_set_speed props=C06,C08 fn=liq_set_speed
#[kani::proof]
#[kani::stub(imagequant::Attributes::set_speed, s_set_speed)]
fn k_liq_set_speed() {
    let mut h = Handle::<liq_attr>::new();
    let v: c_int = kani::any();
    setter!(h, liq_set_speed(h.get(), v), true, v.into(), 0.);
}

//@ harness k_liq_set_min_posterization props=C06,C08 fn=liq_set_min_posterization
#[kani::proof]
#[kani::stub(imagequant::Attributes::set_min_posterization, s_set_min_posterization)]
fn k_liq_set_min_posterization() {
    let mut h = Handle::<liq_attr>::new();
    let v: c_int = kani::any();
    setter!(h, liq_set_min_posterization(h.get(), v), v >= 0 && v < 256, v.into(), 0.);
}

//@ harness k_liq_set_quality props=C06,C08 fn=liq_set_quality
#[kani::proof]
#[kani::stub(imagequant::Attributes::set_quality, s_set_quality)]
fn k_liq_set_quality() {
    let mut h = Handle::<liq_attr>::new();
    let (lo, hi): (c_uint, c_uint) = (kani::any(), kani::any());
    setter!(h, liq_set_quality(h.get(), lo, hi), lo < 256 && hi < 256, lo.into(), hi.into());
}

//@ harness k_liq_set_last_index_transparent props=C06,C08 fn=liq_set_last_index_transparent
#[kani::proof]
#[kani::stub(imagequant::Attributes::set_last_index_transparent, s_set_last_index_transparent)]
fn k_liq_set_last_index_transparent() {
    let mut h = Handle::<liq_attr>::new();
    let v: c_int = kani::any();
    liq_set_last_index_transparent(h.get(), v);
    if h.ok() { assert!(calls() == 1 && rec_with(h.inner(), if v != 0 { 1. } else { 0. }, 0.), "passed on"); }
    else { assert!(calls() == 0 && h.kept(), "the object is not touched"); }
}

//@ harness k_liq_get_attr props=C06,C08 fn=liq_get_max_colors,liq_get_speed,liq_get_min_posterization,liq_get_min_quality,liq_get_max_quality
#[kani::proof]
#[kani::stub(imagequant::Attributes::max_colors, s_get_u32)]
#[kani::stub(imagequant::Attributes::speed, s_get_u32)]
#[kani::stub(imagequant::Attributes::min_posterization, s_get_u8)]
#[kani::stub(imagequant::Attributes::quality, s_quality)]
fn k_liq_get_attr() {
    let mut h = Handle::<liq_attr>::new();
    match kani::any::<u8>() % 5 {
        0 => getter!(h, liq_get_max_colors(h.get()), !0, unsafe { VALUE.0 }),
        1 => getter!(h, liq_get_speed(h.get()), !0, unsafe { VALUE.0 }),
        2 => getter!(h, liq_get_min_posterization(h.get()), !0, unsafe { VALUE.0 }),
        3 => getter!(h, liq_get_min_quality(h.get()), !0, unsafe { VALUE.0 }),
        _ => getter!(h, liq_get_max_quality(h.get()), !0, unsafe { VALUE.1 }),
    }
}

//@ harness k_liq_set_result props=C06,C08 fn=liq_set_output_gamma,liq_set_dithering_level
#[kani::proof]
#[kani::stub(imagequant::QuantizationResult::set_output_gamma, s_set_output_gamma)]
#[kani::stub(imagequant::QuantizationResult::set_dithering_level, s_set_dithering_level)]
fn k_liq_set_result() {
    let mut h = Handle::<liq_result>::new();
    let (g, d): (f64, f32) = (kani::any(), kani::any());
    kani::assume(!g.is_nan() && !d.is_nan());
    if kani::any() { setter!(h, liq_set_output_gamma(h.get(), g), true, g, 0.); }
    else { setter!(h, liq_set_dithering_level(h.get(), d), true, d.into(), 0.); }
}

//@ harness k_liq_get_result props=C05,C06,C08,C15 fn=liq_get_output_gamma,liq_get_quantization_error,liq_get_remapping_error,liq_get_quantization_quality,liq_get_remapping_quality
#[kani::proof]
#[kani::stub(imagequant::QuantizationResult::output_gamma, s_get_f64)]
#[kani::stub(imagequant::QuantizationResult::quantization_error, s_opt_f64)]
#[kani::stub(imagequant::QuantizationResult::remapping_error, s_opt_f64)]
#[kani::stub(imagequant::QuantizationResult::quantization_quality, s_opt_u8)]
#[kani::stub(imagequant::QuantizationResult::remapping_quality, s_opt_u8)]
fn k_liq_get_result() {
    let mut h = Handle::<liq_result>::new();
    match kani::any::<u8>() % 5 {
        0 => getter!(h, liq_get_output_gamma(h.get()), -1., unsafe { VALUE.2 }),
        1 => getter!(h, liq_get_quantization_error(h.get()), -1., unsafe { VALUE.2 }),
        2 => getter!(h, liq_get_remapping_error(h.get()), -1., unsafe { VALUE.2 }),
        3 => getter!(h, liq_get_quantization_quality(h.get()), -1, opt_int()),
        _ => getter!(h, liq_get_remapping_quality(h.get()), -1, opt_int()),
    }
}

//@ harness k_liq_image_add_fixed_color props=C03,C08 fn=liq_image_add_fixed_color
#[kani::proof]
#[kani::stub(imagequant::Image::add_fixed_color, s_image_add_fixed_color)]
fn k_liq_image_add_fixed_color() {
    let mut h = Handle::<liq_image<'static>>::new();
    let c = any_rgba();
    setter!(h, liq_image_add_fixed_color(h.get(), c), true, rgba_key(c), 0.);
}

//@ harness k_liq_histogram_add_fixed_color props=C03,C08 fn=liq_histogram_add_fixed_color
#[kani::proof]
#[kani::stub(imagequant::Histogram::add_fixed_color, s_hist_add_fixed_color)]
fn k_liq_histogram_add_fixed_color() {
    let mut h = Handle::<liq_histogram>::new();
    let (c, g): (_, f64) = (any_rgba(), kani::any());
    kani::assume(!g.is_nan());
    setter!(h, liq_histogram_add_fixed_color(h.get(), c, g), true, rgba_key(c), g);
}

//@ harness k_liq_image_get_size props=C08 fn=liq_image_get_width,liq_image_get_height
#[kani::proof]
#[kani::stub(imagequant::Image::width, s_width)]
#[kani::stub(imagequant::Image::height, s_height)]
fn k_liq_image_get_size() {
    let mut h = Handle::<liq_image<'static>>::new();
    any_size();
    let (w, t) = (liq_image_get_width(h.get()), liq_image_get_height(h.get()));
    if h.ok() { assert!((w, t) == unsafe { SIZE }, "the image's size"); }
    else { assert!(w == !0 && t == !0 && h.kept(), "a handle of another kind is refused"); }
}

//@ harness k_liq_image_set_memory_ownership props=C08 fn=liq_image_set_memory_ownership
#[kani::proof]
#[kani::stub(imagequant::capi::liq_image_set_memory_ownership_impl, s_ownership)]
fn k_liq_image_set_memory_ownership() {
    let mut h = Handle::<liq_image<'static>>::new();
    unsafe { std::ptr::addr_of_mut!((*h.mem.as_mut_ptr()).c_api_free).write(rec_free); }
    let flags: c_int = kani::any();
    let r = unsafe { liq_image_set_memory_ownership(h.get(), liq_ownership::from_bits_retain(flags)) };
    assert!(unsafe { FREED.0 } == 0, "nothing is freed yet");
    if !h.ok() { assert!(r == Error::InvalidPointer && calls() == 0 && h.kept(), "a handle of another kind is refused"); }
    else if flags != 4 && flags != 8 && flags != 12 { assert!(r == Error::ValueOutOfRange && calls() == 0, "no other flags are allowed"); }
    else {
        assert!(calls() == 1 && unsafe { CALLS.1 } == h.inner() as usize && r == answered(), "passed on");
        assert!(unsafe { OWN } == (flags & 4 != 0, flags & 8 != 0, rec_free as usize), "exactly what was asked for, with the free function of the handle");
    }
}

//@ harness k_liq_image_set_importance_map props=C08,C14 fn=liq_image_set_importance_map
#[kani::proof]
#[kani::stub(imagequant::Image::set_importance_map, s_importance)]
#[kani::stub(imagequant::Image::width, s_width)]
#[kani::stub(imagequant::Image::height, s_height)]
fn k_liq_image_set_importance_map() {
    let mut h = Handle::<liq_image<'static>>::new();
    unsafe { std::ptr::addr_of_mut!((*h.mem.as_mut_ptr()).c_api_free).write(rec_free); }
    let need = any_size();
    let size: usize = kani::any();
    let flags: c_int = kani::any();
    let null: bool = kani::any();
    kani::assume(size <= 1 << 30);
    let mut map = Vec::<u8>::with_capacity(size + 1);
    unsafe { map.set_len(size); MAP.2 = kani::any(); }
    let at = unsafe { MAP.2 };
    let p = if null { ptr::null_mut() } else { map.as_mut_ptr() };
    let want = if at < need && at < size { map[at] } else { 0 };
    let r = unsafe { liq_image_set_importance_map(h.get(), p, size, liq_ownership::from_bits_retain(flags)) };
    let freed = unsafe { FREED };
    let passed = h.ok() && !null && size > 0 && size >= need && (flags == 8 || flags == 16);
    if passed {
        assert!(calls() == 1 && unsafe { CALLS.1 } == h.inner() as usize, "passed on");
        assert!(unsafe { MAP.0 } == need && (at >= need || unsafe { MAP.1 } == want), "the first width times height bytes of the map are used");
        assert!(freed == if flags == 8 { (1, p as usize) } else { (0, 0) }, "an owned map is freed exactly once, a copied one isn't");
        assert!(flags == 8 || r == answered(), "its answer is returned");
    } else {
        assert!(calls() == 0 && freed.0 == 0, "a refused map is neither used nor freed");
        assert!(r == if !h.ok() || null || size == 0 { Error::InvalidPointer } else if size < need { Error::BufferTooSmall } else { Error::Unsupported }, "the reason is reported");
        assert!(h.ok() || h.kept(), "another kind of object is not touched");
    }
    kani::cover!(passed && flags == 8);
    kani::cover!(passed && flags == 16);
    std::mem::forget(map);
}

//@ harness k_liq_write_remapped_image props=C01,C08 fn=liq_write_remapped_image,liq_write_remapped_image_rows
#[kani::proof]
#[kani::stub(imagequant::capi::liq_write_remapped_image_impl, s_write)]
#[kani::stub(imagequant::capi::liq_write_remapped_image_rows_impl, s_write_rows)]
#[kani::stub(imagequant::Image::width, s_width)]
#[kani::stub(imagequant::Image::height, s_height)]
fn k_liq_write_remapped_image() {
    let mut h = Handle::<liq_image<'static>>::new();
    let mut res = Handle::<liq_result>::new();
    let need = any_size();
    let size: usize = kani::any();
    kani::assume(size <= 1 << 30);
    let null: bool = kani::any();
    let ok = h.ok() && res.ok() && !null;
    let (r, p, small, len) = if kani::any() {
        let mut buf = Vec::<MaybeUninit<u8>>::with_capacity(size + 1);
        let p = if null { ptr::null_mut() } else { buf.as_mut_ptr() };
        let r = unsafe { liq_write_remapped_image(res.get(), h.get(), p, size) };
        std::mem::forget(buf);
        (r, p as usize, size < need, need)
    } else {
        let rows = unsafe { SIZE.1 } as usize;
        let mut buf = Vec::<*mut MaybeUninit<u8>>::with_capacity(rows);
        let p = if null { ptr::null_mut() } else { buf.as_mut_ptr() };
        let r = unsafe { liq_write_remapped_image_rows(res.get(), h.get(), p) };
        std::mem::forget(buf);
        (r, p as usize, false, rows)
    };
    if !ok { assert!(r == Error::InvalidPointer && calls() == 0 && (h.ok() || h.kept()) && (res.ok() || res.kept()), "a handle of another kind or null is refused"); }
    else if small { assert!(r == Error::BufferTooSmall && calls() == 0, "a buffer that is too small is refused"); }
    else {
        assert!(calls() == 1 && unsafe { CALLS.1 } == res.inner() as usize && unsafe { OTHERS.1 } == h.inner() as usize, "passed on");
        assert!(unsafe { MEM } == (p, len), "the buffer's first width times height bytes (or all rows) are to be written, and nothing more");
        assert!(r == answered(), "the answer is returned");
    }
    kani::cover!(ok && !small);
    kani::cover!(ok && small);
}

//@ harness k_liq_quantize props=C05,C08 fn=liq_quantize_image,liq_image_quantize,liq_histogram_quantize,store_boxed_result
#[kani::proof]
#[kani::stub(imagequant::Attributes::quantize, s_quantize)]
#[kani::stub(imagequant::Histogram::quantize, s_hist_quantize)]
fn k_liq_quantize() {
    let mut a = Handle::<liq_attr>::new();
    let mut i = Handle::<liq_image<'static>>::new();
    let mut hist = Handle::<liq_histogram>::new();
    let mut out = MaybeUninit::<Option<Box<liq_result>>>::uninit();
    let which: u8 = kani::any();
    kani::assume(which < 3);
    let ok = a.ok() && if which == 2 { hist.ok() } else { i.ok() };
    let r = match which {
        0 => { let r = liq_quantize_image(a.get(), i.get()); let e = if r.is_some() { LIQ_OK } else if ok { answered() } else { Error::InvalidPointer }; let _ = out.write(r); e },
        1 => liq_image_quantize(i.get(), a.get(), &mut out),
        _ => liq_histogram_quantize(hist.get(), a.get(), &mut out),
    };
    if !ok {
        assert!(r == Error::InvalidPointer && calls() == 0, "a handle of another kind is refused");
        assert!((a.ok() || a.kept()) && (i.ok() || i.kept()) && (hist.ok() || hist.kept()), "and not touched");
    } else {
        assert!(calls() == 1 && unsafe { OTHERS.0 } == a.inner() as usize, "passed on with these attributes");
        assert!(if which == 2 { (unsafe { CALLS.1 }) == hist.inner() as usize } else { (unsafe { OTHERS.1 }) == i.inner() as usize }, "for this input");
        assert!(r == answered(), "its answer is returned");
        let out = unsafe { out.assume_init() };
        assert!(out.is_some() == (r == LIQ_OK), "there is a result exactly when it's successful");
        if let Some(o) = &out { assert!(o.magic_header == LIQ_RESULT_MAGIC, "and it's a result handle"); }
        std::mem::forget(out);
    }
    kani::cover!(ok && r == LIQ_OK);
    kani::cover!(ok && r != LIQ_OK);
}

//@ harness k_liq_histogram_add props=C08,C14 fn=liq_histogram_add_colors,liq_histogram_add_image
#[kani::proof]
#[kani::stub(imagequant::Histogram::add_colors, s_add_colors)]
#[kani::stub(imagequant::Histogram::add_image, s_hist_add_image)]
fn k_liq_histogram_add() {
    let mut a = Handle::<liq_attr>::new();
    let mut i = Handle::<liq_image<'static>>::new();
    let mut hist = Handle::<liq_histogram>::new();
    let ok = a.ok() && hist.ok();
    if kani::any() {
        let n: c_int = kani::any();
        kani::assume(n <= 1 << 24);
        let null: bool = kani::any();
        let g: f64 = kani::any();
        kani::assume(!g.is_nan());
        let mut e = Vec::<HistogramEntry>::with_capacity(if n > 0 { n as usize } else { 1 });
        let p = if null { ptr::null() } else { e.as_ptr() };
        let r = unsafe { liq_histogram_add_colors(hist.get(), a.get(), p, n, g) };
        if !ok { assert!(r == Error::InvalidPointer && calls() == 0, "a handle of another kind is refused"); }
        else if n < 0 { assert!(r == Error::ValueOutOfRange && calls() == 0, "a negative count is refused"); }
        else if n == 0 { assert!(r == LIQ_OK, "nothing to add"); }
        else if null { assert!(r == Error::InvalidPointer && calls() == 0, "null is refused"); }
        else { assert!(calls() == 1 && rec_with(hist.inner(), g, 0.) && unsafe { MEM } == (p as usize, n as usize) && r == answered(), "all entries are passed on, and the answer is returned"); }
        std::mem::forget(e);
    } else {
        let r = liq_histogram_add_image(hist.get(), a.get(), i.get());
        if !ok || !i.ok() { assert!(r == Error::InvalidPointer && calls() == 0, "a handle of another kind is refused"); }
        else { assert!(calls() == 1 && unsafe { CALLS.1 } == hist.inner() as usize && unsafe { OTHERS } == (a.inner() as usize, i.inner() as usize) && r == answered(), "passed on"); }
    }
    assert!((a.ok() || a.kept()) && (i.ok() || i.kept()) && (hist.ok() || hist.kept()), "objects of another kind are not touched");
}

//@ harness k_check_image_size slow props=C08 fn=check_image_size
#[kani::proof]
fn k_check_image_size() {
    let mut h = Handle::<liq_attr>::new();
    let (w, t): (u32, u32) = (kani::any(), kani::any());
    let r = check_image_size(h.get(), w, t);
    if r { assert!(h.ok() && w > 0 && t > 0 && w as u64 * t as u64 <= i32::MAX as u64 / 4, "only sizes which can be addressed are accepted"); }
    assert!(h.ok() || h.kept(), "objects of another kind are not touched");
    if h.ok() && w > 0 && w <= 16384 && t == 16384 { assert!(r, "ordinary sizes are accepted"); }
    kani::cover!(r);
}

//@ harness k_liq_image_create_rgba_rows props=C08 fn=liq_image_create_rgba_rows
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(imagequant::capi::liq_image_create_rgba_rows_impl, s_create_rows)]
#[kani::stub(check_image_size, s_check_size)]
fn k_liq_image_create_rgba_rows() {
    creates!(a, w, t, g, null, {
        kani::assume(t <= 1 << 20);
        let rows = Vec::<*const RGBA>::with_capacity(t as usize);
        let p = if null { ptr::null() } else { rows.as_ptr() };
        let r = unsafe { liq_image_create_rgba_rows(a.get(), p, w, t, g) };
        std::mem::forget(rows);
        (r, p as usize)
    });
}

//@ harness k_liq_image_create_custom props=C08 fn=liq_image_create_custom
#[kani::proof]
#[kani::unwind(2)]
#[kani::stub(imagequant::capi::liq_image_create_custom_impl, s_create_custom)]
fn k_liq_image_create_custom() {
    creates!(a, w, t, g, null, {
        kani::assume(!null);
        unsafe { SIZE_OK = true; }
        let r = unsafe { liq_image_create_custom(a.get(), row_callback, AnySyncSendPtr(ptr::null_mut()), w, t, g) };
        unsafe { MEM = (0, t as usize); }
        (r, 0)
    });
}

//@ harness k_liq_image_create_rgba props=C08 fn=liq_image_create_rgba bounded=height<=2
#[kani::proof]
#[kani::unwind(4)]
#[kani::stub(imagequant::capi::liq_image_create_rgba_bitmap_impl, s_create_bitmap)]
#[kani::stub(check_image_size, s_check_size)]
fn k_liq_image_create_rgba() {
    creates!(a, w, t, g, null, {
        kani::assume(t <= 2 && w < 1 << 16);
        let px = Vec::<RGBA>::with_capacity(w as usize * t as usize);
        let p = if null { ptr::null() } else { px.as_ptr() };
        let r = unsafe { liq_image_create_rgba(a.get(), p, w, t, g) };
        std::mem::forget(px);
        (r, p as usize)
    });
}

//@ harness k_liq_create props=C06,C08 fn=liq_histogram_create,liq_attr_copy
#[kani::proof]
#[kani::stub(imagequant::Histogram::new, s_hist_new)]
#[kani::stub(<imagequant::Attributes as std::clone::Clone>::clone, s_attr_clone)]
fn k_liq_create() {
    let mut a = Handle::<liq_attr>::new();
    unsafe { std::ptr::addr_of_mut!((*a.mem.as_mut_ptr()).c_api_free).write(rec_free); }
    if kani::any() {
        let r = liq_histogram_create(a.get());
        assert!(r.is_some() == a.ok() && calls() == a.ok() as usize, "a handle of another kind is refused");
        if let Some(h) = &r { assert!(h.magic_header == LIQ_HISTOGRAM_MAGIC && unsafe { CALLS.1 } == a.inner() as usize, "made for these attributes"); }
        std::mem::forget(r);
    } else {
        let r = liq_attr_copy(a.get());
        assert!(r.is_some() == a.ok() && calls() == a.ok() as usize, "a handle of another kind is refused");
        if let Some(h) = &r { assert!(h.magic_header == LIQ_ATTR_MAGIC && unsafe { CALLS.1 } == a.inner() as usize && h.c_api_free as usize == rec_free as usize, "a copy of these attributes"); }
        std::mem::forget(r);
    }
    assert!(a.kept(), "the attributes are not touched");
}

//@ harness k_liq_get_palette props=C08 fn=liq_get_palette
#[kani::proof]
#[kani::stub(imagequant::capi::liq_get_palette_impl, s_get_palette)]
fn k_liq_get_palette() {
    let mut h = Handle::<liq_result>::new();
    let at = h.inner() as usize;
    let p = liq_get_palette(h.get()).map(|p| p as *const Palette as usize);
    assert!(p.is_some() == h.ok() && calls() == h.ok() as usize && h.kept(), "a handle of another kind is refused");
    if let Some(p) = p { assert!(unsafe { CALLS.1 } == at && p == unsafe { PAL_AT }, "the palette of this result"); }
}

//@ harness k_liq_image_set_background props=C08,C11 fn=liq_image_set_background
#[kani::proof]
#[kani::stub(imagequant::Image::set_background, s_set_background)]
#[kani::stub(std::mem::ManuallyDrop::drop, s_drop)]
fn k_liq_image_set_background() {
    let mut h = Handle::<liq_image<'static>>::new();
    let mut bg = Box::new(MaybeUninit::<liq_image<'static>>::uninit());
    let tag = any_tag();
    unsafe { bg.as_mut_ptr().cast::<MagicTag>().write(tag); }
    let bg = unsafe { bg.assume_init() };
    let r = liq_image_set_background(h.get(), bg);
    let drops = unsafe { DROPS };
    if !h.ok() || tag != LIQ_IMAGE_MAGIC {
        assert!(r == Error::InvalidPointer && calls() == 0 && (h.ok() || h.kept()), "a handle of another kind is refused");
        assert!(drops == (tag == LIQ_IMAGE_MAGIC) as usize, "only an image that was given away is freed");
    } else {
        assert!(calls() == 1 && (unsafe { CALLS.1 }) == h.inner() as usize && r == answered(), "passed on");
        assert!(drops == 0, "the image lives on as the background");
    }
    kani::cover!(r == LIQ_OK);
}

//@ harness k_liq_set_progress_callback props=C08,C09 fn=liq_attr_set_progress_callback,liq_result_set_progress_callback
#[kani::proof]
#[kani::stub(imagequant::Attributes::set_progress_callback, s_attr_progress)]
#[kani::stub(imagequant::QuantizationResult::set_progress_callback, s_res_progress)]
fn k_liq_set_progress_callback() {
    let mut a = Handle::<liq_attr>::new();
    let mut r = Handle::<liq_result>::new();
    unsafe { USER = kani::any(); }
    let user = AnySyncSendPtr(unsafe { USER } as *mut c_void);
    if kani::any() {
        unsafe { liq_attr_set_progress_callback(a.get(), progress_cb, user); }
        assert!(calls() == a.ok() as usize && a.kept(), "a handle of another kind is not touched");
        assert!(!a.ok() || (unsafe { CALLS.1 }) == a.inner() as usize, "set on this object");
    } else {
        unsafe { liq_result_set_progress_callback(r.get(), progress_cb, user); }
        assert!(calls() == r.ok() as usize && r.kept(), "a handle of another kind is not touched");
        assert!(!r.ok() || (unsafe { CALLS.1 }) == r.inner() as usize, "set on this object");
    }
    kani::cover!(calls() == 1);
}

//@ harness k_liq_image_destroy props=C08 fn=liq_image_destroy,liq_image::drop
#[kani::proof]
#[kani::stub(std::mem::ManuallyDrop::drop, s_drop)]
fn k_liq_image_destroy() {
    let mut h = Box::new(MaybeUninit::<liq_image<'static>>::uninit());
    let tag = any_tag();
    unsafe { h.as_mut_ptr().cast::<MagicTag>().write(tag); }
    liq_image_destroy(if kani::any() { None } else {
        let h = unsafe { h.assume_init() };
        unsafe { CALLS.0 = 1; }
        Some(h)
    });
    assert!((unsafe { DROPS }) == (calls() == 1 && tag == LIQ_IMAGE_MAGIC) as usize, "the image's content is freed exactly once, and only if it's an image");
}
