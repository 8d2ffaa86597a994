//! The C API: handles, ownership, settings, image constructors.
#![allow(deprecated)]
use crate::gen::*;
use crate::Ctx;
use imagequant::{Error, HistogramEntry, RGBA};
use imagequant_sys::*;
use std::collections::HashMap;
use std::mem::MaybeUninit;
use std::os::raw::{c_int, c_uint, c_void};
use std::sync::Mutex;

macro_rules! ensure { ($c:expr, $($f:tt)+) => { if !$c { return Err(format!($($f)+)); } } }

// ---- memory handed over to the library: registered here, "freed" by poisoning, released by us at the end
static MEM: Mutex<Option<HashMap<usize, (usize, u32)>>> = Mutex::new(None);
unsafe extern "C" fn rec_free(p: *mut c_void) {
    let mut g = MEM.lock().unwrap();
    let m = g.get_or_insert_with(HashMap::new);
    let e = m.entry(p as usize).or_insert((0, 0));
    e.1 += 1;
    for i in 0..e.0 { *p.cast::<u8>().add(i) = 0xDD; }
}
/// A buffer in memory whose address is recorded
struct Mem { p: *mut u8, len: usize }
impl Mem {
    fn new<T: Copy>(src: &[T]) -> Mem {
        let len = std::mem::size_of_val(src).max(1);
        unsafe {
            let p = std::alloc::alloc(std::alloc::Layout::from_size_align(len, 16).unwrap());
            std::ptr::copy_nonoverlapping(src.as_ptr().cast::<u8>(), p, std::mem::size_of_val(src));
            MEM.lock().unwrap().get_or_insert_with(HashMap::new).insert(p as usize, (len, 0));
            Mem { p, len }
        }
    }
    fn frees(&self) -> u32 { MEM.lock().unwrap().as_ref().and_then(|m| m.get(&(self.p as usize))).map_or(0, |e| e.1) }
    fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.len) } }
}
impl Drop for Mem {
    fn drop(&mut self) {
        MEM.lock().unwrap().as_mut().map(|m| m.remove(&(self.p as usize)));
        unsafe { std::alloc::dealloc(self.p, std::alloc::Layout::from_size_align(self.len, 16).unwrap()); }
    }
}

// ---- handles of the wrong kind
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind { Attr, Image, Res, Hist }
const KINDS: [Kind; 4] = [Kind::Attr, Kind::Image, Kind::Res, Kind::Hist];

#[repr(C, align(64))]
struct Fake { head: usize, rest: [u8; 8192 - 8] }

unsafe extern "C" fn prog(_: f32, _: AnySyncSendPtr) -> c_int { 1 }
unsafe extern "C" fn log(_: &liq_attr, _: *const std::os::raw::c_char, _: AnySyncSendPtr) {}
unsafe extern "C" fn flush(_: &liq_attr, _: AnySyncSendPtr) {}
unsafe extern "C" fn fill_row(row: *mut MaybeUninit<RGBA>, _: c_int, w: c_int, _: AnySyncSendPtr) { for x in 0..w as usize { (*row.add(x)).write(RGBA::new(1, 2, 3, 4)); } }

struct World { attr: Box<liq_attr>, img: Box<liq_image<'static>>, res: Box<liq_result>, hist: Box<liq_histogram> }
fn world() -> Result<World, String> {
    let mut attr = liq_attr_create().ok_or("liq_attr_create")?;
    let mut img = unsafe { liq_image_create_custom(&attr, fill_row, AnySyncSendPtr::default(), 3, 2, 0.) }.ok_or("liq_image_create_custom")?;
    let res = liq_quantize_image(&mut attr, &mut img).ok_or("liq_quantize_image")?;
    let hist = liq_histogram_create(&attr).ok_or("liq_histogram_create")?;
    Ok(World { attr, img, res, hist })
}
unsafe fn head<T>(b: &T) -> usize { *(b as *const T).cast::<usize>() }

unsafe extern "C" fn answer(_: f32, v: AnySyncSendPtr) -> c_int { *v.0.cast::<c_int>() }
/// a progress callback in C aborts with 0, and with nothing else
pub fn c_progress(v: c_int) -> Result<(), String> {
    let p = || AnySyncSendPtr((&raw const v).cast_mut().cast());
    let w = world()?;
    let (mut attr, mut img, mut res) = (w.attr, w.img, w.res);
    unsafe { liq_result_set_progress_callback(&mut res, answer, p()); }
    let mut buf = [0u8; 6];
    let e = unsafe { liq_write_remapped_image(&mut res, &mut img, buf.as_mut_ptr().cast(), 6) };
    ensure!(e == if v == 0 { Error::Aborted } else { Error::LIQ_OK }, "callback of the result answers {v}: liq_write_remapped_image {e:?}");
    unsafe { liq_attr_set_progress_callback(&mut attr, answer, p()); }
    let mut img = unsafe { liq_image_create_custom(&attr, fill_row, AnySyncSendPtr::default(), 3, 2, 0.) }.ok_or("liq_image_create_custom")?;
    let mut out = MaybeUninit::new(None);
    let e = liq_image_quantize(&mut img, &mut attr, &mut out);
    ensure!(e == if v == 0 { Error::Aborted } else { Error::LIQ_OK }, "callback of the attributes answers {v}: liq_image_quantize {e:?}");
    Ok(())
}

/// (name, [kind of handle for each handle parameter], call with handle pointers -> "it was refused")
type Call = fn(&[*mut c_void]) -> bool;
macro_rules! h { ($v:ident, $i:expr, $t:ty) => { &mut *$v[$i].cast::<$t>() } }
const CALLS: &[(&str, &[Kind], Call)] = {
    use Kind::*;
    const IP: Error = Error::InvalidPointer;
    &[
        ("liq_set_last_index_transparent", &[Attr], |v| unsafe { liq_set_last_index_transparent(h!(v, 0, liq_attr), 1); true }),
        ("liq_get_palette", &[Res], |v| unsafe { liq_get_palette(h!(v, 0, liq_result)).is_none() }),
        ("liq_attr_set_progress_callback", &[Attr], |v| unsafe { liq_attr_set_progress_callback(h!(v, 0, liq_attr), prog, AnySyncSendPtr::default()); true }),
        ("liq_result_set_progress_callback", &[Res], |v| unsafe { liq_result_set_progress_callback(h!(v, 0, liq_result), prog, AnySyncSendPtr::default()); true }),
        ("liq_set_log_callback", &[Attr], |v| unsafe { liq_set_log_callback(h!(v, 0, liq_attr), log, AnySyncSendPtr::default()); true }),
        ("liq_set_log_flush_callback", &[Attr], |v| unsafe { liq_set_log_flush_callback(h!(v, 0, liq_attr), flush, AnySyncSendPtr::default()); true }),
        ("liq_set_max_colors", &[Attr], |v| unsafe { liq_set_max_colors(h!(v, 0, liq_attr), 77) == IP && liq_set_max_colors(h!(v, 0, liq_attr), 0) == IP }),
        ("liq_get_max_colors", &[Attr], |v| unsafe { liq_get_max_colors(h!(v, 0, liq_attr)) == !0 }),
        ("liq_set_min_posterization", &[Attr], |v| unsafe { liq_set_min_posterization(h!(v, 0, liq_attr), 3) == IP }),
        ("liq_get_min_posterization", &[Attr], |v| unsafe { liq_get_min_posterization(h!(v, 0, liq_attr)) == !0 }),
        ("liq_set_speed", &[Attr], |v| unsafe { liq_set_speed(h!(v, 0, liq_attr), 3) == IP }),
        ("liq_get_speed", &[Attr], |v| unsafe { liq_get_speed(h!(v, 0, liq_attr)) == !0 }),
        ("liq_set_quality", &[Attr], |v| unsafe { liq_set_quality(h!(v, 0, liq_attr), 3, 50) == IP }),
        ("liq_get_min_quality", &[Attr], |v| unsafe { liq_get_min_quality(h!(v, 0, liq_attr)) == !0 }),
        ("liq_get_max_quality", &[Attr], |v| unsafe { liq_get_max_quality(h!(v, 0, liq_attr)) == !0 }),
        ("liq_quantize_image", &[Attr, Image], |v| unsafe { liq_quantize_image(h!(v, 0, liq_attr), h!(v, 1, liq_image)).is_none() }),
        ("liq_write_remapped_image", &[Res, Image], |v| unsafe { let mut b = [MaybeUninit::new(7u8); 6]; liq_write_remapped_image(h!(v, 0, liq_result), h!(v, 1, liq_image), b.as_mut_ptr(), 6) == IP && b.iter().all(|x| x.assume_init() == 7) }),
        ("liq_write_remapped_image_rows", &[Res, Image], |v| unsafe { let mut b = [MaybeUninit::new(7u8); 6]; let p = b.as_mut_ptr(); let mut rows = [p, p.add(3)];
            liq_write_remapped_image_rows(h!(v, 0, liq_result), h!(v, 1, liq_image), rows.as_mut_ptr()) == IP && b.iter().all(|x| x.assume_init() == 7) }),
        ("liq_image_add_fixed_color", &[Image], |v| unsafe { liq_image_add_fixed_color(h!(v, 0, liq_image), RGBA::new(1, 2, 3, 4)) == IP }),
        ("liq_histogram_add_fixed_color", &[Hist], |v| unsafe { liq_histogram_add_fixed_color(h!(v, 0, liq_histogram), RGBA::new(1, 2, 3, 4), 0.) == IP }),
        ("liq_image_get_width", &[Image], |v| unsafe { liq_image_get_width(h!(v, 0, liq_image)) == !0 }),
        ("liq_image_get_height", &[Image], |v| unsafe { liq_image_get_height(h!(v, 0, liq_image)) == !0 }),
        ("liq_image_set_importance_map", &[Image], |v| unsafe { let m = Mem::new(&[9u8; 6]); let e = liq_image_set_importance_map(h!(v, 0, liq_image), m.p, 6, liq_ownership::LIQ_OWN_PIXELS) == IP; e && m.frees() == 0 }),
        ("liq_image_set_memory_ownership", &[Image], |v| unsafe { liq_image_set_memory_ownership(h!(v, 0, liq_image), liq_ownership::LIQ_OWN_PIXELS) == IP }),
        ("liq_histogram_create", &[Attr], |v| unsafe { liq_histogram_create(h!(v, 0, liq_attr)).is_none() }),
        ("liq_attr_copy", &[Attr], |v| unsafe { liq_attr_copy(h!(v, 0, liq_attr)).is_none() }),
        ("liq_set_output_gamma", &[Res], |v| unsafe { liq_set_output_gamma(h!(v, 0, liq_result), 0.5) == IP }),
        ("liq_set_dithering_level", &[Res], |v| unsafe { liq_set_dithering_level(h!(v, 0, liq_result), 0.5) == IP }),
        ("liq_get_output_gamma", &[Res], |v| unsafe { liq_get_output_gamma(h!(v, 0, liq_result)) == -1. }),
        ("liq_get_quantization_error", &[Res], |v| unsafe { liq_get_quantization_error(h!(v, 0, liq_result)) == -1. }),
        ("liq_get_remapping_error", &[Res], |v| unsafe { liq_get_remapping_error(h!(v, 0, liq_result)) == -1. }),
        ("liq_get_quantization_quality", &[Res], |v| unsafe { liq_get_quantization_quality(h!(v, 0, liq_result)) == -1 }),
        ("liq_get_remapping_quality", &[Res], |v| unsafe { liq_get_remapping_quality(h!(v, 0, liq_result)) == -1 }),
        ("liq_image_quantize", &[Image, Attr], |v| unsafe { let mut o = MaybeUninit::new(None); liq_image_quantize(h!(v, 0, liq_image), h!(v, 1, liq_attr), &mut o) == IP && o.assume_init().is_none() }),
        ("liq_histogram_quantize", &[Hist, Attr], |v| unsafe { let mut o = MaybeUninit::new(None); liq_histogram_quantize(h!(v, 0, liq_histogram), h!(v, 1, liq_attr), &mut o) == IP && o.assume_init().is_none() }),
        ("liq_image_create_custom", &[Attr], |v| unsafe { liq_image_create_custom(h!(v, 0, liq_attr), fill_row, AnySyncSendPtr::default(), 3, 2, 0.).is_none() }),
        ("liq_image_create_rgba_rows", &[Attr], |v| unsafe { let px = [RGBA::new(1, 1, 1, 1); 6]; let rows = [px.as_ptr(), px.as_ptr().add(3)]; liq_image_create_rgba_rows(h!(v, 0, liq_attr), rows.as_ptr(), 3, 2, 0.).is_none() }),
        ("liq_image_create_rgba", &[Attr], |v| unsafe { let px = [RGBA::new(1, 1, 1, 1); 6]; liq_image_create_rgba(h!(v, 0, liq_attr), px.as_ptr(), 3, 2, 0.).is_none() }),
        ("liq_histogram_add_colors", &[Hist, Attr], |v| unsafe { let e = [HistogramEntry { color: RGBA::new(1, 1, 1, 1), count: 3 }]; liq_histogram_add_colors(h!(v, 0, liq_histogram), h!(v, 1, liq_attr), e.as_ptr(), 1, 0.) == IP
            && liq_histogram_add_colors(h!(v, 0, liq_histogram), h!(v, 1, liq_attr), e.as_ptr(), 0, 0.) == IP }),
        ("liq_histogram_add_image", &[Hist, Attr, Image], |v| unsafe { liq_histogram_add_image(h!(v, 0, liq_histogram), h!(v, 1, liq_attr), h!(v, 2, liq_image)) == IP }),
    ]
};

fn handles(r: &mut Rng, ctx: &mut Ctx) -> Result<(), String> {
    let mut w = world()?;
    let heads = unsafe { [head(&*w.attr), head(&*w.img), head(&*w.res), head(&*w.hist)] };
    ensure!((0..4).all(|i| (0..i).all(|j| heads[i] != heads[j])), "two kinds of handle have the same tag");
    let real: [*mut c_void; 4] = [(&mut *w.attr as *mut liq_attr).cast(), (&mut *w.img as *mut liq_image).cast(), (&mut *w.res as *mut liq_result).cast(), (&mut *w.hist as *mut liq_histogram).cast()];
    let fill = r.u8();
    for (name, params, call) in CALLS {
        // which parameters are bad (at least one)
        for bad in 1..(1usize << params.len()) {
            for wrong in KINDS {
                if params.iter().enumerate().any(|(i, k)| bad >> i & 1 != 0 && *k == wrong) { continue; }
                // a block that begins like a live handle of another kind, and holds something we can recognise
                let mut fakes: Vec<Box<Fake>> = params.iter().map(|_| Box::new(Fake { head: heads[wrong as usize], rest: [fill; 8192 - 8] })).collect();
                // all other parameters are of the right kind
                let v: Vec<*mut c_void> = params.iter().enumerate().map(|(i, k)| if bad >> i & 1 != 0 { (&mut *fakes[i] as *mut Fake).cast() } else { real[*k as usize] }).collect();
                let refused = call(&v);
                ensure!(refused, "{name} did not refuse a handle of kind {wrong:?} (bad parameters mask {bad:b})");
                ensure!(fakes.iter().all(|f| f.head == heads[wrong as usize] && f.rest.iter().all(|&b| b == fill)), "{name} wrote to a handle of kind {wrong:?} which it should refuse");
            }
        }
    }
    // a background is handed over, not borrowed: it must be memory the library can release
    unsafe {
        let lay = std::alloc::Layout::new::<liq_image>();
        for bad in 1..4 { for wrong in KINDS {
            if wrong == Kind::Image { continue; }
            let mut fake = Box::new(Fake { head: heads[wrong as usize], rest: [fill; 8192 - 8] });
            let bg: Box<liq_image> = if bad & 2 != 0 {
                let p = std::alloc::alloc(lay); std::ptr::write_bytes(p, fill, lay.size()); *p.cast::<usize>() = heads[wrong as usize]; Box::from_raw(p.cast())
            } else { liq_image_create_custom(&w.attr, fill_row, AnySyncSendPtr::default(), 3, 2, 0.).ok_or("background")? };
            let e = liq_image_set_background(if bad & 1 != 0 { &mut *(&mut *fake as *mut Fake).cast::<liq_image>() } else { &mut w.img }, bg);
            ensure!(e == Error::InvalidPointer, "liq_image_set_background did not refuse a handle of kind {wrong:?} (bad parameters mask {bad:b}): {e:?}");
            ensure!(fake.head == heads[wrong as usize] && fake.rest.iter().all(|&b| b == fill), "liq_image_set_background wrote to a handle of kind {wrong:?} which it should refuse");
        } }
    }
    // the well-formed objects still work
    let mut out = [MaybeUninit::new(9u8); 6];
    let e = unsafe { liq_write_remapped_image(&mut w.res, &mut w.img, out.as_mut_ptr(), 6) };
    ensure!(e == Error::LIQ_OK, "remap after refused calls: {e:?}");
    ensure!(liq_get_max_colors(&w.attr) == 256 || liq_get_max_colors(&w.attr) == 2048, "a refused call changed settings");
    ensure!(liq_get_speed(&w.attr) == 4 && liq_get_min_posterization(&w.attr) == 0, "a refused call changed settings");
    ctx.desc = format!("all handle combinations, fill {fill}");
    Ok(())
}

fn ownership(r: &mut Rng, ctx: &mut Ctx, seed: u64) -> Result<(), String> {
    let (w, h) = (r.range(1, 40), r.range(1, 40));
    let (px, _) = pixels(r, w, h, None, false);
    let mut attr = liq_attr_create_with_allocator(std::ptr::null_mut(), rec_free).ok_or("attr")?;
    if r.chance(30) { let a2 = liq_attr_copy(&attr).ok_or("copy")?; liq_attr_destroy(Some(attr)); attr = a2; }
    let _ = liq_set_speed(&mut attr, r.range(3, 10) as c_int);
    let _ = liq_set_max_colors(&mut attr, 256);
    let bmp = Mem::new(&px);
    let p = bmp.p.cast::<RGBA>();
    // rows possibly bottom-up: the lowest address is the bitmap
    let flip = r.chance(40);
    let rows_v: Vec<*const RGBA> = (0..h).map(|y| unsafe { p.add(w * if flip { h - 1 - y } else { y }) as *const RGBA }).collect();
    let rows = Mem::new(&rows_v);
    let kind = r.below(3);
    let mut img = unsafe { match kind {
        0 => liq_image_create_rgba(&attr, p, w as _, h as _, 0.),
        1 => liq_image_create_rgba_rows(&attr, rows.p.cast(), w as _, h as _, 0.),
        _ => liq_image_create_custom(&attr, fill_row, AnySyncSendPtr::default(), w as _, h as _, 0.),
    } }.ok_or("image was not created")?;
    let (mut own_r, mut own_p) = (false, false);
    let mut names = String::new();
    let mut res: Option<Box<liq_result>> = None;
    let mut imp: Vec<(Mem, bool, Vec<u8>)> = vec![];
    let mut extra_bg: Vec<(Mem, bool)> = vec![];
    let mut freed_early = 0;
    let mut remapped = false; // the image is then free to drop its pixels
    for _ in 0..r.range(1, 7) {
        match r.below(7) {
            0 | 1 | 2 => {
                let mut f = *r.pick(&[4, 8, 12, 0, 1, 16, 20, 24, 64, -1]);
                if kind == 0 && f & 4 != 0 { f = 8 } // documented as invalid for this constructor
                names += &format!(" own({f})");
                let e = unsafe { liq_image_set_memory_ownership(&mut img, liq_ownership::from_bits_retain(f)) };
                let bad = f == 0 || f & !12 != 0;
                if bad { ensure!(e == Error::ValueOutOfRange, "set_memory_ownership({f}): {e:?}"); continue; }
                if remapped && e == Error::Unsupported { continue; }
                if kind == 2 { ensure!(e == Error::ValueOutOfRange, "set_memory_ownership({f}) on a callback image: {e:?}"); continue; }
                ensure!(e == Error::LIQ_OK, "set_memory_ownership({f}): {e:?} ({names})");
                own_r |= f & 4 != 0; own_p |= f & 8 != 0;
            },
            3 => { names += " quantize"; let q = liq_quantize_image(&mut attr, &mut img); ensure!(q.is_some() || remapped, "quantize failed ({names})"); if q.is_some() { res = q; } },
            4 => if let Some(q) = &mut res { names += " remap"; remapped = true; let mut o = vec![MaybeUninit::new(0xFFu8); w * h];
                let e = unsafe { liq_write_remapped_image(q, &mut img, o.as_mut_ptr(), w * h) };
                ensure!(e == Error::LIQ_OK, "remap: {e:?} ({names})");
                let n = liq_get_palette(q).ok_or("palette")?.count;
                ensure!(o.iter().all(|x| unsafe { x.assume_init() as c_uint } < n), "invalid index ({names})"); },
            5 => { // importance map
                let own = *r.pick(&[8, 16, 4, 0, 24]);
                let short = r.chance(20);
                names += &format!(" map({own},{short})");
                let src: Vec<u8> = (0..w * h).map(|_| 1 + r.u8() / 2).collect();
                let m = Mem::new(&src);
                let e = unsafe { liq_image_set_importance_map(&mut img, m.p, if short { w * h - 1 } else { w * h }, liq_ownership::from_bits_retain(own)) };
                let exp = if short && w * h == 1 { Error::InvalidPointer } else if short { Error::BufferTooSmall } else if own == 8 || own == 16 { Error::LIQ_OK } else { Error::Unsupported };
                ensure!(e == exp, "set_importance_map(ownership {own}): {e:?}, expected {exp:?}");
                let freed = m.frees();
                let gave = e == Error::LIQ_OK && own == 8;
                ensure!(freed <= gave as u32, "importance map freed {freed} times (ownership {own}, {e:?})");
                imp.push((m, gave, src));
            },
            _ => if extra_bg.is_empty() { // background: its own memory, owned or not
                names += " background";
                let b = Mem::new(&px);
                let mut bimg = unsafe { liq_image_create_rgba(&attr, b.p.cast(), w as _, h as _, 0.) }.ok_or("bg")?;
                let own = r.chance(60);
                if own { let e = unsafe { liq_image_set_memory_ownership(&mut bimg, liq_ownership::LIQ_OWN_PIXELS) }; ensure!(e == Error::LIQ_OK, "own bg {e:?}"); }
                let e = liq_image_set_background(&mut img, bimg);
                ensure!(e == Error::LIQ_OK, "set_background: {e:?}");
                ensure!(own || b.frees() == 0, "background pixels freed without ownership");
                extra_bg.push((b, own));
            },
        }
        ensure!(bmp.frees() <= own_p as u32 && rows.frees() <= own_r as u32, "memory freed {}/{} times while the image is alive ({names})", bmp.frees(), rows.frees());
        freed_early += bmp.frees();
    }
    // another image that is never given anything
    liq_image_destroy(Some(img));
    liq_attr_destroy(Some(attr));
    ctx.desc = format!("{w}x{h} kind={kind} flip={flip}:{names} freed_early={freed_early} seed={seed}");
    let (bp, rp) = (bmp.frees(), rows.frees());
    ensure!(bp == own_p as u32, "pixels were freed {bp} times, expected {} ({})", own_p as u32, ctx.desc);
    ensure!(rp == own_r as u32, "rows were freed {rp} times, expected {} ({})", own_r as u32, ctx.desc);
    for (m, gave, src) in &imp {
        ensure!(m.frees() == *gave as u32, "importance map was freed {} times, expected {} ({})", m.frees(), *gave as u32, ctx.desc);
        if !gave { ensure!(m.bytes() == &src[..], "importance map was modified"); }
    }
    for (m, own) in &extra_bg { ensure!(m.frees() == *own as u32, "background pixels were freed {} times, expected {} ({})", m.frees(), *own as u32, ctx.desc); }
    if !own_p { ensure!(unsafe { std::slice::from_raw_parts(p, w * h) } == &px[..], "pixels that were not handed over were modified"); }
    if !own_r { ensure!(unsafe { std::slice::from_raw_parts(rows.p.cast::<*const RGBA>(), h) } == &rows_v[..], "rows that were not handed over were modified"); }
    // the result outlives image and attr
    if let Some(q) = &mut res { let _ = (liq_get_palette(q).map(|p| p.count), liq_get_remapping_error(q), liq_get_quantization_quality(q)); }
    liq_result_destroy(res);
    Ok(())
}

pub fn c08(idx: u64, seed: u64, ctx: &mut Ctx) -> Result<(), String> {
    let mut r = Rng::new(seed ^ 0xC08);
    ctx.nontrivial = true;
    if idx % 16 == 0 { handles(&mut r, ctx) } else { ownership(&mut r, ctx, seed) }
}

/// Random sequences of setters through both APIs, against a model
pub fn settings_sequence(r: &mut Rng) -> Result<(), String> {
    let mut a = imagequant::Attributes::new();
    let mut c = liq_attr_create().ok_or("attr")?;
    let defmax = if cfg!(feature = "large") { 2048 } else { 256 };
    // max_colors, min quality, max quality, speed, posterization
    let mut m: (u32, u32, u32, u32, u32) = (defmax, 0, 100, 4, 0);
    let edge: [i64; 22] = [0, 1, 2, 3, 4, 5, 9, 10, 11, 99, 100, 101, 255, 256, 257, 258, -1, -255, i32::MAX as i64, i32::MIN as i64, 65536 + 7, u32::MAX as i64];
    for _ in 0..r.range(4, 30) {
        let val = |r: &mut Rng| -> i64 { match r.below(4) { 0 => *r.pick(&edge), 1 => r.below(12) as i64, 2 => r.below(300) as i64, _ => *r.pick(&[256i64, 512, 65536, 1 << 24, -256]) + r.below(102) as i64 } };
        let (v, v2) = (val(r), val(r));
        let chk = |what: String, ok: bool, got: Error| -> Result<(), String> { ensure!(got == if ok { Error::LIQ_OK } else { Error::ValueOutOfRange }, "{what} returned {got:?}, expected {}", if ok { "success" } else { "ValueOutOfRange" }); Ok(()) };
        let e = |x: Result<(), Error>| x.err().unwrap_or(Error::LIQ_OK);
        match r.below(5) {
            0 => { let v = v as u32; let ok = (2..=256).contains(&v);
                chk(format!("set_max_colors({v})"), ok, e(a.set_max_colors(v)))?; chk(format!("liq_set_max_colors({v})"), ok, liq_set_max_colors(&mut c, v))?; if ok { m.0 = v; } },
            1 => { let (lo, hi) = (v as u32, v2 as u32); let ok = lo <= hi && hi <= 100;
                chk(format!("liq_set_quality({lo}, {hi})"), ok, liq_set_quality(&mut c, lo, hi))?;
                if lo < 256 && hi < 256 { chk(format!("set_quality({lo}, {hi})"), ok, e(a.set_quality(lo as u8, hi as u8)))?; }
                if ok { m.1 = lo; m.2 = hi; } },
            2 => { let (x, y) = (r.below(101) as u32, r.below(101) as u32); let (lo, hi) = (x.min(y), x.max(y));
                chk(format!("liq_set_quality({lo}, {hi})"), true, liq_set_quality(&mut c, lo, hi))?; chk(format!("set_quality({lo}, {hi})"), true, e(a.set_quality(lo as u8, hi as u8)))?; m.1 = lo; m.2 = hi; },
            3 => { let v = v as i32; let ok = (1..=10).contains(&v);
                chk(format!("liq_set_speed({v})"), ok, liq_set_speed(&mut c, v))?; chk(format!("set_speed({v})"), ok, e(a.set_speed(v)))?; if ok { m.3 = v as u32; } },
            _ => { let v = v as i32; let ok = (0..=4).contains(&v);
                chk(format!("liq_set_min_posterization({v})"), ok, liq_set_min_posterization(&mut c, v))?;
                if (0..256).contains(&v) { chk(format!("set_min_posterization({v})"), ok, e(a.set_min_posterization(v as u8)))?; }
                if ok { m.4 = v as u32; } },
        }
        if r.chance(10) { a = a.clone(); c = liq_attr_copy(&c).ok_or("copy")?; }
        if r.chance(10) { a.set_last_index_transparent(r.chance(50)); liq_set_last_index_transparent(&mut c, r.below(3) as c_int); }
        let q = a.quality();
        let got = (a.max_colors(), q.0 as u32, q.1 as u32, a.speed(), a.min_posterization() as u32);
        ensure!(got == m, "getters (max_colors, min quality, max quality, speed, posterization) return {got:?} expected {m:?}");
        let got = (liq_get_max_colors(&c), liq_get_min_quality(&c), liq_get_max_quality(&c), liq_get_speed(&c), liq_get_min_posterization(&c));
        ensure!(got == m, "C getters (max_colors, min quality, max quality, speed, posterization) return {got:?} expected {m:?}");
    }
    // result setters through C
    let mut w = world()?;
    let mut gamma = liq_get_output_gamma(&w.res);
    for _ in 0..6 {
        let sp = [f64::NAN, f64::INFINITY, 0., 1., 0.3, 0.999, -0.5, 1e-300, 2.];
        let g = *r.pick(&sp); let ok = g > 0. && g < 1.;
        let e = liq_set_output_gamma(&mut w.res, g);
        ensure!(e == if ok { Error::LIQ_OK } else { Error::ValueOutOfRange }, "liq_set_output_gamma({g}) = {e:?}");
        if ok { gamma = g; }
        let d = *r.pick(&sp) as f32; let ok = d >= 0. && d <= 1.;
        let e = liq_set_dithering_level(&mut w.res, d);
        ensure!(e == if ok { Error::LIQ_OK } else { Error::ValueOutOfRange }, "liq_set_dithering_level({d}) = {e:?}");
        ensure!(liq_get_output_gamma(&w.res).to_bits() == gamma.to_bits(), "liq_get_output_gamma() = {} after setting {gamma}", liq_get_output_gamma(&w.res));
    }
    Ok(())
}

struct RowSrc { px: *const RGBA, w: usize }
unsafe extern "C" fn copy_row(row: *mut MaybeUninit<RGBA>, y: c_int, w: c_int, user: AnySyncSendPtr) {
    let s = &*user.0.cast::<RowSrc>();
    for x in 0..w as usize { (*row.add(x)).write(*s.px.add(y as usize * s.w + x)); }
}

/// The C constructors must make the same image as the Rust ones
pub fn c_sources(c: &Case, base: Option<&(Vec<RGBA>, Vec<u8>)>, threads: bool) -> Result<(), String> {
    let (w, h) = (c.w, c.h);
    let mut attr = liq_attr_create().ok_or("attr")?;
    let ok = |e: Error| if e == Error::LIQ_OK { Ok(()) } else { Err(format!("C API: {e:?}")) };
    ok(liq_set_speed(&mut attr, c.speed))?;
    ok(liq_set_max_colors(&mut attr, c.max_colors))?;
    if let Some((m, t)) = c.quality { ok(liq_set_quality(&mut attr, m.into(), t.into()))?; }
    ok(liq_set_min_posterization(&mut attr, c.post.into()))?;
    liq_set_last_index_transparent(&mut attr, c.last_transp as c_int);
    let stride = w + 3;
    let mut padded = vec![RGBA::new(77, 66, 55, 200); stride * h];
    for y in 0..h { padded[(h - 1 - y) * stride..][..w].copy_from_slice(&c.px[y * w..][..w]); }
    let rows: Vec<*const RGBA> = (0..h).map(|y| padded[(h - 1 - y) * stride..].as_ptr()).collect();
    let src = RowSrc { px: c.px.as_ptr(), w };
    for kind in 0..3 {
        let name = ["liq_image_create_rgba", "liq_image_create_rgba_rows", "liq_image_create_custom"][kind];
        let make = |k: usize| unsafe { match k {
            0 => liq_image_create_rgba(&attr, c.px.as_ptr(), w as _, h as _, c.gamma),
            1 => liq_image_create_rgba_rows(&attr, rows.as_ptr(), w as _, h as _, c.gamma),
            _ => liq_image_create_custom(&attr, copy_row, AnySyncSendPtr((&src as *const RowSrc).cast_mut().cast()), w as _, h as _, c.gamma),
        } };
        let mut img = make(kind).ok_or_else(|| format!("{name} refused a valid image"))?;
        ensure!(liq_image_get_width(&img) as usize == w && liq_image_get_height(&img) as usize == h, "{name}: dimensions");
        for f in &c.fixed { ok(liq_image_add_fixed_color(&mut img, *f))?; }
        if let Some(m) = &c.imp { ok(unsafe { liq_image_set_importance_map(&mut img, m.as_ptr().cast_mut(), m.len(), liq_ownership::LIQ_COPY_PIXELS) })?; }
        if let Some(b) = &c.bg { let bi = unsafe { liq_image_create_rgba(&attr, b.as_ptr(), w as _, h as _, c.gamma) }.ok_or("bg")?; ok(liq_image_set_background(&mut img, bi))?; }
        let mut out = MaybeUninit::new(None);
        let e = liq_image_quantize(&mut img, &mut attr, &mut out);
        let res = unsafe { out.assume_init() };
        ensure!((e == Error::LIQ_OK) == res.is_some(), "{name}: liq_image_quantize returned {e:?} and a result: {}", res.is_some());
        match (base, res) {
            (None, None) => {},
            (Some(b), Some(mut q)) => {
                ok(liq_set_dithering_level(&mut q, c.dither))?;
                let extra = w + 4;
                let mut o = vec![0xFFu8; w * h + extra];
                let e = unsafe { liq_write_remapped_image(&mut q, &mut img, o.as_mut_ptr().cast(), w * h - 1) };
                ensure!(e == Error::BufferTooSmall && o.iter().all(|&x| x == 0xFF), "{name}: too small buffer: {e:?}");
                if kind == 1 { let mut rp: Vec<*mut MaybeUninit<u8>> = (0..h).map(|y| unsafe { o.as_mut_ptr().add(y * w) }.cast()).collect(); ok(unsafe { liq_write_remapped_image_rows(&mut q, &mut img, rp.as_mut_ptr()) })?; }
                else { ok(unsafe { liq_write_remapped_image(&mut q, &mut img, o.as_mut_ptr().cast(), w * h + extra) })?; }
                ensure!(o[w * h..].iter().all(|&x| x == 0xFF), "{name}: wrote beyond the image");
                o.truncate(w * h);
                let p = liq_get_palette(&mut q).ok_or("palette")?;
                let n = p.count as usize;
                let pal = p.entries[..n].to_vec();
                ensure!(n <= 256 && o.iter().all(|&x| (x as usize) < n), "{name}: invalid index");
                if threads {
                    if let Some(i) = (0..w * h).find(|&i| { let g = pal[o[i] as usize]; key(g) != key(c.px[i]) }) { return Err(format!("{name}: pixel {i} was {:?}, became {:?} although all colours fit", c.px[i], pal[o[i] as usize])); }
                } else {
                    ensure!(pal == b.0 && o == b.1, "{name} gives a different result than the Rust API");
                }
            },
            (b, q) => return Err(format!("{name}: quantization succeeded={} but through Rust {}", q.is_some(), b.is_some())),
        }
    }
    Ok(())
}
