PRE = '''
#[allow(unused_imports)] use imagequant::*;
#[allow(dead_code)] fn rng(s: &mut u64) -> u32 { *s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (*s >> 33) as u32 }
#[allow(dead_code)] fn fail(m: String) -> ! { eprintln!("{m}"); std::process::exit(1) }
'''
seeds = [
 dict(id='c01-chunk-tail', property='C01', features='threads', needs='threads, dithering without a dither map and a height over 128 that the number of chunks does not divide',
  what='the rows of the last, shorter chunk are never written when dithering in several chunks',
  edits=[('src/seacow.rs', 'self.rows.borrow_mut().chunks_mut(chunk_size).map', 'self.rows.borrow_mut().chunks_exact_mut(chunk_size).map')],
  demo=PRE+'''
use std::mem::MaybeUninit;
fn main() {
    for (w, h) in [(7usize, 129usize), (40, 131), (3, 257), (900, 1201)] {
        let mut attr = new(); attr.set_max_colors(16).unwrap(); attr.set_speed(8).unwrap();
        let mut s = 5;
        let px: Vec<RGBA> = (0..w * h).map(|i| RGBA::new((i % w) as u8, (i / w) as u8, rng(&mut s) as u8, 255)).collect();
        let mut img = attr.new_image_borrowed(&px, w, h, 0.).unwrap();
        let mut res = attr.quantize(&mut img).unwrap();
        res.set_dithering_level(1.).unwrap();
        let mut out = vec![MaybeUninit::new(255u8); w * h];
        res.remap_into(&mut img, &mut out).unwrap();
        let n = res.palette().len();
        for (i, o) in out.iter().enumerate() { if unsafe { o.assume_init() } as usize >= n { fail(format!("{w}x{h}: pixel {i} was not written")); } }
    }
}
'''),
 dict(id='c04-exactly-max-colours', property='C04', needs='an image with exactly as many colours as the maximum, at quality 100',
  what='an image that has exactly the maximum number of colours goes through median cut and loses or shifts colours',
  edits=[('src/quant.rs', 'hist.items.len() <= attr.max_colors as usize;', 'hist.items.len() < attr.max_colors as usize;')],
  demo=PRE+'''
fn main() {
    for round in 0..60 {
        let n = 2 + round;
        let mut attr = new(); attr.set_max_colors(n).unwrap(); attr.set_speed(1 + (round % 7) as i32).unwrap();
        let cols: Vec<RGBA> = (0..n).map(|i| RGBA::new(i as u8 % 8, i as u8 / 8, (round as u8 + i as u8) % 3 * 90, 255)).collect();
        let px: Vec<RGBA> = (0..n as usize * 4).map(|i| cols[i % n as usize]).collect();
        let mut img = attr.new_image_borrowed(&px, n as usize, 4, 0.).unwrap();
        let mut res = attr.quantize(&mut img).unwrap();
        res.set_dithering_level(0.).unwrap();
        let (pal, idx) = res.remapped(&mut img).unwrap();
        for (p, i) in px.iter().zip(&idx) { if pal[*i as usize] != *p { fail(format!("{n} colours: {p:?} became {:?}", pal[*i as usize])); } }
    }
}
'''),
 dict(id='c07-clone-gamma', property='C07', needs='a clone of an image with a gamma of its own',
  what='a clone of an image forgets its gamma',
  edits=[('src/rows.rs', '            gamma: self.gamma,\n        }\n    }\n}\n', '            gamma: 0.45455,\n        }\n    }\n}\n')],
  demo=PRE+'''
fn main() {
    let mut s = 8;
    let px: Vec<RGBA> = (0..64 * 64).map(|_| RGBA::new(rng(&mut s) as u8, rng(&mut s) as u8, (rng(&mut s) % 60) as u8, 255)).collect();
    for gamma in [0.3, 0.6, 0.9] {
        let mut attr = new(); attr.set_max_colors(20).unwrap();
        let run = |clone: bool| {
            let mut img = attr.new_image_borrowed(&px, 64, 64, gamma).unwrap();
            if clone { img = img.clone(); }
            let mut res = attr.quantize(&mut img).unwrap();
            res.set_dithering_level(0.).unwrap();
            res.remapped(&mut img).unwrap()
        };
        let (a, b) = (run(false), run(true));
        if a != b { fail(format!("gamma {gamma}: the clone is remapped differently")); }
    }
}
'''),
 dict(id='c08-bottom-up-free', property='C08', needs='ownership of the pixels transferred for an image made of row pointers in bottom-up order',
  what='the pointer passed to free is the first row, not the start of the bitmap',
  edits=[('src/rows.rs', 'rows.as_slice().iter().map(|p| p.0).min().ok_or', 'rows.as_slice().iter().map(|p| p.0).next().ok_or')],
  demo='''
#![allow(deprecated, dead_code)]
use std::os::raw::c_void;
use std::sync::Mutex;
static FREED: Mutex<Vec<usize>> = Mutex::new(Vec::new());
unsafe extern "C" fn rec_free(p: *mut c_void) { FREED.lock().unwrap().push(p as usize); }
#[repr(C)] struct Opaque { _p: [u8; 0] }
extern "C" {
    fn liq_attr_create_with_allocator(a: *mut c_void, f: unsafe extern "C" fn(*mut c_void)) -> *mut Opaque;
    fn liq_image_create_rgba_rows(attr: *const Opaque, rows: *const *const u8, w: i32, h: i32, gamma: f64) -> *mut Opaque;
    fn liq_image_set_memory_ownership(img: *mut Opaque, flags: i32) -> i32;
    fn liq_image_destroy(img: *mut Opaque);
    fn liq_attr_destroy(a: *mut Opaque);
}
fn main() {
    let keep = imagequant_sys::liq_version as *const c_void as usize; assert!(keep != 0);
    for flip in [false, true] {
        let px = vec![77u8; 4 * 6 * 5];
        let mut rows: Vec<*const u8> = (0..5).map(|y| px[y * 24..].as_ptr()).collect();
        if flip { rows.reverse(); }
        unsafe {
            let a = liq_attr_create_with_allocator(std::ptr::null_mut(), rec_free);
            let i = liq_image_create_rgba_rows(a, rows.as_ptr(), 6, 5, 0.);
            assert!(!i.is_null());
            assert_eq!(0, liq_image_set_memory_ownership(i, 8));
            liq_image_destroy(i);
            liq_attr_destroy(a);
        }
        let f: Vec<usize> = FREED.lock().unwrap().drain(..).collect();
        if f != [px.as_ptr() as usize] { eprintln!("flipped: {flip}: freed {f:x?}, the bitmap is at {:x}", px.as_ptr() as usize); std::process::exit(1); }
    }
}
'''),
 dict(id='c11-equal-background', property='C11', needs='a pixel exactly as far from the background as from its palette colour, such as a preserved pixel over an identical background',
  what='pixels that match the background as well as the palette are not made transparent',
  edits=[('src/remap.rs', 'if bg_diff <= diff {', 'if bg_diff < diff {')],
  demo=PRE+'''
fn main() {
    let mut attr = new(); attr.set_max_colors(32).unwrap();
    let px: Vec<RGBA> = (0..20 * 20).map(|i| RGBA::new((i % 9) as u8 * 20, (i % 3) as u8 * 40, 100, 255)).collect();
    let mut img = attr.new_image_borrowed(&px, 20, 20, 0.).unwrap();
    img.add_fixed_color(RGBA::new(0, 0, 0, 0)).unwrap();
    let mut res = attr.quantize(&mut img).unwrap();
    res.set_dithering_level(0.).unwrap();
    img.set_background(attr.new_image_borrowed(&px, 20, 20, 0.).unwrap()).unwrap();
    let (pal, idx) = res.remapped(&mut img).unwrap();
    let n = idx.iter().filter(|&&i| pal[i as usize].a != 0).count();
    if n > 0 { fail(format!("{n} pixels identical to the background are not transparent")); }
}
'''),
 dict(id='c12-nearly-opaque', property='C12', needs='a colour with alpha 254 that is less frequent than the opaque ones',
  what='a nearly opaque colour is sorted among the opaque ones',
  edits=[('src/pal.rs', 'MAX_TRANSP_A: f32 = 255. / 256. * LIQ_WEIGHT_A;', 'MAX_TRANSP_A: f32 = 254. / 256. * LIQ_WEIGHT_A;')],
  demo=PRE+'''
fn main() {
    for last in [false, true] {
        let mut attr = new(); attr.set_last_index_transparent(last);
        let px: Vec<RGBA> = (0..400).map(|i| if i % 100 == 7 { RGBA::new(9, 200, 30, 254) } else { RGBA::new((i % 30) as u8 * 8, 50, 0, 255) }).collect();
        let mut img = attr.new_image_borrowed(&px, 20, 20, 0.).unwrap();
        let mut res = attr.quantize(&mut img).unwrap();
        let pal = res.palette();
        let at = pal.iter().position(|c| c.a == 254).unwrap();
        let want = if last { pal.len() - 1 } else { 0 };
        if at != want { fail(format!("the only translucent colour is entry {at}, not {want} (last: {last})")); }
    }
}
'''),
 dict(id='c14-merge-max', property='C14', needs='a histogram whose precision is reduced after colours were added, so that entries merge',
  what='entries merged when the precision is reduced keep the larger count instead of the sum',
  edits=[('src/hist.rs', '.and_modify(move |e| e.0 = e.0.saturating_add(v.0))', '.and_modify(move |e| e.0 = e.0.max(v.0))')],
  demo=PRE+'''
fn main() {
    let slow = new();
    let mut fast = new(); fast.set_speed(10).unwrap();
    // 20 colours of 10 pixels, and one of 6 + 6 pixels that differ in the lowest bit only
    let mut px: Vec<RGBA> = (0..200u32).map(|i| RGBA::new((i % 20) as u8 * 12, 40, 60, 255)).collect();
    for i in 0..12 { px.push(RGBA::new(100 + (i & 1), 222, 222, 255)); }
    let mut h = Histogram::new(&slow);
    let mut img = slow.new_image_borrowed(&px, 106, 2, 0.).unwrap();
    h.add_image(&fast, &mut img).unwrap();
    let mut res = h.quantize(&slow).unwrap();
    let pal = res.palette();
    if pal[0].g < 200 { fail(format!("the most frequent colour is not first: {pal:?}")); }
}
'''),
 dict(id='c16-small-pivot', property='C16', needs='a group of exactly eight colours to be split',
  what='the pivot selection of median cut reads past the end of a group of eight colours',
  edits=[('src/mediancut.rs', '    if len < 32 {\n', '    if len < 8 {\n')],
  demo=PRE+'''
fn main() {
    let mut s = 1;
    for n in 3..60usize {
        let mut attr = new(); attr.set_max_colors(3).unwrap();
        let px: Vec<RGBA> = (0..n).map(|_| RGBA::new(rng(&mut s) as u8, rng(&mut s) as u8, rng(&mut s) as u8, 255)).collect();
        let mut img = attr.new_image_borrowed(&px, n, 1, 0.).unwrap();
        attr.quantize(&mut img).unwrap();
    }
}
'''),
]
