//@ prelude
/// (number of times, address) the C free function was called with the rows, and with the pixels
static mut FREED: [(usize, usize); 2] = [(0, 0); 2];
static mut ROWS_AT: usize = 0;
unsafe extern "C" fn rec_free(p: *mut std::os::raw::c_void) { let i = (p as usize != ROWS_AT) as usize; FREED[i].0 += 1; FREED[i].1 = p as usize; }

//@ harness k_set_memory_ownership props=C08 fn=DynamicRows::set_memory_ownership,DynamicRows::free_histogram_inputs,SeaCow::make_owned,SeaCow::c_owned bounded=rows<=3
#[kani::proof]
#[kani::unwind(5)]
fn k_set_memory_ownership() {
    let px = [const { RGBA::new(0, 0, 0, 0) }; 6];
    let height: u32 = kani::any();
    kani::assume(height >= 1 && height <= 3);
    // rows in any order
    let order: [usize; 3] = [kani::any(), kani::any(), kani::any()];
    kani::assume(order[0] < 3 && order[1] < 3 && order[2] < 3 && order[0] != order[1] && order[1] != order[2] && order[0] != order[2]);
    let h = height as usize;
    kani::assume(order[0] < h && (h < 2 || order[1] < h));
    let rows = [Pointer(&px[order[0] * 2] as *const RGBA), Pointer(&px[order[1] * 2]), Pointer(&px[order[2] * 2])];
    unsafe { ROWS_AT = rows.as_ptr() as usize; }
    let start = px.as_ptr() as usize;
    let own: [(bool, bool); 2] = [(kani::any(), kani::any()), (kani::any(), kani::any())];
    let converted: bool = kani::any();
    let mut d = DynamicRows {
        width: 2, height,
        f_pixels: if converted { Some(Box::new([])) } else { None },
        pixels: PixelsSource::Pixels { rows: SeaCow::borrowed(&rows[..h]), pixels: None },
        gamma: 0.45455,
    };
    let first = unsafe { d.set_memory_ownership(own[0].0, own[0].1, rec_free) };
    assert!(first.is_ok(), "ownership of rows and pixels can be taken");
    assert!(unsafe { FREED } == [(0, 0); 2], "nothing is freed while the image needs it");
    let early: bool = kani::any();
    if early {
        d.free_histogram_inputs();
        if !converted { assert!(unsafe { FREED } == [(0, 0); 2], "nothing is freed while the image needs it"); }
    }
    let second = unsafe { d.set_memory_ownership(own[1].0, own[1].1, rec_free) };
    let gone = early && converted;
    if gone { assert!(second.is_ok() == (!own[1].0 && !own[1].1), "there's nothing left to own"); } else { assert!(second.is_ok()); }
    drop(d);
    let owns = |f: fn((bool, bool)) -> bool| f(own[0]) || (!gone && f(own[1]));
    let [r, p] = unsafe { FREED };
    assert!(r.0 == owns(|o| o.0) as usize, "owned rows are freed exactly once, and others aren't");
    assert!(p.0 == owns(|o| o.1) as usize && (p.0 == 0 || p.1 == start), "owned pixels are freed exactly once, from the start of the bitmap, and others aren't");
    kani::cover!(r.0 == 1 && p.0 == 1 && gone);
}
