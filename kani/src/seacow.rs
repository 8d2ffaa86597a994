//@ prelude
#[cfg(feature = "_internal_c_ffi")]
static mut FREED: (usize, usize) = (0, 0);
#[cfg(feature = "_internal_c_ffi")]
unsafe extern "C" fn rec_free(p: *mut c_void) { FREED.0 += 1; FREED.1 = p as usize; }

//@ harness k_owned_any props=C08,C07 fn=SeaCow::c_owned,SeaCow::borrowed,SeaCow::make_owned,SeaCow::is_borrowed,SeaCow::as_slice,SeaCowInner::drop
#[kani::proof]
fn k_owned_any() {
    // any length (less than the verifier's own limit of an object's size)
    let len: usize = kani::any();
    kani::assume(len >= 1 && len < 1 << 40);
    let p = unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(len * 4, 4)) } as *mut u32;
    kani::assume(!p.is_null());
    let addr = p as usize;
    let given: bool = kani::any();
    let transferred: bool = kani::any();
    let mut c = if given { unsafe { SeaCow::c_owned(p, len, rec_free) } } else { SeaCow::borrowed(unsafe { std::slice::from_raw_parts(p, len) }) };
    assert!(c.is_borrowed() == !given, "owned memory isn't borrowed");
    if transferred { c.make_owned(rec_free); if kani::any() { c.make_owned(rec_free); } }
    assert!(c.is_borrowed() == !(given || transferred), "a transfer makes it owned, for good");
    assert!(c.as_slice().as_ptr() == p as *const u32 && c.as_slice().len() == len, "shows exactly the given memory");
    unsafe { assert!(FREED.0 == 0, "not freed while in use"); }
    drop(c);
    unsafe { assert!(FREED.0 == (given || transferred) as usize && (FREED.0 == 0 || FREED.1 == addr), "freed exactly once if owned, never if not, with the right address"); }
    kani::cover!(given && transferred); kani::cover!(!given && !transferred); kani::cover!(!given && transferred);
}

//@ harness k_owned_freed_once props=C08 fn=SeaCow::c_owned,SeaCowInner::drop,SeaCowInner::clone bounded=len<=3
#[kani::proof]
#[kani::unwind(6)]
fn k_owned_freed_once() {
    let mut data = [kani::any::<u32>(), kani::any(), kani::any()];
    let orig = data;
    let len: usize = kani::any();
    kani::assume(len >= 1 && len <= 3);
    let p = data.as_mut_ptr();
    let c = unsafe { SeaCow::c_owned(p, len, rec_free) };
    assert!(c.as_slice().len() == len && c.as_slice()[0] == orig[0], "shows the given memory");
    if kani::any() {
        let d = c.clone();
        assert!(d.as_slice().len() == len && d.as_slice()[len - 1] == orig[len - 1], "a clone has the same content");
        assert!(d.as_slice().as_ptr() != p as *const u32, "a clone has memory of its own");
        drop(d);
    }
    unsafe { assert!(FREED.0 == 0, "not freed while in use, nor by a clone"); }
    drop(c);
    unsafe { assert!(FREED.0 == 1 && FREED.1 == p as usize, "freed exactly once, with the right address"); }
    assert!(data[0] == orig[0] && data[1] == orig[1] && data[2] == orig[2], "never written");
}

//@ harness k_make_owned props=C08 fn=SeaCow::make_owned,SeaCowInner::drop bounded=len=2
#[kani::proof]
#[kani::unwind(4)]
fn k_make_owned() {
    let data = [kani::any::<u32>(), kani::any()];
    let mut c = SeaCow::borrowed(&data[..]);
    assert!(c.is_borrowed());
    if kani::any() {
        // not transferred
        drop(c);
        unsafe { assert!(FREED.0 == 0, "memory that was not transferred is never freed"); }
    } else {
        c.make_owned(rec_free);
        if kani::any() { c.make_owned(rec_free); } // again: no effect
        assert!(c.as_slice().as_ptr() == data.as_ptr() && c.as_slice().len() == 2, "transfer keeps the content in place");
        unsafe { assert!(FREED.0 == 0, "not freed while in use"); }
        drop(c);
        unsafe { assert!(FREED.0 == 1 && FREED.1 == data.as_ptr() as usize, "freed exactly once, with the right address"); }
    }
}

//@ harness k_boxed_not_c_freed props=C08 fn=SeaCow::boxed,SeaCow::make_owned bounded=len=2
#[kani::proof]
#[kani::unwind(4)]
fn k_boxed_not_c_freed() {
    let mut c = SeaCow::boxed(vec![kani::any::<u32>(), 7].into_boxed_slice());
    c.make_owned(rec_free);
    assert!(c.as_slice()[1] == 7);
    drop(c);
    unsafe { assert!(FREED.0 == 0, "the library's own memory is never given to the free function"); }
}

//@ harness k_new_contiguous props=C01 fn=RowBitmapMut::new_contiguous,RowBitmapMut::rows_mut,RowBitmapMut::len bounded=2x2..3x1
#[kani::proof]
#[kani::unwind(5)]
fn k_new_contiguous() {
    let mut data = [0u8; 4];
    let base = data.as_mut_ptr();
    let mut m = RowBitmapMut::new_contiguous(&mut data[..], 2);
    assert!(m.len() == 2, "a row for every row");
    let mut row = 0;
    for r in m.rows_mut() {
        assert!(r.len() == 2 && r.as_mut_ptr() == unsafe { base.add(row * 2) }, "rows are in order, adjacent and disjoint");
        row += 1;
    }
    assert!(row == 2, "every row exactly once");
}

//@ harness k_chunks props=C01 fn=RowBitmapMut::chunks,RowBitmapMut::rows_mut,RowBitmapMut::len bounded=rows<=3
#[kani::proof]
#[kani::unwind(5)]
fn k_chunks() {
    let mut data = [0u8; 6];
    let base = data.as_mut_ptr();
    let (w, h, chunk): (usize, usize, usize) = (kani::any(), kani::any(), kani::any());
    kani::assume(w >= 1 && w <= 2 && h >= 1 && h <= 3 && chunk >= 1 && chunk <= 4);
    let mut rows = unsafe { [PointerMut(base), PointerMut(base.add(w)), PointerMut(base.add(2 * w))] };
    let mut m = RowBitmapMut { rows: MutCow::Borrowed(&mut rows[..h]), width: w };
    assert!(m.len() == h);
    let mut row = 0;
    for mut c in m.chunks(chunk) {
        let n = c.len();
        assert!(n >= 1 && n <= chunk, "chunks are not empty, nor larger than asked for");
        for r in c.rows_mut() {
            assert!(r.len() == w && r.as_mut_ptr() == unsafe { base.add(row * w) }, "rows stay in order");
            row += 1;
        }
    }
    assert!(row == h, "chunks cover every row exactly once");
}
