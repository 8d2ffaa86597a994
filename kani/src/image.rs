//@ prelude
static mut SIZE_ASKED: (u32, u32, bool) = (0, 0, false);
/// Any answer; that check_image_size answers right is proved separately (Verus unit `image`)
impl<'pixels> Image<'pixels> {
    fn check_size_any(w: u32, h: u32) -> bool {
        let r: bool = kani::any();
        unsafe { SIZE_ASKED = (w, h, r); }
        r
    }
}

//@ harness k_new_internal props=C07,C16 fn=Image::new_internal
#[kani::proof]
#[kani::stub(crate::image::Image::check_image_size, crate::image::Image::check_size_any)]
fn k_new_internal() {
    let mut attr = Attributes::new();
    attr.use_contrast_maps = kani::any();
    let (w, h, gamma): (u32, u32, f64) = (kani::any(), kani::any(), kani::any());
    let r = Image::new_internal(&attr, PixelsSource::Pixels { rows: SeaCow::borrowed(&[]), pixels: None }, w, h, gamma);
    kani::cover!(r.is_ok());
    kani::cover!(r.is_err());
    let asked = unsafe { SIZE_ASKED };
    assert!(r.is_err() || (asked.0 == w && asked.1 == h), "the size is always checked");
    assert!(r.is_ok() == (asked.2 && gamma >= 0. && gamma <= 1.), "an image is created exactly for representable sizes and gamma in 0..=1");
    match &r {
        Err(e) => assert!(*e == ValueOutOfRange, "fails only with ValueOutOfRange"),
        Ok(i) => {
            assert!(i.width() == w as usize && i.height() == h as usize, "dimensions read back");
            assert!(i.gamma() == Some(if gamma > 0. { gamma } else { 0.45455 }), "gamma 0 means sRGB");
            assert!(i.importance_map.is_none() && i.edges.is_none() && i.dither_map.is_none() && i.background.is_none() && i.fixed_colors.is_empty(), "nothing else is set");
        },
    }
    std::mem::forget(r);
    std::mem::forget(attr);
}

