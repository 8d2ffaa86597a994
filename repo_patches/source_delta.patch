From 15a6724fc1dabdf96e785c23dfa751402af6561d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 01/19] fix: don't give all-zero weights to a histogram that
 has only fixed colors

With no image colors the fixed colors' weight was derived from a zero sum,
which hit debug assertions, and made palette error NaN in release builds
(quality 0 was returned despite a minimum quality set).
---
 src/hist.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hist.rs b/src/hist.rs
index 9ec20e1..9792633 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -320,7 +320,9 @@ impl Histogram {
 
         // Limit perceptual weight to 1/10th of the image surface area to prevent
         // a single color from dominating all others.
-        let max_perceptual_weight = 0.1 * (temp.iter().map(|t| f64::from(t.weight)).sum::<f64>() / 256.) as f32;
+        let total_weight = temp.iter().map(|t| f64::from(t.weight)).sum::<f64>();
+        // There may be nothing but fixed colors, which have no weight of their own
+        let max_perceptual_weight = if total_weight > 0. { 0.1 * (total_weight / 256.) as f32 } else { 0.1 };
 
         let lut = gamma_lut(gamma);
         let mut total_perceptual_weight = 0.;
-- 
2.43.0


From 5491b3abd83b35f30055356a14691f0dc738cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 02/19] fix: reject NaN in set_output_gamma

---
 src/quant.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quant.rs b/src/quant.rs
index be31257..ca50e08 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -144,7 +144,7 @@ impl QuantizationResult {
 
     /// The default is sRGB gamma (~1/2.2)
     pub fn set_output_gamma(&mut self, value: f64) -> Result<(), Error> {
-        if value <= 0. || value >= 1. {
+        if !(value > 0. && value < 1.) {
             return Err(ValueOutOfRange);
         }
 
-- 
2.43.0


From 083c860069ba44ac8b00c8c701b0729546843e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 03/19] fix: recompute the palette after the output gamma
 changes

palette() called before set_output_gamma() cached colors in the old gamma.
---
 src/quant.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/quant.rs b/src/quant.rs
index ca50e08..c3b13a6 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -149,6 +149,7 @@ impl QuantizationResult {
         }
 
         self.remapped = None;
+        self.int_palette.count = 0;
         self.gamma = value;
 
         Ok(())
-- 
2.43.0


From 8dcd6cb960c2074829a3b569d078681a96ddca3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 04/19] fix: Histogram::add_fixed_color must reject invalid
 gamma, same as add_colors

---
 src/hist.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hist.rs b/src/hist.rs
index 9792633..6c8ac5e 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -167,6 +167,10 @@ impl Histogram {
             return Err(Unsupported);
         }
 
+        if !(0. ..1.).contains(&gamma) {
+            return Err(ValueOutOfRange);
+        }
+
         if self.gamma.is_none() && gamma > 0. {
             self.gamma = Some(gamma);
         }
-- 
2.43.0


From 346514ce110ce07f88147a614e1b053d478b9492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 05/19] fix: C API must not truncate out-of-range quality and
 posterization

liq_set_quality(attr, 256, 300) was accepted as 0-44.
---
 imagequant-sys/src/ffi.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 42bde26..509bc3a 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -234,7 +234,8 @@ pub extern "C" fn liq_get_max_colors(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_min_posterization(attr: &mut liq_attr, bits: c_int) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_min_posterization(bits as u8).err().unwrap_or(LIQ_OK)
+    let Ok(bits) = bits.try_into() else { return Error::ValueOutOfRange };
+    attr.inner.set_min_posterization(bits).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
@@ -261,7 +262,8 @@ pub extern "C" fn liq_get_speed(attr: &liq_attr) -> c_uint {
 #[inline(never)]
 pub extern "C" fn liq_set_quality(attr: &mut liq_attr, minimum: c_uint, target: c_uint) -> liq_error {
     if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
-    attr.inner.set_quality(minimum as u8, target as u8).err().unwrap_or(LIQ_OK)
+    let (Ok(minimum), Ok(target)) = (minimum.try_into(), target.try_into()) else { return Error::ValueOutOfRange };
+    attr.inner.set_quality(minimum, target).err().unwrap_or(LIQ_OK)
 }
 
 #[no_mangle]
-- 
2.43.0


From 5a8faf4159766ac5fbd79a9ce78ea6fb14fcd467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 06/19] fix: check the handle in liq_set_speed and
 liq_image_create_custom

---
 imagequant-sys/src/ffi.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 509bc3a..6b10b28 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -248,6 +248,7 @@ pub extern "C" fn liq_get_min_posterization(attr: &liq_attr) -> c_uint {
 #[no_mangle]
 #[inline(never)]
 pub extern "C" fn liq_set_speed(attr: &mut liq_attr, speed: c_int) -> liq_error {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return Error::InvalidPointer; }
     attr.inner.set_speed(speed).err().unwrap_or(LIQ_OK)
 }
 
@@ -571,6 +572,7 @@ pub(crate) fn check_image_size(attr: &liq_attr, width: u32, height: u32) -> bool
 #[inline(never)]
 pub unsafe extern "C" fn liq_image_create_custom(attr: &liq_attr, row_callback: liq_image_get_rgba_row_callback, user_info: AnySyncSendPtr, width: c_uint, height: c_uint, gamma: f64)
  -> Option<Box<liq_image<'static>>> {
+    if bad_object!(attr, LIQ_ATTR_MAGIC) { return None; }
     let cb: Box<dyn Fn(&mut [MaybeUninit<RGBA>], usize) + Send + Sync> = Box::new(move |row, y| row_callback(row.as_mut_ptr(), y as _, row.len() as _, user_info));
     liq_image_create_custom_impl(&attr.inner, cb, width as _, height as _, gamma)
         .map(move |inner| Box::new(liq_image {
-- 
2.43.0


From 50938f08af6cf5f6e2e365cbdc7a3b7d0616193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 07/19] fix: u32 overflow in pixel count of images with 2^32
 pixels or more

---
 src/quant.rs | 2 +-
 src/remap.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index c3b13a6..9dbcaa3 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -118,7 +118,7 @@ impl QuantizationResult {
     }
 
     fn optionally_generate_dither_map(use_dither_map: DitherMapMode, image: &mut Image<'_>, uses_background: bool, output_pixels: &mut RowBitmapMut<'_, MaybeUninit<PalIndexRemap>>, palette: &mut PalF) -> Result<Option<f64>, Error> {
-        let is_image_huge = (image.px.width * image.px.height) > 2000 * 2000;
+        let is_image_huge = (image.width() * image.height()) > 2000 * 2000;
         let allow_dither_map = use_dither_map == DitherMapMode::Always || (!is_image_huge && use_dither_map != DitherMapMode::None);
         let generate_dither_map = allow_dither_map && image.dither_map.is_none();
         if !generate_dither_map {
diff --git a/src/remap.rs b/src/remap.rs
index 78fca5b..1addda4 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -97,7 +97,7 @@ pub(crate) fn remap_to_palette<'x, 'b: 'x>(px: &mut DynamicRows, background: Opt
         .map(|t| t.0.into_inner().0)
         .reduce(Kmeans::merge) { kmeans.finalize(palette); }
 
-    let remapping_error = remapping_error / f64::from(px.width * px.height);
+    let remapping_error = remapping_error / (f64::from(px.width) * f64::from(px.height));
     Ok((remapping_error, unsafe { output_pixels.assume_init() }))
 }
 
-- 
2.43.0


From 8d22d9cd6d85c444669555e4888c3ea724619ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 08/19] fix: don't lose counts of colors merged by
 posterization of the histogram

---
 src/hist.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 6c8ac5e..cdde78f 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -246,9 +246,11 @@ impl Histogram {
 
         let new_size = (self.hashmap.len()/3).max(self.hashmap.capacity()/5);
         let old_hashmap = std::mem::replace(&mut self.hashmap, HashMap::with_capacity_and_hasher(new_size, U32Hasher(0)));
-        self.hashmap.extend(old_hashmap.into_iter().map(move |(k, v)| {
-            (k & new_posterize_mask, v)
-        }));
+        for (k, v) in old_hashmap {
+            self.hashmap.entry(k & new_posterize_mask)
+                .and_modify(move |e| e.0 = e.0.saturating_add(v.0))
+                .or_insert(v);
+        }
     }
 
     pub(crate) fn add_pixel_rows(&mut self, image: &DynamicRows<'_, '_>, importance_map: Option<&[u8]>, posterize_bits: u8) -> Result<(), Error> {
-- 
2.43.0


From edb34147c0f59d5a448987de91c0386a54ed2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 09/19] fix: repeated fixed colors must not take more than one
 palette entry

HashColor compared its index too, so the set didn't deduplicate anything,
and repeated fixed colors pushed image's own colors out of the palette.
---
 src/hist.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index cdde78f..11dfebf 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -421,18 +421,33 @@ impl std::hash::Hasher for U32Hasher {
 }
 
 /// ignores the index
-#[derive(PartialEq, Debug)]
+#[derive(Debug)]
 pub(crate) struct HashColor {
     pub rgba: RGBA,
     pub index: PalIndex,
 }
 
-#[allow(clippy::derived_hash_with_manual_eq)]
+impl HashColor {
+    /// All fully-transparent colors are the same, like in the histogram
+    #[inline]
+    fn key(&self) -> u32 {
+        if self.rgba.a != 0 {
+            unsafe { RGBAInt { rgba: self.rgba }.int }
+        } else { 0 }
+    }
+}
+
+impl PartialEq for HashColor {
+    #[inline]
+    fn eq(&self, other: &Self) -> bool {
+        self.key() == other.key()
+    }
+}
+
 impl Hash for HashColor {
     #[inline]
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        let s: &[u8] = self.rgba.as_ref();
-        u32::from_ne_bytes(s.try_into().unwrap()).hash(state);
+        self.key().hash(state);
     }
 }
 
-- 
2.43.0


From 10729a1bf357b3670d6a10fbbea9219f91726b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 10/19] fix: Histogram::add_image must fail when there are too
 many fixed colors, as documented

---
 src/hist.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 11dfebf..a93c0b5 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -111,10 +111,12 @@ impl Histogram {
 
         self.gamma = image.gamma();
 
-        if !image.fixed_colors.is_empty() {
-            self.fixed_colors.extend(image.fixed_colors.iter().copied().enumerate().map(|(idx, rgba)| {
-               HashColor { rgba, index: idx as _ }
-            }));
+        for (idx, rgba) in image.fixed_colors.iter().copied().enumerate() {
+            let color = HashColor { rgba, index: idx as _ };
+            if self.fixed_colors.len() >= MAX_COLORS && !self.fixed_colors.contains(&color) {
+                return Err(BufferTooSmall);
+            }
+            self.fixed_colors.insert(color);
         }
 
         if attr.progress(f32::from(attr.progress_stage1) * 0.40) {
-- 
2.43.0


From 6f9a7fbced493613bca18032fbe2cfe9208db395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 11/19] fix: abort when the progress callback asks for it while
 searching for the palette

---
 src/quant.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 9dbcaa3..186ad21 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -396,7 +396,10 @@ pub(crate) fn find_best_palette(attr: &Attributes, target_mse: f64, target_mse_i
             target_mse_overshoot = 1.;
             trials_left -= 5 + fails_in_a_row;
         }
-        if attr.progress(overall_done) || trials_left <= 0 {
+        if attr.progress(overall_done) {
+            return Err(Aborted);
+        }
+        if trials_left <= 0 {
             break best_palette;
         }
     }.ok_or(ValueOutOfRange)?;
@@ -416,7 +419,7 @@ fn refine_palette(palette: &mut PalF, attr: &Attributes, hist: &mut HistogramInt
             let stage_done = f32::from(i) / f32::from(iterations);
             let overall_done = (stage_done * f32::from(attr.progress_stage3)).mul_add(0.89, f32::from(attr.progress_stage1) + f32::from(attr.progress_stage2));
             if attr.progress(overall_done) {
-                break;
+                return Err(Aborted);
             }
 
             let pal_err = Kmeans::iteration(hist, palette, false)?;
-- 
2.43.0


From 753e6d2fdd70d904ae7f63dcc3f2e521e35cd069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:49 +0000
Subject: [PATCH 12/19] fix: don't read uninitialized memory when dithering
 rows before a chunk

---
 src/remap.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/remap.rs b/src/remap.rs
index 1addda4..303938c 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -208,7 +208,8 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
                     let bg_pixels = background.as_mut().map(|b| b.row_f(&mut temp_row, row as _)).unwrap_or(&[]);
                     let dither_map = dither_map.get(row * width .. row * width + width).unwrap_or(&[]);
                     let scan_forward = row & 1 == 0;
-                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, guess_from_remapped_pixels, &mut diffusion, scan_forward);
+                    // discard_row is not initialized, so there's nothing to guess from
+                    dither_row(row_pixels, &mut discard_row, width as u32, dither_map, base_dithering_level, max_dither_error, n, palette, transparent_index, bg_pixels, false, &mut diffusion, scan_forward);
                 }
             }
             // parallel remap makes progress not very useful
-- 
2.43.0


From cfca28d747bf424902efd7d322b960db5ed72a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:04:48 +0000
Subject: [PATCH 13/19] fix: use after free when a cloned Image outlives the
 original

The clone copied owned pixels, but kept row pointers to the original's copy.
---
 src/rows.rs   | 11 ++++++++---
 src/seacow.rs |  5 +++++
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/rows.rs b/src/rows.rs
index 80254a1..f81fd8b 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -51,16 +51,21 @@ impl Clone for DynamicRows<'_, '_> {
             height: self.height,
             f_pixels: self.f_pixels.clone(),
             pixels: match &self.pixels {
-                PixelsSource::Pixels { rows, pixels } => PixelsSource::Pixels {
+                // rows stay valid only if they don't point to memory owned by the original
+                PixelsSource::Pixels { rows, pixels } if pixels.as_ref().map_or(true, |p| p.is_borrowed()) => PixelsSource::Pixels {
                     rows: rows.clone(),
                     pixels: pixels.clone(),
                 },
-                PixelsSource::Callback(_) => {
+                source => {
                     let area = self.width as usize * self.height as usize;
                     let mut out = Vec::with_capacity(area);
                     let out_rows = out.spare_capacity_mut()[..area].chunks_exact_mut(self.width as usize);
                     for (i, row) in out_rows.enumerate() {
-                        self.row_rgba(row, i);
+                        if let PixelsSource::Callback(cb) = source {
+                            cb(row, i);
+                        } else {
+                            row.iter_mut().zip(self.row_rgba(&mut [], i)).for_each(|(dst, src)| { dst.write(*src); });
+                        }
                     }
                     unsafe {
                         out.set_len(area);
diff --git a/src/seacow.rs b/src/seacow.rs
index 3914ba4..e8d1776 100644
--- a/src/seacow.rs
+++ b/src/seacow.rs
@@ -97,6 +97,11 @@ impl<T> Drop for SeaCowInner<'_, T> {
 }
 
 impl<T> SeaCow<'_, T> {
+    #[must_use]
+    pub(crate) fn is_borrowed(&self) -> bool {
+        matches!(self.inner, SeaCowInner::Borrowed(_))
+    }
+
     #[must_use]
     pub fn as_slice(&self) -> &[T] {
         match &self.inner {
-- 
2.43.0


From 40b5e78c0b7e3a64e701372216061da8cd17ebd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 14/19] fix: overflow of histogram weights in a long feedback
 loop

With a very low target quality the feedback loop can accept dozens of palettes in a row,
and the weights of colors that are far from the palette are multiplied each time, up to infinity,
which makes the averages, and the palette, NaN.
---
 src/kmeans.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/kmeans.rs b/src/kmeans.rs
index e0c508f..e6ac774 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -94,7 +94,8 @@ impl Kmeans {
                 let remapped = colors[matched as usize];
                 let (_, new_diff) = n.search(&f_pixel(px.0 + px.0 - remapped.0), matched);
                 diff = new_diff;
-                item.adjusted_weight = 2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff);
+                // it grows exponentially when there are many trials, and must not overflow
+                item.adjusted_weight = (2.0f32.mul_add(item.adjusted_weight, item.perceptual_weight) * (0.5 + diff)).min(1e24);
             }
             debug_assert!(f64::from(diff) < 1e20);
             self.update_color(px, item.adjusted_weight, matched);
-- 
2.43.0


From fd0950ef10b5bd56d1074bc3156689aaaa657e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 15/19] fix: dithered remapping to over 256 colors truncated
 indices

large_palettes does not support remapping, which was reported only by non-dithered remapping.
---
 src/remap.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/remap.rs b/src/remap.rs
index 303938c..15696f2 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -160,6 +160,9 @@ pub(crate) fn remap_to_palette_floyd(input_image: &mut Image, mut output_pixels:
 
     let n = Nearest::new(palette)?;
     let palette = palette.as_slice();
+    if palette.len() > PalIndexRemap::MAX as usize + 1 {
+        return Err(Error::Unsupported);
+    }
 
     let mut background = input_image.background.as_mut().map(|bg| {
         bg.px.prepare_iter(&mut temp_row, true)?;
-- 
2.43.0


From af5dd0662e6c603fb5dd3b08cfd78d45bf313d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:02 +0000
Subject: [PATCH 16/19] fix: don't free a bogus pointer when LIQ_OWN_ROWS is
 set after remapping

Remapping replaces rows that are no longer needed with an empty static slice, which can't be owned.
---
 src/rows.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rows.rs b/src/rows.rs
index f81fd8b..6efae82 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -224,6 +224,8 @@ impl<'pixels, 'rows> DynamicRows<'pixels, 'rows> {
     pub(crate) unsafe fn set_memory_ownership(&mut self, own_rows: bool, own_pixels: bool, free_fn: unsafe extern "C" fn(*mut std::os::raw::c_void)) -> Result<(), Error> {
         if own_rows {
             match &mut self.pixels {
+                // there are no rows to own after free_histogram_inputs
+                PixelsSource::Pixels { rows, .. } if rows.as_slice().is_empty() => return Err(Error::Unsupported),
                 PixelsSource::Pixels { rows, .. } => rows.make_owned(free_fn),
                 PixelsSource::Callback(_) => return Err(Error::ValueOutOfRange),
             }
-- 
2.43.0


From ee4a78223fecc1b42d7b445e433639150631c7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:30 +0000
Subject: [PATCH 17/19] verif: include proof harnesses under cfg(kani)

---
 imagequant-sys/src/ffi.rs | 8 ++++++++
 src/attr.rs               | 7 +++++++
 src/hist.rs               | 7 +++++++
 src/image.rs              | 7 +++++++
 src/kmeans.rs             | 7 +++++++
 src/lib.rs                | 1 +
 src/mediancut.rs          | 7 +++++++
 src/nearest.rs            | 7 +++++++
 src/pal.rs                | 7 +++++++
 src/quant.rs              | 7 +++++++
 src/remap.rs              | 7 +++++++
 src/rows.rs               | 7 +++++++
 src/seacow.rs             | 7 +++++++
 13 files changed, 86 insertions(+)

diff --git a/imagequant-sys/src/ffi.rs b/imagequant-sys/src/ffi.rs
index 6b10b28..95d865f 100644
--- a/imagequant-sys/src/ffi.rs
+++ b/imagequant-sys/src/ffi.rs
@@ -2,6 +2,7 @@
 //!
 //! This crate is not supposed to be used in Rust directly. For Rust, see the parent [imagequant](https://lib.rs/imagequant) crate.
 #![allow(non_camel_case_types)]
+#![allow(unexpected_cfgs)]
 #![allow(clippy::missing_safety_doc)]
 #![allow(clippy::wildcard_imports)]
 #![allow(clippy::items_after_statements)]
@@ -760,3 +761,10 @@ fn c_callback_test_c() {
 fn ownership_bitflags() {
     assert_eq!(4+16, (liq_ownership::LIQ_OWN_ROWS | liq_ownership::LIQ_COPY_PIXELS).bits());
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/ffi.rs"));
+}
diff --git a/src/attr.rs b/src/attr.rs
index d50a76c..9e406fb 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -410,3 +410,10 @@ fn getset() {
     a.set_speed(10).unwrap();
     assert_eq!(1, a.posterize_bits());
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/attr.rs"));
+}
diff --git a/src/hist.rs b/src/hist.rs
index a93c0b5..924b9a0 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -456,3 +456,10 @@ impl Hash for HashColor {
 impl Eq for HashColor {
     fn assert_receiver_is_total_eq(&self) {}
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/hist.rs"));
+}
diff --git a/src/image.rs b/src/image.rs
index 9c17ed9..70b9e40 100644
--- a/src/image.rs
+++ b/src/image.rs
@@ -345,3 +345,10 @@ fn try_zero_vec(len: usize) -> Result<Vec<u8>, Error> {
     vec.resize(len, 0);
     Ok(vec)
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/image.rs"));
+}
diff --git a/src/kmeans.rs b/src/kmeans.rs
index e6ac774..c98b8b5 100644
--- a/src/kmeans.rs
+++ b/src/kmeans.rs
@@ -153,3 +153,10 @@ fn replace_unused_colors(palette: &mut PalF, hist: &HistogramInternal) -> Result
     }
     Ok(())
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/kmeans.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index 30ef2ba..28bc07d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,7 @@
 #![allow(clippy::redundant_closure_for_method_calls)]
 #![allow(clippy::unreadable_literal)]
 #![allow(clippy::wildcard_imports)]
+#![allow(unexpected_cfgs)]
 #![deny(clippy::semicolon_if_nothing_returned)]
 
 mod attr;
diff --git a/src/mediancut.rs b/src/mediancut.rs
index 49b4044..24beb54 100644
--- a/src/mediancut.rs
+++ b/src/mediancut.rs
@@ -326,3 +326,10 @@ fn weighed_average_color(hist: &[HistItem]) -> f_pixel {
     }
     t
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/mediancut.rs"));
+}
diff --git a/src/nearest.rs b/src/nearest.rs
index d6d1ec8..2d9c8be 100644
--- a/src/nearest.rs
+++ b/src/nearest.rs
@@ -209,3 +209,10 @@ fn vp_search_node(mut node: &Node, needle: &f_pixel, best_candidate: &mut Visito
         }
     }
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/nearest.rs"));
+}
diff --git a/src/pal.rs b/src/pal.rs
index 3139051..ce57b52 100644
--- a/src/pal.rs
+++ b/src/pal.rs
@@ -445,3 +445,10 @@ fn largepal() {
         p.push(f_pixel::from_rgba(&gamma, rgba), PalPop::new(1.));
     }
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/pal.rs"));
+}
diff --git a/src/quant.rs b/src/quant.rs
index 186ad21..2b34ec4 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -463,3 +463,10 @@ pub(crate) fn mse_to_quality(mse: f64) -> u8 {
     }
     0
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/quant.rs"));
+}
diff --git a/src/remap.rs b/src/remap.rs
index 15696f2..021e89d 100644
--- a/src/remap.rs
+++ b/src/remap.rs
@@ -355,3 +355,10 @@ fn background_to_nop() {
     let first = idx[0];
     assert!(idx.iter().all(|&x| x == first));
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/remap.rs"));
+}
diff --git a/src/rows.rs b/src/rows.rs
index 6efae82..d90fe1a 100644
--- a/src/rows.rs
+++ b/src/rows.rs
@@ -294,3 +294,10 @@ unsafe fn box_assume_init<T>(s: Box<[MaybeUninit<T>]>) -> Box<[T]> {
 unsafe fn slice_assume_init_mut<T>(s: &mut [MaybeUninit<T>]) -> &mut [T] {
     &mut *(s as *mut [MaybeUninit<T>] as *mut [T])
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/rows.rs"));
+}
diff --git a/src/seacow.rs b/src/seacow.rs
index e8d1776..8021651 100644
--- a/src/seacow.rs
+++ b/src/seacow.rs
@@ -201,3 +201,10 @@ impl<'a, T: Sync + Send + Copy + 'static> RowBitmapMut<'a, T> {
         self.rows.borrow_mut().len()
     }
 }
+
+/// Verification harnesses, which are not a part of the library
+#[cfg(kani)]
+mod verif_kani {
+    use super::*;
+    include!(concat!(env!("LIQ_VERIF_DIR"), "/seacow.rs"));
+}
-- 
2.43.0


From bca0d6020aebff3f8a865c00a13fe22bbf6ea7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:45 +0000
Subject: [PATCH 18/19] fix: palette entries rounded to opaque were sorted as
 transparent

---
 src/quant.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/quant.rs b/src/quant.rs
index 2b34ec4..4065573 100644
--- a/src/quant.rs
+++ b/src/quant.rs
@@ -315,7 +315,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
 
     let mut tmp: ArrayVec<_, { MAX_COLORS }> = palette.iter_mut().map(|(c, p)| (*c, *p)).collect();
     tmp.sort_by_key(|(color, pop)| {
-        let is_transparent = color.a <= MAX_TRANSP_A;
+        let is_transparent = color.a < MAX_TRANSP_A;
         (is_transparent == last_index_transparent, Reverse(OrdFloat::new(pop.popularity())))
     });
     palette.iter_mut().zip(tmp).for_each(|((dcol, dpop), (scol, spop))| {
@@ -325,7 +325,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
 
     if last_index_transparent {
         let alpha_index = palette.as_slice().iter().enumerate()
-            .filter(|(_, c)| c.a <= MAX_TRANSP_A)
+            .filter(|(_, c)| c.a < MAX_TRANSP_A)
             .min_by_key(|(_, c)| OrdFloat::new(c.a))
             .map(|(i, _)| i);
         if let Some(alpha_index) = alpha_index {
@@ -334,7 +334,7 @@ fn sort_palette(attr: &Attributes, palette: &mut PalF) {
         }
     } else {
         let num_transparent = palette.as_slice().iter().enumerate()
-            .filter(|(_, c)| c.a <= MAX_TRANSP_A)
+            .filter(|(_, c)| c.a < MAX_TRANSP_A)
             .map(|(i, _)| i + 1) // num entries, not index
             .max();
         if let Some(num_transparent) = num_transparent {
-- 
2.43.0


From f523f0fc255ec84b15b31310445f254365cf2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:39 +0000
Subject: [PATCH 19/19] fix: order of fixed colors of multiple images wasn't
 kept in a histogram

---
 src/hist.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/hist.rs b/src/hist.rs
index 924b9a0..6ba489a 100644
--- a/src/hist.rs
+++ b/src/hist.rs
@@ -111,8 +111,9 @@ impl Histogram {
 
         self.gamma = image.gamma();
 
-        for (idx, rgba) in image.fixed_colors.iter().copied().enumerate() {
-            let color = HashColor { rgba, index: idx as _ };
+        for rgba in image.fixed_colors.iter().copied() {
+            // the order must be kept also across multiple images
+            let color = HashColor { rgba, index: self.fixed_colors.len() as _ };
             if self.fixed_colors.len() >= MAX_COLORS && !self.fixed_colors.contains(&color) {
                 return Err(BufferTooSmall);
             }
-- 
2.43.0

