R='src/remap.rs'; Q='src/quant.rs'; H='src/hist.rs'; A='src/attr.rs'; I='src/image.rs'; W='src/rows.rs'; S='src/seacow.rs'; N='src/nearest.rs'; K='src/kmeans.rs'; MC='src/mediancut.rs'; P='src/pal.rs'; F='imagequant-sys/src/ffi.rs'; B='src/blur.rs'
M=[
('c01-noclip',Q,"let output_buf = output_buf.get_mut(0..required_size).ok_or(BufferTooSmall)?;","if output_buf.len() < required_size { return Err(BufferTooSmall); }"),
('c01-skipwrite',R,"        output_pixels_row[col].write(matched);\n","        if !guess_from_remapped_pixels || matched != guessed_match || bg_pixels.is_empty() && dither_level > 0. { output_pixels_row[col].write(matched); } else if x + 1 < width { output_pixels_row[col].write(last_match); }\n"),
('c01-guess-oob',R,"            kmeans.update_color(*inp, importance, matched as _);","            if importance > 0. { kmeans.update_color(*inp, importance, matched as _); } else { out.write(PalIndexRemap::MAX); }"),
('c02-len-plus1',Q,"max_colors = max_colors.min(new_palette.len() as PalLen + 1);","max_colors = new_palette.len() as PalLen + 1;"),
('c02-fixed-extra',P,"let max_fixed_colors = fixed_colors.len().min(max_colors as usize);","let max_fixed_colors = fixed_colors.len().min((max_colors as usize).max(16));"),
('c02-dedup-remap',P,"        int_palette.count = self.len() as _;","        let mut n = self.len(); while n > 1 && int_palette.entries[n - 1] == int_palette.entries[n - 2] { n -= 1; }\n        int_palette.count = n as _;"),
('c03-tofixed',K,".filter(|(_, (_, pop))| !pop.is_fixed())",".filter(|(avg, (_, pop))| !pop.is_fixed() || avg.total > 65536.)"),
('c03-swap',P,"            self.swap(i, best_idx);\n","            self.colors.swap(i, best_idx);\n"),
('c03-alpha',P,"if px.a == 0 && !f_pop.is_fixed() {","if px.a == 0 {"),
('c04-minopaque',P,"pub const MIN_OPAQUE_A: f32 = 1. / 256. * LIQ_WEIGHT_A;","pub const MIN_OPAQUE_A: f32 = 1.5 / 256. * LIQ_WEIGHT_A;"),
('c04-ditherthr',R,"if dither_error < 2. / 256. / 256. {","if dither_error < 2. / 256. / 65536. / 65536. {"),
('c04-few-lt',Q,"let few_input_colors = hist.items.len() <= attr.max_colors as usize;","let few_input_colors = hist.items.len() < attr.max_colors as usize;"),
('c04-hist-entry',A,"self.min_posterization_input = if value >= 8 { 1 } else { 0 };","self.min_posterization_input = if value >= 7 { 1 } else { 0 };"),
('c05-nocheck-none',A,"        if iterations == 0 && !palette_error_is_known && self.max_mse.is_some() {","        if iterations == 0 && !palette_error_is_known && self.max_mse.is_some() && hist_items_len < 50000 {"),
('c05-slack',Q,"            if palette_error > max_mse {","            if palette_error > max_mse.max(target_mse * 4.) {"),
('c05-stale',Q,"            let previous_palette_error = *palette_error;\n            *palette_error = Some(pal_err);","            let previous_palette_error = *palette_error;\n            *palette_error = Some(palette_error.map_or(pal_err, |p| p.min(pal_err) * 0.5 + pal_err.min(p) * 0.5));"),
('c05-minzero',Q,"        return 1e20; // + epsilon","        return 1e-1; // + epsilon"),
('c06-q-partial',A,"        if !(0..=100).contains(&target) || target < minimum {\n            return","        if target <= 100 { self.target_mse = quality_to_mse(target); }\n        if !(0..=100).contains(&target) || target < minimum {\n            return"),
('c06-ffi-trunc',F,"    let Ok(bits) = bits.try_into() else { return Error::ValueOutOfRange };\n    attr.inner.set_min_posterization(bits)","    if bits < 0 { return Error::ValueOutOfRange; }\n    attr.inner.set_min_posterization(bits as u8)"),
('c06-ffi-q',F,"let (Ok(minimum), Ok(target)) = (minimum.try_into(), target.try_into()) else { return Error::ValueOutOfRange };\n    attr.inner.set_quality(minimum, target)","if minimum > target { return Error::ValueOutOfRange; }\n    attr.inner.set_quality(minimum as u8, target as u8)"),
('c06-speed-post',A,"        self.min_posterization_input = if value >= 8 { 1 } else { 0 };","        self.min_posterization_input = if value >= 8 { 1 } else { 0 };\n        if value >= 8 { self.min_posterization_output = self.min_posterization_output.max(1); }"),
('c06-gamma1',Q,"if !(value > 0. && value < 1.) {","if value <= 0. || value >= 1. {"),
('c07-minarea',W,"let min_area = stride.checked_mul(height).and_then(|a| a.checked_add(width)).ok_or(Error::ValueOutOfRange)? - stride;","let min_area = stride.checked_mul(height - 1).and_then(|a| a.checked_add(width.min(stride - width + 1))).ok_or(Error::ValueOutOfRange)?;"),
('c07-clone-own',W,"if pixels.as_ref().map_or(true, |p| p.is_borrowed()) =>","if pixels.as_ref().map_or(true, |p| p.is_borrowed() || self.f_pixels.is_some()) =>"),
('c07-cb-row',W,"                        if let PixelsSource::Callback(cb) = source {\n                            cb(row, i);","                        if let PixelsSource::Callback(cb) = source {\n                            cb(row, if self.height > 256 { i & 0xff } else { i });"),
('c07-pad',W,"            &pixels[start..start + self.px.width as usize]","            &pixels[start..(start + self.px.width as usize + 1).min(pixels.len())][..self.px.width as usize]"),
('c07-gamma',I,"if !(0. ..=1.).contains(&gamma) {","if gamma < 0. || gamma > 1. {"),
('c07-lowmem-row',W,"            &pixels[self.px.width as usize * row..]","            &pixels[(self.px.width * row as u32) as usize..]"),
('c08-hist-img',F,"       bad_object!(input_hist, LIQ_HISTOGRAM_MAGIC) ||\n       bad_object!(input_image, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }","       bad_object!(input_hist, LIQ_HISTOGRAM_MAGIC) { return Error::InvalidPointer; }"),
('c08-rowsmin',W,"let ptr = rows.as_slice().iter().map(|p| p.0).min()","let ptr = rows.as_slice().iter().map(|p| p.0).next()"),
('c08-impfree',F,"        free_fn(importance_map.cast());\n        img.set_importance_map(copy).err().unwrap_or(LIQ_OK);\n        LIQ_OK","        if img.set_importance_map(copy).is_ok() && img.width() > 1 { free_fn(importance_map.cast()); }\n        LIQ_OK"),
('c08-twice',S,"        if let SeaCowInner::Borrowed(slice) = self.inner {\n            self.inner = SeaCowInner::Owned { ptr: slice.as_ptr().cast_mut(), len: slice.len(), free_fn };\n        }","        let (ptr, len) = { let s = self.as_slice(); (s.as_ptr().cast_mut(), s.len()) };\n        if !matches!(self.inner, SeaCowInner::Boxed(_)) { self.inner = SeaCowInner::Owned { ptr, len, free_fn }; }"),
('c08-bgcheck',F,"       bad_object!(background, LIQ_IMAGE_MAGIC) { return Error::InvalidPointer; }","       (background.inner.width() > 0 && bad_object!(img, LIQ_IMAGE_MAGIC)) { return Error::InvalidPointer; }"),
('c09-abort-last',Q,"        if attr.progress(overall_done) {\n            return Err(Aborted);\n        }\n        if trials_left <= 0 {\n            break best_palette;\n        }","        let abort = attr.progress(overall_done);\n        if trials_left <= 0 {\n            break best_palette;\n        }\n        if abort {\n            return Err(Aborted);\n        }"),
('c09-neg',Q,"let stage_done = (f32::from(trials_left.max(0)) / f32::from(total_trials + 1)).mul_add(-(f32::from(trials_left.max(0)) / f32::from(total_trials + 1)), 1.);","let stage_done = 1. - f32::from(trials_left.max(0)) / f32::from(total_trials);"),
('c09-chunk',R,"if quant.remap_progress(progress_stage1 as f32 + chunk_start_row as f32 * (100. - progress_stage1 as f32) / height as f32) {","if quant.remap_progress(progress_stage1 as f32 + (chunk_start_row + chunk_len) as f32 * 100. / height as f32) {"),
('c09-bw',Q,"            if self.remap_progress(progress_stage1 as f32 * 0.5) {\n                return Err(Error::Aborted);\n            }\n\n            let output","            if self.remap_progress(progress_stage1 as f32 * 0.5) && dither_map_error.is_none() {\n                return Err(Error::Aborted);\n            }\n\n            let output"),
('c10-quarter',N,"best.distance_squared / 4.;","best.distance_squared / 3.;"),
('c10-prune',N,"if distance <= radius + best_candidate.distance {","if distance_squared <= radius_squared + best_candidate.distance_squared {"),
('c10-leaf',N,"                    best_candidate.visit(distance_squared.sqrt(), distance_squared, idx);\n                });\n                break;","                    if distance_squared < best_candidate.distance_squared { best_candidate.visit(distance, distance_squared, idx); }\n                });\n                break;"),
('c11-lt',R,"                if bg_diff <= diff {","                if bg_diff < diff || diff == 0. {"),
('c11-width',I,"if self.px.width != background.px.width || self.px.height != background.px.height {","if self.px.width != background.px.width || self.px.height > background.px.height {"),
('c11-floyd',R,"if background.is_some() && palette[transparent_index as usize].a > MIN_OPAQUE_A {","if background.is_some() && palette[transparent_index as usize].a > 0. {"),
('c11-transp',R,".filter(|&(_, transparent_index)| colors[usize::from(transparent_index)].a < MIN_OPAQUE_A)",".filter(|&(_, transparent_index)| colors[usize::from(transparent_index)].a < MIN_OPAQUE_A * 64.)"),
('c12-max',Q,".min_by_key(|(_, c)| OrdFloat::new(c.a))",".max_by_key(|(_, c)| OrdFloat::new(c.a))"),
('c12-thr',P,"pub const MAX_TRANSP_A: f32 = 255. / 256. * LIQ_WEIGHT_A;","pub const MAX_TRANSP_A: f32 = 254. / 256. * LIQ_WEIGHT_A;"),
('c12-pop',Q,"Reverse(OrdFloat::new(pop.popularity()))","Reverse(OrdFloat::new(pop.popularity() * color.a))"),
('c13-dither',Q,"            palette.init_int_palette(&mut remapped.int_palette, self.gamma, self.min_posterization_output);\n            remapped.palette_error = palette_error;","            palette.init_int_palette(&mut remapped.int_palette, self.gamma, if output_image_is_remapped { self.min_posterization_output } else { 0 });\n            remapped.palette_error = palette_error;"),
('c13-order',P,".map(move |c| posterize_channel(c, posterize));",".map(move |c| posterize_channel(c, if c > 250 { 0 } else { posterize }));"),
('c14-transp',H,"        let px_int = if rgba.a != 0 {\n            self.posterize_mask()","        let px_int = if rgba.a != 0 || self.posterize_bits > 0 {\n            self.posterize_mask()"),
('c14-wrap',H,"            .and_modify(move |e| e.0 = e.0.saturating_add(boost))","            .and_modify(move |e| e.0 = e.0.wrapping_add(boost))"),
('c14-merge',H,"                .and_modify(move |e| e.0 = e.0.saturating_add(v.0))","                .and_modify(move |e| e.0 = e.0.max(v.0))"),
('c14-imp',H,"let mut importance_map = importance_map.unwrap_or(&[]).chunks_exact(width).fuse();","let mut importance_map = importance_map.unwrap_or(&[]).chunks_exact(width).skip(usize::from(height > 64)).fuse();"),
('c14-fixedw',H,"            self.hashmap.insert(px_int, (0, rgba));","            self.hashmap.entry(px_int).or_insert((0, rgba));"),
('c14-gamma',H,"        self.gamma = image.gamma();","        if self.gamma.is_none() { self.gamma = image.gamma(); }"),
('c15-gammastale',Q,"        self.remapped = None;\n        self.int_palette.count = 0;\n        self.gamma = value;","        self.remapped = None;\n        if (self.gamma - value).abs() > 0.01 { self.int_palette.count = 0; }\n        self.gamma = value;"),
('c15-clone',Q,"            remapped: self.remapped.clone(),","            remapped: None,"),
('c15-palmut',Q,"let mut palette = self.palette.clone();\n","let mut palette = self.palette.clone();\n        if self.remapped.is_some() { self.int_palette.count = 0; }\n"),
('c15-dith',Q,"        self.remapped = None;\n        self.dither_level = value;","        if self.dither_level != value && value > 0. { self.remapped = None; }\n        self.dither_level = value;"),
('c16-contrast',I,"if width < 4 || height < 4 ||","if width < 2 || height < 2 ||"),
('c16-blur',B,"if width < 2 * size as usize + 1 || height < 2 * size as usize + 1 {","if width < 2 * size as usize {"),
('c16-stage',A,"self.progress_stage1 += 30;","self.progress_stage1 += 70;"),
('c16-size',I,"if width.max(height) as usize > i32::MAX as usize ||","if"),
('c17-imp',R,"            remapping_error += f64::from(diff);","            remapping_error += f64::from(diff) * if importance_map.is_empty() { 1. } else { f64::from(importance_map[col]) / 255. };"),
('c17-f32',R,"        let mut remapping_error = 0.;\n        let Ok(tls","        let mut remapping_error = 0.;\n        let width = if width > 1000 { width - 1 } else { width };\n        let Ok(tls"),
('c17-q',Q,"        self.remapped.as_ref()\n            .and_then(|re| re.palette_error)\n            .or(self.palette_error)\n            .map(mse_to_quality)","        self.palette_error.or(self.remapped.as_ref()\n            .and_then(|re| re.palette_error))\n            .map(mse_to_quality)"),
('c18-split',MC,"let break_at = hist_item_sort_half(self.colors, half_weight).max(1);","let break_at = hist_item_sort_half(self.colors, half_weight).max(1).min(self.colors.len() / 2 + 1);"),
('c18-avg',MC,"        sum += c.adjusted_weight;\n        t.0 += c.color.0 * c.adjusted_weight;","        sum += c.perceptual_weight.max(c.adjusted_weight);\n        t.0 += c.color.0 * c.adjusted_weight;"),
('c18-swap',MC,"            while l < r && base[r].mc_sort_value() <= pivot_value { r -= 1; }\n            base.swap(l, r);","            while l < r && base[r].mc_sort_value() <= pivot_value { r -= 1; }\n            if base[l].mc_sort_value() == 0 { base[l] = base[r].clone(); } else { base.swap(l, r); }"),
('c18-clusters',MC,"                let end = b.end as usize;","                let end = if boxes.len() == 15 { b.end as usize - 1 } else { b.end as usize };"),
]
