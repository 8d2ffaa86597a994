#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
K="cfg(kani) contract attributes and one include! line per module"
p("C01","Remapping fills every output pixel with a valid palette index",
 "A successful remap writes exactly width x height indices, one for every pixel in row order, and every index is smaller than the length of the palette the result reports afterwards. It writes nothing outside the pixels of the output buffer or rows it was given.",
 ["inputs","configurations"],"every image size and content, every palette, dithering level, speed, background, and both the contiguous and the row-pointer output form",
 "Tests remap a handful of small images; index validity and completeness depend on the search structure, scan direction, chunking of tall images and the background path for all sizes.",
 ["src/remap.rs","src/nearest.rs","src/quant.rs","src/seacow.rs"],
 [("every column of every row is written with a searched or validated index","src/remap.rs dither_row, remap_to_palette"),("search returns an index of the palette it was built from","src/nearest.rs Nearest::search, vp_create_node, vp_search_node"),("chunks cover all rows once","src/seacow.rs RowBitmapMut::chunks, src/remap.rs remap_to_palette_floyd")],
 ["QuantizationResult::remapped","QuantizationResult::remap_into","liq_write_remapped_image","liq_write_remapped_image_rows"],hook=K)
p("C02","The palette never exceeds the requested number of colours",
 "Every successful quantization yields a palette with at least one and at most the configured maximum number of colours, whatever the quality target, fixed colours and histogram. The reported palette length, the returned palette and the palette returned after any remapping all have that same number of entries.",
 ["inputs","configurations"],"every image or histogram, every maximum 2..256, quality range, speed, posterization and number of fixed colours",
 "The existing tests check a few max_colors values on a few images; the bound is maintained by box splitting, the retry loop and the fixed-colour merge together.",
 ["src/mediancut.rs","src/quant.rs","src/pal.rs"],
 [("the box loop stops at the target number of boxes","src/mediancut.rs MedianCutter::total_box_error_below_target, cut"),("trial loop never raises the limit above the user's","src/quant.rs find_best_palette"),("fixed colours only fill up to the limit","src/pal.rs PalF::with_fixed_colors")],
 ["QuantizationResult::palette","QuantizationResult::palette_len","liq_get_palette"],hook=K)
p("C03","Fixed colours are in the final palette, exactly",
 "Each distinct colour reserved as fixed on an image or histogram appears bit for bit in the palette, both before and after remapping, as long as their number does not exceed the maximum number of colours (otherwise the earliest ones, as many as fit). This holds for every quality, speed and image content, when output posterization is off, the output gamma is unchanged and the input gamma is not below 0.1.",
 ["inputs","configurations"],"every set of fixed colours (any alpha), every image, speed, quality target, dithering level and max_colors",
 "Tests use one to three fixed colours with one image; whether a fixed colour survives depends on merging, k-means, sorting and rounding for all colours.",
 ["src/pal.rs","src/kmeans.rs","src/hist.rs","src/quant.rs"],
 [("fixed colours replace the closest entries and are marked by the sign of the popularity","src/pal.rs with_fixed_colors, PalPop"),("k-means never moves a fixed entry","src/kmeans.rs Kmeans::finalize"),("8-bit -> internal -> 8-bit conversion is exact","src/pal.rs from_rgba, to_rgb")],
 ["Image::add_fixed_color","Histogram::add_fixed_color","QuantizationResult::palette"],hook=K)
p("C04","Images with few enough colours are preserved exactly",
 "If an image (plus its fixed colours) has no more distinct colours than the maximum, and quality target is 100, no posterization is requested and speed is at most 7, then after remapping every pixel's palette entry equals the pixel exactly (any fully transparent pixel maps to a fully transparent entry), at every dithering level and every input gamma not below 0.1. The reported quality is then 100 and the reported error 0.",
 ["inputs","configurations"],"every image with at most max_colors distinct colours, any alpha, any size, dithering level 0..1, speeds 1-7, with or without fixed colours and importance map without zeros",
 "Unit tests check a few hundred opaque colours; exactness has to survive conversion, histogram, search, dithering and k-means for every colour set and size.",
 ["src/hist.rs","src/quant.rs","src/pal.rs","src/remap.rs","src/nearest.rs"],
 [("histogram keeps every distinct colour","src/hist.rs add_color"),("palette is taken verbatim from the histogram","src/quant.rs find_best_palette, palette_from_histogram"),("conversion round trip","src/pal.rs from_rgba/to_rgb"),("no error is diffused on exact matches","src/remap.rs get_dithered_pixel, dither_row")],
 ["QuantizationResult::remapped","quantization_quality","remapping_error"],hook=K)
p("C05","A result is never worse than the minimum quality asked for",
 "If a minimum quality was set, quantization either succeeds with a reported quality at least that minimum, or fails with the quality-too-low error; it never reports another quality as success. Reported qualities are between 0 and 100, reported errors are finite and non-negative, and a minimum of 0 never causes the quality-too-low error.",
 ["inputs","configurations"],"every image or histogram, quality pair 0..100, speed and max_colors",
 "Tests check one failing and a few passing qualities; the floor is decided by a floating-point comparison at the end of a search that may stop in many ways.",
 ["src/quant.rs","src/attr.rs"],
 [("error is compared with the limit before a result is built","src/quant.rs QuantizationResult::new"),("at least one k-means pass computes the error if a limit is set","src/attr.rs kmeans_iterations, src/quant.rs refine_palette"),("monotone quality <-> error mapping","src/quant.rs quality_to_mse, mse_to_quality")],
 ["Attributes::set_quality","Attributes::quantize","QuantizationResult::quantization_quality"],hook=K)
p("C06","Settings reject out-of-range values and read back what was set",
 "Each setter of the Rust and the C API accepts exactly its documented range (colours 2..256, quality 0..100 with min <= max, speed 1..10, posterization 0..4, dithering 0..1, output gamma strictly between 0 and 1) and returns the value-out-of-range error otherwise, leaving every setting unchanged. After a successful call the corresponding getters return the value set, and no other setting's getter changes.",
 ["inputs","histories"],"every argument value of every setter (including NaN, negative and very large), in every order of calls",
 "Tests try two or three values per setter; the claim is for all argument values and sequences.",
 ["src/attr.rs","src/quant.rs","imagequant-sys/src/ffi.rs"],
 [("range checks before assignment","src/attr.rs set_max_colors, set_quality, set_speed, set_min_posterization; src/quant.rs set_dithering_level, set_output_gamma"),("C integers are range-checked, not truncated","imagequant-sys/src/ffi.rs liq_set_*")],
 ["Attributes::set_*","QuantizationResult::set_*","liq_set_*","liq_get_*"],hook=K)
p("C07","Every way of supplying the same pixels gives the same image",
 "An image is created if and only if its dimensions are non-zero and representable, its gamma is in 0..1, its stride is at least its width and the buffer holds the last pixel of the last row; otherwise an error is returned and nothing is read. Borrowed, owned, strided, row-pointer, callback and cloned images with the same pixels quantize and remap identically, padding between rows never influences the result, and a clone stays valid after the original is dropped.",
 ["inputs","histories"],"all widths, heights, strides, buffer lengths and gammas; all constructors; all orders of clone, drop, quantize and remap",
 "Tests use two strides and never clone-and-drop; the arithmetic must be right for all sizes and overflow-free.",
 ["src/rows.rs","src/image.rs","src/seacow.rs","src/capi.rs","imagequant-sys/src/ffi.rs"],
 [("size validation with checked arithmetic","src/rows.rs PixelsSource::for_pixels; src/image.rs check_image_size, new_internal, new_stride_internal"),("row access","src/rows.rs row_rgba, row_f, row_f_shared, prepare_iter"),("clone copies owned memory","src/rows.rs DynamicRows::clone; src/seacow.rs SeaCowInner::clone")],
 ["Image::new*","Attributes::new_image*","liq_image_create_*","Image::clone"],hook=K)
p("C08","C handles are validated and owned memory is freed exactly once",
 "Every C function that borrows a library handle returns its documented failure value, without touching the object, when given a live handle of a different kind. Pixel and row memory whose ownership was transferred is passed to the free function exactly once, no later than when the image is destroyed (or at once for a transferred importance map), and memory that was not transferred is never freed or written.",
 ["inputs","histories"],"every C function, every kind of handle, every combination of ownership flags, for every image-creation function and order of calls",
 "The C test calls the API once in the right order; wrong handles and ownership combinations are not tried.",
 ["imagequant-sys/src/ffi.rs","src/capi.rs","src/seacow.rs","src/rows.rs"],
 [("magic tag per handle kind","imagequant-sys/src/ffi.rs bad_object!, Drop impls"),("ownership is taken once and released in Drop","src/seacow.rs SeaCow::make_owned, c_owned, Drop; src/rows.rs set_memory_ownership")],
 ["liq_*"],hook=K)
p("C09","Progress stays within 0-100 and aborting always fails the call",
 "Every value passed to a progress callback is a number between 0 and 100. If any one call of the callback asks to abort, during quantization or remapping, that operation returns the aborted error and never a result; if no call does, the presence of a callback does not change the outcome.",
 ["inputs","histories","fault_sequences"],"every image, speed and quality setting, and every single call of the callback at which abort may be requested",
 "The existing test aborts on every call from one point on, at one setting; a single abort at each possible call is never tried.",
 ["src/attr.rs","src/quant.rs","src/hist.rs","src/remap.rs"],
 [("stage weights add up to 100","src/attr.rs set_speed"),("each progress call's answer is turned into an error","src/hist.rs add_image, quantize_internal; src/quant.rs QuantizationResult::new, find_best_palette, refine_palette, write_remapped_image_rows_internal; src/remap.rs remap_to_palette_floyd")],
 ["Attributes::set_progress_callback","QuantizationResult::set_progress_callback","liq_attr_set_progress_callback","liq_result_set_progress_callback"],hook=K)
p("C10","Undithered remapping picks the closest palette colour",
 "With dithering off and no background, every pixel is assigned a palette entry whose perceptual distance to the pixel is the smallest in the palette being searched, up to floating-point rounding. The choice does not depend on neighbouring pixels or on search hints.",
 ["inputs"],"every palette (any size, duplicates, transparency) and every pixel",
 "Unit tests search three small palettes; the pruning in the search tree must be sound for every palette and query.",
 ["src/nearest.rs","src/pal.rs","src/remap.rs"],
 [("vantage-point tree partition and triangle-inequality pruning","src/nearest.rs vp_create_node, vp_search_node, Visitor::visit"),("shortcut by half the distance to the nearest other colour","src/nearest.rs Nearest::new, search"),("the distance is a squared norm of differences","src/pal.rs f_pixel::diff")],
 ["QuantizationResult::remapped with dithering 0"],hook=K)
p("C11","A background image only ever makes matching pixels transparent",
 "When a background is set and the palette has a fully transparent colour, an undithered pixel is made transparent exactly when the background pixel there is at least as close to it as the best palette colour, and all other pixels get the index they would get without a background; an image identical to its background becomes entirely transparent at any dithering level. Without a fully transparent palette colour the background has no effect on an undithered remap; a background of another size, or with its own background, is rejected.",
 ["inputs","configurations"],"every image, background and palette; dithering level 0 for the exact rule; every level for images identical to their background",
 "One test uses a background equal to the image; all other relations between pixel, background and palette are untested.",
 ["src/remap.rs","src/image.rs"],
 [("transparent index lookup and alpha check","src/remap.rs remap_to_palette, remap_to_palette_floyd"),("comparison of background and palette difference","src/remap.rs remap_to_palette, dither_row"),("size check","src/image.rs set_background")],
 ["Image::set_background","QuantizationResult::remapped"],hook=K)
p("C12","Palette order: transparent entries first, or last on request",
 "With output posterization off, in a freshly quantized palette all entries with any transparency come before all opaque ones, and when the colours are preserved exactly each of the two groups is ordered from the most to the least frequent (colours making up over a tenth of the total count as equally frequent). If transparency-last was requested the opaque ones come first instead, and the last entry is the most transparent colour of the palette.",
 ["inputs","configurations"],"every image or histogram, number of colours and setting, with any mix of alpha",
 "Tests check one fixed image; ordering must hold for all mixes of alpha and popularity.",
 ["src/quant.rs"],
 [("stable sort by (transparency class, popularity) and final swap","src/quant.rs sort_palette")],
 ["QuantizationResult::palette","Attributes::set_last_index_transparent"],hook=K)
p("C13","Output posterization limits the palette to the requested precision",
 "With minimum posterization of n bits, every channel of every palette entry (except the placeholder colour of fully transparent entries) is a value whose lowest n bits repeat its highest n bits, so 0 stays 0 and 255 stays 255, and each channel differs from the unposterized one by less than 2^n. With 0 bits the palette is not altered.",
 ["inputs","configurations"],"all channel values, all 0..4 bits, all palettes, before and after remapping",
 "Tests sample a few posterization settings; this is over all values and settings.",
 ["src/pal.rs","src/quant.rs"],
 [("channel rounding","src/pal.rs posterize_channel, init_int_palette")],
 ["Attributes::set_min_posterization","QuantizationResult::palette"],hook=K)
p("C14","The histogram counts every colour exactly",
 "Colours added to a histogram through images and colour lists, in any order and any number of calls, accumulate: equal colours (and all fully transparent ones) form one entry whose weight is the sum of what was added (pixels weighted by the importance map), zero-weight colours are ignored, and no other colour is lost, altered or invented. Reducing precision only merges entries whose channels agree in the remaining bits and keeps the total weight.",
 ["inputs","histories"],"every sequence of add_image / add_colors / add_fixed_color calls with any pixels, counts, importance maps",
 "Tests add a few colours once; accumulation over arbitrary sequences, saturation and merging are not exercised.",
 ["src/hist.rs"],
 [("masking and saturating accumulation","src/hist.rs add_color, posterize_mask, init_posterize_bits"),("counting sort into clusters","src/hist.rs finalize_builder")],
 ["Histogram::add_image","Histogram::add_colors","Histogram::quantize"],hook=K)
p("C15","The result always reflects the latest settings",
 "After any sequence of palette reads, remaps and setter calls on a result, the palette and quality getters describe the most recent successful remap if no setting changed since, and otherwise the palette under the current settings; repeated reads return the same values. A setter or remap that fails leaves palette, gamma and reported errors as they were, and a cloned result answers exactly like the original.",
 ["histories"],"every sequence of palette(), remapped(), set_dithering_level(), set_output_gamma(), clone() and failing calls",
 "Tests call these once in the standard order; stale caches only show in other orders.",
 ["src/quant.rs","src/pal.rs"],
 [("cached palettes are invalidated by setters","src/quant.rs set_output_gamma, set_dithering_level, int_palette"),("remap result is stored only on success","src/quant.rs write_remapped_image_rows_internal")],
 ["QuantizationResult::palette","remapped","set_output_gamma","set_dithering_level","clone"],hook=K)
p("C16","No valid input makes the library panic, overflow or read out of bounds",
 "For every valid image, histogram and combination of accepted settings, each public operation returns a value or one of the documented errors: it does not panic, overflow an integer, access memory out of bounds or fail to terminate. This includes one-pixel-wide or -high images, extreme dimensions and one-colour palettes.",
 ["inputs","configurations"],"all image sizes (1xN, Nx1, sizes around internal block boundaries), all contents, all accepted settings",
 "Tests cover a few sizes; boundary handling in filters, chunking and sorting depends on the exact size and content.",
 ["src/blur.rs","src/image.rs","src/mediancut.rs","src/remap.rs","src/hist.rs","src/kmeans.rs","src/attr.rs"],
 [("filters index only inside the bitmap","src/blur.rs transposing_1d_blur, liq_op3; src/image.rs contrast_maps, update_dither_map"),("partition indices stay in the slice","src/mediancut.rs qsort_partition, hist_item_sort_half, split"),("iteration counts cannot overflow","src/attr.rs kmeans_iterations, feedback_loop_trials")],
 ["all public functions"],hook=K)
p("C17","Reported remapping error is the true average error of the output",
 "After an undithered remap without a background, the reported remapping error equals the mean over all pixels of the perceptual difference between the pixel and the palette entry chosen for it (up to floating-point rounding), and the reported quality is the quality value for that error. It does not depend on image layout, threads or importance map.",
 ["inputs","configurations"],"every image and palette with dithering off",
 "Tests only check that the error is small or non-zero on a few images.",
 ["src/remap.rs","src/quant.rs","src/pal.rs"],
 [("sum of distances divided by the number of pixels","src/remap.rs remap_to_palette"),("scale conversion","src/remap.rs mse_to_standard_mse; src/quant.rs mse_to_quality")],
 ["QuantizationResult::remapping_error","remapping_quality"],hook=K)
p("C18","Splitting colours into boxes loses and duplicates no colour",
 "When the palette is chosen by repeated splitting, every histogram colour ends up in exactly one group, the groups are non-empty, and each group's palette colour lies within the range of the colours in the group. Consequently every palette colour (other than fixed ones) lies within the per-channel range of the colours that were added.",
 ["inputs"],"every histogram and number of colours",
 "Tests cannot enumerate the orders and weights that steer the partial sort and split points.",
 ["src/mediancut.rs","src/kmeans.rs"],
 [("in-place partial sort is a permutation and a partition","src/mediancut.rs hist_item_sort_half, qsort_partition, qsort_pivot"),("split point strictly inside the box","src/mediancut.rs MBox::split, MedianCutter::cut"),("averages are weighted means","src/mediancut.rs weighed_average_color; src/kmeans.rs finalize")],
 ["QuantizationResult::palette"],hook=K)
p("C19","Single-threaded builds give the same bytes on every run",
 "Without threads, quantizing and remapping the same pixels with the same settings gives a byte-identical palette and index image in every run and process.",
 ["inputs","configurations"],"every image and setting; repeated runs",
 "A hyper-property over pairs of executions; tests compare no two runs.",
 ["src/hist.rs","src/rayoff.rs"],[("deterministic hasher","src/hist.rs U32Hasher"),("sequential stand-ins for threads","src/rayoff.rs")],["QuantizationResult::remapped"])
p("C20","Thread scheduling never corrupts or loses work",
 "With threads enabled, every schedule produces a complete valid remap whose palette and error agree with the single-threaded build up to floating-point summation order, with no data race.",
 ["schedules"],"every interleaving of worker threads",
 "Tests see a few schedules only.",
 ["src/remap.rs","src/kmeans.rs","src/seacow.rs"],[("disjoint output rows and per-thread accumulators merged at the end","src/remap.rs remap_to_palette; src/kmeans.rs merge")],["QuantizationResult::remapped"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
