#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)"""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=None)))


prop("C01", "Images are accepted exactly if their memory is adequate",
     "Constructing an image from planes or from a single buffer succeeds if, and only if, both dimensions are non-zero, there is a plane and a stride for every plane of the format, every stride spans a row, and every plane contains all of its rows (padding after the last row is not required). Otherwise an error naming a deficit that really exists is returned, never a panic. An accepted image shows exactly the supplied memory, through shared and exclusive access alike.",
     ["inputs", "configurations"], "every format, size, number of planes and strides, stride, and length of the memory",
     "The tests construct only packed, sufficiently large images of one or two sizes; the boundary (one byte less than required, missing strides or planes, odd sizes) is never touched.",
     ["src/image.rs", "src/pixel_format.rs", "src/plane_decs.rs", "src/image_traits.rs"],
     [("PixelFormat::bounds_check", "src/pixel_format.rs"), ("Image::new / split_buffer", "src/image.rs"), ("plane descriptions", "src/plane_decs.rs")],
     [("buffer, strides, width, height", "memory and geometry of an image", "src/image.rs Image")],
     ["Image::from_planes", "Image::from_buffer", "ImageRef::planes", "ImageMut::planes_mut", "ImageRefExt::bounds_check"])

prop("C02", "Size calculations describe one gap-free, overlap-free layout",
     "For every format and size, the calculated buffer size, the packed strides, the planes of a blank image and the planes inferred from a buffer (with or without explicit strides) all describe the same layout: planes one after the other, each holding all of its rows, disjoint, together exactly the calculated size when packed. A blank image is zeroed, has the requested format, size and color, and is valid; the list of formats is complete and their bit depths are those of the samples.",
     ["inputs", "configurations"], "every format, width, height and stride",
     "Tests use the packed layout of a few sizes, and compare the library with itself.",
     ["src/pixel_format.rs", "src/plane_decs.rs", "src/planes.rs", "src/image.rs"],
     [("buffer_size, packed_strides, variants, bits_per_component", "src/pixel_format.rs"), ("infer", "src/planes.rs"), ("Image::blank", "src/image.rs")],
     observe=["PixelFormat::buffer_size", "PixelFormat::packed_strides", "infer", "Image::blank", "PixelFormat::variants"])

prop("C03", "A cropped image shows exactly its window",
     "Cropping (any number of times, by value or by reference) succeeds if and only if the image is valid and the window lies inside of it, and then shows exactly the samples of the window, with unchanged strides, format and color, and without access to any memory the image didn't already have. Windows which exceed the image, including by integer overflow, are rejected with an error; unwrapping gives back the unchanged image.",
     ["inputs", "histories"], "every format, memory layout, and sequence of windows (aligned to the chroma subsampling)",
     "The crop tests use a handful of windows in packed images of one format each; nesting, strides, windows touching the last row and 16 bit formats aren't covered.",
     ["src/crop.rs", "src/plane_decs.rs", "src/image_traits.rs"],
     [("Cropped::new", "src/crop.rs"), ("crop_planes", "src/crop.rs")],
     [("window", "position and size relative to the wrapped image", "src/crop.rs Cropped")],
     ["Cropped::new", "ImageRefExt::crop", "Cropped::into_inner", "planes / planes_mut of the cropped image"])

prop("C04", "A conversion writes all samples of the destination and nothing else",
     "A successful conversion or copy overwrites every visible sample of the destination, with values which don't depend on what was there before, and changes no other byte: not the padding of rows, not memory before, between or after planes, not pixels outside of the cropped window, and never the source.",
     ["inputs", "configurations"], "every pair of formats and colors, size, memory layout, window, single or multi threaded",
     "The tests only look at the pixels of tightly packed destinations which were zero before; stray writes and samples which are left alone are invisible to them.",
     ["src/formats", "src/copy.rs", "src/multi_thread.rs", "src/lib.rs", "src/formats/visit_2x2.rs"],
     [("writers", "src/formats/*/write.rs"), ("visit", "src/formats/visit_2x2.rs"), ("copy_impl", "src/copy.rs")],
     observe=["memory of the destination before and after convert, convert_multi_thread, copy"])

prop("C05", "Results depend only on the visible samples of the source",
     "The values a conversion or copy produces are a function of the visible samples, formats and colors of its images: where planes lie in memory, strides, alignment, padding, being cropped from a larger image, and the contents of memory which isn't visible make no difference, and no memory beyond what the image was constructed from is accessed.",
     ["inputs", "configurations"], "every pair of formats and colors, and pairs of memory layouts with the same contents; planes directly adjacent to inaccessible memory",
     "Tests always use the packed layout at the start of an allocation; reads beyond a plane stay inside of the heap and go unnoticed.",
     ["src/formats", "src/crop.rs", "src/image.rs", "src/primitive.rs", "src/vector"],
     [("readers", "src/formats/*/read.rs"), ("Primitive::load", "src/primitive.rs")],
     observe=["values written by convert, convert_multi_thread, copy; faults"])

prop("C06", "Conversions fail cleanly, and exactly when a precondition is violated",
     "A conversion returns an error if and only if the sizes differ, a dimension is odd, a YUV image that has to be interpreted isn't described by a YUV color, or the memory of an image is inadequate, and the error names a violated precondition. It never panics on such images (also not for images of zero size), never modifies the destination when it fails, and the single and multi threaded conversion accept the same images.",
     ["inputs", "configurations"], "every pair of formats, sizes (zero, odd, different), color descriptions and inadequate memory of user implemented images",
     "Only successful conversions of valid images are tested.",
     ["src/lib.rs", "src/multi_thread.rs", "src/copy.rs", "src/pixel_format.rs", "src/planes.rs"],
     [("verify_input_windows", "src/lib.rs"), ("bounds_check in readers and writers", "src/formats"), ("convert_multi_thread", "src/multi_thread.rs")],
     observe=["result of convert, convert_multi_thread, copy", "memory of the destination"])

prop("C07", "The multi threaded conversion equals the single threaded one",
     "For every number of threads and every schedule, the multi threaded conversion produces byte for byte the memory contents and the same decision (success or error) as the single threaded conversion of the same images.",
     ["schedules", "inputs", "configurations"], "every number of CPUs (1 to more than the image has row pairs), height, pair of formats and memory layout",
     "One test, on however many CPUs the machine has, one size; the distribution of a remainder, more threads than rows, and planes without trailing padding are not reached.",
     ["src/multi_thread.rs"],
     [("split_planes", "src/multi_thread.rs"), ("parallel iteration over the strips", "src/multi_thread.rs")],
     [("strips", "row ranges of the images given to a task", "src/multi_thread.rs split_planes")],
     ["memory of the destination after convert and convert_multi_thread"])

prop("C08", "Converting a window equals the window of the conversion",
     "Conversion commutes with cropping: converting an (even aligned) window of an image yields the same samples, up to one code value of rounding, as the corresponding window of the converted image. In particular a pixel's result does not depend on its position relative to the blocks pixels are processed in, or on the width of the image.",
     ["inputs", "configurations"], "every pair of formats and colors, image size and window",
     "The tests compare whole pictures whose width is a multiple of the SIMD block, the remaining columns take another code path.",
     ["src/formats/visit_2x2.rs", "src/vector", "src/crop.rs"],
     [("visit_impl: vectorized columns and remainder", "src/formats/visit_2x2.rs"), ("Vector implementations", "src/vector")],
     observe=["values written by convert"])

prop("C09", "Samples only influence the pixels they cover",
     "A sample of the destination depends only on those samples of the source which cover at least one of the pixels it covers; alpha depends on alpha only and alpha influences nothing else; between RGB formats of the same color every component depends on itself only. A change of the luma or of an alpha value is visible in the destination.",
     ["inputs", "configurations"], "every pair of formats and colors, size, memory layout and position of the changed sample",
     "Tests use pictures of smooth content and compare averages; a swapped row or column of chroma samples isn't visible.",
     ["src/formats", "src/formats/rgba", "src/formats/visit_2x2.rs"],
     [("addressing of samples in readers and writers", "src/formats/*/read.rs, write.rs"), ("zip/unzip of vectors", "src/vector")],
     observe=["bytes of the destination changing with one sample of the source"])

prop("C10", "Conversions without a change of color are exact",
     "Samples keep their exact value, at every bit depth and for every content, when source and destination have the same format and color (all formats and colors, also when the color description doesn't fit the format), when components are merely reordered or interleaved differently (RGB orders, planar and interleaved YUV of the same subsampling and matrix color), and when copying. Alpha is preserved, and fully opaque if the source has none.",
     ["inputs", "configurations"], "every format and color, every sample value, size and memory layout; single, multi threaded and copy",
     "Tests of the copying only use black images, and nothing tests reordering.",
     ["src/lib.rs", "src/copy.rs", "src/formats"],
     [("convert_same_color_and_pixel_format", "src/lib.rs"), ("copy_impl", "src/copy.rs"), ("float round trip of samples", "src/primitive.rs")],
     observe=["values written by convert, convert_multi_thread, copy"])

prop("C11", "RGB and YUV values follow the color matrix and range",
     "When only the YUV matrix, range, bit depth or sampling changes, every sample is the correctly rounded result of the standard's equations: R'G'B' from Y'CbCr with the luma coefficients of BT.601, BT.709 or BT.2020, normalized from full or limited range, and back, clamped only at the end to what the destination can represent.",
     ["inputs", "configurations"], "every pair of formats, matrix, range and sample value",
     "The tests compare converted pictures with others made by the same code, within a large average tolerance.",
     ["src/color/space.rs", "src/formats/i420", "src/formats/i422", "src/formats/i444", "src/primitive.rs"],
     [("ColorSpace::yx4_uv_to_rgb, rgb_to_yx4_uv", "src/color/space.rs"), ("range scaling", "src/formats/*/to_rgb.rs, from_rgb.rs")],
     observe=["values written by convert"])

prop("C12", "Subsampled chroma is the mean of the pixels it covers",
     "Writing subsampled chroma averages over exactly the pixels the chroma sample covers (2x2 for 4:2:0, 2x1 for 4:2:2), with equal weight, and reading it gives every one of these pixels the chroma of their sample; luma is never averaged.",
     ["inputs", "configurations"], "every subsampled format, color space and content, in particular contents where the pixels of a block differ strongly",
     "Test pictures are smooth inside of 2x2 blocks, so which pixels are averaged doesn't matter.",
     ["src/color/space.rs", "src/formats/i420", "src/formats/i422"],
     [("averaging in rgb_to_yx4_uv / RgbToI422", "src/color/space.rs, src/formats/i422/from_rgb.rs")],
     observe=["values written by convert"])

prop("C13", "Transfer functions follow their standards and invert each other",
     "Each transfer function (linear, gamma 2.2 and 2.8, sRGB, SDR, PQ, HLG) maps between linear and encoded light according to its defining equation, in both directions, is monotonic, never yields NaN and clamps or extends values outside of the domain without breaking; a change of the transfer in a conversion produces the values these equations give.",
     ["inputs", "configurations"], "every transfer function, direction and representable value; conversions between every pair of transfers",
     "Tests check a few transfers in a picture round trip; the defining equations and the values outside of the domain are never checked.",
     ["src/color/transfer.rs", "src/formats/transfer_and_primaries_convert.rs"],
     [("ColorTransfer::linear_to_scaled_v, scaled_to_linear_v", "src/color/transfer.rs")],
     observe=["ColorTransfer::linear_to_scaled, scaled_to_linear", "values written by convert"])

prop("C14", "Changes of the primaries are colorimetric",
     "A conversion to different primaries maps colors through CIE XYZ, in linear light, using the standard's primaries and the common white point: white and greys stay neutral, the conversion to and back from other primaries is the identity for colors in both gamuts, and every in-gamut color gets the colorimetrically correct value.",
     ["inputs", "configurations"], "every pair of primaries, transfers, formats and in-gamut color",
     "Only one pair of primaries appears in the tests, compared by average difference after a round trip (in which a wrong matrix cancels out).",
     ["src/color/primaries.rs", "src/formats/transfer_and_primaries_convert.rs"],
     [("rgb_to_xyz / xyz_to_rgb matrices", "src/color/primaries.rs"), ("TransferAndPrimariesConvert", "src/formats/transfer_and_primaries_convert.rs")],
     observe=["ColorPrimaries::rgb_to_xyz_mat, xyz_to_rgb_mat", "values written by convert"])

prop("C15", "ICtCp follows BT.2100",
     "Conversions to and from ICtCp (PQ and HLG) produce the values of BT.2100: LMS of the image's own linear light, the non-linear encoding, and the ICtCp matrices, for every pixel of in-gamut content; achromatic colors have neutral chroma, and converting to ICtCp and back returns the original color.",
     ["inputs", "configurations"], "both ICtCp variants, every format, range, primaries, transfer and in-gamut color",
     "Tests only check that a picture survives the round trip within a large average difference, for one subsampling.",
     ["src/color/space.rs"],
     [("ICtCp conversion in yx4_uv_to_rgb / rgb_to_yx4_uv", "src/color/space.rs")],
     observe=["values written by convert"])

prop("C16", "Values saturate at the limits of the destination",
     "Results below zero or above what the bit depth of the destination can represent are stored as the minimum and maximum, at every bit depth and for every pixel position; no sample ever exceeds its bit depth, wraps around, or is NaN converted to an arbitrary value.",
     ["inputs", "configurations"], "every pair of formats and colors, and contents outside of the RGB gamut or the nominal range",
     "The tests' pictures are in gamut.",
     ["src/primitive.rs", "src/vector"],
     [("float to integer conversion", "src/primitive.rs, src/vector/*.rs")],
     observe=["values written by convert"])

prop("C17", "Chains of conversions preserve the picture",
     "Converting to another format or color and back, over any number of intermediate images which can represent the picture (sufficient gamut; no chroma subsampling, unless the picture is constant in every 2x2 block), returns the original picture up to the rounding of the intermediate images.",
     ["histories", "inputs", "configurations"], "chains of conversions over every combination of formats and colors",
     "The round trip tests use a few chains and bound only the average difference of a picture.",
     ["src/lib.rs", "src/color", "src/formats"],
     [("convert", "src/lib.rs")],
     observe=["values at the ends of a chain of conversions"])

prop("C18", "Resizing maps every plane onto the whole destination",
     "Resizing writes every visible sample of the destination and nothing else, keeps every component in its plane, maps the whole source onto the whole destination (nearest neighbour takes the sample at the scaled center), keeps a constant component exactly constant, never yields values outside of the range of the source for filters which can't overshoot (nor outside of the bit depth for any filter), and is a copy if the sizes are equal. Images of different formats are rejected without an effect.",
     ["inputs", "configurations"], "every format, algorithm, pair of sizes and memory layout",
     "There is one resize test, of one size and packed images, which only looks at errors.",
     ["src/resize.rs", "src/plane_decs.rs"],
     [("Resizer::resize", "src/resize.rs"), ("pixel types of the planes", "src/plane_decs.rs")],
     observe=["memory of the destination of Resizer::resize"])

prop("C19", "A resizer keeps no state that matters",
     "The result of a resize depends only on its images and the algorithm: a resizer which was used for any sequence of other images, sizes, formats and failed calls before, or which is a clone, behaves exactly like a new one.",
     ["histories"], "sequences of resizes, failures and clones using the same resizer",
     "No test uses a resizer twice.",
     ["src/resize.rs"],
     [("reused intermediate buffers and coefficients", "src/resize.rs Resizer")],
     [("resizer", "internal buffers of the resize library", "src/resize.rs Resizer")],
     ["results of Resizer::resize"])

prop("C20", "All SIMD backends give the same result",
     "The backend chosen for the CPU doesn't matter: the AVX-512, AVX2 and scalar code produce the same decisions and the same samples, up to one code value of rounding, for every conversion, and copy the same samples.",
     ["inputs", "configurations"], "every pair of formats and colors, content (in and out of gamut), size",
     "The tests are only built with one backend; no test compares backends.",
     ["src/vector/avx2.rs", "src/vector/avx512.rs", "src/vector/mod.rs", "src/formats/visit_2x2.rs"],
     [("Vector implementations", "src/vector"), ("feature detection", "src/formats/visit_2x2.rs")],
     observe=["values written by convert, using each of the backends"])

prop("C21", "Any sequence of operations behaves like the sequence of its steps",
     "Over any history of constructing, cropping, converting, copying, resizing and failing on a set of images sharing memory through windows, every operation acts on exactly the samples visible to it at that time and leaves all other samples as the previous operations left them; nothing but the memory of the images carries over from one operation to the next.",
     ["histories", "inputs"], "sequences of operations over a pool of images",
     "Every test performs one or two operations on fresh images.",
     ["src/lib.rs", "src/crop.rs", "src/copy.rs", "src/resize.rs", "src/multi_thread.rs", "src/image.rs"],
     [("ImageRef / ImageMut", "src/image_traits.rs"), ("convert, copy, resize", "src/lib.rs, src/copy.rs, src/resize.rs")],
     observe=["memory of all images after every operation"])

prop("C22", "Concurrent callers don't interfere",
     "When several callers convert, copy and resize at the same time, reading the same images and writing to images of their own, each gets exactly the results and memory contents it would get if it were alone, whatever the schedule, the number of CPUs and whether callers are workers of the thread pool which also executes the multi threaded conversions and resizes. Every call returns (no deadlock), and only when all of its work is done.",
     ["schedules", "inputs"], "every interleaving of callers and workers of the pool",
     "The tests call the library from one thread at a time, and compare nothing.",
     ["src/multi_thread.rs", "src/resize.rs", "src/lib.rs", "src/formats"],
     [("convert_multi_thread", "src/multi_thread.rs"), ("Resizer::resize", "src/resize.rs")],
     [("images", "the memory of the images of every caller", "src/image_traits.rs")],
     ["memory and results of the calls of all callers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
