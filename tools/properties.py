R = "blend2d/"
CORE = R + "core/"
def c(*n): return [CORE + x for x in n]
def r(*n): return [R + "raster/" + x for x in n]
LN = ("Generated-input search (no proof of absence): deterministic in VERIF_SEED, failures replayed 3x in fresh processes and shrunk. "
      "Trusts clang/ASAN, libc and the oracle written in the harness; covers the build this sandbox makes (x86-64, no JIT: reference pipelines, SSE2 paths unless stated).")

# --------------------------------------------------------------------------------------------- containers
prop("C01", "Array containers behave like a plain sequence over every history",
 "For every history of operations on arrays of every element type (append, prepend, insert, replace, remove, resize, reserve, shrink, assign, copy, move, slice, search, compare, self-aliased arguments, wrapped external memory), the contents, size and results equal those of a plain in-memory sequence given the same operations. Capacity is never below the size, and an operation on one array never changes another array that was copied from it or shares its data. An operation that reports an error leaves the array unchanged.",
 ["histories", "inputs"], "all finite operation histories over a small family of arrays of every item type, with shared, static, external and unique storage",
 "The unit test walks a handful of fixed histories on two or three element types; aliasing, sharing and growth decisions depend on the whole history, so no fixed list covers them.",
 c("array.cpp", "array.h", "array_p.h", "object.cpp"), [("copy-on-write and growth of array impls", CORE + "array.cpp"), ("object reference counting", CORE + "object_p.h")],
 ["BLArray<T> public API", "bl_array_* C API"], technique="stateful property-based testing against std::vector models", level_note=LN)

prop("C02", "Strings behave like a plain byte string over every history",
 "For every history of string operations (assign, append, prepend, insert, remove, resize, formatted append, operators, copy, move, self-aliased arguments), content, size and terminating NUL equal those of a plain byte string given the same operations, across the inline and heap representations. Searching, prefix, equality and ordering queries answer as byte-wise definitions do. A change to one string never shows in another.",
 ["histories", "inputs"], "all finite operation histories over several strings with sizes around the inline/heap boundary",
 "The unit test uses a few literal strings; representation switches, aliasing and growth depend on the history.",
 c("string.cpp", "string.h", "string_p.h", "object.cpp"), [("inline (SSO) and dynamic representation switch", CORE + "string.cpp")], ["BLString public API"],
 technique="stateful property-based testing against std::string model", level_note=LN)

prop("C03", "Bit arrays behave like a vector of booleans over every history",
 "For every history of bit array operations (resize, reserve, assign, append bit and words, set, fill, clear, replace, copy, move), every bit, the size, the cardinality, range cardinality, equality and intersection queries equal those of a vector of booleans. Writes that start past the end are rejected and change nothing; writes that run past the end change only the bits inside.",
 ["histories", "inputs"], "all finite operation histories with sizes around word and inline-storage boundaries",
 "The unit test checks a few fixed sizes; bits past the end, word boundaries and representation switches combine combinatorially.",
 c("bitarray.cpp", "bitarray.h", "bitarray_p.h"), [("word/bit range ops", CORE + "bitarray.cpp")], ["BLBitArray public API"],
 technique="stateful property-based testing against std::vector<bool> model", level_note=LN)

prop("C04", "Bit sets implement exact set algebra over 32-bit indices",
 "A bit set built by any history of bit, range, word, builder, chop, optimize and shrink operations contains exactly the indices that the same history gives a mathematical set of unsigned integers. Membership, cardinality, range, subset, intersection, equality, ordering and segment iteration queries all agree with that set, whatever mixture of inline, dense and range segments represents the operands.",
 ["histories", "inputs"], "all finite operation histories; indices from clustered, word-boundary, segment-boundary and extreme (near 2^32) regions",
 "The representation has inline words, an inline range, dense segments and range segments; the unit test visits a few of the combinations that two operands can have.",
 c("bitset.cpp", "bitset.h", "bitset_p.h"), [("segment algebra", CORE + "bitset.cpp")], ["BLBitSet, BLBitSetBuilder, BLBitSetSegmentIterator, BLBitSetWordIterator, BLBitSetBitIterator"],
 technique="stateful property-based testing against an interval-set model", level_note=LN)

prop("C05", "Copies are independent values for every object type",
 "For every history of copying, moving, assigning, mutating, resetting and destroying objects of every shareable type, a mutation through one variable never changes what another variable observes, and equality reports equal content for copies. Moved-from and reset objects are valid empty defaults, and after all variables are destroyed no memory remains allocated.",
 ["histories"], "all finite histories over a pool of variables of each object type",
 "Unit tests check one or two copy/mutate sequences per type; reference counts and detachment depend on the history.",
 c("object.cpp", "object_p.h", "path.cpp", "gradient.cpp", "pattern.cpp", "image.cpp", "var.cpp", "array.cpp", "string.cpp", "font.cpp"), [("weak copy / is_mutable / release", CORE + "object_p.h")],
 ["public value API of BLPath, BLGradient, BLPattern, BLImage, BLStrokeOptions, BLArray, BLString, BLBitSet, BLFontFeatureSettings, BLFontVariationSettings, BLVar"],
 technique="stateful property-based testing with deep snapshots and allocation accounting", level_note=LN)

prop("C06", "Allocation failure at any point is reported cleanly and leaks nothing",
 "When any single memory allocation fails during any API operation, the operation either still succeeds or returns an out-of-memory style error code; it never crashes or corrupts memory, and the containers and objects it was called on keep the content they had and stay usable. After a failed operation the same operation can be retried successfully, and once all objects are destroyed no memory remains allocated.",
 ["fault_sequences", "histories"], "all operation sequences from the generators with the k-th allocation made to fail, for every k the operation performs",
 "No test injects allocation failures; the error paths are numerous and one is tied to each allocation of each operation.",
 c("object.cpp", "array.cpp", "string.cpp", "bitset.cpp", "path.cpp", "pathstroke.cpp", "gradient.cpp", "image.cpp", "context.cpp", "font.cpp", "fontface.cpp", "glyphbuffer.cpp") + r("rastercontext.cpp", "workdata.cpp") + [R + "support/arenaallocator.cpp", R + "support/zeroallocator.cpp"],
 [("error propagation BL_PROPAGATE", CORE + "api-internal_p.h")], ["return codes and state of public API calls under failing malloc/realloc/calloc"],
 technique="generated operation sequences with enumerated allocation-fault injection", level_note=LN + " Faults are injected at malloc/calloc/realloc calls of the library itself.")

prop("C07", "Dynamically typed values convert and compare exactly",
 "A variant holding any value reports that value's type and gives it back exactly; conversion to another numeric type succeeds only as documented (out-of-range values are clamped or rejected, never wrapped), and equality between variants agrees with equality of the held values. Assigning any object type through a variant and reading it back yields an equal object.",
 ["inputs", "histories"], "all values of every held type, and all sequences of assignments between variants",
 "Tests sample a few values of each type.", c("var.cpp", "var.h", "object.cpp"), [("variant conversion", CORE + "var.cpp")], ["BLVar API"],
 technique="property-based testing against a typed reference model", level_note=LN)

# --------------------------------------------------------------------------------------------- geometry
prop("C08", "Affine matrices obey affine algebra and classify their own type correctly",
 "Every matrix operation (translate, scale, skew, rotate, multiply, their post- variants, invert, map points, map path) equals the same operation on 2x3 affine matrices in exact arithmetic up to rounding; mapping by a product equals mapping by one factor after the other, and mapping by the inverse undoes the mapping. The reported matrix type never claims a structure the matrix does not have, and a matrix whose determinant is zero is reported as not invertible.",
 ["inputs", "histories"], "all finite matrices and all compositions of operations, all point arrays",
 "Tests use a few matrices; type classification selects different code per structure.", c("matrix.cpp", "matrix_sse2.cpp", "matrix_avx.cpp", "matrix.h", "matrix_p.h"),
 [("type-specialised mapping functions", CORE + "matrix.cpp")], ["BLMatrix2D API", "BLPath::transform"], technique="property-based testing against long-double affine arithmetic", level_note=LN)

prop("C09", "Paths record exactly the geometry that was added or edited",
 "For every history of path construction and editing calls (vertices, shapes, sub-path appending with ranges and transformations, vertex editing, removal, reversing, translation, fitting, copying), the stored commands and vertices equal those produced by a straightforward sequence model of the same calls. Figure ranges, last vertex, path information flags and equality agree with the stored data, and invalid ranges or edits leave the path unchanged.",
 ["histories", "inputs"], "all finite histories over several paths",
 "The tests exercise short fixed paths.", c("path.cpp", "path.h", "path_p.h"), [("path impl editing", CORE + "path.cpp")], ["BLPath API: view, get_info_flags, get_figure_range, get_last_vertex, equals"],
 technique="stateful property-based testing against a command/vertex list model", level_note=LN)

prop("C10", "Path geometry queries agree with the ideal curves",
 "Shapes added to a path (rectangles, circles, ellipses, rounded rectangles, arcs, chords, pies, polylines, polygons, elliptic arcs) trace the ideal shape within a small tolerance, from the right start to the right end in the requested direction. The control box and bounding box enclose every point of the path, the bounding box is tight, and hit testing reports a point inside exactly when its winding number says so under the given fill rule.",
 ["inputs"], "all shape parameters of ordinary magnitude and all paths made of lines, quadratics, cubics and conics; points not within rounding distance of the outline",
 "Tests check a few constants.", c("path.cpp", "path_p.h") + [R + "geometry/bezier_p.h"], [("arc and shape generation", CORE + "path.cpp"), ("hit test", CORE + "path.cpp")], ["BLPath::add_*, arc_to, elliptic_arc_to, get_bounding_box, get_control_box, hit_test, get_closest_vertex"],
 technique="property-based testing against analytic shapes and dense curve sampling", level_note=LN)

prop("C11", "A stroke covers exactly the points that belong to the stroked outline",
 "For every path and stroke option set, the stroke outline covers the points nearer to the path than half the stroke width (away from the ends of open sub-paths and from joins) and nothing farther away than the caps, joins and miter limit allow. Caps and joins have the requested shape, a non-scaling transform order is honoured, and adding a stroked path appends to the destination without altering what was there.",
 ["inputs", "configurations"], "all paths of moderate size with every cap, join, width, miter limit and transform order",
 "No test compares a stroke with its definition.", c("pathstroke.cpp", "pathstroke_p.h", "path.cpp"), [("stroker", CORE + "pathstroke.cpp")], ["BLPath::add_stroked_path, BLContext::stroke_path"],
 technique="property-based testing with distance-to-path oracle", level_note=LN + " Tolerances leave out a band around the stroke border, curve offset approximation and tight-curvature regions.")

# --------------------------------------------------------------------------------------------- rendering
prop("C12", "Filled pixels get coverage equal to the covered pixel area",
 "Filling any path gives each pixel an opacity equal to the exactly covered fraction of the pixel's area under the selected fill rule, within the rasterizer's documented sub-pixel and 8-bit precision. Pixels fully inside are fully covered and pixels fully outside are untouched, whatever the path's position relative to the image, clip and tile or band boundaries.",
 ["inputs"], "all polygons and curves with coordinates within and far outside the image, both fill rules",
 "Rendering tests compare implementations with each other or with a few digests; none establishes coverage for every geometry.",
 r("analyticrasterizer_p.h", "edgebuilder_p.h", "edgestorage_p.h", "rendercommandprocsync_p.h", "rastercontext.cpp") + [R + "pipeline/reference/fillgeneric_p.h"],
 [("analytic cell accumulation", R + "raster/analyticrasterizer_p.h"), ("edge clipping", R + "raster/edgebuilder_p.h")], ["A8/PRGB32 pixels after BLContext::fill_path"],
 technique="property-based testing against exact-area polygon clipping", level_note=LN)

prop("C13", "Every compositing operator produces its defined pixel formula",
 "For every composition operator, source and destination format, colour, global alpha and coverage, the resulting pixel equals the operator's documented premultiplied formula within one unit per channel (plus 8-bit quantisation of fractional sources and alphas), alpha-less destinations behave as opaque, and pixels of alpha formats are never left with a colour channel above alpha. Operators that the build cannot render are refused with an error that leaves the image untouched.",
 ["inputs", "configurations"], "all operators x formats x source kinds (solid, image, gradient) x colours x alphas x coverage",
 "Tests cover selected operators on random content without a formula oracle.", c("compop_p.h", "compopinfo.cpp", "compopsimplifyimpl_p.h", "context.cpp") + r("rastercontext.cpp") + [R + "pipeline/reference/compopgeneric_p.h", R + "pipeline/reference/fixedpiperuntime.cpp"],
 [("operator simplification per format/alpha", CORE + "compopsimplifyimpl_p.h"), ("reference pipelines", R + "pipeline/reference/compopgeneric_p.h")], ["pixels after BLContext calls", "return codes"],
 technique="property-based testing against per-pixel formula oracle", level_note=LN + " This build has only the reference pipelines, which render SRC_OVER and SRC_COPY and whatever simplifies to them.")

prop("C14", "Rendering never touches a pixel outside the clip or the image",
 "Whatever is drawn (fills, strokes, text, images, masks, clears) with any geometry, transformation, clip history and threading, pixels outside the current clip region and memory outside the image (including row padding) keep their previous bytes. Drawing with a clip gives the pixels inside an integer-aligned clip the same values as drawing without that clip.",
 ["inputs", "histories"], "all drawing calls x geometry (including extreme and non-finite coordinates) x clip rectangles x image strides",
 "Tests draw in-range geometry into library-allocated images and look at digests.", r("rastercontext.cpp", "rastercontextops.cpp", "edgebuilder_p.h", "rendercommandprocsync_p.h", "statedata_p.h"),
 [("meta/user/final clip boxes", R + "raster/rastercontext.cpp")], ["guarded external pixel buffers after drawing"],
 technique="property-based testing with guard bytes and metamorphic clip relation", level_note=LN)

prop("C15", "Multi-threaded rendering produces the same image as single-threaded rendering",
 "For every sequence of context calls, rendering with any worker-thread count, any command-queue limit and any placement of flush points produces a pixel-for-pixel identical image to synchronous rendering, and a synchronous flush or end returns only after all commands are in the image. Resources released or modified after being used in a call do not affect queued commands.",
 ["schedules", "histories"], "all call sequences x thread counts x command queue limits x flush placements",
 "Schedules are not controlled by tests; the MT tests use fixed content mixes and thread counts.", r("rastercontext.cpp", "renderbatch_p.h", "rendercommandprocasync_p.h", "renderjobproc_p.h", "workermanager.cpp", "workerproc.cpp", "workersynchronization.cpp", "renderqueue_p.h"),
 [("batch synchronisation of worker threads", R + "raster/workerproc.cpp"), ("per-band asynchronous command processing", R + "raster/rendercommandprocasync_p.h")], ["image pixels after flush(SYNC)/end"],
 technique="differential property-based testing (MT vs sync) over generated command streams", level_note=LN + " Thread schedules are sampled from the OS scheduler, not enumerated.")

prop("C16", "Saving and restoring a context state is exact",
 "After any history of state changes, saves (with or without a cookie), restores and drawing, every queryable property of the context equals that of a stack model of the same history, and restoring brings back exactly the state at the matching save, including clip, transformation, styles, stroke options, hints and composition. Restores that do not match a save or whose cookie does not match are rejected and change nothing.",
 ["histories"], "all finite histories of state setters, save, restore and drawing",
 "State is saved lazily by per-field flags; tests cover a few fields in fixed orders.", c("context.cpp", "context.h", "context_p.h") + r("rastercontext.cpp", "statedata_p.h"), [("lazy state saving by flags", R + "raster/rastercontext.cpp")], ["BLContext getters", "pixels drawn after restore"],
 technique="stateful property-based testing against a stack model", level_note=LN)

prop("C17", "Equivalent ways of drawing the same thing give the same image",
 "Drawing a shape through its convenience call, through the equivalent path, through integer or floating-point overloads, with a style set beforehand or passed explicitly, or under a transformation versus with pre-transformed coordinates, gives the same image (identical where the geometry is identical, within one coverage step otherwise). A translation by whole pixels only moves the image.",
 ["inputs", "configurations"], "all shapes, styles and transformations",
 "Each entry point has its own fast path; tests compare few.", c("context.cpp", "context.h", "path.cpp") + r("rastercontext.cpp", "rastercontextops.cpp"), [("fast paths of fill/stroke entry points", R + "raster/rastercontext.cpp")], ["image pixels"],
 technique="metamorphic property-based testing", level_note=LN)

prop("C18", "Gradients paint the colour their definition gives at every pixel",
 "For every linear, radial and conic gradient, extend mode, stop list and transformation, the painted colour at a pixel equals the colour defined by the gradient geometry and the interpolated stops, within colour-table and rounding precision. Stop editing keeps stops ordered by offset with the documented handling of equal offsets, and out-of-range offsets are rejected.",
 ["inputs", "histories"], "all gradient types, stop histories, extend modes and transformations",
 "Tests sample the gradient container, not the pixels.", c("gradient.cpp", "gradient.h", "gradient_p.h") + [R + "pixelops/interpolation.cpp", R + "pixelops/interpolation_sse2.cpp", R + "pipeline/reference/fetchgeneric_p.h", R + "pipeline/pipedefs.cpp"], [("gradient LUT", R + "pixelops/interpolation.cpp"), ("gradient fetchers", R + "pipeline/reference/fetchgeneric_p.h")], ["BLGradient stops", "image pixels"],
 technique="property-based testing against real-arithmetic gradient model", level_note=LN)

prop("C19", "Patterns and image blits paint the right source pixel everywhere",
 "For every image, source area, extend mode, quality and transformation, the painted pixel equals the source pixel that the inverse mapping and extend mode select (nearest) or the bilinear mix of the neighbouring ones, within rounding precision. Blitting at whole-pixel positions copies source pixels exactly, and blits with a source rectangle read nothing outside it.",
 ["inputs", "configurations"], "all images, areas, extend modes, transformations and qualities",
 "Tests do not compare fetched pixels with a definition.", c("pattern.cpp", "pattern.h", "image.cpp") + [R + "pipeline/reference/fetchgeneric_p.h", R + "pipeline/pipedefs.cpp", R + "raster/renderfetchdata.cpp"], [("pattern fetchers and their setup", R + "pipeline/pipedefs.cpp")], ["image pixels"],
 technique="property-based testing against per-pixel inverse mapping model", level_note=LN)

prop("C20", "Mask fills apply the mask as per-pixel coverage",
 "Filling through a mask image at any position, mask sub-rectangle and transformation multiplies the source by the mask's alpha at exactly the corresponding pixels, for every style, format and operator the build supports, and leaves pixels where the mask is zero or absent unchanged (for bounded operators).",
 ["inputs", "configurations"], "all masks, positions, areas, styles and alphas", "Tests cover few mask positions.",
 r("rastercontext.cpp", "rastercontextops.cpp") + c("context.cpp"), [("box mask fill", R + "raster/rastercontext.cpp")], ["image pixels after fill_mask"], technique="property-based testing against per-pixel model", level_note=LN)

prop("C21", "Pixel conversion is exact for every pair of pixel formats",
 "A pixel converter created for any valid pair of pixel formats converts every pixel to the value defined by the formats' channel layouts, bit depths and premultiplication, independent of width, alignment, strides and gaps, and writes nothing outside the destination area. Invalid format descriptions are rejected.",
 ["inputs", "configurations"], "all valid format descriptions, all pixel data, widths, alignments and strides",
 "The converter dispatches to many specialised routines with tail handling; tests try a few formats.", c("pixelconverter.cpp", "pixelconverter_sse2.cpp", "pixelconverter_ssse3.cpp", "pixelconverter_avx2.cpp", "format.cpp"), [("converter selection", CORE + "pixelconverter.cpp")], ["BLPixelConverter::convert_rect/convert_span", "BLFormatInfo::sanitize"],
 technique="differential property-based testing against a per-pixel reference", level_note=LN)

prop("C22", "Image creation, conversion and scaling preserve the pixel content",
 "Creating images of any legal size and format, wrapping external memory, converting between formats, copying and locking for modification preserve every pixel as the formats define, and illegal sizes, formats or strides are rejected with the image unchanged; external memory is released exactly once. Scaling an image keeps constant content constant, keeps values within the source range where the filter has no negative lobes, equals the defined separable filter within rounding, and preserves the source image.",
 ["inputs", "histories"], "all sizes, formats, strides, filters and histories", "Tests check few sizes.", c("image.cpp", "image.h", "image_p.h", "imagescale.cpp", "imagescale_p.h", "format.cpp"), [("image impl and external data", CORE + "image.cpp"), ("scale weights", CORE + "imagescale.cpp")], ["BLImage API", "pixels"],
 technique="stateful property-based testing and reference separable filter", level_note=LN)

# --------------------------------------------------------------------------------------------- codecs
prop("C23", "Writing then reading a lossless image returns the same pixels",
 "Encoding any image in a lossless format (PNG at every compression level, BMP, QOI) and decoding the result returns an image of the same size and identical pixels as far as the format can hold them. The PNG produced is a conforming file whose compressed data any independent inflate implementation decodes to the same scanlines, and checksums are correct.",
 ["inputs", "configurations"], "all images of any size and content, formats, compression levels and destination formats", "Codec tests use a few random images.",
 [R + "codec/pngcodec.cpp", R + "codec/pngops.cpp", R + "codec/pngops_sse2.cpp", R + "codec/bmpcodec.cpp", R + "codec/qoicodec.cpp", R + "compression/deflateencoder.cpp", R + "compression/matchfinder_p.h", R + "compression/deflatedecoder.cpp", R + "compression/checksum.cpp"] + c("imageencoder.cpp", "imagedecoder.cpp", "imagecodec.cpp"),
 [("deflate encoder/decoder", R + "compression/deflateencoder.cpp"), ("PNG filters", R + "codec/pngops.cpp")], ["BLImage::write_to_data / read_from_data", "zlib inflate of the IDAT stream"], technique="round-trip and differential (zlib) property-based testing", level_note=LN + " Trusts zlib as the independent inflate.")

prop("C24", "Conforming image files decode to the pixels their specification defines",
 "Every conforming PNG (all colour types, bit depths, filters, interlacing, palettes, transparency, chunk and deflate-block splits), QOI, BMP and JPEG file (baseline and progressive, common subsamplings, restart intervals) decodes to the size and pixels the format's specification defines, exactly for lossless formats and within DCT and chroma-upsampling freedom for JPEG. Frames of an APNG compose as its specification defines and the reported image information matches the file. Features the decoders refuse with an error (16-bit PNG, an APNG whose default image is hidden, JPEG with a delayed height, non-integral sampling ratios or four components) are out of scope; BMP alpha is treated as premultiplied.",
 ["inputs"], "all conforming files produced by independent generators for each format feature", "Tests decode a few bundled files.",
 [R + "codec/pngcodec.cpp", R + "codec/pngops.cpp", R + "codec/pngops_sse2.cpp", R + "codec/qoicodec.cpp", R + "codec/bmpcodec.cpp", R + "codec/jpegcodec.cpp", R + "codec/jpeghuffman.cpp", R + "codec/jpegops.cpp", R + "codec/jpegops_sse2.cpp", R + "compression/deflatedecoder.cpp", R + "compression/deflatedecoderfastimpl_p.h"],
 [("decoders", R + "codec/")], ["BLImageDecoder::read_info/read_frame", "BLImage::read_from_data"], technique="generator-based differential testing against independent encoders/decoders", level_note=LN)

prop("C25", "Image decoders survive arbitrary and truncated input",
 "For every byte string given to the image decoders (auto-detected or explicit codec, in one piece or as a prefix), decoding terminates, touches no memory outside its buffers, and either yields a valid image whose size matches the reported information or an error. A failed decode leaves the decoder and codec usable, and truncated or corrupted valid files never crash.",
 ["inputs"], "all byte strings, biased to mutated valid files of every codec", "Unit tests feed valid files and short random mutations only.",
 [R + "codec/pngcodec.cpp", R + "codec/jpegcodec.cpp", R + "codec/jpeghuffman.cpp", R + "codec/qoicodec.cpp", R + "codec/bmpcodec.cpp", R + "compression/deflatedecoder.cpp", R + "compression/deflatedecoderfastimpl_p.h"] + c("imagedecoder.cpp", "imagecodec.cpp"),
 [("input validation in decoders", R + "codec/")], ["BLImageDecoder return codes under ASAN"], technique="coverage-guided structured fuzzing with sanitizer and consistency oracle", level_note=LN)

# --------------------------------------------------------------------------------------------- text
prop("C26", "Fonts with arbitrary bytes never crash or hang the library",
 "For every byte string offered as font data, creating a font face and then mapping characters, reading metrics, names and tables, shaping and positioning text, extracting outlines and rendering text terminates without touching memory outside the font data, and yields either results or error codes. Tables that are handed out lie within the font data, and the work per call stays bounded even for cyclic or deeply nested glyphs.",
 ["inputs"], "all byte strings, biased to structured mutations of valid TrueType and CFF fonts", "Tests use valid fonts.",
 [R + "opentype/otface.cpp", R + "opentype/otcore.cpp", R + "opentype/otcmap.cpp", R + "opentype/otglyf.cpp", R + "opentype/otcff.cpp", R + "opentype/otkern.cpp", R + "opentype/otlayout.cpp", R + "opentype/otname.cpp", R + "opentype/otmetrics.cpp"] + c("font.cpp", "fontface.cpp", "fontdata.cpp"),
 [("table sanitisation", R + "opentype/")], ["font API under ASAN"], technique="coverage-guided structured fuzzing of font data with sanitizer oracle", level_note=LN)

prop("C27", "Well-formed fonts yield exactly the data stored in their tables",
 "For every well-formed TrueType or CFF font, the character-to-glyph mapping (all supported cmap formats), glyph advances and bounds, design and scaled metrics, names, and glyph outlines (simple, composite, CFF charstrings incl. subroutines and hints) equal what the font's tables define, under any font size and transformation.",
 ["inputs"], "all fonts made by a generator of well-formed tables", "Tests use one or two bundled fonts.",
 [R + "opentype/otcmap.cpp", R + "opentype/otglyf.cpp", R + "opentype/otglyfsimdimpl_p.h", R + "opentype/otcff.cpp", R + "opentype/otmetrics.cpp", R + "opentype/otname.cpp", R + "opentype/otcore.cpp"] + c("font.cpp", "fontface.cpp"),
 [("table readers", R + "opentype/")], ["BLFontFace/BLFont queries", "BLFont::get_glyph_outlines"], technique="generator-based property testing: fonts synthesised from a model that is also the oracle", level_note=LN)

prop("C28", "Shaping applies kerning and layout lookups as the font defines them",
 "For every font with well-formed kern, GPOS and GSUB tables and every text, shaping applies exactly the lookups of the enabled features in lookup order: single, multiple, alternate, ligature and reverse chained substitutions give the glyphs and clusters, and single and pair positioning and legacy kerning give the offsets and advances, that the OpenType definition yields. Text metrics equal the sum of the resulting advances, and features that are switched off have no effect.",
 ["inputs", "configurations"], "all generated lookup tables (single, multiple, alternate, ligature, reverse chained, single and pair positioning, extension, kern formats 0, 2 and 3) x glyph sequences x feature settings", "Tests shape a few strings.",
 [R + "opentype/otlayout.cpp", R + "opentype/otkern.cpp"] + c("font.cpp", "glyphbuffer.cpp"), [("lookup processing", R + "opentype/otlayout.cpp")], ["BLFont::shape", "BLGlyphBuffer contents", "get_text_metrics"], technique="generator-based property testing against a reference shaper", level_note=LN)

prop("C29", "Text input in any Unicode encoding is decoded exactly",
 "Setting text in UTF-8, UTF-16, UTF-32 or Latin-1 yields one glyph entry per code point with that code point and its cluster position, the same for equivalent text in every encoding and for NUL-terminated and sized input. Ill-formed input (truncated, overlong, out of range) never reads past its end: each ill-formed unit becomes U+FFFD with its own cluster and marks the buffer as having invalid characters, and everything around it is decoded as if it was not there.",
 ["inputs"], "all byte/word sequences, valid and invalid", "Tests use a few strings.", [R + "unicode/unicode.cpp", R + "unicode/unicode_p.h"] + c("glyphbuffer.cpp"), [("unicode iterators and validation", R + "unicode/unicode_p.h")], ["BLGlyphBuffer::set_text content and info"], technique="property-based testing against independent decoder", level_note=LN)

prop("C30", "Drawing text equals drawing its glyph outlines",
 "Filling or stroking text, or a glyph run with any placement, font size, font transformation and origin, gives the same image as filling or stroking the outlines of the shaped glyphs at their positions. A string in any encoding and its pre-shaped glyph run draw identically, synchronously or on threads, and glyph run outlines are the concatenated outlines of the glyphs.",
 ["inputs"], "all strings, fonts, sizes, origins and transformations", "Tests do not compare text with outlines.", c("font.cpp", "context.cpp", "glyphbuffer.cpp", "glyphrun.h") + r("rastercontext.cpp", "rastercontextops.cpp"), [("glyph run fill/stroke", R + "raster/rastercontext.cpp")], ["image pixels", "BLGlyphBuffer API"], technique="metamorphic property-based testing", level_note=LN)

# --------------------------------------------------------------------------------------------- misc
prop("C31", "File access returns exactly the bytes of the file, or an error",
 "Reading, writing, seeking, truncating and memory mapping files through the file API behaves like a byte array with a cursor for every operation history and open mode; whole-file helpers return exactly the file's bytes (or the requested maximum) and writing then reading a file returns the written bytes. Short reads and writes and interruptions reported by the operating system are handled or surfaced as errors with the byte count correct, never as silent data loss.",
 ["histories", "fault_sequences"], "all operation histories on scratch files, and all patterns of short or interrupted system calls", "Tests write one small file.",
 c("filesystem.cpp", "filesystem.h"), [("POSIX file wrappers", CORE + "filesystem.cpp")], ["BLFile, BLFileSystem API"], technique="stateful property-based testing with injected short I/O", level_note=LN + " System calls are intercepted at link level.")

prop("C32", "Random generators are reproducible, uniform in range and independent",
 "A random generator's output is a pure function of its seed: equal seeds give equal sequences, copies continue identically and independently, and comparing generators compares their state. Double values lie in [0, 1), and the sequence follows the xorshift recurrence through its documented full period.",
 ["inputs", "histories"], "all seeds and call histories", "Tests check one seed.", c("random.cpp", "random.h", "random_p.h"), [("xorshift128+", CORE + "random_p.h")], ["BLRandom API"], technique="property-based testing against reference generator", level_note=LN)

prop("C33", "Font feature and variation settings act as ordered maps",
 "For every history of setting, getting, querying and removing feature or variation values by tag, copying and comparing, the settings equal a sorted map from tag to value given the same operations, in the inline and the heap representation. Invalid tags or values are rejected with the settings unchanged.",
 ["histories"], "all finite histories over several settings objects", "Tests check a few tags in fixed orders.", c("fontfeaturesettings.cpp", "fontfeaturesettings_p.h", "fontvariationsettings.cpp", "fontvariationsettings_p.h", "fonttagdataids.cpp"), [("inline tag/value packing", CORE + "fontfeaturesettings.cpp")], ["BLFontFeatureSettings, BLFontVariationSettings API"], technique="stateful property-based testing against std::map model", level_note=LN)

prop("C34", "Font managers and codec registries return exactly the registered entries",
 "A font manager returns a registered face exactly when its family name and requested properties match a registered face, counts what was added, and ignores duplicates; a codec registry finds a codec by name, extension or data exactly when one of its registered codecs claims it. Registration and lookup histories never lose or invent entries.",
 ["histories", "inputs"], "all histories of adding faces and codecs and querying them", "Tests register a single face.", c("fontmanager.cpp", "fontmanager.h", "imagecodec.cpp", "imagecodec.h"), [("family map and ordering", CORE + "fontmanager.cpp")], ["BLFontManager, BLImageCodec API"], technique="stateful property-based testing against a registry model", level_note=LN)

prop("C35", "Threads may share immutable objects and use separate ones freely",
 "When several threads copy, read and release the same shared objects, and mutate and render with their own ones at the same time, no data race occurs, every thread sees the values it would see alone, and every object is destroyed exactly once.",
 ["schedules", "histories"], "all per-thread operation sequences over shared objects", "No test runs concurrent sharing under a race detector.", c("object.cpp", "object_p.h", "fontface.cpp", "fontmanager.cpp", "imagecodec.cpp", "image.cpp", "runtime.cpp") + [R + "threading/threadpool.cpp", R + "threading/uniqueidgenerator.cpp", R + "pipeline/piperuntime.cpp"], [("atomic reference counts", R + "threading/atomic_p.h")], ["results in each thread under ThreadSanitizer"], technique="generated concurrent histories under ThreadSanitizer with per-thread oracle", level_note=LN + " Races are detected by happens-before analysis on the executed schedules.")

prop("C36", "Results do not depend on which CPU features are used",
 "Every operation that has several implementations selected by CPU features (image codecs, checksums, compression, pixel conversion, matrix mapping, glyph decoding, gradients, rendering) gives the same result on every feature level of the host.",
 ["inputs", "configurations"], "all inputs x all feature levels the host offers", "In this build the optimised implementations are never selected, so no test runs them.", c("runtime.cpp", "pixelconverter.cpp", "matrix_avx.cpp", "pixelconverter_avx2.cpp", "pixelconverter_ssse3.cpp") + [R + "codec/pngops_avx.cpp", R + "compression/checksum_sse4_2.cpp", R + "compression/deflatedecoderfast_avx2.cpp", R + "opentype/otglyf_avx2.cpp", R + "opentype/otglyf_sse4_2.cpp", R + "pixelops/interpolation_avx2.cpp"], [("feature dispatch", CORE + "runtime.cpp")], ["public API results under a forced feature level (guarded hook)"], technique="differential property-based testing across feature levels", level_note=LN)

prop("C37", "Glyph buffers and text measurement stay consistent",
 "For every history of glyph buffer operations (set text, set glyphs, shape, position, clear, reset, copy flags), content, size, flags and run data are consistent; measuring text gives the advances and bounding boxes of its shaped glyphs, scales linearly with font size, and mapping text to glyphs agrees with mapping each character alone.",
 ["histories", "inputs"], "all histories over glyph buffers, fonts and sizes", "Tests do not check measurement against outlines.", c("glyphbuffer.cpp", "font.cpp", "glyphrun.h"), [("glyph buffer state", CORE + "glyphbuffer.cpp")], ["BLGlyphBuffer, BLFont::get_text_metrics, get_glyph_bounds, get_glyph_advances"], technique="stateful property-based testing", level_note=LN)

NOT_APPLICABLE = {}
HOOKS = {"guard": "BL_BUILD_VERIF_HOOKS", "enable": "check.py compiles /repo's sources with -DBL_BUILD_VERIF_HOOKS, which adds bl_verif_set_cpu_features() to blend2d/core/runtime.cpp (used by C36)", "source_commits": ["2e5a1dac713fde02f4613b8866c5bfc7cdb6abc2"]}
NOTES = "One C++ harness per property under harness/, sharing the engine harness/pbt.h; check.py builds /repo's sources with ASAN and runs it. See DESIGN.md."
