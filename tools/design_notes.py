# per property: (generated, oracle, bounds)
D = {
"C01": ("histories of up to ~60 operations over a family of arrays of every element type (static, dynamic, external, shared, aliased arguments)", "std::vector model per array compared after every step; reference counts of object items; ASAN", "sizes up to a few thousand items; capacity policy only checked as an invariant"),
"C02": ("histories over a family of strings: append/insert/replace/remove/printf/find/compare with embedded NULs and self-aliasing", "std::string model and a libc snprintf oracle", "locale 'C'; strings up to a few KiB"),
"C03": ("histories of bit/range/words operations on static and dynamic bit arrays, including sharing", "std::vector<bool> model, read through every accessor", "up to a few thousand bits; `combine` is declared but not implemented by the library, so it is not exercised"),
"C04": ("histories mixing bits, ranges, word runs, chops, builders, comparison and iteration with indices clustered near segment and 2^32 borders", "ordered interval set model, every query checked over probe points", "dense runs up to 2^32-1"),
"C08": ("matrices of each type class, random and degenerate, operation histories, point arrays of every length and alignment", "the same algebra in long double", "relative error bound from the number of operations; overflow to infinity excluded"),
"C12": ("random polygons / rectangles / curves with coordinates from sub-pixel to far outside the image, both fill rules, A8 and 32-bit targets", "exact area integration of the 24.8 fixed-point polygon per pixel; bounds by supersampling for curves", "tolerance = 24.8 quantisation of edges"),
"C13": ("every operator, destination format, solid / pattern source, alpha and mask", "scalar formula per pixel; refused operators must leave the image unchanged", "operators the reference pipeline does not implement return an error (checked)"),
"C14": ("random scenes with nested clips, huge and degenerate geometry, images with guard bands, sub-image targets", "bytes outside the clip and image unchanged, ASAN, CPU limit", "images up to ~100 px"),
"C15": ("random scenes executed by the synchronous and by multi-threaded contexts (1-16 threads, small queue limits)", "pixel equality", "schedules as produced by the OS scheduler"),
"C20": ("sequences of mask fills: A8 masks of any size and content, mask areas (also invalid), integer and floating positions, translations, clips, alphas, solid / gradient / pattern styles (set or explicit), three destination formats, repainting the mask after the call, synchronous and asynchronous contexts; every operator; masks of other formats", "exact integer formula per pixel with the source taken from an unmasked SRC_COPY fill; pixels outside the mask or clip bit-identical; refused calls leave the image unchanged", "masks are implemented only at whole-pixel positions: other placements must be refused; asynchronous runs are compared within one unit per step"),
"C19": ("images of every format wrapped around exactly-sized memory (also bottom-up), areas, all nine extend modes, both qualities, matrices of every class (identity, whole and fractional translation, scale, rotation, swap, extreme scales) as pattern and context transformation and every style transform mode, drawn through fill_all / rectangles / polygons; blits (point / rectangle, integer / floating) with and without area; invalid areas and extend modes in every constructor and create()", "inverse mapping in long double: nearest must be one of the candidates within the fixed-point error (normally a single one), bilinear within the range of the ideal interpolation plus rounding; whole-pixel blits exact; uncovered pixels bit-identical; reads outside the image trip ASAN, reads outside the area give wrong colours", "translations are snapped to 1/256 pixel; partially covered blit border pixels may be either clamped or reflected"),
"C18": ('stop-editing histories on three gradients that share data (add, replace, remove by index / range / offset, assign sorted, unsorted and duplicate arrays, values, types, extend modes, transforms, reserve / shrink, create and constructors with all arguments); gradients that are edited after they were painted; linear, radial (also focal) and conic gradients with 1–9 stops, all extend modes, both qualities, gradient and context matrices of every class, painted through fill_all, rectangles and paths', 'a vector model of the stops (at most two per offset, order of insertion kept) plus equality; an edited gradient must paint like a new one made from its data; for painting, the gradient position of every pixel centre is evaluated in long double from the geometric definition and each channel must lie in the range the colour ramp takes within one look-up step', 'ranges allow 2.6 look-up entries (256 per ramp) and a single-precision term for radial and conic gradients; pixels next to the conic centre and outside a focal cone are not judged'),
"C17": ('random shapes of every geometry type, styles of every kind, states (operator, alphas, clip, transform, fill rule, stroke options), drawn through every overload; colours expressed as solid, pattern or gradient; fractional clips against fractional rectangles; clears; composed transforms; the same region described by differently ordered, reversed, re-started, opened or padded paths; whole-pixel moves; transformed context against transformed path', 'metamorphic: the images of two ways of drawing are compared pixel by pixel, exactly where the geometry handed to the rasterizer is identical', 'up to 2–8 units where the rasterizer rounds differently (reversed edges, edges cut at the image border, curves, non-dyadic transforms); for moved strokes pixels next to joins are not compared; rectangles with negative sizes are left out'),
"C09": ('histories of up to 30 calls over three paths (vertices, segments, every box/line/polygon shape and array view in both directions with and without a matrix, curved shapes, arcs, sub-path appending with ranges, translation and matrices, reversing in both modes, set_vertex_at, remove_range, transform, fit_to, modify_op, reserve, shrink, sharing, deep copies, moves, self-appending)', 'a list of (command, vertex) updated by the obvious definition of each call; info flags, control box, figure range, last vertex, closest vertex and equality recomputed from the list; no block leaked', '30 calls, a few hundred vertices; transformed values within 1e-9, everything else bit-equal; reversing predicted for whole figures only'),
"C10": ('random shape parameters (circles, ellipses, rounded rectangles, arcs, chords, pies, SVG endpoint arcs, arc_to in every continuation state, quadrants) and random paths of lines, quadratics, conics and cubics with degenerate and axis-aligned pieces; hit points include the exact levels of vertices and extrema', 'analytic ellipse (every sample on it, angle monotone, right start and end), SVG 1.1 F.6.5 computed independently, exact extrema of every curve, winding number of a 200-piece polyline per curve', 'coordinates up to 2000; arcs 4e-4 relative; points clear of the outline by the polyline deviation'),
"C11": ('polylines (random, repeated, exactly collinear and anti-parallel points; several figures), curve paths with degenerate and collinear curves and conics, stroke options over all caps, joins, miter limits and widths; destinations with content, ranges, self-stroking; contexts with both transform orders', 'analytic union of segment rectangles, join wedges/kites/sectors and caps (poly-lines), distance to the densely sampled centerline (curves), concatenation of strokes of single figures (append), pixels of the filled outline (context)', 'points within the border tolerance are skipped (1e-7 for lines, 2% of the half width for curves); inside points of curves only decided when no radius of curvature is below 1.4 half widths'),
"C21": ('formats: native, 565/1555/4444, 24-bit, 10-10-10-2, any byte permutation of 8888, random component sizes (1–12 bits), orders and gaps of 16/24/32-bit pixels, byte-swapped, LUM/LUMA, A8 and 1/2/4/8-bit indexed sources with random palettes (with the copy/alterable flags); rectangles with padding, gaps, negative strides, unaligned pointers, up to 1200 px wide (several multi-step chunks); copied/assigned converters whose original is gone', 'per-pixel reference: widen to 8 bits by bit replication, premultiply (exact rounded division by 255) or un-premultiply (±1), narrow; unused bytes of XRGB32 are 255; gap bytes are 0; source, palette and bytes outside of the destination are unchanged; sanitize accepts exactly valid formats and preserves component values', "un-premultiplied results of invalid premultiplied pixels aren't compared; pairs reported as not implemented are accepted unless both formats have RGB"),
"C23": ('images of every format, size shape (also strips), content kind (noise, palettes, runs, tiles, gradients, small differences), row padding and negative strides; every PNG compression level; encoders reused or writing into filled buffers', "independent readers of the three formats (PNG through zlib inflate and CRC check), exact pixels for every pixel; Blend2D's own decoders on the same bytes; wrong arguments rejected without changing the buffer", 'images up to 220 px or strips of 1760 px'),
"C24": ('PNG (all colour types and depths up to 8 bits, every filter, Adam7, PLTE/tRNS, ancillary chunks, IDAT splits, own DEFLATE emitter with stored/fixed/dynamic blocks and arbitrary prefix codes; APNG with sub-frames, dispose and blend modes), QOI (every opcode mix), BMP (OS/2 and Windows headers V1-V5, 1-32 bits, masks, RLE4/RLE8, top-down), JPEG (baseline/extended/progressive, arbitrary scan scripts with successive approximation, prefix codes, restart intervals, samplings, fill bytes, JFIF/APPn/COM) generated from random pixels or coefficients', 'the pixels the generator encoded (lossless), a composition model for APNG, a double-precision IDCT and colour conversion with an interval per pixel for JPEG (chroma may take any value of the 3x3 neighbourhood, because upsampling is not specified); read_info against the file; repeated, restarted and shared-image reads', 'images up to 150 pixels per side; ±1 for BMP channels narrower than 8 bits, ±2 after APNG blending, ±1-2 per JPEG plane'),
"C25": ('conforming files of every codec (the C24 generators) with 1-6 mutations (bits, bytes, integers of interest, deletions, duplications, insertions, truncation, runs, PNG chunk and JPEG marker surgery), spliced files, prefixes and random bytes; coverage-guided tapes keep mutants that reach new code; input is decoded whole, in changing prefixes, by explicit and detected codecs', 'AddressSanitizer on exact-size input buffers, a CPU limit per case, image invariants (size, format, stride, premultiplication), read_info/read_frame agreement, the same outcome and pixels from two decoders whose heap blocks were filled with different bytes (uninitialized data), and a restarted decoder decoding a valid file', 'inputs up to about 30 KB; error codes of failures are not compared'),
"C22": ('histories of create / create_from_data (positive and negative strides, row gaps, read-only or writable, with or without a destroy function) / weak, deep and move assignment / make_mutable and writes / convert / scale (also in place) / reset / invalid calls over 4 images; separate scaling cases with sources up to 3000 pixels long and constant, gradient, random and checkerboard content', 'model of shared image impls (pixels, reference counts, external blocks with guard bytes and destroy counters) compared with every image after every step; conversion rule per format pair; reference separable filter in double precision with a tolerance of (variation of the contributing pixels)/256 per pass, exact for constant content, range check for filters without negative lobes', 'sizes up to 3000x4 / 100x100, 24 operations; invalid sizes, strides, formats and filters'),
"C27": ('Fonts assembled table by table from a random model (all cmap formats with decoy encodings, name records in several platforms/languages, OS/2 versions, short/long loca, simple and composite glyphs with every flag compression and point pattern, out-of-order extras)', 'The model itself: names, metrics, weights, character mapping and coverage, advances, bounds and table contents; outlines against an independent TrueType contour expansion, compared figure by figure up to rotation of the start point', 'Fonts up to 12 glyphs, composites up to the nesting the generator makes; TrueType outlines and CFF charstrings; no variations (the library has none)'),
"C26": ('Mutated bundled font, mutated generated TrueType and CFF fonts with GSUB and GPOS tables of every lookup type, damaged layout tables at the end of the data, nested and cyclic composite glyphs, collections, random bytes; structure-aware mutations focus on one table and use sizes, offsets and boundary values; coverage-guided', 'ASAN on an exact-size buffer, a CPU limit per case, tables inside the data, glyph counts and buffer sizes within limits', '83 k fonts quick, 3.2 M thorough; glyph runs of at most 60 characters'),
"C28": ("Synthetic fonts (fontgen.h) with GSUB/GPOS tables built from a model by layoutgen.h (lookup types 1,2,3,4,8 / 1,2, extension lookups, both coverage and class definition formats, DFLT/latn scripts, required features, several features sharing lookups) and kern tables (Windows and Mac headers, formats 0 sorted/unsorted, 2, 3, override, vertical), text of 1-520 glyphs, feature settings; sub-check 'lookups' applies explicit lookup sets through apply_gsub/apply_gpos/apply_kerning", 'A reference shaper in layoutgen.h works on the model (not on the serialized bytes): lookups in index order, first matching sub-table per glyph; glyphs, clusters, offsets, advances and text width are compared exactly', 'Lookup flags 0; context lookups (the library does not implement nested lookups), GPOS 3-6, cross-stream and minimum kerning are outside; default on/off state is only relied on for calt, clig, cpsp, kern, liga'),
"C30": ('The ABeeZee font and synthetic TrueType fonts with layout tables; strings in UTF-8/16/32 (sized and NUL-terminated), shaped runs and explicit runs (no placement, advances+offsets, design and user units, arbitrary strides); size, meta and user transformation, clip, stroke options, fill rule, colours, styles, threads', "Metamorphic: the same drawing done by fill_path/stroke_path of outlines that are fetched and placed one by one; 'exact' uses dyadic numbers and demands identical images, 'close' allows a few pixels; 'outlines' compares get_glyph_run_outlines with concatenated get_glyph_outlines and the sink's calls", 'Images up to 160x120; absolute placement units are a known finding'),
"C29": ('byte, 16-bit and 32-bit sequences mixing valid code points of every length with stray, truncated, overlong, surrogate and out-of-range units, NUL-terminated or sized, in exactly sized heap blocks, several texts one after another in one buffer; every short sequence around the interesting lead bytes; drawing the text through a context', 'an independent decoder written from the definition (code points, clusters, flags), agreement of all encodings of one text, AddressSanitizer for reads past the end, pixel equality with the decoded run', 'texts of up to 3000 units; unpaired surrogates are passed through (non-strict mode)'),
"C37": ('histories of 4 to 24 operations over two glyph buffers and two fonts (generated without layout tables, generated with GSUB/GPOS/kern, the ABeeZee file, uninitialized): setting text and glyphs (also strided and backwards), clear, reset, move, map, shape, position, kern, apply GSUB/GPOS plans, measure, query bounds and advances; texts of 0 to 1500 characters measured at two sizes', 'a model of content, clusters, flags and placements whose steps are computed directly or performed on a fresh buffer without history; metrics recomputed from advances and bounds; exact scaling with the size; sums over characters', 'ids beyond 16 bits only for memory safety; a repeated position_glyphs with layout tables only keeps the glyphs'),
"C33": ('histories of up to 300 operations over three settings objects: setting, removing and querying registered, boolean, unknown and invalid tags with values around the inline and the documented limits, copy, move, swap, clear, reset, shrink, compare, rebuild in another order; the settings of a BLFont and of its copies', 'std::map with the documented acceptance rules; every object is compared with its map (size, view order, has, get) after every step, equality both ways with equality of the maps', 'negative and NaN variation values are not generated'),
"C31": ("histories over three scratch files and three handles: open modes, seek, read, write, truncate, info, move/swap, whole-file read (size limits, mapping flags) and write, images and fonts through files; at link time the library's read/write calls are made short or fail with EINTR/EIO/ENOSPC/EAGAIN and mmap fails", 'a model of files and cursors; counts compared with the bytes the intercepted calls moved; files re-read independently; open descriptors counted', 'POSIX only; growing by truncate unspecified; files whose size is reported as 0 (/proc) left out'),
"C32": ('seeds (small, extreme, those giving a zero state word, single bits, random), histories of seeding, drawing 32/64-bit and double values, copying and comparing three generators; states steered to extreme outputs; bin counts of 20000 values; the transition matrix extracted by driving single-bit states', 'splitmix64 seeding and the xorshift+ 23/18/5 recurrence, state compared after every step; doubles exactly the upper 52 bits; the order of the transition matrix over GF(2) against the documented period', 'replacement word for a zero state unspecified; the period is a known finding, because a repair fails an existing test that sign-extends half of the expected value'),
"C34": ('pools of fonts with colliding family names (case, prefixes), styles, weights and stretches; histories of adding, querying and copying three managers; custom codecs (names, extension lists, signatures, scores) registered, removed and searched, next to the built-in ones', 'a list of registered entries searched by the documented rules; every live allocation counted and every custom codec destroyed exactly once', 'whether weight or stretch decides first, and faces equal in all properties, are unspecified'),
"C36": ('a CPU feature level (none, SSE2 … AVX2, with or without the fast-multiplication hint) chosen per case through the guarded hook, then: the conversions of C21, the images of C24 and C23, the malformed images and fonts of C25 and C26, images to encode, JPEG files, matrices with point arrays, glyph outlines of generated fonts, scenes of C14', 'the oracles of those properties, or bit-exact equality with the results of the SSE2 level (outlines: 1e-9 relative)', "levels up to AVX2 if the host has it; AVX-512 and ARM code isn't built"),
"C07": ('values of every simple type with boundaries of all integer ranges and special doubles, put by all constructors and assignments into variants that held other objects; pairs biased to equal values of different types; colors with any component bits; every object type with random content; histories of assignments, copies, moves, swaps among 4 variants', 'an exact long double model of values and conversions; fingerprints of objects; a model of what each variant holds; allocation balance', 'comparison of BLRgba with other color types excluded'),
"C06": ('operation histories of every object type, encode/decode of images by each codec, text shaping and drawing, font manager use, and rendering of scenes (synchronous and with worker threads); in each the k-th allocation (or the k-th and all later ones) fails', 'an operation that reports failure says out of memory, its object compares equal to what it was before, retrying gives what the run without failures gave; a rendering that reports no error gives the image of the run without failures; the number of live blocks returns to what it was', 'k is swept over all (or up to 24 sampled) allocations of the operation; the libc allocator is the fault point'),
"C35": ('programs for 2–4 threads (read, copy, change an own copy, drop, draw with worker threads) over shared objects of all 17 types, shared by reference or as copies the last of which is dropped by any thread; one scene rendered by all threads; one font manager, face identities and the codec registry used by all threads; runtime cleanup meanwhile', "ThreadSanitizer reports no race; each thread's log of everything it read (and the pixels it rendered) equals the log of the same program run alone; the number of live blocks returns to what it was and external data is released exactly once", 'happens-before analysis of the schedules that ran; the cardinality cache of a bit set shared by reference is a known finding and kept out of the other sub-checks; the lazily stored character coverage of a face is compared by value only (TSan misreports failed compare-and-exchange)'),
"C05": ('histories over four variables of a type (strings, arrays, bit sets and arrays, paths, stroke options, images, gradients, patterns, feature and variation settings, font data, faces, fonts, codecs, variants): mutations, copy and move construction and assignment, self-assignment, swap, reset, copying through variants; histories where images, patterns, gradients, paths live in each other, in variants, in arrays of variants and in (saved) styles of a rendering context; and the functions of the C interface which no method of the C++ one calls: deep and weak assignments, moves, initializers of every array type, getters, images over the pixels of the application, generic properties', 'an object rebuilt by replaying the mutations of a variable from a default object, never copied (pools); remembered fingerprints (nested); equality must agree with fingerprints; the C++ methods (C functions); calls of the function which releases external pixels; allocation balance at the end', 'pools of 4 variables, 40 steps'),
"C16": ("histories of every setter (valid and invalid arguments), transform operations, user_to_meta, clips, restore_clipping, saves with and without cookies, restores (plain, by cookie, unknown and foreign cookie), saved-state limits and drawing, on synchronous and asynchronous contexts", "a model of every getter (only the named properties may change; restore brings back the saved snapshot bit for bit), plus pixel equality with a fresh context that is given only the effective operations", "up to 40 steps; stroke/paths as the scene generator makes them"),
}
