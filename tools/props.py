prop("C01", "Uncompressed PLY write then read returns bit-identical data",
     "Saving a scene in PLY format uncompressed and reading it back returns the same number of Gaussians, the same SH degree, PLY-format tags and every float32 value of every field bit for bit, for every SH degree 0-3 and every scene size including zero. "
     "It holds whichever public entry point writes (container save, writer function, raw arrays) and whatever the in-memory provenance of the data (fresh, consolidated, sliced, copied, made contiguous, strided or previously read from a file). "
     "Writing what was read produces a byte-identical file.",
     ["inputs", "histories"], "every float32 bit pattern of every field (NaN, infinities and denormals included), every N and SH degree, every write path and provenance",
     "Tests write a few random arrays; a wrong stride, order, view or base layout shows only for particular provenance/degree/size combinations.",
     [W, R, G],
     [("header construction and row assembly", f"{W} write_uncompressed, _build_header_fast"), ("interleaving kernels", f"{G} _interleave_sh0_jit, _interleave_shn_jit"),
      ("row decoding to views", f"{R} read_uncompressed"), ("zero-copy base", f"{G} consolidate, _recreate_from_base")],
     "All float32 bit patterns symbolic, N<=7 (thorough 300), degrees 0-3, all write paths x provenances listed in the evidence; trusts the numpy/file-system model, which is compared with real runs on every witness.",
     [("_base", "row-major float32 buffer the field arrays are views of", G)])

prop("C02", "Uncompressed PLY files follow the standard 3D Gaussian layout exactly",
     "An uncompressed file consists of exactly the standard header (binary_little_endian 1.0, element vertex N, float properties x y z, f_dc_0..2, f_rest_0.., opacity, scale_0..2, rot_0..3) followed by N little-endian float32 rows in that order, with the higher-order coefficients grouped by colour channel, and nothing else, for every degree, size, provenance and write entry point. "
     "Conversely, any file of that layout, including ones with comment or obj_info lines anywhere in the header, a header longer than one read block, or extra bytes after the data, is read back value for value, and format detection reports it as uncompressed with its degree.",
     ["inputs"], "every float32 bit pattern, degrees 0-3, sizes including 0, comment lines at every position, every write entry point and provenance",
     "Round-trip tests pass when writer and reader make the same mistake; interoperability needs each side compared with an independent description for all values and header variations.",
     [W, R, F],
     [("header text and row writer", f"{W} write_uncompressed, _build_header_fast"), ("header parser", f"{F} _parse_ply_header / {R} header reading"), ("row decoding", f"{R} read_uncompressed")],
     "All value bit patterns symbolic, N in {0,1,2,11,257} (thorough 1000), degrees 0-3, header decorations listed in the evidence; the layout description in checks/plyspec.py is the oracle.")

prop("C03", "After any edits, every derived form equals the visible fields",
     "After any sequence of public operations (assigning or editing fields, consolidating, slicing, masking, indexing, copying, concatenating, making contiguous, converting formats or colours, applying masks, re-reading) the container's visible field arrays are the single source of truth. "
     "Saving, copying, slicing, masking, indexing, consolidating, making contiguous, concatenating or unpacking afterwards yields exactly the values the fields showed at that moment, bit for bit.",
     ["histories", "inputs"], "all sequences of operations up to the stated length from each provenance, all float32 values",
     "The internal base buffer is a second copy of the data; stale-copy bugs need particular operation sequences that example tests do not enumerate.",
     [G, W, U],
     [("base buffer and views", f"{G} _recreate_from_base, _slice_from_base, consolidate"), ("invalidation on assignment", f"{G} __setattr__"), ("in-place conversion", f"{U} apply_pre_activations, apply_pre_deactivations")],
     "Every history of 2 (thorough 3) operations out of 31, N=3, degrees 0/1 (thorough 0-3), values symbolic, conversion arithmetic uninterpreted.",
     [("_base", "row-major buffer that must agree with the field arrays", G)])

prop("C04", "Format tags tell what is stored, follow every operation, and drive saving",
     "The format tags of a container (log or linear scales, logit or linear opacities, SH or RGB colour, SH order) are those of the preset it was made with, become the target format after each conversion (in place or into a new object), pass unchanged to every derived object, are never shared between objects, and a file that was read has PLY tags; unknown presets, degrees or tag names are rejected with ValueError. "
     "Saving, compressed or not, writes exactly what explicitly converting the fields not in PLY format and then saving would write, and conversions leave a field that already has the target format bit for bit alone in mixed data. "
     "Automatic detection calls all-negative or very large scales logs, small positive scales linear, opacities all inside [0,1] linear, all outside logits, and empty data PLY.",
     ["histories", "inputs", "configurations"], "all tag mixtures x operation sequences up to the stated length x float32 values",
     "A wrong tag silently saves wrong values; it appears only for particular mixtures of formats and operation orders.",
     [G, U, W],
     [("tag creation and queries", f"{G} create_ply_format, create_rasterizer_format, from_arrays, format_state"), ("conversions update tags", f"{G} normalize, denormalize, to_rgb, to_sh; {U} apply_pre_activations, apply_pre_deactivations"),
      ("conversion on saving", f"{W} _ensure_ply_format, plywrite"), ("detection", f"{G} _detect_format_from_values")],
     "Every history of 2 operations out of 21 from all 8 tag mixtures and of 3 from one (thorough 3 from all); conversion arithmetic uninterpreted except in automatic detection (IEEE floats, up to 6 scale values, thorough 15).")

prop("C05", "Compressed round trip stays within the quantisation error",
     "Writing a scene compressed and reading it back returns the same number of Gaussians and SH degree, with every position, log scale (limited to [-20,20]) and base colour within half a quantisation step of its chunk of 256 (1/2047 of the chunk's range for x and z, 1/1023 for y, 1/255 for colours), however narrow or wide the range is. "
     "Linear opacity is within half of 1/255, higher-order coefficients limited to [-4,4] are within 1/64, and rotations are the same up to overall sign and length with every component of the unit quaternion within 1/1400. "
     "It holds on every entry point, for chunks that are full, partial or hold a single Gaussian.",
     ["inputs"], "every finite value in the stated ranges, chunk sizes 1-3 and chunk edges at 256/257/513, degrees 0-3",
     "Tests check loose tolerances on random scenes; range floors, clamps, ties, negative largest quaternion components and chunk boundaries need particular values.",
     [W, R], [("quantisation", f"{W} _compress_data_internal, _pack_all_jit, _compute_chunk_bounds_jit"), ("dequantisation", f"{R} _decompress_data_internal, _unpack_all_jit, _unpack_sh_jit")],
     "One component symbolic at a time with 1-3 symbolic rows (chunk-edge rows for N 256/257/513); |means|<=1000, scales in [-30,30], |sh0|<=20, logits in [-30,30], |shN|<=10, quaternion components in [-10,10] with norm>=0.01; decided in exact reals with slack for float rounding.")

prop("C06", "All ways of writing or reading the compressed form agree exactly",
     "For data in PLY format the compressed writer function, the compressed flag, a name ending in .compressed.ply or .ply_compressed, container save, compression to bytes and the joined parts of compression to arrays all produce the same bytes, whatever the provenance of the arrays and whether higher-order coefficients are passed as (N,K,3) or flat in file order; the bytes are the standard compressed header followed by ceil(N/256) chunk records, N vertices and the SH bytes. "
     "Reading the file by any entry point or decompressing its bytes gives identical containers with PLY tags and all rows selected. "
     "The compressed flag writes a.ply as a.compressed.ply and appends .compressed.ply to any name not ending in .ply or already marked compressed, and creates no other file.",
     ["inputs", "configurations"], "every float32 bit pattern, degrees 0-3, sizes around chunk boundaries, every entry point, provenance and listed file name",
     "Tests compare a few entry points on one random scene; differences appear for particular provenance, degree or size combinations.",
     [W, R],
     [("entry points", f"{W} write_compressed, compress_to_bytes, compress_to_arrays, plywrite"), ("normalisation of inputs", f"{W} _validate_and_normalize_inputs, _flatten_shn"), ("readers", f"{R} read_compressed, decompress_from_bytes, plyread")],
     "N in {0..3, 257} (thorough 255..257, 513), degrees 0-3, all values symbolic with quantisation arithmetic uninterpreted (shared by both sides).")

prop("C07", "Damaged or inconsistent files are rejected, never misread",
     "Reading a truncated file (cut anywhere in the payload or header), a file whose header is malformed, contradicts itself or declares an unsupported layout, or bytes that are not such a file raises ValueError (or a file error for a missing file) from every reader, never hangs, never reads outside the data and never returns a container with values the file does not hold. "
     "Format detection of such files never raises.",
     ["inputs", "fault_sequences"], "every cut position, every listed header mutation at every line, every payload byte value",
     "Tests feed two or three broken files; a reader may accept a cut or contradictory file and return garbage only for particular positions.",
     [R, F, TC],
     [("header validation", f"{F} _parse_ply_header, _is_compressed_format; {R} header checks"), ("length checks", f"{R} read_uncompressed, read_compressed, decompress_from_bytes"), ("index ranges in kernels", f"{R} unpacking kernels (bounds checks off)")],
     "N<=2 and 258, degrees 0-3, both formats, payload bytes symbolic, one header mutation at a time, every array access of every kernel checked against its bounds.")

prop("C08", "Concatenation keeps every row of every input in order",
     "Adding, summing or concatenating scenes of one SH degree and one set of format tags gives a scene with the rows of the inputs in order, bit for bit, with the same tags and degree, and different degrees or tags are rejected with ValueError. "
     "Pairwise addition keeps mask layers: both sides' layers joined when their number agrees, False filled in for a side without layers, dropped when the numbers differ, names taken from the left side if it has any; list concatenation carries no masks, and an empty list is rejected. "
     "The result does not depend on the provenance of the inputs, and inputs stay as they were.",
     ["inputs", "histories", "configurations"], "all pairs of provenances, sizes (including empty scenes), degrees and mask layouts; all values",
     "Two code paths (base buffers and separate arrays) and many mask layouts multiply into cases example tests do not cover.",
     [G], [("pairwise", f"{G} add, __add__, __radd__"), ("list", f"{G} concatenate")],
     "2-3 scenes of 0..3 rows, every value and mask bit symbolic, all pairs of provenances and mask layouts.")

prop("C09", "Indexing and slicing select exactly the rows NumPy would",
     "Indexing with any integer, slice, boolean mask or integer list selects exactly the rows that indexing a NumPy array of that length would, in that order, with all fields, mask layers, names and tags; out-of-range integers and wrong-length masks raise IndexError and ValueError respectively. "
     "Plain slices are views of the source (a write is seen on both sides), while masks, lists and copy_slice give independent copies, whatever the provenance of the source. "
     "A single integer gives the tuple of that row's values, get_gaussian a one-row container, and iteration all rows in order.",
     ["inputs", "histories"], "every slice/start/stop/step combination, every mask, every short index list, including negatives, on every provenance; two chained selections",
     "Edge cases (negative steps, empty results, negative indices on consolidated data) are too many to sample.",
     [G], [("selection", f"{G} __getitem__, _slice_from_base"), ("copies", f"{G} copy_slice, get_gaussian")],
     "N 0..4, all slice parameters in -N-2..N+2 with steps up to 3, all masks, index lists of length 2 (thorough 3); values symbolic.")

prop("C10", "Mask layers behave as an ordered dictionary of boolean columns",
     "After any sequence of operations, mask layers behave as an ordered dictionary from unique names to boolean columns of the scene's length: adding appends a private copy (duplicate names, including default names of unnamed layers, and wrong lengths are rejected with ValueError), removing deletes exactly that layer, getting returns exactly its bits, and missing names are rejected. "
     "Combining layers with 'and' / 'or' gives the row-wise conjunction / disjunction of exactly the chosen layers, in any number, and applying masks keeps exactly the rows so selected, in order, with all their fields and layers, leaving the source alone unless done in place. "
     "Layers of one container are never altered through another.",
     ["histories", "inputs"], "every history of operations up to the stated length from every kind of starting layers, all mask bits",
     "Layer state is an array plus a name list with several shapes ((N,), (N,1), (N,L), unnamed); sequences reach combinations that tests do not.",
     [G], [("layers", f"{G} add_mask_layer, get_mask_layer, remove_mask_layer"), ("combination kernels", f"{G} combine_masks, _combine_masks_numba_and/or"), ("filtering", f"{G} apply_masks")],
     "Histories of 2 (thorough 3) operations out of 16, N=3, all mask bits symbolic, combinations of up to 4 layers.",
     [("masks, mask_names", "boolean columns and their names", G)])

prop("C11", "Copies share nothing with their source; slices are live views",
     "A container obtained by copying, copy_slice, mask or index-list selection, applying masks, consolidating, adding, summing or concatenating two or more scenes, or converting into a new object by normalize/denormalize shares no array, mask or name list with its sources. "
     "Whatever is done to either side afterwards (writing fields or masks, renaming, adding or removing layers, in-place conversions, changing tags) leaves every value the other shows, saves, copies or slices unchanged, whereas writing through a plain slice is seen in its source and vice versa.",
     ["histories", "inputs"], "every way of copying x every later change on either side x provenance x degree, all values",
     "Aliasing bugs need a copy made one particular way and then a particular mutation; tests check a few pairs.",
     [G, U], [("copying", f"{G} copy, copy_slice, consolidate, add, concatenate"), ("selection", f"{G} __getitem__, apply_masks"), ("conversion copies", f"{U} apply_pre_activations/deactivations(inplace=False)")],
     "N 1..3, degrees 0-3, 0-2 layers, 25 ways of copying x 9 later changes on either side; values symbolic.")

prop("C12", "normalize and denormalize convert scales, opacities and rotations exactly",
     "Converting to PLY form replaces each linear scale by log(max(scale, 1e-9)) and each linear opacity by logit(clamp(opacity, 1e-4, 1-1e-4)); converting to linear form replaces each log scale by exp clamped to [1e-4, 100], each logit by its sigmoid and each quaternion by the unit quaternion of the same direction (norms below 1e-8 become the identity (0,0,0,1)), all within float32 accuracy, leaving positions, colours and a field already in the target form alone when only one of scales and opacities needs converting. "
     "apply_pre_activations and apply_pre_deactivations do the same with the limits given to them, keep opacities of shape (N,1) as such, and refuse impossible limits or inconsistent shapes without changing anything. "
     "One conversion undoes the other inside the limits, in place or into a new object, on every provenance.",
     ["inputs", "configurations", "histories"], "every finite scale, logit and quaternion in the stated ranges, all tag mixtures, provenances and ways of calling",
     "Tests compare a few values with NumPy formulas; clamps, the zero-quaternion guard and single-field conversions of mixed data act only for particular values and tags.",
     [U, G], [("kernels", f"{U} _activate_gaussians_numba, _deactivate_gaussians_numba"), ("argument checks", f"{U} apply_pre_activations, apply_pre_deactivations"),
              ("choice of fields", f"{G} normalize, denormalize")],
     "n 0..2, log scales in [-30,30], linear scales in [-1,1000], logits in [-80,80], opacities in [-1,2], quaternion components in [-100,100], one field symbolic at a time; float rounding as error bounds, quaternions and inverses in exact reals.")

prop("C13", "SH to RGB colour conversion is exact, invertible and touches colour only",
     "sh2rgb computes 0.28209479177387814*x + 0.5 and rgb2sh its inverse for every number and every element of an array of any shape, within float accuracy, returning a new object and leaving the argument alone. "
     "to_rgb and to_sh do the same to the base colour of a container, update its colour tag, leave all other fields, masks and names alone, and change the source only when done in place. "
     "Each conversion undoes the other.",
     ["inputs", "configurations"], "every value up to 1000 in magnitude, shapes, dtypes, layouts and provenances listed",
     "A wrong constant or a layout the in-place kernel does not handle shows only for particular values, dtypes or provenances.",
     [U, G], [("functions", f"{U} sh2rgb, rgb2sh"), ("in-place kernels", f"{U} _sh2rgb_inplace_jit, _rgb2sh_inplace_jit"), ("container", f"{G} to_rgb, to_sh")],
     "|values| <= 1000, arrays up to 12 elements, containers of 0..3 Gaussians (thorough 5), 8 provenances; float rounding as error bounds.")

prop("C14", "SOG bundles are decoded by the published rules from every container",
     "Reading a SOG scene of either metadata layout gives, for Gaussian i, the values of pixel i of each texture: positions are sign(v)*(exp|v|-1) of the 16-bit code scaled to the stated range (a range of width zero counts as one), rotations are the three stored components (byte/255*2-1)/sqrt 2 with the component named by the tag rebuilt to unit length and not negative (other tags give 0,0,0,1), scales, colours and higher-order coefficients are the codebook entries or the linear values of their bytes, and opacity is the logit of the byte limited to [1e-6, 1-1e-6] or its linear logit value; a palette label outside the palette gives zero coefficients. "
     "The result is the same whether it comes from a folder, a .sog file or bytes, is float32 with PLY tags, the right degree and an all-true mask. "
     "A missing file or entry, an unreadable image or archive, a texture with fewer pixels than Gaussians, a label beyond its codebook or a range without a bound for every channel raises ValueError; values never come from outside the data.",
     ["inputs"], "every pixel byte, codebook entry and range bound; both layouts, degrees 0-3, every container and every missing or short part",
     "Tests decode random textures and look at shapes and ranges; a wrong channel, byte order, palette stride or bound shows only for particular bytes.",
     [S], [("texture decoders", f"{S} _decode_means_jit, _unpack_quats_jit, _decode_scales_jit, _decode_colors_jit, _decode_shn_jit and the linear variants"), ("containers and metadata", f"{S} sogread, _load_webp_image")],
     "1-4 Gaussians, textures of 1-6 pixels, palettes to 128 (one of 1088) entries, position bounds in [-20,20], other bounds and codebook entries in [-100,100]; exact reals with slack 1e-3 or less; the image, zip and JSON libraries are trusted.")

prop("C15", "Compressed files hold the standard PlayCanvas codes and are decoded by them",
     "Each chunk record holds the exact minimum and maximum of the positions, log scales (limited to [-20,20]) and colours (0.28209479*sh0+0.5) of its 256 Gaussians; each vertex holds 11-10-11 bit positions and scales, 8-8-8 bit colours and 8-bit linear opacity, each the value scaled to the chunk's range and rounded to nearest, and a rotation as 2 bits naming the largest component and three 10-bit codes of the others, sign chosen so that the largest is positive; higher-order coefficients are bytes floor(32*x+128) limited to 0..255, grouped by channel. "
     "Reading any file of that layout, whoever wrote it, applies the inverse: minimum plus code times range, logit of the opacity code (10 and -10 at the ends), unit quaternion with the missing component computed and not negative, and (byte-127.5)/32.",
     ["inputs"], "every code value, every finite value in the stated ranges, chunk sizes 1-3 and chunk edges at 256/257/513, degrees 0-3",
     "Round-trip tests pass when writer and reader share a mistake, and files of other tools contain codes the writer never produces.",
     [W, R], [("packing", f"{W} _pack_all_jit, _compute_chunk_bounds_jit, _compress_data_internal"), ("unpacking", f"{R} _unpack_all_jit, _unpack_sh_jit")],
     "Writing: as for the round-trip property; reading: all codes symbolic, chunk bounds in [-100,100], N in {1,2,257}; exact reals with slack 1% of a code step (written) and 2e-4 (read); colour codes only where the chunk's colour range is at least 0.05.")

prop("C16", "The tensor codec and the CPU codec read and write the same compressed files",
     "Writing a GSTensor in compressed form (save, save_compressed, plywrite_gpu, compress_gpu) gives a file with the same header, chunk bounds and quantisation codes the PlayCanvas rule prescribes, and reading one (load, from_compressed, plyread_gpu on any device string) applies the inverse rule, so either codec reads what the other wrote; the end opacity codes decode to fully transparent or opaque within 1e-3. "
     "This holds for every size including zero and every degree; the tensor being written is left alone and data in linear, RGB or mixed format is converted first, each field once. "
     "Files that are truncated, uncompressed, or have other counts, names or types than the format are rejected with ValueError.",
     ["inputs"], "every code value, every finite value in the stated ranges, sizes 0-2 and chunk edges at 256/257, degrees 0-3, all tag mixtures, all entry points",
     "The tensor codec is a second implementation of the format; tests compare a few random scenes with wide tolerances.",
     [TC, TI, T, R], [("packing", f"{TC} compress_gpu, _pack_positions_gpu, _pack_scales_gpu, _pack_colors_and_opacities_gpu, _pack_quaternions_gpu, _pack_sh_gpu, _compute_chunk_bounds_gpu"),
      ("unpacking", f"{TC} decompress_gpu, _unpack_positions_gpu, _unpack_scales_gpu, _unpack_colors_and_opacities_gpu, _unpack_quaternions_gpu, _unpack_sh_gpu"),
      ("files", f"{TC} read_compressed_gpu, write_compressed_gpu; {TI} plyread_gpu, plywrite_gpu; {T} save, load")],
     "Devices cpu and cpu:0 (the latter takes the byte-transfer path); torch operators are modelled and each path is replayed on real torch; ranges and slack as for the CPU codec; CUDA and torch.compile outside.")

prop("C17", "Tensor containers hold, select, join, save and load exactly the same values",
     "Moving a scene from the CPU container to a GSTensor and back, whatever the in-memory provenance on either side and with or without a mask selection, returns the same values, shapes, degree, mask layers and format tags bit for bit and leaves the source alone; indexing with an integer, slice, mask or index list selects the rows NumPy would and rejects indices out of range. "
     "Joining puts the Gaussians of the second after the first, fills missing mask layers as documented and rejects scenes of other degree or format; dtype changes convert every value and nothing else. "
     "An uncompressed save is byte-identical to the CPU container's, loading it gives the same tensors, and consolidating, cloning or unpacking changes no visible value.",
     ["inputs", "histories"], "every float32 bit pattern and mask bit, every index/slice/mask/list, degrees 0-3, sizes 0-4, all provenances and dtypes",
     "The tensor container keeps its own base buffer and slicing rules; errors show only for particular provenance, degree and index combinations.",
     [T, G], [("transfer", f"{T} from_gsdata, to_gsdata, _recreate_from_base"), ("selection", f"{T} __getitem__, _slice_from_base"), ("joining", f"{T} add, __add__"), ("files", f"{T} save, load")],
     "All bit patterns symbolic, N<=4, degrees 0-3, 11 tensor x 10 array provenances, float16/32/64; torch operators modelled, each path replayed on real torch; device cpu.",
     [("_base", "row-major tensor the field tensors may be views of", T)])

prop("C18", "After any edits of a tensor container, every derived form equals its fields",
     "After any sequence of assignments, in-place edits, consolidations, selections, joins, conversions, mask applications and re-reads, everything derived from a GSTensor (CPU container, saved file, clone, slice, mask or index selection, join, dtype change, unpacked forms) has exactly the values its fields showed at that moment. "
     "Clones and the other documented copies share nothing with their source: later edits of either do not show in the other, while slices are views on which edits show both ways.",
     ["histories", "inputs"], "all operation sequences up to the stated length from each provenance, all float32 values",
     "A stale base tensor after an edit shows only in particular operation orders.",
     [T], [("base tensor and views", f"{T} consolidate, _recreate_from_base, _slice_from_base"), ("invalidation", f"{T} __setattr__, normalize, denormalize, to_rgb, to_sh"), ("copies", f"{T} clone, to, to_gsdata")],
     "Every history of 2 (thorough 3) operations out of 32, N=3, degrees 0/1 (thorough 0-3), values symbolic; torch operators modelled, each path replayed on real torch.",
     [("_base", "row-major tensor that must agree with the field tensors", T)])

prop("C19", "sigmoid and logit are accurate, stable and inverse to each other",
     "sigmoid(x) equals 1/(1+exp(-x)) and logit(x, eps) equals log(q/(1-q)) with q = x clamped to [eps, 1-eps], within float accuracy, for every scalar and every element of an array of any shape or layout, without overflow for arguments of large magnitude. "
     "Shapes and floating dtypes are kept, scalars give scalars, the argument is left alone, and each element is computed independently of the others. "
     "logit undoes sigmoid and sigmoid undoes logit inside the limits.",
     ["inputs"], "every finite value in the stated ranges, shapes, dtypes, layouts and eps listed",
     "Clamping, overflow branches and non-contiguous arrays act only for particular values and layouts.",
     [U], [("kernels", f"{U} _logit_impl, _sigmoid_impl"), ("entry points", f"{U} logit, sigmoid")],
     "sigmoid arguments in [-80,80] (float64 [-600,600]), logit arguments in [-2,3], eps 1e-6/1e-4/1e-3, arrays up to 4 elements; float rounding as error bounds, inverses in exact reals.")

prop("C20", "Operations that return results or write files leave their inputs untouched",
     "Saving, writing, compressing (to file, bytes or arrays), copying, selecting, combining or applying masks without in-place, converting with inplace=False, concatenating, unpacking and all queries leave every field value, mask bit, layer name, format tag and array of their inputs exactly as before, including data in linear, mixed or RGB format and plain arrays passed to the writers. "
     "This holds for sequences of such operations and for every provenance.",
     ["inputs", "histories"], "every such operation and pair of operations x tag mixture x provenance, all values",
     "Writers convert and kernels work in place; a missing copy corrupts the caller's data only for particular formats or layouts.",
     [G, W, U], [("conversion before writing", f"{W} _ensure_ply_format"), ("input normalisation", f"{W} _validate_and_normalize_inputs"), ("copy before kernels", f"{U} apply_pre_activations/deactivations")],
     "N=2, 32 operations alone and in pairs (thorough triples), PLY/linear/mixed/RGB tags, provenances fresh/consolidated/stepped /column-major (thorough also read/strided/contiguous/backward); values symbolic.")

prop("C21", "Tensor containers convert formats by the documented formulas",
     "On a GSTensor, normalize and to_ply_tensor/to_ply_data give log(max(scale, 1e-9)) and the logit of the opacity limited to [1e-4, 1-1e-4], denormalize gives exp and sigmoid, to_rgb gives sh0*0.28209479+0.5 and to_sh its inverse, element by element, leaving every other field bit for bit, the source of a copying conversion and the shape and dtype unchanged, and setting the tags to the target. "
     "In mixed-format data the field already in the target form is left alone. "
     "The pairs undo each other within the limits, and agree with the CPU container's conversions inside its scale limits.",
     ["inputs"], "every finite value in the stated ranges for each field, all four tag mixtures, in place or copying, all provenances",
     "Clamps and tag mixtures act only for particular values and formats; tests convert a few random arrays one way.",
     [T, G], [("scales and opacities", f"{T} normalize, denormalize, to_ply_tensor, to_ply_data"), ("colours", f"{T} to_rgb, to_sh")],
     "One field symbolic at a time over the stated ranges, N<=2; rounding as error bounds, inverses in exact reals; torch operators modelled, each path replayed on real torch.")

prop("C22", "Mask layers of tensor containers behave as an ordered dictionary of columns",
     "On a GSTensor, after any sequence of adding, removing, reading, combining and applying mask layers and of selecting, joining, cloning or transferring, the layers have the names and boolean columns an ordered dictionary would have, in insertion order; combine gives the element-wise AND or OR of the selected layers, applying a mask keeps exactly the Gaussians whose bit is set, in order, with their layers. "
     "Duplicate names, unknown layers, wrong lengths and wrong modes are rejected and leave the container as it was.",
     ["histories", "inputs"], "all operation sequences up to the stated length from five starting layouts, all mask bits",
     "Layer names, columns and field rows are separate structures that must stay in step through every operation; tests follow a few sequences.",
     [T], [("layers", f"{T} add_mask_layer, remove_mask_layer, get_mask_layer, combine_masks, apply_masks"), ("propagation", f"{T} __getitem__, add, clone, to_gsdata")],
     "N=3, every history of 2 (thorough 3) operations out of 19, mask bits symbolic, combinations over up to 4 layers; torch operators modelled, each path replayed on real torch.",
     [("masks / mask_names", "boolean columns and their names, kept in step", T)])

prop("C23", "Parallel loops give the same result under every thread schedule",
     "Compressing, decompressing, writing, reading, consolidating, converting colours, scales and opacities and decoding SOG bundles give the same result whatever number of threads runs the parallel loops and in whichever order and interleaving their iterations run: no iteration reads or writes an array element which another iteration writes.",
     ["schedules", "inputs"], "every thread count, assignment of iterations to threads and interleaving, all values",
     "A shared scratch array, an overlapping write or a read of a neighbour's output is invisible with one thread and on the small inputs tests use, and shows up as rare corrupted Gaussians on large scenes.",
     ["src/gsply/writer.py", "src/gsply/reader.py", "src/gsply/sog_reader.py", "src/gsply/gsdata.py", "src/gsply/utils.py"],
     [("kernels", "prange loops of writer.py (pack, chunk bounds), reader.py (unpack), sog_reader.py (dequantise), gsdata.py (interleave), utils.py (sigmoid, logit, activation, colours)")],
     "Every element access of every iteration is logged with its index and path condition while the kernels are executed symbolically; for each pair of accesses of different iterations of which one writes, the solver shows that index and conditions cannot coincide. A counterexample is replayed by running the kernel's Python source with one iteration stopped before each of its lines while the others run. 3 iterations, all values.",
     [("numba thread pool", "workers running prange iterations in any order", "src/gsply/writer.py")])

prop("C24", "Calls are independent: earlier or interleaved calls change nothing",
     "What a call returns or writes depends only on its arguments and the files it reads: a second call made while the first is stopped at any of its statements leaves both with the results they give alone, and repeating a call gives the same result again, whatever was done in between with the earlier results, with the arguments of other calls, or with a file of that name (an edited or rewritten one counts as what it holds now).",
     ["schedules", "histories", "inputs"], "every statement the second call can interrupt, every pair of calls made one after the other, all values",
     "Module-level scratch buffers, caches keyed by name or identity and shared preset objects pass every single-call test and corrupt other scenes in services and loaders that use threads or run for long.",
     ["src/gsply/reader.py", "src/gsply/writer.py", "src/gsply/formats.py", "src/gsply/gsdata.py", "src/gsply/sog_reader.py", "src/gsply/torch/gstensor.py"],
     [("calls", "reading, writing, compressing, decoding, converting, joining and masking functions of gsply and gsply.torch")],
     "45 operations on symbolic data: the second call is made in front of one statement the first comes past, every such statement in turn; or after it, with results overwritten, inputs edited in place, or files rewritten in between. The solver shows results equal to those of a call on its own for all values; a counterexample is replayed with real calls in that order. Scenes of 1-3 Gaussians.",
     [("interleaved call", "another thread getting its turn between two statements", "src/gsply/writer.py")])

NOT_APPLICABLE = {}
