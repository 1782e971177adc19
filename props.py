"""What decides each property: proof units and native contracts."""
VERUS_TRUST = ["Verus 0.2026.09.13 and z3 accept only valid obligations",
  "mechanical extraction (vx/vx.py): comments, attributes and error payloads dropped, SmallVec treated as Vec, for-loops over iterators rewritten to index loops",
  "vstd and the assumed specifications of slice::swap/contains/reverse/sort_unstable, Option::copied, to_vec, vec![x;n], iter().product() in vx/prelude.rs"]
C_TRUST = ["clang's AST of the preprocessed kernel source and its translation to Verus (kvc/c2v.py); Verus and z3",
  "sizes, indices and counters of the C kernels are mathematical integers (no wrap-around; unsigned subtraction below zero and division by zero are obligations)",
  "element arithmetic, implicit conversions included, is uninterpreted in the C kernel proofs",
  "distinct buffer parameters do not overlap, pointers are not null, malloc succeeds, rank <= 16",
  "thread_create(worker, args) is the call worker(args): workers write disjoint ranges, which their contracts state; get_optimal_threads returns at least 1",
  "a SIMD instruction acts lane by lane as the scalar operator of its name",
  "the kernels' preconditions are established by the Rust callers (checked natively, bounded)"]
PROPS = {
 "T01": dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real Shape/Layout functions, replayed natively",
   units=[dict(module="unit_layout", fns=["Shape::", "Layout::new", "Layout::from_shape", "Layout::compute_strides", "Layout::broadcast", "Layout::set_", "Layout::s", "Layout::offset", "Layout::dim"])], assumptions=VERUS_TRUST, budget=20,
   note="Every obligation of Shape and Layout is discharged by Verus for all ranks, extents and strides on the functions extracted from the current tree; lemma T01_broadcast_reads_source states the read-back clause over those contracts. Tensor-level wrappers are checked natively (bounded). Trusts the extraction and Verus/z3.", theorems=["T01_broadcast_reads_source"]),
 "T02": dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real Layout view operations, replayed natively",
   units=[dict(module="unit_layout", fns=["Layout::", "Shape::"])], assumptions=VERUS_TRUST, budget=20,
   note="Every Layout view operation is proved for all inputs against its exact re-indexing contract (Verus); lemmas T02_* state that every coordinate addresses the selected element. Tensor-level wrappers are checked natively (bounded). Trusts the extraction and Verus/z3.", theorems=["T02_transpose_reads","T02_permute_reads","T02_slice_reads"]),
 "T06": dict(level="proof", technique="contract-based deductive verification: C kernels translated from clang's AST and discharged by Verus, contracts replayed natively",
   units=[dict(module="unit_elem")], assumptions=C_TRUST, budget=20,
   note="Every element-wise kernel (binary, unary, scalar, cast, bitwise, contiguous copy; all dtypes; SIMD, threaded, contiguous and strided paths) is proved to write F(operands at logical index k) to output k and nothing else, for all shapes, strides and offsets. The Rust dispatch above the kernels is checked natively (bounded). Trusts c2v's abstraction (see trusted_base)."),
 "T09": dict(level="proof", technique="contract-based deductive verification: C kernels translated from clang's AST and discharged by Verus, contracts replayed natively",
   units=[dict(module="unit_index")], assumptions=C_TRUST, budget=20,
   note="index_select, index_put, gather, scatter (replace, add, max, min: an in-order fold over the source) and onehot kernels are proved, for every shape, stride, offset and index list (out-of-range and negative entries included), to address exactly the element the contract names, every dtype. The Rust wrappers are checked natively (bounded). Trusts c2v's abstraction (see trusted_base)."),
 "T08": dict(level="proof", technique="contract-based deductive verification: C kernels translated from clang's AST and discharged by Verus, contracts replayed natively",
   units=[dict(module="unit_move")], assumptions=C_TRUST, budget=20,
   note="flip, split, concat, pad (constant, reflect, replicate, circular), contiguous and const_set kernels are proved to move exactly the element the contract names, for all shapes and strides, every dtype. The Rust wrappers are checked natively (bounded). Trusts c2v's abstraction (see trusted_base)."),
 "T10": dict(level="proof", technique="contract-based deductive verification: C kernels translated from clang's AST and discharged by Verus, contracts replayed natively",
   units=[dict(module="unit_reduce")], assumptions=C_TRUST, budget=20,
   note="All 152 reduction kernels (sum, mean, prod, max, min, norm, var, std, logsum, logsumexp, any, all, argmax, argmin; every dtype) are proved, for every shape, stride, offset, set of reduced axes and keep_dim, to store at output o the fold of the operation of their name over exactly the elements of o's slice in order (the SIMD path: the lane-wise fold of the same elements). The Rust wrappers are checked natively (bounded). Trusts c2v's abstraction (see trusted_base)."),
 "T19": dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real sampler, loader and data set functions, replayed natively",
   units=[dict(module="unit_data")], budget=20, theorems=["T19_epoch_has_n_batches"],
   assumptions=VERUS_TRUST + ["a draw of the random generator lies in the range asked for", "the size random_split computes in f32 is any usize", "a clone of a data set equals it", "Dataset::get, Dataset::len, Sampler::iter and the collate function are abstract: their contracts are assumed of every implementation", "batch_size > 0 and 2n <= usize::MAX"],
   note="RandomSampler, BatchSampler::batches, DataLoader (construction, shuffling, batching, reset, has_next, next_batch), Subset, ConcatDataset and random_split (its two parts partition the data set) are proved by Verus for every data set, batch size, drop_last and random draw: an epoch hands each sample over exactly once, in batches of the documented size and number. TensorDataset and the default collate function are checked natively (bounded). Trusts the extraction and Verus/z3."),
}

KANI_TRUST = ["Kani 0.68 / CBMC 6.11 and Kani's translation of MIR (float casts included)", "half::f16 conversions use their const versions in the proofs (the f16c instruction is not modelled)"]
CBMC_TRUST = ["CBMC 6.11 (bit-precise C semantics, IEEE arithmetic included)"]
PROPS["T13"] = dict(level="proof", technique="contract-based deductive verification: full-domain contracts on the real C conversions (CBMC) and the real Rust scalar conversions (Kani), discharged function by function, replayed natively",
   units=[dict(module="unit_kani", mods=["t13"]), dict(module="unit_cbmc", file="t13.c")], assumptions=KANI_TRUST + CBMC_TRUST, budget=20,
   note="widen, narrow, re-narrow, order, sign and max/min of f8e4m3, f8e5m2, f16, bf16 are proved for every bit pattern and all 2^32 floats, on the C kernels' conversions (CBMC over the headers) and on the Rust scalar types (Kani over the crates). The conversions are loop-free or loop over operand width with unwinding assertions discharged, so the proofs are complete. That the kernels and casts use these conversions is checked natively (bounded).")
PROPS["T17"] = dict(level="proof", technique="contract-based deductive verification: full-domain contracts on the real tables and Scalar conversions (Kani over the compiled crates), replayed natively",
   units=[dict(module="unit_kani", mods=["t17"])], assumptions=KANI_TRUST, budget=20,
   note="DType and PluginDType tables and every Scalar constructor and conversion are proved for every element type and every value (Kani, loop-free or width-bounded with unwinding assertions discharged). Printing and parsing of names, storage sizes and kernel selection are checked natively over the finite tables (bounded for the values stored).")
PROPS["T18"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real validate_* functions, replayed natively",
   units=[dict(module="unit_valid")], assumptions=VERUS_TRUST + ["a Tensor is abstract: its device, element type and storage state are what its accessors report"], budget=20,
   note="validate_dtype_for_op, validate_requires_grad_for_op, validate_dtype_for_device, validate_indices_dtype, validate_same_device and validate_same_dtype are proved by Verus to accept exactly the supported combinations, for every operation, element type and device. Which checks each tensor method makes, and that a refusal computes nothing, is checked natively (bounded).")

PROPS["T07"] = dict(level="proof", technique="contract-based deductive verification: full-domain contracts on the real integer kernels (CBMC over the C source, SAT and z3), discharged kernel by kernel, replayed natively",
   units=[dict(module="unit_cbmc", file="t07")], assumptions=CBMC_TRUST + ["T06: every element of every path of a kernel gets the operation proved here on one element"], budget=20,
   note="Every integer and bool arithmetic, comparison, logical, bitwise, shift and power kernel, tensor and scalar form, is proved for every pair of operand values of every integer type (CBMC on the kernel source, one element; T06 proves that all elements and paths get the same operation). Power: exponents up to the width with any base, and bases -1, 0, 1 with any exponent, which is every representable case. Trusts CBMC, z3 and that modular multiplication is exact when the product is representable.")

PROPS["T20"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real protocol functions, replayed natively",
   units=[dict(module="unit_plugin")], assumptions=VERUS_TRUST + ["str::split and str::parse::<u64> are std's (abstract functions of the text)", "Iterator::try_fold over a slice stops at the first None (rewritten to that loop)"], budget=20,
   theorems=["T20_malformed_is_compatible_with_nothing", "T20_valid_means_bytes_match"],
   note="parse_version and is_protocol_compatible, TensorData's constructor, validity and size functions, the PluginDType tables and all eleven copies of the host/plugin element type conversions are proved by Verus for every version text, shape, payload and type. The message exchange and the files handed to plugins are checked natively against real child processes (bounded).")

PROPS["T03"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real symbolic dimension, shape and layout functions, replayed natively",
   units=[dict(module="unit_sym")], assumptions=VERUS_TRUST + ["the iterator adaptors all, any, filter_map, map, try_fold, collect and product are rewritten to the loops they stand for", "sizes fit the machine word (fit_max)", "distinct calls of DynamicDimId::new return distinct ids (global counter; checked natively)"], budget=20,
   theorems=["T03_there_and_back", "T03_bounds_are_those_of_the_largest_shape"],
   note="dim.rs, symbolic_shape.rs and symbolic_layout.rs are under Verus contracts for every shape, bound and layout. The dynamic-dimension registry (thread-local hash map) and the From impls are checked natively only (bounded).")

EINSUM_TRUST = ["std's str::replace, contains, split, chars are the textual functions cut / despaced of vx/unit_einsum.py", "std's HashMap<char, usize> and HashSet<char> are the maps and sets their specifications say", "a count of characters never reaches 2^64", "iterator adaptors filter/map/product/collect/position and zip().enumerate() are rewritten to the loops they stand for"]
PROPS["T04"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on every real metadata generator, replayed natively",
   units=[dict(module="unit_meta"), dict(module="unit_einsum", fns=["einsum_metadata", "ParsedEinsum::get_", "Layout::", "Shape::"])], assumptions=VERUS_TRUST + EINSUM_TRUST + ["vector capacities are not modelled (Vec::with_capacity(n) is Vec::new())", "usize::next_power_of_two is std's", "element counts and rank sums fit the machine word; ranks of matmul operands are at most 65535"], budget=20,
   theorems=["T04_fields_are_where_kernels_read_them", "T04_onehot_inserts_the_axis"],
   note="All metadata generators of op_metadatas.rs are proved by Verus to yield exactly the documented sequence of fields, and to refuse exactly the operand combinations the record cannot describe, for every layout and parameter. Which generator an operation calls, with which arguments, is checked natively (bounded).")
PROPS["T05"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real einsum parser and its index maps, replayed natively",
   units=[dict(module="unit_einsum", fns=["ParsedEinsum::", "Shape::"])], assumptions=VERUS_TRUST + EINSUM_TRUST, budget=20,
   theorems=["T05_implicit_output", "T05_contracted_or_kept"],
   note="ParsedEinsum::parse is proved by Verus to accept exactly the well-formed equations and to return exactly what they denote, for every text and every list of shapes; the index maps and element counts are proved over it. get_index_to_dim_map (unused by the kernels) is checked natively only.")

PROPS["T15"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real read-back functions, replayed natively",
   units=[dict(module="unit_read", fns=["extract_with_layout", "Tensor::", "Shape::", "Layout::"])], assumptions=VERUS_TRUST + ["Tensor::to_flatten_vec returns the logical elements (its element loop, extract_with_layout, is proved; the choice of the element type is checked natively)", "a view lies inside its storage (T01), extents' products fit the machine word", "slice copies and Clone of an element are what std says"], budget=20,
   theorems=["T15_nested_is_row_major", "T15_layout_independent"],
   note="extract_with_layout (any strides, any offset, any rank) and to_vec1d..to_vec8d are proved by Verus for every shape and data. Byte conversions (to_bytes/from_bytes) and the element-type dispatch are checked natively (bounded).")

PROPS["T12"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the mechanically translated C convolution and window kernels, replayed natively",
   units=[dict(module="unit_conv"), dict(module="unit_window")], assumptions=C_TRUST + ["the padding value of a window reduction is the constant the kernel names (maximum: the type's lowest value, and so on; checked natively)"], budget=20,
   note="All reduce_window kernels and the direct conv1d/2d/3d and conv_transpose1d/2d/3d kernels are proved for every shape, kernel, stride, padding, dilation and offset to fold exactly the in-range taps in order, never reading outside the input. Bounded (native): the im2col/BLAS conv2d of f32 and f64 (ops_conv_openblas.c), the threaded weight gradients (atomic adds through pointers are outside the translator), and resize (floating-point coordinates).")

PROPS["T14"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the mechanically translated C scan and selection kernels, replayed natively",
   units=[dict(module="unit_select")], assumptions=C_TRUST, budget=20,
   note="cumsum (every dtype, shape, stride, offset, axis: each output element is the in-order sum of exactly the positions up to it, no two positions share an output), nonzero count and fill (the row-major list of coordinates of exactly the non-zero elements) and compress (exactly the kept elements in order) are proved. Bounded (native): topk and unique, which rest on libc's qsort with a comparator through a function pointer.")

PROPS["T11"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the mechanically translated C matrix-product kernels, replayed natively",
   units=[dict(module="unit_matrix")], assumptions=C_TRUST + ["cblas_sgemm/cblas_dgemm compute alpha * op(A) * op(B) + beta * C on in-range operands with sufficient leading dimensions (their order of summation is unknown: an uninterpreted function of the row and the column)", "openblas_set_num_threads changes no result", "matrix extents fit the 32-bit integers BLAS takes"], budget=20,
   note="All dot and matmul kernels (threads, 32x32x256 blocks with 4x4 accumulators, strided path, batch broadcasting) are proved for every size, stride, offset, batch shape and thread count to give at every output the in-order sum over k of lhs[i, k] * rhs[k, j], and the BLAS wrappers to ask BLAS for exactly that product (leading dimensions, transposition, batch offsets) or to fall back. Bounded (native): the einsum kernels (struct-of-arrays description of the operands is outside the translator; its construction is proved under T04/T05) and rounding.")

PROPS["T16"] = dict(level="proof", technique="contract-based deductive verification: Verus contracts on the real save/load functions, replayed natively",
   units=[dict(module="unit_format")], budget=20, theorems=["T16_bytes_round_trip", "T16_loaded_is_what_was_saved", "T16_extension_is_refused", "T16_truncation_is_refused", "T16_whole_file_is_read_back"],
   assumptions=VERUS_TRUST + ["the binary codec (postcard with serde's derived instances) reads back what it wrote whatever follows, and what it reads does not depend on what follows", "to_le_bytes and from_le_bytes of std and half are each other's inverse", "CpuStorage::contiguous copies the logical elements in row-major order (its kernel is proved under T08)", "a tensor's layout fits its storage (Tensor::ok; constructors are checked natively)", "map/flat_map/chunks_exact/collect chains are rewritten to the loops they stand for"],
   note="Tensor::to_bytes and from_bytes, the byte encoders and decoders of every element type, Shape::checked_size, hdt serialize, deserialize and from_bytes_exact, and Snapshot to_bytes, from_bytes and check_consistency are proved by Verus for every layout, extent, value and byte string: what is saved are the logical elements in row-major order; what is loaded has the saved type, extents and, at every coordinate, the saved element; sizes that contradict the extents, cut or extended files and inconsistent snapshots are refused. The JSON text format, collections of tensors and the file system calls are checked natively (bounded).")

for _t in ["T%02d" % i for i in range(3, 21)]:
    if _t not in PROPS:
        PROPS[_t] = dict(level="exploration", technique="contracts on the real functions, evaluated natively on bounded inputs (deductive unit pending)", units=[], budget=20,
            note="Bounded: the contract of every function the property rests on is evaluated on the compiled code over exhaustively enumerated small inputs and seeded random ones; nothing is counted as proved.")

NOT_APPLICABLE = {
 "T21": "gradients are compositions of floating-point tensor programs recorded in a thread-local tape behind global registries; no contract within reach of the installed verifiers relates them to the real derivative",
 "T22": "capture rewrites a program through a global builder and a re-executing backend; stating that a replay computes what execution computed needs a semantics of every kernel and of the global tensor registry, which is outside function contracts",
 "T23": "a property of interleavings of unsafe, atomically counted handles: function contracts of the available verifiers assume sequential code, so no contract can decide it",
 "T24": "needs real-valued error analysis of libm, BLAS and compiler-reassociated loops; the available deductive back ends have no accuracy theory for them",
 "T25": "a crash property of sequences of system calls; a contract speaks about a call that returns, so none can express a stop between two calls",
}
