#!/usr/bin/env python3
# Writes /verif/properties.jsonl.  One place to edit the statements.
import json, os
P=[]
CK="crates/hodu_cpu_kernels/kernels/"
CORE="crates/hodu_core/src/"
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("T01","Broadcasting follows right-aligned NumPy rules",
  "Two shapes broadcast together exactly when, after aligning them on the right and padding the shorter with 1s, every pair of extents is equal or contains a 1; the result then has the larger rank and, per axis, the extent that is not 1 (so 1 with 0 gives 0), whichever operand comes first. A tensor broadcast to a target reads, at every target coordinate, the source element whose coordinate is 0 on every stretched axis and the target's coordinate elsewhere. Incompatible shapes are refused, never silently reshaped.",
  ["inputs"],"every pair of shapes of any ranks and extents, and every source layout (strides and offset included)",
  "There is no test of shape broadcasting in the workspace; a handful of examples could not settle all rank differences and extents.",
  [CORE+"types/shape.rs",CORE+"types/layout.rs",CORE+"tensor/utils.rs"],
  [("Shape::broadcast_shape / can_broadcast_to",CORE+"types/shape.rs"),("Layout::broadcast_to / broadcast_layouts",CORE+"types/layout.rs")],
  ["Shape::broadcast_shape","Layout::broadcast_to","tensor binary operators"])

p("T02","View operations re-index the same storage exactly and never leave it",
  "Transposing, permuting, slicing, squeezing, unsqueezing, reshaping and flattening a layout give a layout whose every coordinate addresses exactly the storage element that the operation's definition selects from the original layout, with the extents that definition gives. Consequently a view never addresses storage the original could not address. Invalid axes, repeated axes, zero steps, size-changing reshapes and requests a view cannot express are refused with an error.",
  ["inputs"],"every layout (any rank, extents, strides, offset), every axis/start/end/step argument, negative ones included, and every composition of these operations",
  "No layout operation has a unit test; the statement is universally quantified over ranks, extents, strides and arguments, and errors only show as wrong elements after composition.",
  [CORE+"types/layout.rs",CORE+"types/shape.rs"],
  [("Layout::{reshape,flatten,squeeze,unsqueeze,transpose,permute,slice}",CORE+"types/layout.rs"),("Layout::compute_strides / is_contiguous",CORE+"types/layout.rs")],
  ["Layout accessors shape/strides/offset","Tensor::{slice,permute,transpose,...}"])

p("T03","Symbolic shapes and layouts agree with their concrete counterparts",
  "Turning a concrete shape or layout into a symbolic one and back yields the same shape, strides and offset; every size, stride or layout a symbolic shape reports exactly is the value the concrete one would report, and every bound it reports (using the maximum of each dynamic extent) is that of the concrete layout whose dynamic extents take their maxima. Quantities that depend on an unbounded dynamic extent are reported as unknown, never guessed.",
  ["inputs"],"every symbolic shape (any mix of concrete, bounded and unbounded dynamic extents) and every layout incl. non-zero offset",
  "No test exercises symbolic shapes; the claim ranges over all mixtures of concrete and dynamic extents.",
  [CORE+"types/dim.rs",CORE+"types/symbolic_shape.rs",CORE+"types/symbolic_layout.rs"],
  [("Dim accessors",CORE+"types/dim.rs"),("SymbolicShape / SymbolicLayout conversions",CORE+"types/symbolic_shape.rs")])

p("T04","Kernel metadata encodes exactly the operands' layouts",
  "For every operation, the metadata record handed to the kernels has exactly the documented fields in the documented order: element counts, ranks, extents, strides, offsets and parameters of the very layouts the operation was called with. A record is never shorter or longer than the rank requires. Operand combinations the record cannot describe are refused.",
  ["inputs"],"every combination of layouts (rank, extents, strides, offsets) and operation parameters",
  "Kernel tests hand-write their metadata vectors, so the generators that production code uses are not tested at all.",
  [CORE+"op_metadatas.rs"],
  [("*_metadata generators",CORE+"op_metadatas.rs"),("kernel decoders",CK)],["be_cpu storage operations"])

p("T05","Einsum equations are parsed to exactly what they denote",
  "An einsum equation is accepted exactly when it has one operand per tensor with one subscript per axis, consistent extents for every repeated index, and an output made of distinct input indices; spaces are irrelevant. The parsed form then assigns each axis of each operand to the right index, each index its extent, contracts exactly the indices absent from the output, and without an explicit output keeps exactly the indices occurring once, in alphabetical order. Malformed equations are refused, never misread and never a panic.",
  ["inputs"],"every equation string and every list of shapes",
  "Seven example equations are tested; acceptance and index assignment range over all strings and shapes.",
  [CORE+"einsum.rs",CORE+"op_metadatas.rs"],
  [("ParsedEinsum::parse and index maps",CORE+"einsum.rs"),("einsum_metadata",CORE+"op_metadatas.rs")],["ParsedEinsum","Tensor::einsum"])

p("T06","Element-wise kernels compute each element from its own operands only",
  "For every element-wise kernel, output element i is the operation applied to the operand elements that the given shapes, strides and offsets associate with logical index i, for every i below the element count, and nothing else is written. The answer is the same whichever internal path is taken: contiguous, strided, broadcast, vectorised or multi-threaded, at every size and rank including rank 0 and sizes that are not a multiple of a vector width or of the thread count. Selection (where, masked fill, clamp) takes each element from exactly the operand the condition or bound names.",
  ["inputs","schedules"],"every element type, rank, extents, strides (0 included), offset, element count and thread partition",
  "Tests use a few small contiguous arrays; the strided, offset, vector-tail and multi-thread paths need sizes and layouts no test reaches.",
  [CK+"ops_binary.c",CK+"ops_unary.c",CK+"ops_bitwise.c",CK+"ops_cast.c",CK+"utils.h",CK+"thread_utils.h",CK+"simd_utils.h"],
  [("binary/compare/logical kernel macros",CK+"ops_binary.c"),("unary and scalar kernel macros",CK+"ops_unary.c"),("bitwise and shift kernels",CK+"ops_bitwise.c"),("cast kernels",CK+"ops_cast.c"),("strided indexing and thread partition",CK+"utils.h")],
  ["call_ops_binary","call_ops_unary","call_ops_cast","Tensor operators"])

p("T07","Integer arithmetic kernels have one documented meaning on every value",
  "Integer add, subtract, multiply, negate, abs, power, min/max, comparison, logical, bitwise and shift kernels compute the exact mathematical result whenever the element type can represent it; unsigned subtraction saturates at 0 and integer division or remainder by zero gives 0. Comparisons and logical operations return exactly 0 or 1. The meaning does not depend on whether an operand is a tensor element or a scalar argument.",
  ["inputs"],"every integer element type and every pair of operand values",
  "Tests sample a few small positive values; corner values (zero divisors, minima, large exponents, shift counts at the width) are not reached.",
  [CK+"ops_binary.c",CK+"ops_unary.c",CK+"ops_bitwise.c",CK+"math_utils.h"],
  [("operator expressions in the kernel macros",CK+"ops_binary.c"),("ipow helpers",CK+"math_utils.h")])

p("T08","Data-movement kernels place every element exactly where defined",
  "Copy-to-contiguous, fill, flip, concatenation, split and padding write each output element with exactly the source element (or fill value) their definition names, for every shape, stride and offset of the source, and write every output element once and nothing outside the output. Splitting a concatenation gives back the inputs, and flipping twice gives back the input.",
  ["inputs"],"every element type, number of inputs, axis, shape, strides, offset and padding amount",
  "Tests cover a few contiguous inputs per operation; strided inputs, offsets, zero extents and higher ranks are not sampled.",
  [CK+"ops_memory.c",CK+"ops_shape_memory.c",CK+"ops_concat_split.c",CK+"ops_padding.c"],
  [("contiguous / const_set",CK+"ops_memory.c"),("flip",CK+"ops_shape_memory.c"),("concat / split",CK+"ops_concat_split.c"),("pad constant/reflect/replicate/circular",CK+"ops_padding.c")])

p("T09","Index-driven kernels read and write only the addressed elements",
  "Index-select and gather give each output element the input element whose coordinate along the chosen axis is the index value (negative indices counting from the end); index-put and scatter change exactly the addressed elements, each to one of the values sent to it (for scatter the last), and leave every other element at its input value; scatter-add, -max and -min combine all values sent to an element; one-hot puts the on-value exactly at the indexed class. An out-of-range index never causes an access outside the buffers.",
  ["inputs"],"every element type, rank, axis, shape, strides, offset and index value, in range or not, with repetitions",
  "Tests use one or two index vectors per operation; aliasing indices, negative and out-of-range indices on strided operands are not sampled.",
  [CK+"ops_indexing.c"],
  [("index_select / gather / index_put / scatter* / onehot",CK+"ops_indexing.c")])

p("T10","Reductions fold exactly the elements of their slice",
  "Every reduction gives, at each output coordinate, the fold of exactly the input elements that agree with it on the kept axes: sums and products over all of them once, extrema the true extremum, arg-extrema the coordinate along the first reduced axis of the first position attaining it, any/all the disjunction/conjunction of non-zeroness, means, variances and norms over the true count. The result does not depend on whether the input is contiguous, strided, offset or broadcast, on which set of axes is reduced, on their order or on keeping the reduced axes as size 1, and no other memory is written.",
  ["inputs"],"every element type, rank, shape, strides, offset and set of reduced axes",
  "Tests reduce small contiguous arrays over one or two axis sets; the general index decomposition and the vector fast paths depend on layout and size.",
  [CK+"ops_reduce.c",CORE+"op_metadatas.rs"],
  [("reduce kernel macros and SIMD sum/max/min",CK+"ops_reduce.c"),("reduce_metadata",CORE+"op_metadatas.rs")])

p("T11","Matrix products and einsum sum exactly the matching products",
  "Matrix multiplication (batched, broadcast over batch axes), dot and einsum give at each output coordinate the sum over the contracted coordinates, each visited exactly once, of the product of the operand elements addressed by the operands' layouts; an empty contraction gives 0 and an einsum with nothing to contract the plain product. The result does not depend on blocking, threading, transposed or strided operands, or the back end chosen, up to floating-point rounding.",
  ["inputs","schedules"],"every element type, matrix sizes, batch shapes, strides and offsets, equations, thread counts",
  "Tests use small contiguous matrices; block tails, thread partition, batch broadcast and strided operands need other sizes and layouts.",
  [CK+"ops_matrix.c",CK+"ops_matrix_openblas.c",CK+"ops_einsum.c",CORE+"op_metadatas.rs"],
  [("matmul / dot",CK+"ops_matrix.c"),("einsum",CK+"ops_einsum.c"),("matmul_metadata / dot_metadata",CORE+"op_metadatas.rs")])

p("T12","Convolution, window and resize kernels use exactly the taps in range",
  "Convolutions, transposed convolutions and their weight gradients sum exactly the products of in-range input taps and weights that stride, padding and dilation define, with positions outside the input counting as zero; window reductions fold exactly the positions in each window, out-of-range ones contributing the operation's identity; nearest resizing copies exactly the source element its coordinate rule names. No input position outside the input is ever read.",
  ["inputs"],"every element type, 1/2/3 spatial dimensions, kernel, stride, padding, dilation, and offset",
  "Tests fix a few kernel/stride/padding triples; border arithmetic depends on all of them jointly.",
  [CK+"ops_conv.c",CK+"ops_conv_openblas.c",CK+"ops_windowing.c",CK+"ops_resize.c"],
  [("conv1d/2d/3d, transpose, grad weight",CK+"ops_conv.c"),("reduce_window",CK+"ops_windowing.c"),("resize",CK+"ops_resize.c")])

p("T13","Low-precision floats decode exactly and re-encode without loss",
  "Every bit pattern of the 8- and 16-bit float types widens to exactly the value the format assigns to it, and narrowing that value again gives back the same bit pattern (any NaN for a NaN). Narrowing an arbitrary float gives a neighbouring representable value, never one on the wrong side of zero, keeps order, and overflows only beyond the largest finite value. The same meaning is used by kernels and by the scalar types of the API.",
  ["inputs"],"all 2^8 or 2^16 patterns per format and all 2^32 single-precision inputs",
  "Mini-float tests use small exactly representable values; subnormals, signed zeros, rounding boundaries, NaNs and overflow are never reached.",
  [CK+"t_f16.h",CK+"t_bf16.h",CK+"t_f8e4m3.h",CK+"t_f8e5m2.h"],
  [("float_to_* / *_to_float",CK+"t_f16.h")],["kernels on f16/bf16/f8 tensors, cast kernels, Scalar"])

p("T14","Scans, sorting and selection keep order, multiplicity and positions",
  "A cumulative sum gives at each position the sum of exactly the elements up to it along the axis; top-k gives the k largest (or smallest) elements of each row with their positions, sorted when asked, each position at most once; unique gives each distinct value once in ascending order with exact inverse positions and counts; non-zero lists exactly the coordinates of non-zero elements in row-major order; compress keeps exactly the elements whose condition is true, in order.",
  ["inputs"],"every element type, shape, strides, axis, k, and data (ties, NaN-free floats, extreme integers)",
  "Tests use one or two tiny arrays; ties, duplicates, extreme integers and strided inputs are not covered.",
  [CK+"ops_scan.c",CK+"ops_sort.c",CK+"ops_indexing.c"],
  [("cumsum",CK+"ops_scan.c"),("topk",CK+"ops_sort.c"),("nonzero / unique / compress",CK+"ops_indexing.c")])

p("T15","Reading a tensor back gives its logical elements",
  "Converting a tensor to nested vectors, a flat vector, raw bytes or a scalar gives exactly its logical elements in row-major order, as many as its shape has, whatever chain of views produced it; two tensors with the same logical elements read back identically even if their storage layouts differ. Asking for the wrong rank is refused.",
  ["inputs","histories"],"every tensor, including views with offsets, strides and zero strides, and every element type",
  "No test reads tensors back through views; the fast paths for contiguous tensors only go wrong for particular offset/stride combinations.",
  [CORE+"tensor/vec.rs",CORE+"tensor/bytes.rs",CORE+"tensor/ops/cast_memory.rs"],
  [("extract_with_layout / to_vec* / to_flatten_vec",CORE+"tensor/vec.rs"),("to_bytes / from_bytes",CORE+"tensor/bytes.rs")])

p("T16","Saved tensors and snapshots load back identical; bad files are refused",
  "Saving a tensor in any supported format and loading it again yields the same element type, shape and bit-identical logical elements (for the text format, the same numeric values), for views as well as for contiguous tensors. A truncated, extended or otherwise inconsistent file is refused with an error; it never panics, never yields a tensor whose data does not match its shape.",
  ["inputs","fault_sequences"],"every element type, shape and value, every view, and every corrupted or truncated file",
  "There are no format tests; corruptions and special values cannot be enumerated by examples.",
  [CORE+"format/hdt.rs",CORE+"format/json.rs",CORE+"format/hdss.rs",CORE+"tensor/bytes.rs"],
  [("hdt / json / hdss save and load",CORE+"format")])

p("T17","Type tables agree with the storage they describe",
  "For every element type, its reported byte size, name, numeric class and the limits and conversions of its scalars agree with one another across the API, the storage layer, the kernels and the plugin protocol: names parse back to the type they print, sizes equal the bytes a stored element occupies, kernels are selected for exactly the type asked for, and every kernel-visible truth value is 0 or 1.",
  ["configurations","inputs"],"every element type and every conversion between tables",
  "The tables are hand-written matches in half a dozen files; nothing tests that they agree.",
  [CORE+"types/dtype.rs",CORE+"scalar.rs","crates/hodu_plugin/src/tensor.rs",CORE+"be_cpu/storage.rs"],
  [("DType tables",CORE+"types/dtype.rs"),("plugin dtype table","crates/hodu_plugin/src/tensor.rs")])

p("T18","Operand validation accepts exactly the supported combinations",
  "An operation is refused exactly when its operands are unsupported or inconsistent: different devices, different element types, an element type the operation does not support, or a gradient requested on a non-float type. What is accepted executes; what is refused returns an error before anything is computed or recorded.",
  ["configurations","inputs"],"every operation, element type and device combination",
  "No test checks refusals; the matrix of operations by element types is too large for examples.",
  [CORE+"utils/valid.rs"],
  [("validate_* helpers",CORE+"utils/valid.rs")])

p("T19","Every epoch visits every sample exactly once",
  "Over one epoch without sampling weights, the sampler yields each dataset index exactly once (sequentially in order, or as a permutation fixed by the seed and epoch), batches partition them in that order into runs of the batch size, and only a final partial batch may be shorter, or is dropped exactly when asked. The reported number of batches is the number produced. Restarting an epoch replays the same sequence.",
  ["inputs","histories"],"every dataset length, batch size, drop-last setting, seed and epoch history",
  "The datasets crate has no tests; off-by-one errors only show at particular length/batch-size remainders.",
  ["crates/hodu_datasets/src/data/sampler.rs","crates/hodu_datasets/src/data/dataloader.rs","crates/hodu_datasets/src/data/dataset.rs"],
  [("samplers","crates/hodu_datasets/src/data/sampler.rs"),("DataLoader batching","crates/hodu_datasets/src/data/dataloader.rs")])

p("T20","Plugins are accepted only with a compatible protocol version",
  "A plugin is accepted exactly when its protocol version is compatible with the host's by semantic-versioning rules, and tensors exchanged with it keep element type, shape and bytes. A malformed version, unknown type name, or payload whose length does not match its shape is refused.",
  ["inputs","histories"],"every version string, every tensor exchanged, every message sequence",
  "The plugin crates have no tests; acceptance ranges over all version strings and payloads.",
  ["crates/hodu_plugin/src/rpc.rs","crates/hodu_plugin/src/tensor.rs","crates/hodu_plugin_runtime/src/client.rs","crates/hodu_plugin_runtime/src/registry.rs"],
  [("protocol version check","crates/hodu_plugin/src"),("TensorData","crates/hodu_plugin/src/tensor.rs"),("plugin registry","crates/hodu_plugin_runtime/src/registry.rs")])

p("T21","Gradients have their input's shape and follow the chain rule",
  "After a backward pass every leaf that requires a gradient has one of its own shape and element type, equal to the derivative of the output with respect to it: contributions from all uses are summed and broadcast axes are summed out. Tensors that do not require gradients get none, and running the pass again accumulates.",
  ["programs","inputs"],"every recorded computation and every input",
  "No gradient test exists; the claim ranges over programs.",
  [CORE+"tensor/gradient.rs",CORE+"tensor/gradient"],
  [("backward pass and vector-Jacobian products",CORE+"tensor/gradient")])

p("T22","Captured graphs are well formed and replay what was executed",
  "A captured snapshot lists every operation between its inputs and targets once, in an order in which every operand is an input, a constant or the result of an earlier operation, and records the shapes and types that execution produces. Replaying it on new inputs gives what direct execution gives.",
  ["programs","histories"],"every captured program and every input",
  "No capture test exists; the claim ranges over programs.",
  [CORE+"snapshot",CORE+"tensor/ops"],
  [("capture board",CORE+"snapshot/capture/board.rs")])

p("T23","Concurrent use of tensors is race free",
  "Creating, sharing, reading and dropping tensors from several threads gives each thread the values sequential use would give, frees every tensor exactly once and never leaves a handle dangling; parallel kernels give the same result under every schedule.",
  ["schedules"],"every interleaving of tensor registry operations and kernel worker threads",
  "Tests are single-threaded at the API level and observe one schedule.",
  [CORE+"tensor/registry.rs",CK+"thread_utils.h"],
  [("tensor registry and reference counts",CORE+"tensor/registry.rs")])

p("T24","Floating-point results are accurate",
  "Floating-point kernels, linear algebra (determinant, inverse), activations, normalisations and optimisers return results within a stated relative error of the real-valued definition.",
  ["inputs"],"every floating-point input",
  "Tests compare a few values against tolerances.",
  [CK+"math_utils.h",CK+"ops_linalg.c","crates/hodu_nn/src"],
  [("math helpers",CK+"math_utils.h")])

p("T25","An interrupted save never destroys the previous file or registry",
  "If the process stops at any point while a tensor, snapshot or the plugin registry is being saved, a later load sees either the complete old contents or the complete new contents; two processes updating the registry at once lose neither update.",
  ["crash_points","schedules"],"every crash point during a save and every interleaving of two savers",
  "No test interrupts a save.",
  [CORE+"format","crates/hodu_plugin_runtime/src/registry.rs"],
  [("PluginRegistry::save","crates/hodu_plugin_runtime/src/registry.rs")])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
