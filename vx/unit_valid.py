"""Contracts for crates/hodu_core/src/utils/valid.rs and the element type classes (property T18)."""
from vx import *
VA = "crates/hodu_core/src/utils/valid.rs"; OPS = "crates/hodu_core/src/ops.rs"; DT = "crates/hodu_core/src/types/dtype.rs"; DV = "crates/hodu_core/src/types/device.rs"
ENUMS = "BinaryOp BinaryLogicalOp BitwiseBinaryOp BitwiseUnaryOp BitwiseUnaryScalarOp CmpOp CmpScalarOp UnaryOp UnaryLogicalOp UnaryScalarOp MatrixOp LinalgOp ReduceOp ConcatOp SplitOp IndexingOp ConvOp WindowingOp ResizeOp PaddingOp ScanOp SortOp EinsumOp ShapeOp ShapeScalarsOp ShapeMemoryOp CastOp MemoryOp".split()
SPEC = r'''
#[verifier::external_body] pub struct Tensor { x: u8 }
impl Tensor {
    pub uninterp spec fn dev(&self) -> Device; pub uninterp spec fn ty(&self) -> DType; pub uninterp spec fn stored(&self) -> bool;
    #[verifier::external_body] pub fn device(&self) -> (r: Device) ensures r == self.dev() { unimplemented!() }
    #[verifier::external_body] pub fn dtype(&self) -> (r: DType) ensures r == self.ty() { unimplemented!() }
    #[verifier::external_body] pub fn has_storage(&self) -> (r: bool) ensures r == self.stored() { unimplemented!() }
}
pub open spec fn s_float(d: DType) -> bool { d is F8E4M3 || d is F8E5M2 || d is BF16 || d is F16 || d is F32 || d is F64 }
pub open spec fn s_uint(d: DType) -> bool { d is U8 || d is U16 || d is U32 || d is U64 }
pub open spec fn s_int(d: DType) -> bool { d is I8 || d is I16 || d is I32 || d is I64 }
pub open spec fn s_num(d: DType) -> bool { !(d is BOOL) }
/// the element types an operation supports
pub open spec fn supported(o: Op, d: DType) -> bool { match o {
    Op::Binary(b) => if b is Div || b is Pow { s_float(d) } else { s_num(d) },
    Op::BitwiseBinary(_) | Op::BitwiseUnary(_) | Op::BitwiseUnaryScalar(_) => s_int(d) || s_uint(d),
    Op::Cmp(c) => c is Eq || c is Ne || s_num(d), Op::CmpScalar(c) => c is EqScalar || c is NeScalar || s_num(d),
    Op::Unary(u) => if u is Neg || u is Abs || u is Sign || u is Softsign || u is Relu { s_float(d) || s_int(d) } else if u is Square { s_num(d) } else { s_float(d) },
    Op::UnaryLogical(u) => u is LogicalNot || s_float(d),
    Op::UnaryScalar(u) => if u is DivScalar || u is PowScalar || u is LeakyRelu || u is Elu || u is Prelu { s_float(d) } else { s_num(d) },
    Op::Reduce(r) => if r is Mean || r is Std || r is Var || r is Norm || r is LogSum || r is LogSumExp { s_float(d) } else if r is ArgMax || r is ArgMin || r is Any || r is All { true } else { s_num(d) },
    Op::Indexing(i) => if i is ScatterAdd || i is ScatterMax || i is ScatterMin { s_num(d) } else if i is Onehot { d is I32 } else { true },
    Op::Conv(_) | Op::Resize(_) => s_float(d), Op::Windowing(w) => if w is ReduceWindowMean { s_float(d) } else { s_num(d) },
    Op::Matrix(_) | Op::Linalg(_) | Op::Scan(_) | Op::Sort(_) | Op::Einsum(_) => s_num(d),
    _ => true } }
/// the operations a gradient passes through
pub open spec fn differentiable(o: Op) -> bool { match o {
    Op::Binary(_) | Op::UnaryScalar(_) | Op::Matrix(_) | Op::Linalg(_) | Op::Concat(_) | Op::Split(_) | Op::Indexing(_) | Op::Conv(_) | Op::Windowing(_) | Op::Padding(_) | Op::Scan(_) | Op::Einsum(_) | Op::Resize(_) | Op::Shape(_) | Op::ShapeScalars(_) | Op::ShapeMemory(_) => true,
    Op::Unary(u) => !(u is Abs || u is Sign || u is Ceil || u is Floor || u is Round),
    Op::Reduce(r) => !(r is ArgMax || r is ArgMin || r is Any || r is All),
    _ => false } }
/// every operand agrees with the first
pub open spec fn one_device(t: Seq<&Tensor>) -> bool { forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() ==> (#[trigger] t[i]).dev() == (#[trigger] t[j]).dev() }
pub open spec fn one_dtype(t: Seq<&Tensor>) -> bool { forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() ==> (#[trigger] t[i]).ty() == (#[trigger] t[j]).ty() }
pub open spec fn all_stored(t: Seq<&Tensor>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).stored() }
'''
END_ = r'''
/// an operation accepts an element type exactly when it supports it; gradients only pass through operations on floats or supported types
proof fn T18_bool_is_never_differentiated_arithmetic(o: Op, d: DType) requires o is Binary || o is UnaryScalar || o is Matrix || o is Linalg || o is Conv || o is Scan || o is Einsum || o is Resize, d is BOOL ensures !supported(o, d) {}
'''
EX = [(r"tensors\.iter\(\)\.skip\((\d+)\)", r"vx_skip(tensors, \1)"), (r"\bcrate::ops::", "")]
HELP = r'''
#[verifier::external_body] pub fn vx_skip<'a>(s: &'a [&'a Tensor], n: usize) -> (r: Vec<&'a Tensor>) ensures r@ == (if n <= s@.len() { s@.subrange(n as int, s@.len() as int) } else { Seq::<&Tensor>::empty() }) { s.iter().skip(n).copied().collect() }
'''
D = lambda e: "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" 
LD = dict(match="tensors", inv="vx_s0@ == tensors@.subrange(1, tensors@.len() as int), tensors@.len() >= 1, forall|i: int| 0 <= i <= vx_i0 && i < tensors@.len() ==> (#[trigger] tensors@[i]).dev() == tensors@[0].dev(), first_device == tensors@[0].dev()", head="assert(tensors@[vx_i0 as int + 1] == vx_s0@[vx_i0 as int]);")
LS = dict(match="tensors", inv="vx_s0@ == tensors@, forall|i: int| 0 <= i < vx_i0 ==> (#[trigger] tensors@[i]).stored()", head="assert(tensors@[vx_i0 as int] == vx_s0@[vx_i0 as int]);")
LT = dict(match="tensors", inv="vx_s1@ == tensors@.subrange(1, tensors@.len() as int), tensors@.len() >= 1, all_stored(tensors@), forall|i: int| 0 <= i <= vx_i1 && i < tensors@.len() ==> (#[trigger] tensors@[i]).ty() == tensors@[0].ty(), first_dtype == tensors@[0].ty()", head="assert(tensors@[vx_i1 as int + 1] == vx_s1@[vx_i1 as int]);")
UNIT = Unit("valid", [("denum", DT, "DType"), ("denum", DV, "Device")] + [("denum", OPS, e) for e in ENUMS] + [("denum", OPS, "Op"), ("raw", SPEC + HELP),
  ("impl", "DType", DT, [Contract(DT, "DType", "is_bool", ensures="r == (self is BOOL)"), Contract(DT, "DType", "is_float", ensures="r == s_float(*self)"), Contract(DT, "DType", "is_uint", ensures="r == s_uint(*self)"), Contract(DT, "DType", "is_int", ensures="r == s_int(*self)")]),
  ("impl", None, VA, [
    Contract(VA, None, "validate_dtype_for_op", ensures="r is Ok <==> supported(op, dtype)", extra=EX),
    Contract(VA, None, "validate_requires_grad_for_op", ensures="r == differentiable(op)", extra=EX),
    Contract(VA, None, "validate_dtype_for_device", ensures="device is CPU ==> r is Ok", extra=EX),
    Contract(VA, None, "validate_indices_dtype", ensures="r is Ok <==> !indices.stored() || s_int(indices.ty()) || s_uint(indices.ty())", extra=EX),
    Contract(VA, None, "validate_same_device", ensures="r is Ok <==> one_device(tensors@)", extra=EX, loops=[LD]),
    Contract(VA, None, "validate_same_dtype", ensures="all_stored(tensors@) ==> (r is Ok <==> one_dtype(tensors@)), !all_stored(tensors@) ==> r is Ok", extra=EX, loops=[LS, LT]),
  ]), ("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
