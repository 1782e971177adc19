"""Contracts for crates/hodu_core/src/op_metadatas.rs: the records handed to the kernels (property T04)."""
from vx import *
import unit_layout as UL
SH, LA = UL.SH, UL.LA
OM = "crates/hodu_core/src/op_metadatas.rs"
SPEC = r'''
/// one field after another
pub fn vx_extend(v: &mut Vec<usize>, s: &[usize]) ensures final(v)@ == old(v)@ + s@ {
    let mut i: usize = 0; let ghost g = v@; proof { assert(g + s@.take(0) =~= g); }
    while i < s.len() invariant i <= s.len(), v@ == g + s@.take(i as int) decreases s.len() - i { v.push(s[i]); i += 1; proof { assert(s@.take(i as int) =~= s@.take(i - 1).push(s@[i - 1])); assert(v@ =~= g + s@.take(i as int)); } }
    proof { assert(s@.take(s.len() as int) =~= s@); } }
pub assume_specification[ usize::next_power_of_two ](n: usize) -> (r: usize) requires n <= 0x8000_0000_0000_0000 ensures r == pow2_from(n as int);
/// the least power of two that is not below n
pub uninterp spec fn pow2_from(n: int) -> int;
/// element count of a layout
pub open spec fn sz(l: Layout) -> usize { prod(l.shape.dims@) as usize }
pub open spec fn pz(s: Seq<usize>) -> usize { prod(s) as usize }
pub open spec fn nd(l: Layout) -> usize { l.shape.dims@.len() as usize }
/// s, cut or filled up with x to n entries
pub open spec fn filled(s: Seq<usize>, n: int, x: usize) -> Seq<usize> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { x }) }
/// the extent of axis i of n, counted from the back; leading axes it does not have count 1
pub open spec fn lead(s: Seq<usize>, n: int, i: int) -> usize { let k = i - (n - s.len()); if k < 0 { 1 } else { s[k] } }
pub open spec fn batch(l: Layout) -> Seq<usize> { l.shape.dims@.take(l.shape.dims@.len() - 2) }
pub open spec fn more(a: int, b: int) -> int { if a >= b { a } else { b } }
pub open spec fn agree(a: Seq<usize>, b: Seq<usize>, n: int, i: int) -> bool { lead(a, n, i) == lead(b, n, i) || lead(a, n, i) == 1 || lead(b, n, i) == 1 }
pub open spec fn joined(a: Seq<usize>, b: Seq<usize>, n: int, m: int) -> Seq<usize> { Seq::new(m as nat, |i: int| if lead(a, n, i) == 1 { lead(b, n, i) } else { lead(a, n, i) }) }
pub open spec fn batches(a: Layout, b: Layout) -> int { more(a.shape.dims@.len() - 2, b.shape.dims@.len() - 2) }
pub open spec fn back(l: Layout, k: int) -> usize { l.shape.dims@[l.shape.dims@.len() - k] }
pub open spec fn square(l: Layout) -> bool { l.shape.dims@.len() >= 2 && back(l, 1) == back(l, 2) }
/// what reducing dims leaves of the first i axes
pub open spec fn left(s: Seq<usize>, dims: Seq<usize>, keep: bool, i: int) -> Seq<usize> decreases i { if i <= 0 { Seq::empty() } else if dims.contains((i - 1) as usize) { if keep { left(s, dims, keep, i - 1).push(1) } else { left(s, dims, keep, i - 1) } } else { left(s, dims, keep, i - 1).push(s[i - 1]) } }
pub open spec fn after_reduce(s: Seq<usize>, dims: Seq<usize>, keep: bool) -> Seq<usize> { let l = left(s, dims, keep, s.len() as int); if l.len() == 0 { l.push(1) } else { l } }
/// how many elements are folded into one: the product of the first k reduced axes
pub open spec fn folded(s: Seq<usize>, dims: Seq<usize>, k: int) -> int decreases k { if k <= 0 { 1 } else { folded(s, dims, k - 1) * s[dims[k - 1] as int] } }
pub open spec fn all_dims(l: Seq<&Layout>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { all_dims(l, k - 1) + l[k - 1].shape.dims@ } }
pub open spec fn all_strides(l: Seq<&Layout>, k: int) -> Seq<usize> decreases k { if k <= 0 { Seq::empty() } else { all_strides(l, k - 1) + l[k - 1].strides@ } }
pub open spec fn all_offsets(l: Seq<&Layout>, k: int) -> Seq<usize> { Seq::new(k as nat, |i: int| l[i].offset) }
/// elements of the inputs before input k
pub open spec fn starts_at(l: Seq<&Layout>, k: int) -> int decreases k { if k <= 0 { 0 } else { starts_at(l, k - 1) + prod(l[k - 1].shape.dims@) } }
pub open spec fn all_starts(l: Seq<&Layout>, k: int) -> Seq<usize> { Seq::new(k as nat, |i: int| starts_at(l, i) as usize) }
/// x put before axis i
pub open spec fn inserted(s: Seq<usize>, at: usize, x: usize, i: int) -> Seq<usize> decreases i { if i <= 0 { Seq::empty() } else { (if i - 1 == at { inserted(s, at, x, i - 1).push(x) } else { inserted(s, at, x, i - 1) }).push(s[i - 1]) } }
pub open spec fn with_axis(s: Seq<usize>, at: usize, x: usize) -> Seq<usize> { let r = inserted(s, at, x, s.len() as int); if at == s.len() { r.push(x) } else { r } }
pub open spec fn mask(dims: Seq<usize>, n: int) -> Seq<usize> { Seq::new(n as nat, |i: int| if dims.contains(i as usize) { 1usize } else { 0usize }) }
pub open spec fn flag(b: bool) -> usize { if b { 1 } else { 0 } }
pub proof fn lemma_start_nonneg(l: Seq<&Layout>, k: int) requires k <= l.len() ensures starts_at(l, k) >= 0 decreases k { if k > 0 { lemma_start_nonneg(l, k - 1); lemma_prod_nonneg(l[k - 1].shape.dims@); } }
pub proof fn lemma_prod_nonneg(s: Seq<usize>) ensures prod(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_prod_nonneg(s.skip(1)); let a = s[0] as int; let b = prod(s.skip(1)); assert(a >= 0 && b >= 0 ==> a * b >= 0) by(nonlinear_arith); } }
pub proof fn lemma_start_mono(l: Seq<&Layout>, i: int, k: int) requires 0 <= i <= k <= l.len() ensures starts_at(l, i) <= starts_at(l, k) decreases k { if i < k { lemma_start_mono(l, i, k - 1); lemma_prod_nonneg(l[k - 1].shape.dims@); } }
pub proof fn lemma_inserted(s: Seq<usize>, at: usize, x: usize, i: int) requires 0 <= i <= s.len() ensures inserted(s, at, x, i) =~= (if at < i { s.take(at as int).push(x) + s.subrange(at as int, i) } else { s.take(i) }) decreases i { if i > 0 { lemma_inserted(s, at, x, i - 1); } }
'''
END_ = r'''
/// the axis is put where it was asked for, and the rest keeps its order
proof fn T04_onehot_inserts_the_axis(s: Seq<usize>, at: usize, x: usize) requires at <= s.len() ensures with_axis(s, at, x) =~= s.take(at as int).push(x) + s.skip(at as int) { lemma_inserted(s, at, x, s.len() as int); }
/// records of equal-rank operands are as long as the rank requires, and every field is found at its documented place
proof fn T04_fields_are_where_kernels_read_them(n: usize, r: usize, a: Seq<usize>, b: Seq<usize>, c: Seq<usize>, d: Seq<usize>, x: usize, y: usize, i: int)
    requires a.len() == r, b.len() == r, c.len() == r, d.len() == r, 0 <= i < r, r <= 0xffff
    ensures ({ let m = @BIN; m.len() == 4 + 4 * r && m[0] == n && m[1] == r && m[2 + i] == a[i] && m[2 + r + i] == b[i] && m[2 + 2 * r + i] == c[i] && m[2 + 3 * r + i] == d[i] && m[2 + 4 * r] == x && m[3 + 4 * r] == y }),
        ({ let m = @UN; m.len() == 3 + 2 * r && m[0] == n && m[1] == r && m[2 + i] == a[i] && m[2 + r + i] == c[i] && m[2 + 2 * r] == x }) {}
'''
def rec(*f):
    """left-nested field list: 'x' one field, '+s' a run of fields"""
    e = "Seq::<usize>::empty()"
    for x in f: e = "(%s + %s)" % (e, x[1:]) if x[0] == "+" else "%s.push(%s)" % (e, x)
    return e
def lst(*f): return "seq![%s]" % ", ".join(f)
END_ = END_.replace("@BIN", rec("n", "r", "+a", "+b", "+c", "+d", "x", "y")).replace("@UN", rec("n", "r", "+a", "+c", "x"))
D = lambda l: "+%s.shape.dims@" % l
S = lambda l: "+%s.strides@" % l
O = lambda l: "%s.offset" % l
EX = [(r"Vec::with_capacity\((?:[^()]|\((?:[^()]|\([^()]*\))*\))*\)", "Vec::<usize>::new()"),
      (r"for\s+&?(\w+)\s+in\s+([^{;]*?)\s*\{\s*(\w+)\.push\(\s*\1\s*\);\s*\}", lambda m: "vx_extend(&mut %s, %s);" % (m.group(3), re.sub(r"\.iter\(\)$", "", m.group(2)))),
      (r"(\w+)\.extend_from_slice\(((?:[^()]|\([^()]*\))*)\);", r"vx_extend(&mut \1, \2);"),
      (r"(\w+)\.extend\(([^;]*?)\.iter\(\)(?:\.copied\(\)|\.cloned\(\))?\);", r"vx_extend(&mut \1, \2);"),
      (r"([\w.]+\(\))\[\.\.([^\]]*)\]\.iter\(\)\.product(?:::<usize>)?\(\)", r"vx_product(vx_head(\1, \2))"),
      (r"let mut (\w+) = Vec::new\(\);", r"let mut \1 = Vec::<usize>::new();"),
      (r"\.max\((\w+)\)", r".vx_max(\1)"), (r"crate::einsum::", "")]
SPEC += r'''
#[verifier::external_body] pub fn vx_head(s: &[usize], n: usize) -> (r: &[usize]) requires n <= s@.len() ensures r@ == s@.take(n as int) { &s[..n] }
pub trait VxMax: Sized { spec fn vx_v(self) -> int; fn vx_max(self, o: Self) -> (r: Self) ensures r == (if self.vx_v() >= o.vx_v() { self } else { o }); }
impl VxMax for usize { open spec fn vx_v(self) -> int { self as int } fn vx_max(self, o: usize) -> (r: usize) { if self >= o { self } else { o } } }
'''
def C(name, ens, req="", **k): return Contract(OM, None, name, ensures=ens, requires=req, extra=EX + list(k.pop("extra", [])), **k)
F = lambda l: "fits(%s.shape.dims@)" % l
U = lambda l, n: rec(n, "nd(*%s)" % l, D(l), S(l), O(l))
BIN = rec("sz(*output_layout)", "nd(*output_layout)", D("lhs_layout"), D("rhs_layout"), S("lhs_layout"), S("rhs_layout"), O("lhs_layout"), O("rhs_layout"))
SQ = dict(ens="r is Ok <==> square(*layout), r is Ok ==> r->Ok_0@ == " + rec("pz(batch(*layout))", "back(*layout, 1)", "nd(*layout)", D("layout"), S("layout"), O("layout")), req="layout.shape.dims@.len() >= 2 ==> fits(batch(*layout))")
def cnt(spec, **k): return dict(dict(match=r"\.\.", inv=spec), **k)
ND = "ndim == layout.shape.dims@.len(), *%s_shape == %s_layout.shape"
def fill(v, l, of, x, n="ndim == layout.shape.dims@.len()"):
    seq = {"dims": "%s.shape.dims@" % l, "strides": "%s.strides@" % l}[of]
    return dict(match=r"in 0\.\.ndim", before="let ghost g%s = metadata@; proof { assert(filled(%s, 0, %s) =~= Seq::empty()); assert(g%s + Seq::<usize>::empty() =~= g%s); } " % (v, seq, x, v, v),
        inv=n + ", metadata@ == g%s + filled(%s, i as int, %s)" % (v, seq, x),
        tail=" proof { assert(filled(%s, i + 1, %s) =~= filled(%s, i as int, %s).push(if i < %s.len() { %s[i as int] } else { %s })); assert(metadata@ =~= g%s + filled(%s, i + 1, %s)); }" % (seq, x, seq, x, seq, seq, x, v, seq, x))
def each(v, spec, step, more=""):
    """one loop over all inputs appending spec(k)"""
    return dict(match=r"in layouts|in input_layouts", before="let ghost g%s = metadata@; proof { assert(%s =~= Seq::empty()); assert(g%s + Seq::<usize>::empty() =~= g%s); } " % (v, spec % "0", v, v),
        inv="vx_s%s@ == layouts@, metadata@ == g%s + %s%s" % (v, v, spec % ("vx_i%s as int" % v), more),
        tail=" proof { assert(%s =~= %s + %s); assert(metadata@ =~= g%s + %s); }" % (spec % ("vx_i%s + 1" % v), spec % ("vx_i%s as int" % v), step, v, spec % ("vx_i%s + 1" % v)))
FNS = [
  C("binary_metadata", "r@ == " + BIN, F("output_layout")),
  C("binary_logical_metadata", "r@ == " + BIN, F("output_layout")), C("cmp_metadata", "r@ == " + BIN, F("output_layout")),
  C("unary_metadata", "r@ == " + U("input_layout", "sz(*output_layout)"), F("output_layout")),
  C("cmp_scalar_metadata", "r@ == " + U("input_layout", "sz(*output_layout)"), F("output_layout")),
  C("unary_logical_metadata", "r@ == " + U("input_layout", "sz(*output_layout)"), F("output_layout")), C("unary_scalar_metadata", "r@ == " + U("input_layout", "sz(*output_layout)"), F("output_layout")),
  C("matmul_metadata", "r is Ok <==> lhs_layout.shape.dims@.len() >= 2 && rhs_layout.shape.dims@.len() >= 2 && back(*lhs_layout, 1) == back(*rhs_layout, 2) && (forall|i: int| 0 <= i < batches(*lhs_layout, *rhs_layout) ==> #[trigger] agree(batch(*lhs_layout), batch(*rhs_layout), batches(*lhs_layout, *rhs_layout), i)), "
    "r is Ok ==> r->Ok_0@ == " + rec("sz(*output_layout)", "nd(*lhs_layout)", "nd(*rhs_layout)", "batches(*lhs_layout, *rhs_layout) as usize", D("lhs_layout"), D("rhs_layout"), "+joined(batch(*lhs_layout), batch(*rhs_layout), batches(*lhs_layout, *rhs_layout), batches(*lhs_layout, *rhs_layout))", S("lhs_layout"), S("rhs_layout"), O("lhs_layout"), O("rhs_layout"), "back(*lhs_layout, 2)", "back(*lhs_layout, 1)", "back(*rhs_layout, 1)"),
    F("output_layout") + ", lhs_layout.shape.dims@.len() <= 0xffff, rhs_layout.shape.dims@.len() <= 0xffff",
    loops=[dict(match=r"in 0\.\.batch_ndim", before="proof { assert(joined(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, 0) =~= Seq::empty()); } ", inv="*lhs_shape == lhs_layout.shape, *rhs_shape == rhs_layout.shape, lhs_ndim == lhs_shape.dims@.len(), rhs_ndim == rhs_shape.dims@.len(), 2 <= lhs_ndim <= 0xffff, 2 <= rhs_ndim <= 0xffff, lhs_batch_ndim == lhs_ndim - 2, rhs_batch_ndim == rhs_ndim - 2, batch_ndim == batches(*lhs_layout, *rhs_layout), "
      "forall|j: int| 0 <= j < i ==> #[trigger] agree(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, j), batch_shape@ == joined(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, i as int)",
      head="proof { assert forall|x: i32| x < 0 implies (#[trigger] (x as usize)) > 0xffff by { assert(x < 0i32 ==> (x as usize) > 0xffffusize) by(bit_vector); } assert forall|x: i32| x >= 0 implies (#[trigger] (x as usize)) == x by {} } ",
      tail=" proof { assert(agree(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, i as int)); assert(joined(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, i + 1) =~= joined(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, i as int).push(if lead(batch(*lhs_layout), batch_ndim as int, i as int) == 1 { lead(batch(*rhs_layout), batch_ndim as int, i as int) } else { lead(batch(*lhs_layout), batch_ndim as int, i as int) })); }")],
    before=[(r"return Err\(HoduError\);\s*\}\s*batch_shape", "proof { assert(!agree(batch(*lhs_layout), batch(*rhs_layout), batch_ndim as int, i as int)); }")],
    extra=[(r"\bas usize;", "as usize;")], attrs="#[verifier::truncate]"),
  C("det_metadata", **SQ), C("inv_metadata", **SQ), C("trace_metadata", **SQ),
  C("dot_metadata", "r is Ok <==> lhs_layout.shape.dims@.len() == 2 && rhs_layout.shape.dims@.len() == 2 && lhs_layout.shape.dims@[1] == rhs_layout.shape.dims@[0], r is Ok ==> r->Ok_0@ == " + rec("lhs_layout.shape.dims@[0]", "lhs_layout.shape.dims@[1]", "rhs_layout.shape.dims@[1]", "lhs_layout.strides@[0]", "lhs_layout.strides@[1]", "rhs_layout.strides@[0]", "rhs_layout.strides@[1]", O("lhs_layout"), O("rhs_layout")),
    "lhs_layout.strides@.len() == lhs_layout.shape.dims@.len(), rhs_layout.strides@.len() == rhs_layout.shape.dims@.len()"),
  C("reduce_metadata", "r@ == " + rec("nd(*layout)", D("layout"), S("layout"), O("layout"), "after_reduce(layout.shape.dims@, dims@, keep_dim).len() as usize", "+after_reduce(layout.shape.dims@, dims@, keep_dim)", "dims@.len() as usize", "+dims@", "flag(keep_dim)", "folded(layout.shape.dims@, dims@, dims@.len() as int) as usize"),
    "layout.shape.dims@.len() <= usize::MAX, forall|k: int| 0 <= k < dims@.len() ==> (#[trigger] dims@[k]) < layout.shape.dims@.len(), forall|k: int| 0 <= k <= dims@.len() ==> 0 <= #[trigger] folded(layout.shape.dims@, dims@, k) <= usize::MAX",
    loops=[dict(match=r"in 0\.\.input_ndim", inv="*input_shape == layout.shape, input_ndim == input_shape.dims@.len(), output_shape_vec@ == left(layout.shape.dims@, dims@, keep_dim, i as int)"),
           dict(match=r"in dims", inv="vx_s1@ == dims@, *input_shape == layout.shape, forall|k: int| 0 <= k < dims@.len() ==> (#[trigger] dims@[k]) < layout.shape.dims@.len(), forall|k: int| 0 <= k <= dims@.len() ==> 0 <= #[trigger] folded(layout.shape.dims@, dims@, k) <= usize::MAX, reduce_size == folded(layout.shape.dims@, dims@, vx_i1 as int)",
             head="proof { assert(folded(layout.shape.dims@, dims@, vx_i1 + 1) <= usize::MAX); } ")]),
  C("concat_metadata", "r@ == " + rec("pz(output_shape@)", "output_shape@.len() as usize", "+output_shape@", "dim", "layouts@.len() as usize", "+all_dims(layouts@, layouts@.len() as int)", "+all_strides(layouts@, layouts@.len() as int)", "+all_offsets(layouts@, layouts@.len() as int)", "+all_starts(layouts@, layouts@.len() as int)"),
    "fits(output_shape@), forall|k: int| 0 <= k < layouts@.len() ==> fits((#[trigger] layouts@[k]).shape.dims@), starts_at(layouts@, layouts@.len() as int) <= usize::MAX",
    loops=[each("0", "all_dims(layouts@, %s)", "layouts@[vx_i0 as int].shape.dims@"), each("1", "all_strides(layouts@, %s)", "layouts@[vx_i1 as int].strides@"),
      each("2", "all_offsets(layouts@, %s)", "seq![layouts@[vx_i2 as int].offset]"),
      dict(each("3", "all_starts(layouts@, %s)", "seq![starts_at(layouts@, vx_i3 as int) as usize]", ", (forall|k: int| 0 <= k < layouts@.len() ==> fits((#[trigger] layouts@[k]).shape.dims@)), starts_at(layouts@, layouts@.len() as int) <= usize::MAX, buffer_offset == starts_at(layouts@, vx_i3 as int)"),
        head="proof { assert(fits(layouts@[vx_i3 as int].shape.dims@)); lemma_start_mono(layouts@, vx_i3 + 1, layouts@.len() as int); lemma_start_nonneg(layouts@, vx_i3 as int); } ")],
    extra=[(r"let mut buffer_offset = 0;", "let mut buffer_offset: usize = 0;")]),
  C("split_metadata", "r@ == " + rec("output_num_els", "nd(*layout)", D("layout"), S("layout"), O("layout"), "dim", "size", "start")),
  C("index_select_metadata", "r@ == " + rec("output_num_els", "nd(*layout)", D("layout"), S("layout"), O("layout"), "dim", "num_indices")),
  C("index_put_metadata", "r@ == " + rec("output_num_els", "nd(*layout)", D("layout"), S("layout"), S("values_layout"), O("layout"), O("values_layout"), "dim", "num_indices")),
  C("gather_metadata", "r@ == " + rec("output_num_els", "nd(*layout)", D("indices_layout"), D("layout"), S("layout"), "+filled(indices_layout.strides@, layout.shape.dims@.len() as int, 0)", O("layout"), O("indices_layout"), "dim"), loops=[fill("0", "indices_layout", "strides", "0")]),
  C("scatter_metadata", "r@ == " + rec("sz(*src_layout)", "nd(*layout)", D("layout"), S("layout"), "+filled(src_layout.shape.dims@, layout.shape.dims@.len() as int, 1)", "+filled(src_layout.strides@, layout.shape.dims@.len() as int, 0)", "+filled(indices_layout.strides@, layout.shape.dims@.len() as int, 0)", O("layout"), O("src_layout"), O("indices_layout"), "dim"), F("src_layout"),
    loops=[fill("0", "src_layout", "dims", "1", "ndim == layout.shape.dims@.len(), *src_shape == src_layout.shape"), fill("1", "src_layout", "strides", "0"), fill("2", "indices_layout", "strides", "0")]),
  C("onehot_metadata", "r.1@ == with_axis(indices_layout.shape.dims@, axis, num_classes), r.0@ == " + rec("pz(r.1@)", "sz(*indices_layout)", "num_classes", "axis", "r.1@.len() as usize", "+r.1@"),
    F("indices_layout") + ", fits(with_axis(indices_layout.shape.dims@, axis, num_classes))",
    loops=[dict(match="enumerate", inv="vx_s0@ == indices_layout.shape.dims@, output_shape_vec@ == inserted(indices_layout.shape.dims@, axis, num_classes, vx_i0 as int)")]),
  C("nonzero_metadata", "r@ == " + U("layout", "sz(*layout)"), F("layout")), C("unique_metadata", "r@ == " + U("layout", "sz(*layout)"), F("layout")),
  C("unique_sort_metadata", "r@ == " + lst("sz(*layout)", "layout.offset", "pow2_from(sz(*layout) as int) as usize"), F("layout") + ", sz(*layout) <= 0x8000_0000_0000_0000"),
  C("unique_bitonic_step_metadata", "r@ == " + lst("sz(*layout)", "layout.offset", "pow2_from(sz(*layout) as int) as usize", "k", "j"), F("layout") + ", sz(*layout) <= 0x8000_0000_0000_0000"),
  C("compress_metadata", "r@ == " + rec("sz(*layout)", "nd(*layout)", D("layout"), S("layout"), O("layout"), "condition_size", "(if axis is Some { 1usize } else { 0usize })", "(if axis is Some { axis->0 } else { 0usize })"), F("layout")),
]
o = lambda k: "output_shape@[%d]" % k
def conv(n):
    i = ["input_layout.shape.dims@[%d]" % (2 + k) for k in range(n)]; w = ["weight_layout.shape.dims@[%d]" % (2 + k) for k in range(n)]; p = lambda v: [v] if n == 1 else ["%s@[%d]" % (v, k) for k in range(n)]
    return C("conv%dd_metadata" % n, "r@ == " + lst("pz(output_shape@)", o(0), "input_layout.shape.dims@[1]", o(1), *i, *w, *[o(2 + k) for k in range(n)], *p("stride"), *p("padding"), *p("dilation"), "input_layout.offset", "weight_layout.offset"),
      "fits(output_shape@), output_shape@.len() == %d, input_layout.shape.dims@.len() == %d, weight_layout.shape.dims@.len() == %d" % ((n + 2,) * 3) + ("" if n == 1 else "".join(", %s@.len() == %d" % (v, n) for v in ("stride", "padding", "dilation"))))
FNS += [conv(1), conv(2), conv(3),
  C("conv_grad_weight_metadata", "r@ == " + rec("pz(weight_shape@)", "nd(*input_layout)", "spatial_dims", D("input_layout"), D("grad_output_layout"), "+weight_shape@", S("input_layout"), S("grad_output_layout"), O("input_layout"), O("grad_output_layout"), "+stride@", "+padding@", "+dilation@"), "fits(weight_shape@)"),
  C("reduce_window_metadata", "r@ == " + rec("pz(output_shape@)", "nd(*layout)", D("layout"), S("layout"), O("layout"), "+window_shape@", "+strides@", "+padding@", "+output_shape@"), "fits(output_shape@)"),
  C("resize_metadata", "r@ == " + rec("pz(output_shape@)", "nd(*layout)", D("layout"), S("layout"), O("layout"), "+output_shape@", "mode", "coord_transform", "nearest_mode"), "fits(output_shape@)"),
  C("padding_metadata", "r@ == " + rec("pz(output_shape@)", "nd(*layout)", D("layout"), "+output_shape@", "+pad_before@"), "fits(output_shape@)"),
  C("scan_metadata", "r@ == " + rec("sz(*layout)", "nd(*layout)", D("layout"), S("layout"), O("layout"), "dim"), F("layout")),
  C("topk_metadata", "r@ == " + lst("(k * outer_size) as usize", "k", "last_dim_size", "outer_size", "flag(largest)", "flag(sorted)", "layout.offset"), "k * outer_size <= usize::MAX"),
  C("flip_metadata", "r@ == " + rec("sz(*layout)", "nd(*layout)", D("layout"), "+mask(flip_dims@, layout.shape.dims@.len() as int)"), F("layout"),
    loops=[dict(match=r"in 0\.\.num_dims", before="let ghost g = metadata@; proof { assert(mask(flip_dims@, 0) =~= Seq::empty()); assert(g + Seq::<usize>::empty() =~= g); } ", inv="num_dims == layout.shape.dims@.len(), metadata@ == g + mask(flip_dims@, d as int)",
      tail=" proof { assert(mask(flip_dims@, d + 1) =~= mask(flip_dims@, d as int).push(if flip_dims@.contains(d) { 1usize } else { 0usize })); assert(metadata@ =~= g + mask(flip_dims@, d + 1)); }")]),
  C("cast_metadata", "r@ == " + U("layout", "sz(*layout)"), F("layout")), C("contiguous_metadata", "r@ == " + U("layout", "sz(*layout)"), F("layout")),
]
pick = lambda cs, *ns: [c for c in cs if c.name in ns]
LAYOUT = pick(UL.LAYOUT_FNS, "shape", "strides", "offset", "ndim") + [Contract(LA, "Layout", "size", ensures="r == prod(self.shape.dims@)", requires="fits(self.shape.dims@)")]
UNIT = Unit("meta", [("struct", SH, "Shape"), ("struct", LA, "Layout"), ("raw", SPEC),
  ("impl", "Shape", SH, pick(UL.SHAPE_FNS, "dims", "ndim", "size")), ("impl", "Layout", LA, LAYOUT),
  ("impl", None, OM, FNS), ("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
