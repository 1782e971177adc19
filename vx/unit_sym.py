"""Contracts for symbolic dimensions, shapes and layouts (property T03)."""
from vx import *
import unit_layout as UL
SH, LA = UL.SH, UL.LA
DI = "crates/hodu_core/src/types/dim.rs"; SS = "crates/hodu_core/src/types/symbolic_shape.rs"; SL = "crates/hodu_core/src/types/symbolic_layout.rs"
SPEC = r'''
impl Clone for DynamicDimId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl Copy for DynamicDimId {}
impl Clone for SymbolicShape { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub fn vx_dims_vec(s: &[Dim]) -> (r: Vec<Dim>) ensures r@ == s@ { unimplemented!() }
/// the extent, when it is known; the most it can be, when that is known
pub open spec fn exact(d: Dim) -> Option<usize> { match d { Dim::Concrete(n) => Some(n), Dim::Dynamic { .. } => None } }
pub open spec fn most(d: Dim) -> Option<usize> { match d { Dim::Concrete(n) => Some(n), Dim::Dynamic { id, max_bound } => max_bound } }
pub open spec fn known(s: Seq<Dim>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Concrete }
pub open spec fn bounded(s: Seq<Dim>) -> bool { forall|i: int| 0 <= i < s.len() ==> most(#[trigger] s[i]) is Some }
pub open spec fn sizes(s: Seq<Dim>) -> Seq<usize> { Seq::new(s.len(), |i: int| exact(s[i])->0) }
pub open spec fn maxima(s: Seq<Dim>) -> Seq<usize> { Seq::new(s.len(), |i: int| most(s[i])->0) }
pub open spec fn of(s: Seq<usize>) -> Seq<Dim> { Seq::new(s.len(), |i: int| Dim::Concrete(s[i])) }
/// identifiers of the dynamic extents, in order
pub open spec fn ids(s: Seq<Dim>) -> Seq<DynamicDimId> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { Dim::Concrete(_) => ids(s.drop_last()), Dim::Dynamic { id, .. } => ids(s.drop_last()).push(id) } } }
/// running product of the largest sizes; every unbounded extent counts 0
pub open spec fn run_max(s: Seq<Dim>, i: int) -> int decreases i { if i <= 0 { 1 } else { run_max(s, i - 1) * (match most(s[i - 1]) { Some(n) => n as int, None => 0 }) } }
/// no size computed on the way exceeds the machine word
pub open spec fn fit_max(s: Seq<Dim>) -> bool { (forall|i: int| 0 <= i <= s.len() ==> #[trigger] run_max(s, i) <= usize::MAX) && (forall|i: int| 0 <= i <= s.len() && bounded(s.skip(i)) ==> prod(#[trigger] maxima(s.skip(i))) <= usize::MAX) }
pub proof fn lemma_snoc(s: Seq<usize>, x: usize) ensures prod(s.push(x)) == prod(s) * x decreases s.len() {
    if s.len() == 0 { assert(s.push(x).skip(1) =~= Seq::<usize>::empty()); assert(s.push(x)[0] == x); assert(prod(Seq::<usize>::empty()) == 1); assert(prod(s.push(x)) == x as int * 1); }
    else { assert(s.push(x).skip(1) =~= s.skip(1).push(x)); lemma_snoc(s.skip(1), x); assert(s.push(x)[0] == s[0]); let p = prod(s.skip(1)); assert(s[0] as int * (p * x as int) == (s[0] as int * p) * x as int) by(nonlinear_arith); }
}
pub proof fn lemma_run(s: Seq<Dim>, i: int) requires 0 <= i <= s.len(), bounded(s) ensures run_max(s, i) == prod(maxima(s.take(i))) decreases i {
    if i == 0 { assert(maxima(s.take(0)) =~= Seq::<usize>::empty()); }
    else { lemma_run(s, i - 1); assert(maxima(s.take(i)) =~= maxima(s.take(i - 1)).push(most(s[i - 1])->0)); lemma_snoc(maxima(s.take(i - 1)), most(s[i - 1])->0); }
}
pub proof fn lemma_run_nonneg(s: Seq<Dim>, i: int) requires i <= s.len() ensures run_max(s, i) >= 0 decreases i { if i > 0 { lemma_run_nonneg(s, i - 1); let a = run_max(s, i - 1); let b = match most(s[i - 1]) { Some(n) => n as int, None => 0int }; assert(a >= 0 && b >= 0 ==> a * b >= 0) by(nonlinear_arith); } }
pub proof fn lemma_prod_nonneg(s: Seq<usize>) ensures prod(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_prod_nonneg(s.skip(1)); let a = s[0] as int; let b = prod(s.skip(1)); assert(a >= 0 && b >= 0 ==> a * b >= 0) by(nonlinear_arith); } }
pub proof fn lemma_known_bounded(s: Seq<Dim>) requires known(s) ensures bounded(s), sizes(s) =~= maxima(s) { assert forall|i: int| 0 <= i < s.len() implies most(#[trigger] s[i]) is Some by {} }
'''
END_ = r'''
proof fn T03_there_and_back(s: Seq<usize>) ensures known(of(s)), sizes(of(s)) =~= s, maxima(of(s)) =~= s {}
proof fn T03_bounds_are_those_of_the_largest_shape(s: Seq<Dim>) requires bounded(s) ensures run_max(s, s.len() as int) == prod(maxima(s)), known(s) ==> sizes(s) =~= maxima(s) { lemma_run(s, s.len() as int); assert(s.take(s.len() as int) =~= s); }
'''
W = r"self\s*\.dims\s*\.iter\(\)\s*"
def loop(init, typ, each): return "{ let mut vx_a%s = %s; let vx_v = &self.dims; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let d = &vx_v[vx_i]; %s vx_i += 1; } vx_a }" % (": " + typ if typ else "", init, each)
EX = [
  (W + r"\.all\(\|d\|\s*([^;{}]*?\(\))\)", lambda m: loop("true", "bool", "if !(%s) { vx_a = false; }" % m.group(1))),
  (W + r"\.any\(\|d\|\s*([^;{}]*?\(\))\)", lambda m: loop("false", "bool", "if %s { vx_a = true; }" % m.group(1))),
  (W + r"\.filter_map\(\|d\|\s*([^;{}]*?\(\))\)\s*\.collect\(\)", lambda m: loop("Vec::new()", "", "if let Some(vx_x) = %s { vx_a.push(vx_x); }" % m.group(1))),
  (W + r"\.filter_map\(\|d\|\s*([^;{}]*?\(\))\)\s*\.product\(\)", lambda m: loop("1", "usize", "if let Some(vx_x) = %s { vx_a = vx_a * vx_x; }" % m.group(1))),
  (W + r"\.map\(\|d\|\s*([^;{}]*?\(\))\)\s*\.try_fold\(1usize, \|acc, size\| size\.map\(\|s\| ([^;{}|]*?)\)\)", lambda m: loop("Some(1)", "Option<usize>", "if let Some(acc) = vx_a { let size = %s; vx_a = match size { Some(s) => Some(%s), None => None }; }" % (m.group(1), m.group(2)))),
  (W + r"\.map\(\|d\|\s*([^;{}]*?\(\))\)\s*\.collect\(\)", lambda m: loop("Some(Vec::new())", "Option<Vec<usize>>", "if let Some(mut vx_w) = vx_a { match %s { Some(vx_x) => { vx_w.push(vx_x); vx_a = Some(vx_w); }, None => { vx_a = None; } } }" % m.group(1))),
  (r"(shape\.dims\(\)|dims)\.iter\(\)\.map\(\|&d\| ([^;{}|]*?)\)\.collect\(\)", lambda m: "{ let mut vx_a: Vec<Dim> = Vec::new(); let vx_v = %s; let mut vx_i: usize = 0; while vx_i < vx_v.len() { let d = vx_v[vx_i]; vx_a.push(%s); vx_i += 1; } vx_a }" % (m.group(1), m.group(2))),
  (r"max_dims\.map\(Shape::from\)", "match max_dims { Some(vx_x) => Some(Shape::from(vx_x)), None => None }"),
  (r"(self\.dims\.get\(index\))\.and_then\(\|d\| ([^;{}|]*?)\)\s*$", r"match \1 { Some(d) => \2, None => None }"),
  (r"self\.max_size\(\)\.map\(\|s\| ([^;{}|]*?)\)", r"match self.max_size() { Some(s) => Some(\1), None => None }"),
  (r"vec!\[\]", "Vec::new()"), (r"self\.shape\.dims\(\)\.to_vec\(\)", "vx_dims_vec(self.shape.dims())"), (r"self\.strides\.to_vec\(\)", "vx_to_vec(&self.strides)"),
]
def w(inv): return dict(match="vx_v", inv="vx_v@ == self.dims@, vx_i <= vx_v.len(), " + inv, dec="vx_v.len() - vx_i")
TK = "self.dims@.take(vx_i as int)"
TAIL = dict(tail="proof { assert(self.dims@.take(vx_i as int).drop_last() =~= self.dims@.take(vx_i as int - 1)); assert(self.dims@.take(vx_i as int).last() == self.dims@[vx_i as int - 1]); }", after=" proof { assert(self.dims@.take(vx_i as int) =~= self.dims@); }")
def C(f, i, n, ensures, **k): return Contract(f, i, n, ensures=ensures, extra=EX, **k)
def ww(inv, **k): d = w(inv); d.update(k); return d
FROM = dict(match="vx_v", dec="vx_v.len() - vx_i", before="let ghost vx_g = vx_v@; ", inv="vx_v@ == vx_g, vx_i <= vx_v.len(), vx_a@ == of(vx_g.take(vx_i as int))", tail="proof { assert(of(vx_g.take(vx_i as int)) =~= of(vx_g.take(vx_i as int - 1)).push(Dim::Concrete(vx_g[vx_i as int - 1]))); }", after=" proof { assert(vx_g.take(vx_i as int) =~= vx_g); }")
BND = "(forall|k: int| 0 <= k < vx_i ==> most(#[trigger] self.dims@[k]) is Some)"
SHAPE = [
  C(SS, "SymbolicShape", "new", "r.dims@ == dims@"),
  C(SS, "SymbolicShape", "from_concrete", "r.dims@ == of(shape.dims@)", loops=[FROM]),
  C(SS, "SymbolicShape", "concrete", "r.dims@ == of(dims@)", loops=[FROM]),
  C(SS, "SymbolicShape", "dims", "r@ == self.dims@"), C(SS, "SymbolicShape", "ndim", "r == self.dims@.len()"),
  C(SS, "SymbolicShape", "is_fully_concrete", "r == known(self.dims@)", loops=[w("vx_a == (forall|k: int| 0 <= k < vx_i ==> (#[trigger] self.dims@[k]) is Concrete)")]),
  C(SS, "SymbolicShape", "is_dynamic", "r == !known(self.dims@)", loops=[w("vx_a == !(forall|k: int| 0 <= k < vx_i ==> (#[trigger] self.dims@[k]) is Concrete)")]),
  C(SS, "SymbolicShape", "to_concrete", "r is Some <==> known(self.dims@), r is Some ==> r->0.dims@ == sizes(self.dims@)", loops=[ww("known(self.dims@), vx_a@ == sizes(%s)" % TK, tail="proof { assert(sizes(self.dims@.take(vx_i as int)) =~= sizes(self.dims@.take(vx_i as int - 1)).push(exact(self.dims@[vx_i as int - 1])->0)); }", after=" proof { assert(self.dims@.take(vx_i as int) =~= self.dims@); }")]),
  C(SS, "SymbolicShape", "size", "r is Some <==> known(self.dims@), r is Some ==> r->0 == prod(sizes(self.dims@))", requires="fit_max(self.dims@)", loops=[ww("known(self.dims@), fit_max(self.dims@), vx_a == run_max(self.dims@, vx_i as int)", tail="", head="proof { lemma_run_nonneg(self.dims@, vx_i as int + 1); assert(run_max(self.dims@, vx_i as int + 1) == run_max(self.dims@, vx_i as int) * exact(self.dims@[vx_i as int])->0); assert(run_max(self.dims@, vx_i as int + 1) <= usize::MAX); } ", after=" proof { assert(self.dims@.take(vx_i as int) =~= self.dims@); lemma_known_bounded(self.dims@); lemma_run(self.dims@, vx_i as int); }")]),
  C(SS, "SymbolicShape", "max_size", "r is Some <==> bounded(self.dims@), r is Some ==> r->0 == prod(maxima(self.dims@))", requires="fit_max(self.dims@)", loops=[ww("fit_max(self.dims@), vx_a is Some <==> %s, vx_a is Some ==> vx_a->0 == run_max(self.dims@, vx_i as int)" % BND, head="proof { lemma_run_nonneg(self.dims@, vx_i as int + 1); assert(run_max(self.dims@, vx_i as int + 1) == run_max(self.dims@, vx_i as int) * (match most(self.dims@[vx_i as int]) { Some(n) => n as int, None => 0 })); assert(run_max(self.dims@, vx_i as int + 1) <= usize::MAX); } ", after=" proof { assert(self.dims@.take(vx_i as int) =~= self.dims@); if bounded(self.dims@) { lemma_run(self.dims@, vx_i as int); } }")]),
  C(SS, "SymbolicShape", "to_max_shape", "r is Some <==> bounded(self.dims@), r is Some ==> r->0.dims@ == maxima(self.dims@)", loops=[ww("vx_a is Some <==> %s, vx_a is Some ==> vx_a->0@ == maxima(%s)" % (BND, TK), tail="proof { assert(maxima(self.dims@.take(vx_i as int)) =~= maxima(self.dims@.take(vx_i as int - 1)).push(most(self.dims@[vx_i as int - 1])->0)); }", after=" proof { assert(self.dims@.take(vx_i as int) =~= self.dims@); }")]),
  C(SS, "SymbolicShape", "dynamic_dim_ids", "r@ == ids(self.dims@)", loops=[ww("vx_a@ == ids(%s)" % TK, **TAIL)]),
  C(SS, "SymbolicShape", "dim", "index < self.dims@.len() ==> r == Some(&self.dims@[index as int]), index >= self.dims@.len() ==> r is None"),
  C(SS, "SymbolicShape", "dim_size", "0 <= (if index < 0 { index + self.dims@.len() } else { index as int }) < self.dims@.len() ==> r == exact(self.dims@[if index < 0 { index + self.dims@.len() } else { index as int }]), !(0 <= (if index < 0 { index + self.dims@.len() } else { index as int }) < self.dims@.len()) ==> r is None", requires="self.dims@.len() < 0x7fff_ffff", pre=UL.CAST),
]
ST = "prod(maxima(shape.dims@).skip(k + 1))"
LAYOUT = [
  C(SL, "SymbolicLayout", "new", "r.shape == shape, r.strides@ == strides@, r.offset == 0"),
  C(SL, "SymbolicLayout", "from_shape", "r is Some <==> bounded(shape.dims@), r is Some ==> r->0.shape == *shape && r->0.offset == 0 && is_row_major(r->0.strides@, maxima(shape.dims@))", requires="fit_max(shape.dims@)"),
  C(SL, "SymbolicLayout", "from_concrete", "r.shape.dims@ == of(layout.shape.dims@), r.strides@ == layout.strides@, r.offset == layout.offset"),
  C(SL, "SymbolicLayout", "shape", "*r == self.shape"), C(SL, "SymbolicLayout", "strides", "r@ == self.strides@"), C(SL, "SymbolicLayout", "offset", "r == self.offset"), C(SL, "SymbolicLayout", "ndim", "r == self.shape.dims@.len()"),
  C(SL, "SymbolicLayout", "is_fully_concrete", "r == known(self.shape.dims@)"), C(SL, "SymbolicLayout", "is_dynamic", "r == !known(self.shape.dims@)"),
  C(SL, "SymbolicLayout", "size", "r is Some <==> known(self.shape.dims@), r is Some ==> r->0 == prod(sizes(self.shape.dims@))", requires="fit_max(self.shape.dims@)"),
  C(SL, "SymbolicLayout", "max_size", "r is Some <==> bounded(self.shape.dims@), r is Some ==> r->0 == prod(maxima(self.shape.dims@))", requires="fit_max(self.shape.dims@)"),
  C(SL, "SymbolicLayout", "buffer_size", "r is Some <==> bounded(self.shape.dims@), r is Some ==> r->0 == self.offset + prod(maxima(self.shape.dims@))", requires="fit_max(self.shape.dims@), bounded(self.shape.dims@) ==> self.offset + prod(maxima(self.shape.dims@)) <= usize::MAX"),
  C(SL, "SymbolicLayout", "to_concrete", "r is Some <==> known(self.shape.dims@), r is Some ==> r->0.shape.dims@ == sizes(self.shape.dims@) && r->0.strides@ == self.strides@ && r->0.offset == self.offset"),
  C(SL, "SymbolicLayout", "to_max_layout", "r is Some <==> bounded(self.shape.dims@), r is Some ==> r->0.shape.dims@ == maxima(self.shape.dims@) && r->0.strides@ == self.strides@ && r->0.offset == self.offset"),
  C(SL, "SymbolicLayout", "compute_strides", "r is Some <==> bounded(shape.dims@.skip(1)) || shape.dims@.len() == 0, r is Some ==> is_row_major(r->0@, maxima(shape.dims@))", requires="fit_max(shape.dims@)",
    before=[(r"let dim_size =", "proof { let n = i as int + 1; assert(shape.dims@.skip(1)[n - 1] == shape.dims@[n]); }")],
    loops=[dict(match=r"rev\(\)", before="proof { assert(maxima(shape.dims@).skip(ndim as int) =~= Seq::<usize>::empty()); } ",
      inv="fit_max(shape.dims@), vx_lo0 == 0, vx_r0 <= ndim - 1, ndim == shape.dims@.len(), ndim > 0, strides@.len() == ndim, forall|k: int| vx_r0 < k < ndim ==> most(#[trigger] shape.dims@[k]) is Some, forall|k: int| vx_r0 <= k < ndim ==> #[trigger] strides@[k] as int == " + ST,
      head="proof { let n = i as int + 1; let m = maxima(shape.dims@); if most(shape.dims@[n]) is Some { lemma_prod_skip(m, n); assert(maxima(shape.dims@.skip(n)) =~= m.skip(n)); assert(bounded(shape.dims@.skip(n))); assert(prod(maxima(shape.dims@.skip(n))) <= usize::MAX); lemma_prod_nonneg(m.skip(n)); assert(strides@[n] as int == prod(m.skip(n + 1))); assert(strides@[n] * m[n] == m[n] * strides@[n]) by(nonlinear_arith); } } ",
      after=" proof { assert forall|k: int| 0 <= k < shape.dims@.skip(1).len() implies most(#[trigger] shape.dims@.skip(1)[k]) is Some by { assert(shape.dims@.skip(1)[k] == shape.dims@[k + 1]); } }")]),
  C(SL, "SymbolicLayout", "set_offset", "final(self).offset == offset, final(self).strides == old(self).strides, final(self).shape == old(self).shape"),
  C(SL, "SymbolicLayout", "with_dim", "index >= self.shape.dims@.len() ==> r is None, index < self.shape.dims@.len() ==> (r is Some <==> bounded(self.shape.dims@.update(index as int, dim).skip(1))), r is Some ==> r->0.shape.dims@ == self.shape.dims@.update(index as int, dim) && r->0.offset == self.offset && is_row_major(r->0.strides@, maxima(r->0.shape.dims@))", requires="fit_max(self.shape.dims@.update(index as int, dim))"),
]
DIM = [C(DI, "Dim", "concrete", "r == Dim::Concrete(size)"), C(DI, "Dim", "dynamic_with_id", "r == (Dim::Dynamic { id, max_bound })"), C(DI, "Dim", "is_dynamic", "r == !(self is Concrete)"), C(DI, "Dim", "is_concrete", "r == (self is Concrete)"), C(DI, "Dim", "concrete_size", "r == exact(*self)"), C(DI, "Dim", "allocation_size", "r == most(*self)"),
  C(DI, "Dim", "dynamic_id", "match *self { Dim::Concrete(_) => r is None, Dim::Dynamic { id, max_bound } => r == Some(id) }"), C(DI, "Dim", "max_bound", "match *self { Dim::Concrete(_) => r is None, Dim::Dynamic { id, max_bound } => r == max_bound }")]
pick = lambda cs, *ns: [c for c in cs if c.name in ns]
UNIT = Unit("sym", [("struct", SH, "Shape"), ("struct", LA, "Layout"), ("struct", DI, "DynamicDimId"), ("struct", DI, "Dim"), ("struct", SS, "SymbolicShape"), ("struct", SL, "SymbolicLayout"), ("raw", SPEC),
  ("impl", "Shape", SH, pick(UL.SHAPE_FNS, "dims", "ndim") + [Contract(SH, "From<Vec<usize>> for Shape", "from", ensures="r.dims@ == dims@")]),
  ("impl", "Layout", LA, pick(UL.LAYOUT_FNS, "new", "shape", "strides", "offset", "set_offset")),
  ("impl", "Dim", DI, DIM), ("impl", "SymbolicShape", SS, SHAPE), ("impl", "SymbolicLayout", SL, LAYOUT), ("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
