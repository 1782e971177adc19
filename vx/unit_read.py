"""Contracts for reading tensors back: crates/hodu_core/src/tensor/{vec,bytes}.rs (property T15)."""
from vx import *
import unit_layout as UL, unit_meta as UM
SH, LA = UL.SH, UL.LA
VE = "crates/hodu_core/src/tensor/vec.rs"; BY = "crates/hodu_core/src/tensor/bytes.rs"
SPEC = r'''
pub open spec fn wf(l: Layout) -> bool { l.strides@.len() == l.shape.dims@.len() }
pub open spec fn fits_layout(l: Layout) -> bool { fits(l.shape.dims@) }
/// position of coordinate c in row-major order
pub open spec fn pos(c: Seq<int>, dims: Seq<usize>) -> int decreases c.len() { if c.len() == 0 || dims.len() == 0 { 0 } else { c[0] * prod(dims.skip(1)) + pos(c.skip(1), dims.skip(1)) } }
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { Seq::new(v.len(), |i: int| v[i] as int) }
pub proof fn lemma_prod_nonneg(s: Seq<usize>) ensures prod(s) >= 0 decreases s.len() { if s.len() > 0 { lemma_prod_nonneg(s.skip(1)); let a = s[0] as int; let b = prod(s.skip(1)); assert(a >= 0 && b >= 0 ==> a * b >= 0) by(nonlinear_arith); } }
pub proof fn lemma_pos_bound(c: Seq<int>, dims: Seq<usize>) requires in_box(c, dims) ensures 0 <= pos(c, dims) < prod(dims) decreases c.len() {
    if c.len() > 0 { let t = c.skip(1); let d = dims.skip(1); assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < d[i] by { assert(t[i] == c[i + 1]); } lemma_pos_bound(t, d); lemma_prod_nonneg(d);
        let (a, p, n, x) = (c[0], prod(d), dims[0] as int, pos(t, d)); assert(0 <= a * p + x < n * p) by(nonlinear_arith) requires 0 <= a < n, 0 <= x < p; } else { assert(prod(dims) == 1); } }
pub proof fn lemma_pos_inj(a: Seq<int>, b: Seq<int>, dims: Seq<usize>) requires in_box(a, dims), in_box(b, dims), pos(a, dims) == pos(b, dims) ensures a == b decreases a.len() {
    if a.len() > 0 { let (s, t, d) = (a.skip(1), b.skip(1), dims.skip(1)); assert forall|i: int| 0 <= i < s.len() implies 0 <= #[trigger] s[i] < d[i] by { assert(s[i] == a[i + 1]); } assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < d[i] by { assert(t[i] == b[i + 1]); }
        lemma_pos_bound(s, d); lemma_pos_bound(t, d); let (x, y, p, u, v) = (a[0], b[0], prod(d), pos(s, d), pos(t, d));
        assert(x == y) by(nonlinear_arith) requires x * p + u == y * p + v, 0 <= u < p, 0 <= v < p; lemma_pos_inj(s, t, d);
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(s[i - 1] == a[i] && t[i - 1] == b[i]); } } }
    assert(a =~= b); }
pub proof fn lemma_pos_contig(c: Seq<int>, st: Seq<usize>, dims: Seq<usize>) requires c.len() == dims.len(), is_row_major(st, dims) ensures dot(c, st) == pos(c, dims) decreases c.len() {
    if c.len() > 0 { assert(st[0] as int == prod(dims.skip(1))); let (s, d) = (st.skip(1), dims.skip(1)); assert forall|i: int| 0 <= i < d.len() implies #[trigger] s[i] as int == prod(d.skip(i + 1)) by { assert(d.skip(i + 1) =~= dims.skip(i + 2)); assert(s[i] == st[i + 1]); } lemma_pos_contig(c.skip(1), s, d); } }
pub proof fn lemma_pos_set(c: Seq<int>, dims: Seq<usize>, k: int, v: int) requires c.len() == dims.len(), 0 <= k < c.len() ensures pos(c.update(k, v), dims) == pos(c, dims) + (v - c[k]) * prod(dims.skip(k + 1)) decreases c.len() {
    let p = prod(dims.skip(k + 1)); let x = c[k];
    if k == 0 { assert(c.update(0, v).skip(1) =~= c.skip(1)); assert(v * p == x * p + (v - x) * p) by(nonlinear_arith); }
    else { assert(c.update(k, v).skip(1) =~= c.skip(1).update(k - 1, v)); assert(dims.skip(1).skip(k) =~= dims.skip(k + 1)); lemma_pos_set(c.skip(1), dims.skip(1), k - 1, v); } }
/// every logical element of the view lies in its storage
pub open spec fn stored(l: Layout, n: int) -> bool { forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) ==> l.offset + dot(c, l.strides@) < n }
pub proof fn lemma_dot_nonneg(c: Seq<int>, st: Seq<usize>) requires forall|i: int| 0 <= i < c.len() ==> c[i] >= 0 ensures dot(c, st) >= 0 decreases c.len() { if c.len() > 0 && st.len() > 0 { lemma_dot_nonneg(c.skip(1), st.skip(1)); let (a, b) = (c[0], st[0] as int); assert(a >= 0 && b >= 0 ==> a * b >= 0) by(nonlinear_arith); } }
pub fn vx_dotsum(a: &Vec<usize>, b: &[usize]) -> (r: usize) requires a@.len() == b@.len(), dot(ints(a@), b@) <= usize::MAX ensures r == dot(ints(a@), b@) {
    let mut acc: usize = 0; let mut k: usize = 0; let ghost c = ints(a@);
    proof { assert(c.skip(0) =~= c); assert(b@.skip(0) =~= b@); }
    while k < a.len() invariant k <= a@.len(), a@.len() == b@.len(), c == ints(a@), acc + dot(c.skip(k as int), b@.skip(k as int)) == dot(c, b@), dot(c, b@) <= usize::MAX decreases a.len() - k {
        proof { let n = k as int; let (t, u) = (c.skip(n), b@.skip(n)); assert(t.skip(1) =~= c.skip(n + 1)); assert(u.skip(1) =~= b@.skip(n + 1)); assert(t[0] == a@[n] as int && u[0] == b@[n]); assert forall|i: int| 0 <= i < t.skip(1).len() implies t.skip(1)[i] >= 0 by { assert(t.skip(1)[i] == a@[n + 1 + i] as int); } lemma_dot_nonneg(t.skip(1), u.skip(1)); let (x, y) = (a@[n] as int, b@[n] as int); assert(x * y >= 0) by(nonlinear_arith) requires x >= 0, y >= 0; assert(a@[n] * b@[n] == x * y); }
        acc = acc + a[k] * b[k]; k += 1; }
    proof { assert(dot(c.skip(a@.len() as int), b@.skip(a@.len() as int)) == 0); }
    acc }
// trusted: the clone of an element is that element
#[verifier::external_body] pub fn vx_dup<T: Clone>(x: &T) -> (r: T) ensures r == *x { x.clone() }
#[verifier::external_body] pub fn vx_put<T: Clone>(v: &mut Vec<T>, s: &[T]) ensures final(v)@ == old(v)@ + s@ { v.extend_from_slice(s) }
#[verifier::external_body] pub fn vx_sub<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body] pub fn vx_cutv<T: Clone>(s: &Vec<T>, a: usize, b: usize) -> (r: Vec<T>) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { s[a..b].to_vec() }
/// r holds, from base on, the logical elements of the view in row-major order
pub open spec fn reads<T>(r: Seq<T>, base: int, data: Seq<T>, l: Layout) -> bool { r.len() == base + prod(l.shape.dims@) && forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) ==> r[base + pos(c, l.shape.dims@)] == data[l.offset + dot(c, l.strides@)] }
pub open spec fn reads_to<T>(r: Seq<T>, base: int, data: Seq<T>, l: Layout, k: int) -> bool { r.len() == base + k && forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) && pos(c, l.shape.dims@) < k ==> r[base + pos(c, l.shape.dims@)] == data[l.offset + dot(c, l.strides@)] }
pub proof fn lemma_read_more<T>(r: Seq<T>, q: Seq<T>, base: int, data: Seq<T>, l: Layout, k: int, i: Seq<int>) requires base >= 0, reads_to(r, base, data, l, k), in_box(i, l.shape.dims@), pos(i, l.shape.dims@) == k, q == r.push(data[l.offset + dot(i, l.strides@)]) ensures reads_to(q, base, data, l, k + 1) {
    assert forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) && pos(c, l.shape.dims@) < k + 1 implies q[base + pos(c, l.shape.dims@)] == data[l.offset + dot(c, l.strides@)] by { lemma_pos_bound(c, l.shape.dims@); if pos(c, l.shape.dims@) == k { lemma_pos_inj(c, i, l.shape.dims@); } else { assert(q[base + pos(c, l.shape.dims@)] == r[base + pos(c, l.shape.dims@)]); } } }
pub proof fn lemma_read_contig<T>(r: Seq<T>, o: Seq<T>, data: Seq<T>, l: Layout) requires wf(l), is_row_major(l.strides@, l.shape.dims@), l.offset + prod(l.shape.dims@) <= data.len(), prod(l.shape.dims@) >= 0, r == o + data.subrange(l.offset as int, l.offset + prod(l.shape.dims@)) ensures reads(r, o.len() as int, data, l) {
    assert forall|c: Seq<int>| #[trigger] in_box(c, l.shape.dims@) implies r[o.len() + pos(c, l.shape.dims@)] == data[l.offset + dot(c, l.strides@)] by { lemma_pos_bound(c, l.shape.dims@); lemma_pos_contig(c, l.strides@, l.shape.dims@); } }
/// one step of the odometer: with carry 1 waiting at axis r
pub proof fn lemma_slot(o: int, x: int, d: int, s: int, n: int) requires 0 <= x < d, s >= 0, o >= 0, o + d * s <= n ensures 0 <= x * s, o + x * s + s <= n { assert(x * s + s <= d * s) by(nonlinear_arith) requires 0 <= x < d, s >= 0; assert(x * s >= 0) by(nonlinear_arith) requires x >= 0, s >= 0; }
pub open spec fn fits_all(s: Seq<usize>) -> bool { forall|i: int, j: int| 0 <= i <= j <= s.len() ==> 0 <= #[trigger] prod(s.subrange(i, j)) <= usize::MAX }
pub proof fn lemma_snoc(s: Seq<usize>, x: usize) ensures prod(s.push(x)) == prod(s) * x decreases s.len() {
    if s.len() == 0 { assert(s.push(x).skip(1) =~= Seq::<usize>::empty()); assert(s.push(x)[0] == x); assert(prod(Seq::<usize>::empty()) == 1); assert(prod(s.push(x)) == x as int * 1); }
    else { assert(s.push(x).skip(1) =~= s.skip(1).push(x)); lemma_snoc(s.skip(1), x); assert(s.push(x)[0] == s[0]); let p = prod(s.skip(1)); assert(s[0] as int * (p * x as int) == (s[0] as int * p) * x as int) by(nonlinear_arith); } }
pub proof fn lemma_run(s: Seq<usize>, i: int, j: int) requires 0 <= i <= j < s.len() ensures prod(s.subrange(i, j + 1)) == prod(s.subrange(i, j)) * s[j] { assert(s.subrange(i, j + 1) =~= s.subrange(i, j).push(s[j])); lemma_snoc(s.subrange(i, j), s[j]); }
pub proof fn lemma_one(s: Seq<usize>, i: int) requires 0 <= i < s.len() ensures prod(s.subrange(i, i + 1)) == s[i] { assert(s.subrange(i, i) =~= Seq::empty()); lemma_run(s, i, i); let x = s[i] as int; assert(1 * x == x); }
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct vx_ph<T> { x: core::marker::PhantomData<T> }
#[verifier::external_body] pub struct Tensor { x: u8 }
impl Tensor {
    pub uninterp spec fn lay(&self) -> Layout;
    /// the logical elements, in row-major order
    pub uninterp spec fn logical<T>(&self) -> Seq<T>;
    #[verifier::external_body] pub fn layout(&self) -> (r: Layout) ensures r == self.lay() { unimplemented!() }
    /// assumed here; extract_with_layout is proved, the choice of element type is checked natively
    #[verifier::external_body] pub fn to_flatten_vec<T: Clone>(&self) -> (r: HoduResult<Vec<T>>) ensures r is Ok ==> r->Ok_0@ == self.logical::<T>() && r->Ok_0@.len() == prod(self.lay().shape.dims@) { unimplemented!() }
}
'''
VEC = lambda n: "T" if n == 0 else "Vec<%s>" % VEC(n - 1)
def is_n(n):
    if n == 1: return "pub open spec fn is1<T>(v: Seq<T>, f: Seq<T>, o: int, d: Seq<usize>) -> bool { v == f.subrange(o, o + d[0]) }\n"
    return "/// v holds f[o..] cut along the extents d\npub open spec fn is%d<T>(v: Seq<%s>, f: Seq<T>, o: int, d: Seq<usize>) -> bool { v.len() == d[0] && forall|i: int| 0 <= i < v.len() ==> is%d(#[trigger] v[i]@, f, o + i * prod(d.skip(1)), d.skip(1)) }\n" % (n, VEC(n - 1), n - 1)
SPEC += "".join(is_n(n) for n in range(1, 9))
def nested(body, n):
    """(0..n).map(|i| E).collect()  ->  the loop it stands for, innermost last"""
    k = 0
    while True:
        m = re.search(r"\(0\.\.(\w+)\)\s*\.map\(\|(\w+)\|\s*", body)
        if not m: return body
        o = body.index("(", m.start() + body[m.start():].index(".map")); c = match_close(body, o)
        e = re.match(r"\s*\.collect(?:::<[^()]*>)?\(\)", body[c + 1:])
        if not e: raise LostAnchor("nested map without collect")
        body = body[:m.start()] + "{ let mut vx_v%d = Vec::<%s>::new(); let mut vx_x%d: usize = 0; while vx_x%d < %s { let %s = vx_x%d; let vx_e%d = %s; vx_v%d.push(vx_e%d); vx_x%d += 1; } vx_v%d }" % (k, VEC(n - 1 - k), k, k, m.group(1), m.group(2), k, k, body[m.end():c], k, k, k, k) + body[c + 1 + e.end():]
        k += 1
IDX = [(r"\bdims\[(\d)\]", r"dims.dims()[\1]"), (r"(\w+)\[(\w+)\.\.(\w+ \+ \w+)\]\.to_vec\(\)", r"vx_cutv(&\1, \2, \3)"), (r"let rows = ([^;]*);\s*let cols = ([^;]*);", r"let (d0, d1) = (\1, \2); let (rows, cols) = (d0, d1);")]
def to_vec(n):
    if n == 1: return Contract(VE, "Tensor", "to_vec1d", ensures="self.lay().shape.dims@.len() != 1 ==> r is Err, r is Ok ==> r->Ok_0@ == self.logical::<T>()")
    S = lambda l: "prod(d.skip(%d))" % l
    off = lambda l: "0" if l == 0 else "o%d" % (l - 1)
    loops = []
    for l in range(n - 1):
        loops.append(dict(match="while", dec="d%d - vx_x%d" % (l, l), before="let ghost b%d: int = %s; " % (l, "0" if l == 0 else "b%d + vx_x%d * %s" % (l - 1, l - 1, S(l))),
            after=" proof { let e = d.skip(%d); assert(e.skip(1) =~= d.skip(%d)); assert(e[0] == d[%d]); assert(is%d(vx_v%d@, f, b%d, e)); }" % (l, l + 1, l, n - l, l, l),
            inv="f == flat_data@, b0 == 0, d.len() == %d, %s, vx_x%d <= d%d, 0 <= b%d, b%d + %s <= f.len(), %s == d%d * %s, vx_v%d@.len() == vx_x%d, forall|y: int| 0 <= y < vx_x%d ==> is%d(#[trigger] vx_v%d@[y]@, f, b%d + y * %s, d.skip(%d))" % (n, "@FACTS", l, l, l, l, S(l), S(l), l, S(l + 1), l, l, l, n - l - 1, l, l, S(l + 1), l + 1),
            head="proof { assert(d.skip(%d).skip(1) =~= d.skip(%d)); lemma_prod_nonneg(d.skip(%d)); lemma_slot(b%d, vx_x%d as int, d%d as int, %s, f.len() as int); } " % (l, l + 1, l + 1, l, l, l, S(l + 1))))
    facts = ", ".join(["d%d == d[%d]" % (l, l) for l in range(n)] + ["stride%d == %s" % (l, S(l)) for l in range(1, n - 1)] + ["%s == d%d" % (S(n - 1), n - 1), "f.len() <= usize::MAX"] + ["%s == d%d * %s" % (S(l), l, S(l + 1)) for l in range(n - 1)] + (["rows == d[0]", "cols == d[1]"] if n == 2 else []))
    names = "ijklmno"
    for l, x in enumerate(loops): x["inv"] = x["inv"].replace("@FACTS", facts + ("".join(", vx_x%d < d%d" % (k, k) + (", offset_%s == b%d + vx_x%d * %s" % (names[k], k, k, S(k + 1))) for k in range(l)) + "".join(", b%d == b%d + vx_x%d * %s" % (k + 1, k, k, S(k + 1)) for k in range(l))))
    pr = "proof { let s = d; " + " ".join("lemma_one(s, %d); " % i + " ".join("lemma_run(s, %d, %d);" % (i, j) for j in range(i + 1, n)) for i in range(1, n)) + " ".join("assert(s.subrange(%d, %d) =~= s.skip(%d)); assert(prod(s.subrange(%d, %d)) <= usize::MAX);" % (i, n, i, i, n) for i in range(n)) + " ".join("assert(0 <= prod(s.subrange(%d, %d)) <= usize::MAX);" % (i, j) for i in range(1, n) for j in range(i + 1, n)) + " ".join("lemma_prod_skip(s, %d);" % i for i in range(n)) + " assert(s.skip(0) =~= s); }"
    return Contract(VE, "Tensor", "to_vec%dd" % n, ensures="self.lay().shape.dims@.len() != %d ==> r is Err, r is Ok ==> is%d(r->Ok_0@, self.logical::<T>(), 0, self.lay().shape.dims@)" % (n, n), requires="fits_all(self.lay().shape.dims@)", extra=IDX + [(r"[\s\S]+", lambda m: nested(m.group(0), n))], loops=loops,
        pre="let ghost d = self.lay().shape.dims@; let ghost mut f = Seq::<T>::empty(); ",
        before=[(r"let \(d0", "proof { f = flat_data@; } " + pr)] , attrs="")
LOOPK = dict(match="while vx_k <", dec="total_elements - vx_k", before="proof { assert forall|c: Seq<int>| #[trigger] in_box(c, layout.shape.dims@) implies 0 <= pos(c, layout.shape.dims@) by { lemma_pos_bound(c, layout.shape.dims@); } lemma_zero(indices@, layout.shape.dims@); } ",
  inv="*dims == layout.shape, data@.len() <= usize::MAX, strides@ == layout.strides@, wf(*layout), fits(layout.shape.dims@), stored(*layout, data@.len() as int), ndim == layout.shape.dims@.len(), total_elements == prod(layout.shape.dims@), vx_k <= total_elements, indices@.len() == ndim, base >= 0, reads_to(result@, base, data@, *layout, vx_k as int), vx_k < total_elements ==> in_box(ints(indices@), layout.shape.dims@) && pos(ints(indices@), layout.shape.dims@) == vx_k",
  head="let ghost r0 = result@; let ghost at = ints(indices@); proof { assert(in_box(at, layout.shape.dims@)); assert(layout.offset + dot(at, layout.strides@) < data@.len()); lemma_dot_nonneg(at, layout.strides@); assert(strides@ == layout.strides@); } ",
  ensures="vx_k == total_elements",
  tail=" vx_k += 1; ", after=" proof { assert forall|c: Seq<int>| #[trigger] in_box(c, layout.shape.dims@) implies result@[base + pos(c, layout.shape.dims@)] == data@[layout.offset + dot(c, layout.strides@)] by { lemma_pos_bound(c, layout.shape.dims@); } } ")
LOOPI = dict(match=r"rev\(\)",
  before="proof { lemma_read_more(r0, result@, base, data@, *layout, vx_k as int, at); assert(layout.shape.dims@.skip(ndim as int) =~= Seq::empty()); assert(layout.shape.dims@.skip(0) =~= layout.shape.dims@); lemma_pos_bound(at, layout.shape.dims@); } ",
  inv_except_break="carry == 1, pos(ints(indices@), layout.shape.dims@) >= 0, pos(ints(indices@), layout.shape.dims@) + prod(layout.shape.dims@.skip(vx_r1 as int)) == vx_k + 1, in_box(ints(indices@), layout.shape.dims@)",
  inv="*dims == layout.shape, layout.shape.dims@.skip(0) == layout.shape.dims@, vx_lo1 == 0, vx_r1 <= ndim, ndim == layout.shape.dims@.len(), indices@.len() == ndim, fits(layout.shape.dims@)",
  ensures="in_box(ints(indices@), layout.shape.dims@), carry == 0 ==> pos(ints(indices@), layout.shape.dims@) == vx_k + 1, carry == 0 || carry == 1, carry == 1 ==> vx_k + 1 >= prod(layout.shape.dims@)",
  head="let ghost c0 = ints(indices@); proof { assert(in_box(c0, layout.shape.dims@)); let ii = i as int; assert(0 <= c0[ii] < layout.shape.dims@[ii]); lemma_pos_set(c0, layout.shape.dims@, ii, c0[ii] + 1); lemma_pos_set(c0, layout.shape.dims@, ii, 0); lemma_prod_skip(layout.shape.dims@, ii); let p = prod(layout.shape.dims@.skip(ii + 1)); assert((c0[ii] + 1 - c0[ii]) * p == p) by(nonlinear_arith); if c0[ii] + 1 == layout.shape.dims@[ii] { let q = layout.shape.dims@[ii] as int; assert((0 - (q - 1)) * p + q * p == p) by(nonlinear_arith); } } ",
  tail=" proof { assert(ints(indices@) =~= c0.update(i as int, indices@[i as int] as int)); assert(in_box(ints(indices@), layout.shape.dims@)); lemma_pos_bound(ints(indices@), layout.shape.dims@); }",
  after=" proof { assert(layout.shape.dims@.skip(0) =~= layout.shape.dims@); }")
SPEC += r'''
pub proof fn lemma_zero(v: Seq<usize>, dims: Seq<usize>) requires v.len() == dims.len(), forall|i: int| 0 <= i < v.len() ==> v[i] == 0 ensures prod(dims) > 0 ==> in_box(ints(v), dims) && pos(ints(v), dims) == 0 decreases v.len() {
    if v.len() > 0 { let d = dims.skip(1); let p = prod(d); let n = dims[0] as int; lemma_prod_nonneg(d); assert(n * p > 0 ==> n > 0 && p > 0) by(nonlinear_arith) requires n >= 0, p >= 0; lemma_zero(v.skip(1), d); assert(ints(v).skip(1) =~= ints(v.skip(1))); assert(0 * p == 0);
        if prod(dims) > 0 { assert forall|i: int| 0 <= i < ints(v).len() implies 0 <= #[trigger] ints(v)[i] < dims[i] by { if i > 0 { assert(in_box(ints(v.skip(1)), d)); assert(ints(v.skip(1))[i - 1] < d[i - 1]); } } } } }
'''
EXTRACT = Contract(VE, None, "extract_with_layout", requires="wf(*layout), data@.len() <= usize::MAX, fits(layout.shape.dims@), stored(*layout, data@.len() as int), is_row_major(layout.strides@, layout.shape.dims@) ==> layout.offset + prod(layout.shape.dims@) <= data@.len() && layout.offset + prod(layout.shape.dims@) <= usize::MAX",
  ensures="reads(final(result)@, old(result)@.len() as int, data@, *layout), final(result)@.len() >= old(result)@.len(), forall|i: int| 0 <= i < old(result)@.len() ==> final(result)@[i] == old(result)@[i]" if False else "reads(final(result)@, old(result)@.len() as int, data@, *layout)",
  pre="let ghost base = result@.len() as int; proof { lemma_prod_nonneg(layout.shape.dims@); assert(layout.shape.dims@.skip(0) =~= layout.shape.dims@); } ",
  extra=[(r"result\.extend_from_slice\(&data\[offset\.\.([^\]]*)\]\);", r"let vx_n = \1; let ghost vx_old = result@; vx_put(result, vx_sub(data, offset, vx_n)); proof { lemma_read_contig(result@, vx_old, data@, *layout); }"),
         (r"(\w+\.dims\(\))\.iter\(\)\.copied\(\)\.product::<usize>\(\)", r"vx_product(\1)"), (r"vec!\[0usize; (\w+)\]", r"vx_from_elem(0usize, \1)"),
         (r"for _ in 0\.\.total_elements \{", "let mut vx_k: usize = 0; while vx_k < total_elements {"),
         (r"indices\.iter\(\)\.zip\(strides\.iter\(\)\)\.map\(\|\(&i, &s\)\| i \* s\)\.sum::<usize>\(\)", "vx_dotsum(&indices, strides)"),
         (r"data\[(\w+)\]\.clone\(\)", r"vx_dup(&data[\1])"), (r"let mut carry = 1;", "let mut carry: usize = 1;"),
         (r"if carry == 1 \{\s*break;", "if carry == 1 { proof { assert(vx_k + 1 == total_elements); } vx_k += 1; break;"), (r"indices\[(\w+)\] \+= (\w+);", r"let vx_t = indices[\1] + \2; indices.set(\1, vx_t);"), (r"indices\[(\w+)\] = 0;", r"indices.set(\1, 0);"), (r"(indices\.set\(i, vx_t\);)", r"\1 proof { let dd = layout.shape.dims@; let ii = i as int; assert(ints(indices@) =~= c0.update(ii, c0[ii] + 1)); assert(indices@[ii] < dd[ii] ==> in_box(ints(indices@), dd)) by { if indices@[ii] < dd[ii] { assert forall|j: int| 0 <= j < ints(indices@).len() implies 0 <= #[trigger] ints(indices@)[j] < dd[j] by { if j != ii { assert(0 <= c0[j] < dd[j]); } } } } }")],
  loops=[LOOPK, LOOPI])
END_ = r'''
/// the element at [i][j] is the one at row-major position [i, j]
proof fn T15_nested_is_row_major<T>(v: Seq<Vec<T>>, f: Seq<T>, d: Seq<usize>, i: int, j: int) requires d.len() == 2, is2(v, f, 0, d), 0 <= i < d[0], 0 <= j < d[1], f.len() == prod(d) ensures v[i]@[j] == f[pos(seq![i, j], d)] {
    let c = seq![i, j]; assert(c.skip(1) =~= seq![j]); assert(d.skip(1)[0] == d[1]); assert(d.skip(1).skip(1) =~= Seq::empty()); assert(seq![j].skip(1) =~= Seq::empty()); assert(is1(v[i]@, f, 0 + i * prod(d.skip(1)), d.skip(1))); assert(in_box(c, d)); lemma_pos_bound(c, d); let p = prod(d.skip(1)); assert(p == d[1] * 1) by { assert(prod(d.skip(1).skip(1)) == 1); } assert(j * 1 == j);
    assert(prod(d) == d[0] * p); lemma_slot(0, i, d[0] as int, p, f.len() as int); assert(seq![j].skip(1).len() == 0); assert(pos(seq![j], d.skip(1)) == j * prod(d.skip(1).skip(1)) + pos(seq![j].skip(1), d.skip(1).skip(1))); assert(pos(c, d) == i * p + j); assert(v[i]@ == f.subrange(i * p, i * p + d[1])); assert(0 <= i * p) by(nonlinear_arith) requires i >= 0, p >= 0; assert(v[i]@[j] == f[i * p + j]); }
/// equal logical elements read back equal, whatever the storage layout
proof fn T15_layout_independent<T>(a: Seq<T>, b: Seq<T>, x: Seq<T>, y: Seq<T>, k: Layout, l: Layout)
    requires k.shape.dims@ == l.shape.dims@, reads(a, 0, x, k), reads(b, 0, y, l), forall|c: Seq<int>| #[trigger] in_box(c, k.shape.dims@) ==> x[k.offset + dot(c, k.strides@)] == y[l.offset + dot(c, l.strides@)] ensures forall|c: Seq<int>| #[trigger] in_box(c, k.shape.dims@) ==> a[pos(c, k.shape.dims@)] == b[pos(c, k.shape.dims@)], a.len() == b.len() {
    assert forall|c: Seq<int>| #[trigger] in_box(c, k.shape.dims@) implies a[pos(c, k.shape.dims@)] == b[pos(c, k.shape.dims@)] by { assert(a[0 + pos(c, k.shape.dims@)] == x[k.offset + dot(c, k.strides@)]); assert(b[0 + pos(c, k.shape.dims@)] == y[l.offset + dot(c, l.strides@)]); } }
'''
pick = UM.pick
UNIT = Unit("read", [("struct", SH, "Shape"), ("struct", LA, "Layout"), ("raw", SPEC),
  ("impl", "Shape", SH, pick(UL.SHAPE_FNS, "dims", "ndim", "size")), ("impl", "Layout", LA, pick(UL.LAYOUT_FNS, "shape", "strides", "offset", "ndim", "size", "is_contiguous")),
  ("impl", None, VE, [EXTRACT]), ("impl", "Tensor", VE, [to_vec(n) for n in range(1, 9)]), ("raw", END_)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
