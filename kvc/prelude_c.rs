#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_assignments, non_camel_case_types, unused_braces, unreachable_code)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
// ---- vocabulary of translated C (trusted: these are the meanings c2v.py gives to C) ----
/// a machine integer used as a size, index or counter; its value is a mathematical integer
#[verifier::external_body] #[derive(Clone, Copy)] pub struct I { x: u64 }
impl View for I { type V = int; uninterp spec fn view(&self) -> int; }
/// an element; its arithmetic is unknown
#[verifier::external_body] #[derive(Clone, Copy)] pub struct E { x: u64 }
#[verifier::external_body] pub struct Buf { x: Vec<u64> }
impl View for Buf { type V = Seq<E>; uninterp spec fn view(&self) -> Seq<E>; }
#[verifier::external_body] pub struct IBuf { x: Vec<u64> }
impl View for IBuf { type V = Seq<int>; uninterp spec fn view(&self) -> Seq<int>; }

#[verifier::external_body] pub fn n(k: u64) -> (r: I) ensures r@ == k { unimplemented!() }
#[verifier::external_body] pub fn add(a: I, b: I) -> (r: I) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn sub(a: I, b: I) -> (r: I) ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body] pub fn subu(a: I, b: I) -> (r: I) requires a@ >= b@ ensures r@ == a@ - b@ { unimplemented!() }
#[verifier::external_body] pub fn dec(a: I) -> (r: I) requires a@ > 0 ensures r@ == a@ - 1 { unimplemented!() }
/// the C idiom `while (x-- > 0)`: the decrement after the last test may wrap, its value is then unknown
#[verifier::external_body] pub fn decw(a: I) -> (r: I) ensures a@ > 0 ==> r@ == a@ - 1 { unimplemented!() }
#[verifier::external_body] pub fn mul(a: I, b: I) -> (r: I) ensures r@ == a@ * b@ { unimplemented!() }
#[verifier::external_body] pub fn div(a: I, b: I) -> (r: I) requires b@ > 0, a@ >= 0 ensures r@ == a@ / b@ { unimplemented!() }
#[verifier::external_body] pub fn rem(a: I, b: I) -> (r: I) requires b@ > 0, a@ >= 0 ensures r@ == a@ % b@ { unimplemented!() }
/// signed division and remainder (towards zero)
#[verifier::external_body] pub fn sdiv(a: I, b: I) -> (r: I) requires b@ > 0 ensures r@ == z_sdiv(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn srem(a: I, b: I) -> (r: I) requires b@ > 0 ensures r@ == z_srem(a@, b@) { unimplemented!() }
#[verifier::external_body] pub fn neg(a: I) -> (r: I) ensures r@ == -a@ { unimplemented!() }
#[verifier::external_body] pub fn lt(a: I, b: I) -> (r: bool) ensures r == (a@ < b@) { unimplemented!() }
#[verifier::external_body] pub fn le(a: I, b: I) -> (r: bool) ensures r == (a@ <= b@) { unimplemented!() }
#[verifier::external_body] pub fn gt(a: I, b: I) -> (r: bool) ensures r == (a@ > b@) { unimplemented!() }
#[verifier::external_body] pub fn ge(a: I, b: I) -> (r: bool) ensures r == (a@ >= b@) { unimplemented!() }
#[verifier::external_body] pub fn eq(a: I, b: I) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body] pub fn ne(a: I, b: I) -> (r: bool) ensures r == (a@ != b@) { unimplemented!() }
#[verifier::external_body] pub fn b_int(a: bool) -> (r: I) ensures r@ == (if a { 1int } else { 0int }) { unimplemented!() }
#[verifier::external_body] pub fn any_i() -> (r: I) { unimplemented!() }
#[verifier::external_body] pub fn any_b() -> (r: bool) { unimplemented!() }
#[verifier::external_body] pub fn any_e() -> (r: E) { unimplemented!() }
pub uninterp spec fn z_e_of(a: int) -> E;
pub uninterp spec fn z_e_int(a: E) -> int;
pub uninterp spec fn z_e_truth(a: E) -> bool;
#[verifier::external_body] pub fn e_of(a: I) -> (r: E) ensures r == z_e_of(a@) { unimplemented!() }
#[verifier::external_body] pub fn e_int(a: E) -> (r: I) ensures r@ == z_e_int(a) { unimplemented!() }
#[verifier::external_body] pub fn e_truth(a: E) -> (r: bool) ensures r == z_e_truth(a) { unimplemented!() }
#[verifier::external_body] pub fn get(b: &Buf, i: I) -> (r: E) requires 0 <= i@ < b@.len() ensures r == b@[i@] { unimplemented!() }
#[verifier::external_body] pub fn set(b: &mut Buf, i: I, v: E) requires 0 <= i@ < old(b)@.len() ensures final(b)@ == old(b)@.update(i@, v) { unimplemented!() }
#[verifier::external_body] pub fn iget(b: &IBuf, i: I) -> (r: I) requires 0 <= i@ < b@.len() ensures r@ == b@[i@] { unimplemented!() }
#[verifier::external_body] pub fn iset(b: &mut IBuf, i: I, v: I) requires 0 <= i@ < old(b)@.len() ensures final(b)@ == old(b)@.update(i@, v@) { unimplemented!() }
#[verifier::external_body] pub fn copy(d: &mut Buf, p: I, s: &Buf, q: I, c: I)
    requires 0 <= c@, c@ > 0 ==> 0 <= p@ && p@ + c@ <= old(d)@.len() && 0 <= q@ && q@ + c@ <= s@.len()
    ensures final(d)@.len() == old(d)@.len(), forall|k: int| 0 <= k < old(d)@.len() ==> #[trigger] final(d)@[k] == (if p@ <= k < p@ + c@ { s@[q@ + k - p@] } else { old(d)@[k] }) { unimplemented!() }
#[verifier::external_body] pub fn icopy(d: &mut IBuf, p: I, s: &IBuf, q: I, c: I)
    requires 0 <= c@, c@ > 0 ==> 0 <= p@ && p@ + c@ <= old(d)@.len() && 0 <= q@ && q@ + c@ <= s@.len()
    ensures final(d)@.len() == old(d)@.len(), forall|k: int| 0 <= k < old(d)@.len() ==> #[trigger] final(d)@[k] == (if p@ <= k < p@ + c@ { s@[q@ + k - p@] } else { old(d)@[k] }) { unimplemented!() }
#[verifier::external_body] pub fn buf(k: I) -> (r: Buf) requires k@ >= 0 ensures r@.len() == k@ { unimplemented!() }
#[verifier::external_body] pub fn ibuf(k: I) -> (r: IBuf) requires k@ >= 0 ensures r@.len() == k@ { unimplemented!() }
#[verifier::external_body] pub fn buf_zero(k: I) -> (r: Buf) requires k@ >= 0 ensures r@.len() == k@, forall|j: int| 0 <= j < k@ ==> #[trigger] r@[j] == z_e_of(0) { unimplemented!() }
#[verifier::external_body] pub fn ibuf_zero(k: I) -> (r: IBuf) requires k@ >= 0 ensures r@.len() == k@, forall|j: int| 0 <= j < k@ ==> #[trigger] r@[j] == 0 { unimplemented!() }
#[verifier::external_body] pub fn set_zero(d: &mut Buf, p: I, c: I)
    requires 0 <= c@, c@ > 0 ==> 0 <= p@ && p@ + c@ <= old(d)@.len()
    ensures final(d)@.len() == old(d)@.len(), forall|k: int| 0 <= k < old(d)@.len() ==> #[trigger] final(d)@[k] == (if p@ <= k < p@ + c@ { z_e_of(0) } else { old(d)@[k] }) { unimplemented!() }
pub open spec fn z_n(k: int) -> int { k }
pub open spec fn z_add(a: int, b: int) -> int { a + b }
pub open spec fn z_sub(a: int, b: int) -> int { a - b }
pub open spec fn z_subu(a: int, b: int) -> int { a - b }
pub open spec fn z_mul(a: int, b: int) -> int { a * b }
pub open spec fn z_div(a: int, b: int) -> int { a / b }
pub open spec fn z_rem(a: int, b: int) -> int { a % b }
pub open spec fn z_sdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn z_srem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
pub open spec fn z_neg(a: int) -> int { -a }
pub open spec fn z_lt(a: int, b: int) -> bool { a < b }
pub open spec fn z_le(a: int, b: int) -> bool { a <= b }
pub open spec fn z_gt(a: int, b: int) -> bool { a > b }
pub open spec fn z_ge(a: int, b: int) -> bool { a >= b }
pub open spec fn z_eq(a: int, b: int) -> bool { a == b }
pub open spec fn z_ne(a: int, b: int) -> bool { a != b }
pub open spec fn z_b_int(a: bool) -> int { if a { 1 } else { 0 } }
/// a SIMD register: its lanes (trusted: a vector instruction acts lane by lane as the scalar operator of its name)
#[verifier::external_body] #[derive(Clone, Copy)] pub struct W { x: u64 }
impl View for W { type V = Seq<E>; uninterp spec fn view(&self) -> Seq<E>; }
#[verifier::external_body] pub fn vload(b: &Buf, i: I, w: I) -> (r: W) requires 0 <= i@, i@ + w@ <= b@.len() ensures r@ == Seq::new(w@ as nat, |j: int| b@[i@ + j]) { unimplemented!() }
#[verifier::external_body] pub fn vstore(b: &mut Buf, i: I, w: I, v: W) requires 0 <= i@, i@ + w@ <= old(b)@.len(), v@.len() == w@
    ensures final(b)@.len() == old(b)@.len(), forall|k: int| 0 <= k < old(b)@.len() ==> #[trigger] final(b)@[k] == (if i@ <= k < i@ + w@ { v@[k - i@] } else { old(b)@[k] }) { unimplemented!() }
#[verifier::external_body] pub fn vset1(e: E, w: I) -> (r: W) ensures r@ == Seq::new(w@ as nat, |j: int| e) { unimplemented!() }

// ---- mathematics of row-major order ----
/// product of dims[a..b]
pub open spec fn prd(m: Seq<int>, a: int, b: int) -> int decreases b - a { if a >= b { 1 } else { m[a] * prd(m, a + 1, b) } }
/// what is left of a logical index once the axes d.. have been taken off it
pub open spec fn rest(m: Seq<int>, so: int, nd: int, idx: int, d: int) -> int decreases nd - d { if d >= nd { idx } else { rest(m, so, nd, idx, d + 1) / m[so + d] } }
/// coordinate of a logical index along axis d
pub open spec fn coord(m: Seq<int>, so: int, nd: int, idx: int, d: int) -> int { rest(m, so, nd, idx, d + 1) % m[so + d] }
pub open spec fn dots(m: Seq<int>, so: int, t: Seq<int>, st: int, nd: int, idx: int, d: int) -> int decreases nd - d {
    if d >= nd { 0 } else { coord(m, so, nd, idx, d) * t[st + d] + dots(m, so, t, st, nd, idx, d + 1) } }
/// the element a strided view associates with logical index idx
pub open spec fn strided(m: Seq<int>, so: int, t: Seq<int>, st: int, nd: int, idx: int) -> int { dots(m, so, t, st, nd, idx, 0) }
pub open spec fn nonneg(m: Seq<int>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> #[trigger] m[j] >= 0 }
pub open spec fn pos(m: Seq<int>, a: int, b: int) -> bool { forall|j: int| a <= j < b ==> #[trigger] m[j] > 0 }
pub proof fn lemma_prd_nonneg(m: Seq<int>, a: int, b: int) requires nonneg(m, a, b) ensures prd(m, a, b) >= 0 decreases b - a {
    if a < b { lemma_prd_nonneg(m, a + 1, b); assert(m[a] * prd(m, a + 1, b) >= 0) by (nonlinear_arith) requires m[a] >= 0, prd(m, a + 1, b) >= 0; } }
pub proof fn lemma_prd_pos(m: Seq<int>, a: int, b: int) requires nonneg(m, a, b), prd(m, a, b) > 0 ensures pos(m, a, b), forall|j: int| a <= j <= b ==> #[trigger] prd(m, j, b) > 0 decreases b - a {
    if a < b { lemma_prd_nonneg(m, a + 1, b); assert(m[a] > 0 && prd(m, a + 1, b) > 0) by (nonlinear_arith) requires m[a] >= 0, prd(m, a + 1, b) >= 0, m[a] * prd(m, a + 1, b) > 0; lemma_prd_pos(m, a + 1, b);
        assert forall|j: int| a <= j < b implies #[trigger] m[j] > 0 by { if j > a { } } } }
pub proof fn lemma_prd_split(m: Seq<int>, a: int, b: int, c: int) requires a <= b <= c ensures prd(m, a, c) == prd(m, a, b) * prd(m, b, c) decreases b - a {
    if a < b { lemma_prd_split(m, a + 1, b, c); lemma_mul_is_associative(m[a], prd(m, a + 1, b), prd(m, b, c)); } }
/// the idx-th element in row-major order: idx = rest(d) * prod(dims[d..]) + (row-major position within the axes d..)
pub proof fn lemma_rest_bound(m: Seq<int>, so: int, nd: int, idx: int, d: int)
    requires 0 <= d <= nd, pos(m, so, so + nd), 0 <= idx
    ensures rest(m, so, nd, idx, d) >= 0, rest(m, so, nd, idx, d) == idx / prd(m, so + d, so + nd), prd(m, so + d, so + nd) > 0
    decreases nd - d
{
    if d < nd { lemma_rest_bound(m, so, nd, idx, d + 1);
        let p = prd(m, so + d + 1, so + nd); let k = m[so + d];
        lemma_div_denominator(idx, p, k); lemma_mul_is_commutative(p, k);
        lemma_div_pos_is_pos(rest(m, so, nd, idx, d + 1), k);
        assert(k * p > 0) by (nonlinear_arith) requires k > 0, p > 0;
    } else { assert(idx / 1 == idx); }
}
pub proof fn lemma_coord_range(m: Seq<int>, so: int, nd: int, idx: int, d: int) requires 0 <= d < nd, pos(m, so, so + nd), 0 <= idx ensures 0 <= coord(m, so, nd, idx, d) < m[so + d]
{ lemma_rest_bound(m, so, nd, idx, d + 1); lemma_mod_bound(rest(m, so, nd, idx, d + 1), m[so + d]); }
/// contiguous strides (an axis of extent 1 may have any stride) give the logical index itself
pub open spec fn contig(m: Seq<int>, so: int, t: Seq<int>, st: int, nd: int, d0: int) -> bool { forall|d: int| d0 <= d < nd ==> m[so + d] <= 1 || #[trigger] t[st + d] == prd(m, so + d + 1, so + nd) }
pub proof fn lemma_contig_dots(m: Seq<int>, so: int, t: Seq<int>, st: int, nd: int, idx: int, d: int)
    requires 0 <= d <= nd, pos(m, so, so + nd), 0 <= idx, contig(m, so, t, st, nd, d)
    ensures idx == rest(m, so, nd, idx, d) * prd(m, so + d, so + nd) + dots(m, so, t, st, nd, idx, d)
    decreases nd - d
{
    if d < nd {
        lemma_contig_dots(m, so, t, st, nd, idx, d + 1);
        lemma_rest_bound(m, so, nd, idx, d + 1);
        let r = rest(m, so, nd, idx, d + 1); let k = m[so + d]; let p = prd(m, so + d + 1, so + nd); let c = coord(m, so, nd, idx, d);
        lemma_fundamental_div_mod(r, k);
        assert(r == k * (r / k) + c);
        assert(c * t[st + d] == c * p) by { if k <= 1 { lemma_mod_bound(r, k); assert(c == 0); } }
        assert(r * p == (r / k) * (k * p) + c * p) by (nonlinear_arith) requires r == k * (r / k) + c;
    }
}
pub proof fn lemma_contig(m: Seq<int>, so: int, t: Seq<int>, st: int, nd: int, idx: int)
    requires 0 <= nd, nonneg(m, so, so + nd), 0 <= idx < prd(m, so, so + nd), contig(m, so, t, st, nd, 0)
    ensures strided(m, so, t, st, nd, idx) == idx
{
    lemma_prd_pos(m, so, so + nd); lemma_contig_dots(m, so, t, st, nd, idx, 0); lemma_rest_bound(m, so, nd, idx, 0);
    let p = prd(m, so, so + nd); assert(idx / p == 0) by (nonlinear_arith) requires 0 <= idx < p; assert(0 * p == 0);
}
pub proof fn lemma_contig_all(m: Seq<int>, so: int, t: Seq<int>, st: int, nd: int)
    requires 0 <= nd, nonneg(m, so, so + nd), contig(m, so, t, st, nd, 0)
    ensures forall|idx: int| 0 <= idx < prd(m, so, so + nd) ==> #[trigger] strided(m, so, t, st, nd, idx) == idx
{
    assert forall|idx: int| 0 <= idx < prd(m, so, so + nd) implies #[trigger] strided(m, so, t, st, nd, idx) == idx by { lemma_contig(m, so, t, st, nd, idx); }
}
/// work split over threads
pub open spec fn chunk(t: int, c: int, r: int) -> int { t * c + (if t < r { t } else { r }) }
pub proof fn lemma_chunk(t: int, c: int, r: int) ensures chunk(t + 1, c, r) == chunk(t, c, r) + c + (if t < r { 1int } else { 0int }) { assert((t + 1) * c == t * c + c) by (nonlinear_arith); }
pub proof fn lemma_chunk_mono(a: int, b: int, c: int, r: int) requires 0 <= a <= b, c >= 0, r >= 0 ensures 0 <= chunk(a, c, r) <= chunk(b, c, r) { assert(a * c <= b * c) by (nonlinear_arith) requires a <= b, c >= 0; assert(a * c >= 0) by (nonlinear_arith) requires a >= 0, c >= 0; }
pub proof fn lemma_chunk_end(n: int, t: int) requires t > 0, n >= 0 ensures chunk(t, n / t, n % t) == n { lemma_fundamental_div_mod(n, t); lemma_mod_bound(n, t); lemma_mul_is_commutative(t, n / t); }

/// row-major position of coordinates c within the axes d.. of extents m[so..so+nd]
pub open spec fn rm(c: spec_fn(int) -> int, m: Seq<int>, so: int, nd: int, d: int) -> int decreases nd - d { if d >= nd { 0 } else { c(d) * prd(m, so + d + 1, so + nd) + rm(c, m, so, nd, d + 1) } }
pub open spec fn in_box(c: spec_fn(int) -> int, m: Seq<int>, so: int, nd: int, d0: int) -> bool { forall|d: int| d0 <= d < nd ==> 0 <= #[trigger] c(d) < m[so + d] }
pub proof fn lemma_rm_bound(c: spec_fn(int) -> int, m: Seq<int>, so: int, nd: int, d: int)
    requires 0 <= d <= nd, in_box(c, m, so, nd, d)
    ensures 0 <= rm(c, m, so, nd, d) < prd(m, so + d, so + nd)
    decreases nd - d
{
    if d < nd { lemma_rm_bound(c, m, so, nd, d + 1); let p = prd(m, so + d + 1, so + nd); let v = c(d); let k = m[so + d]; let x = rm(c, m, so, nd, d + 1);
        assert(0 <= v < k); assert(0 <= v * p + x < k * p) by (nonlinear_arith) requires 0 <= v < k, 0 <= x < p; }
}
/// sum over the axes below d of coordinate times stride
pub open spec fn lin(c: spec_fn(int) -> int, t: Seq<int>, st: int, d: int) -> int decreases d { if d <= 0 { 0 } else { lin(c, t, st, d - 1) + c(d - 1) * t[st + d - 1] } }
/// sum over the axes d.. of coordinate times stride
pub open spec fn dotc(c: spec_fn(int) -> int, t: Seq<int>, st: int, nd: int, d: int) -> int decreases nd - d { if d >= nd { 0 } else { c(d) * t[st + d] + dotc(c, t, st, nd, d + 1) } }
/// the coordinates of a logical index
pub open spec fn co(m: Seq<int>, so: int, nd: int, id: int) -> spec_fn(int) -> int { |d: int| coord(m, so, nd, id, d) }
pub proof fn lemma_prd_snoc(m: Seq<int>, a: int, b: int) requires a <= b ensures prd(m, a, b + 1) == prd(m, a, b) * m[b] { lemma_prd_split(m, a, b, b + 1); assert(prd(m, b + 1, b + 1) == 1); assert(prd(m, b, b + 1) == m[b] * 1); }
pub proof fn lemma_co_box(m: Seq<int>, so: int, nd: int, id: int) requires nd >= 0, pos(m, so, so + nd), id >= 0 ensures in_box(co(m, so, nd, id), m, so, nd, 0) { assert forall|d: int| 0 <= d < nd implies 0 <= #[trigger] co(m, so, nd, id)(d) < m[so + d] by { lemma_coord_range(m, so, nd, id, d); } }
