#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_assignments)]
use vstd::prelude::*;
verus! {
global size_of usize == 8;

// ---- trusted specifications of core/alloc operations the extracted code calls ----
pub assume_specification<T>[ <[T]>::swap ](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len(),
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);
pub assume_specification<T: Copy>[ Option::<&T>::copied ](o: Option<&T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T: PartialEq>[ <[T]>::contains ](s: &[T], x: &T) -> (r: bool)
    ensures r == s@.contains(*x);
pub assume_specification<T>[ <[T]>::reverse ](s: &mut [T])
    ensures final(s)@ == old(s)@.reverse();
pub assume_specification<T: Ord>[ <[T]>::sort_unstable ](s: &mut [T])
    ensures final(s)@.to_multiset() == old(s)@.to_multiset();
#[verifier::external_body]
pub fn vx_to_vec(s: &[usize]) -> (r: Vec<usize>) ensures r@ == s@ { s.to_vec() }
#[verifier::external_body]
pub fn vx_from_elem(x: usize, n: usize) -> (r: Vec<usize>) ensures r@ == Seq::new(n as nat, |i: int| x) { vec![x; n] }
pub fn vx_id<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
#[verifier::external_body]
pub fn vx_product(s: &[usize]) -> (r: usize) requires fits(s@) ensures r == prod(s@) { s.iter().product() }

pub struct HoduError;
pub type HoduResult<T> = Result<T, HoduError>;

// ---- mathematics of row-major layouts ----
pub open spec fn prod(s: Seq<usize>) -> int decreases s.len() {
    if s.len() == 0 { 1 } else { s[0] as int * prod(s.skip(1)) }
}
/// every suffix product fits the machine word (so no extent arithmetic wraps)
pub open spec fn fits(s: Seq<usize>) -> bool {
    forall|i: int| 0 <= i <= s.len() ==> 0 <= #[trigger] prod(s.skip(i)) <= usize::MAX
}
/// strides of the row-major layout of extents s
pub open spec fn is_row_major(st: Seq<usize>, s: Seq<usize>) -> bool {
    st.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] st[i] as int == prod(s.skip(i + 1))
}
/// sum of coordinate * stride
pub open spec fn dot(c: Seq<int>, st: Seq<usize>) -> int decreases c.len() {
    if c.len() == 0 || st.len() == 0 { 0 } else { c[0] * st[0] as int + dot(c.skip(1), st.skip(1)) }
}
pub open spec fn in_box(c: Seq<int>, dims: Seq<usize>) -> bool {
    c.len() == dims.len() && forall|i: int| 0 <= i < c.len() ==> 0 <= #[trigger] c[i] < dims[i]
}

pub proof fn lemma_prod_skip(s: Seq<usize>, i: int)
    requires 0 <= i < s.len(),
    ensures prod(s.skip(i)) == s[i] as int * prod(s.skip(i + 1)),
{
    assert(s.skip(i).skip(1) =~= s.skip(i + 1));
}
pub proof fn lemma_dot_coord(c: Seq<int>, st: Seq<usize>, k: int, v: int)
    requires c.len() == st.len(), 0 <= k < c.len(),
    ensures dot(c.update(k, v), st) == dot(c, st) + (v - c[k]) * st[k] as int,
    decreases c.len(),
{
    if k == 0 {
        assert(c.update(0, v).skip(1) =~= c.skip(1));
        assert(v * st[0] as int == c[0] * st[0] as int + (v - c[0]) * st[0] as int) by(nonlinear_arith);
    } else {
        assert(c.update(k, v).skip(1) =~= c.skip(1).update(k - 1, v));
        lemma_dot_coord(c.skip(1), st.skip(1), k - 1, v);
    }
}
pub proof fn lemma_dot_stride(c: Seq<int>, st: Seq<usize>, k: int, v: usize)
    requires c.len() == st.len(), 0 <= k < c.len(),
    ensures dot(c, st.update(k, v)) == dot(c, st) + c[k] * (v as int - st[k] as int),
    decreases c.len(),
{
    if k == 0 {
        assert(st.update(0, v).skip(1) =~= st.skip(1));
        assert(c[0] * v as int == c[0] * st[0] as int + c[0] * (v as int - st[0] as int)) by(nonlinear_arith);
    } else {
        assert(st.update(k, v).skip(1) =~= st.skip(1).update(k - 1, v));
        lemma_dot_stride(c.skip(1), st.skip(1), k - 1, v);
    }
}
pub proof fn lemma_dot_zero(c: Seq<int>, st: Seq<usize>)
    requires forall|i: int| 0 <= i < c.len() ==> c[i] == 0,
    ensures dot(c, st) == 0,
    decreases c.len(),
{
    if c.len() > 0 && st.len() > 0 { lemma_dot_zero(c.skip(1), st.skip(1)); }
}
