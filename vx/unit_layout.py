"""Contracts for crates/hodu_core/src/types/{shape,layout}.rs (properties T01, T02)."""
from vx import *
SH="crates/hodu_core/src/types/shape.rs"
LA="crates/hodu_core/src/types/layout.rs"

SPEC = r'''
// ---- clone of extracted structs is structural (derive(Clone) is trusted) ----
impl Clone for Shape { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { Shape { dims: self.dims.clone() } } }
impl Clone for Layout { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { Layout { shape: self.shape.clone(), strides: self.strides.clone(), offset: self.offset } } }

pub open spec fn wf(l: Layout) -> bool {
    l.shape.dims@.len() == l.strides@.len() && l.shape.dims@.len() < 0x7fff_ffff
}
/// storage address of coordinate c
pub open spec fn addr(l: Layout, c: Seq<int>) -> int { l.offset as int + dot(c, l.strides@) }

pub open spec fn axis_ok(a: int, n: int) -> bool { -n <= a < n }
pub open spec fn axis_of(a: int, n: int) -> int { if a < 0 { a + n } else { a } }

// ---- T01 broadcasting rule, stated on right-aligned extents ----
/// extent of s at position i after padding with leading 1s to rank n
pub open spec fn padded(s: Seq<usize>, n: int, i: int) -> int {
    if i + s.len() < n { 1 } else { s[i + s.len() - n] as int }
}
pub open spec fn max_rank(a: Seq<usize>, b: Seq<usize>) -> int { if a.len() > b.len() { a.len() as int } else { b.len() as int } }
pub open spec fn compatible(a: Seq<usize>, b: Seq<usize>) -> bool {
    forall|i: int| #![trigger padded(a, max_rank(a, b), i)] 0 <= i < max_rank(a, b) ==>
        (padded(a, max_rank(a, b), i) == padded(b, max_rank(a, b), i)
         || padded(a, max_rank(a, b), i) == 1 || padded(b, max_rank(a, b), i) == 1)
}
pub open spec fn broadcast_dim(a: int, b: int) -> int { if a == 1 { b } else { a } }
pub open spec fn is_broadcast_of(r: Seq<usize>, a: Seq<usize>, b: Seq<usize>) -> bool {
    r.len() == max_rank(a, b) && forall|i: int| 0 <= i < r.len() ==>
        #[trigger] r[i] as int == broadcast_dim(padded(a, max_rank(a, b), i), padded(b, max_rank(a, b), i))
}
/// s stretches to target
pub open spec fn stretches(s: Seq<usize>, t: Seq<usize>) -> bool {
    s.len() <= t.len() && forall|i: int| 0 <= i < s.len() ==>
        (#[trigger] s[i] == 1 || s[i] == t[i + t.len() - s.len()])
}
/// the source coordinate a target coordinate reads
pub open spec fn unstretch(c: Seq<int>, s: Seq<usize>, t: Seq<usize>) -> Seq<int> {
    Seq::new(s.len(), |i: int| if s[i] == 1 { 0 } else { c[i + t.len() - s.len()] })
}
/// the strides a broadcast view must have
pub open spec fn stretch_strides(st: Seq<usize>, ss: Seq<usize>, s: Seq<usize>, t: Seq<usize>) -> bool {
    st.len() == t.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] st[i] ==
        (if i < t.len() - s.len() { 0usize }
         else if s[i - (t.len() - s.len())] == t[i] { ss[i - (t.len() - s.len())] } else { 0usize })
}
pub proof fn lemma_stretch_tail(c: Seq<int>, st: Seq<usize>, u: Seq<int>, ss: Seq<usize>)
    requires c.len() == st.len(), u.len() == ss.len(), c.len() == u.len(),
        forall|i: int| 0 <= i < c.len() ==> c[i] * st[i] as int == u[i] * ss[i] as int,
    ensures dot(c, st) == dot(u, ss),
    decreases c.len(),
{
    if c.len() > 0 {
        assert forall|i: int| 0 <= i < c.skip(1).len() implies c.skip(1)[i] * st.skip(1)[i] as int == u.skip(1)[i] * ss.skip(1)[i] as int by {
            assert(c[i + 1] * st[i + 1] as int == u[i + 1] * ss[i + 1] as int);
        }
        lemma_stretch_tail(c.skip(1), st.skip(1), u.skip(1), ss.skip(1));
    }
}
pub proof fn lemma_dot_lead(c: Seq<int>, st: Seq<usize>, k: int)
    requires c.len() == st.len(), 0 <= k <= c.len(), forall|i: int| 0 <= i < k ==> st[i] == 0,
    ensures dot(c, st) == dot(c.skip(k), st.skip(k)),
    decreases k,
{
    if k > 0 {
        lemma_dot_lead(c.skip(1), st.skip(1), k - 1);
        assert(c.skip(1).skip(k - 1) =~= c.skip(k));
        assert(st.skip(1).skip(k - 1) =~= st.skip(k));
    } else { assert(c.skip(0) =~= c); assert(st.skip(0) =~= st); }
}
/// T01: a broadcast view reads, at c, the source element at unstretch(c)
pub proof fn T01_broadcast_reads_source(old: Layout, new: Layout, c: Seq<int>)
    requires wf(old), stretches(old.shape.dims@, new.shape.dims@),
        stretch_strides(new.strides@, old.strides@, old.shape.dims@, new.shape.dims@), new.offset == old.offset,
        in_box(c, new.shape.dims@),
    ensures addr(new, c) == addr(old, unstretch(c, old.shape.dims@, new.shape.dims@)),
        in_box(unstretch(c, old.shape.dims@, new.shape.dims@), old.shape.dims@) ,
{
    let s = old.shape.dims@; let t = new.shape.dims@; let rd = t.len() - s.len();
    let u = unstretch(c, s, t);
    lemma_dot_lead(c, new.strides@, rd);
    let c2 = c.skip(rd); let st2 = new.strides@.skip(rd);
    assert forall|i: int| 0 <= i < c2.len() implies c2[i] * st2[i] as int == u[i] * old.strides@[i] as int by {
        assert(st2[i] == new.strides@[i + rd]);
        assert(c2[i] == c[i + rd]);
        assert(s[i] == 1 || s[i] == t[i + rd]);
        assert(0 <= c[i + rd] < t[i + rd]);
        if s[i] == t[i + rd] {
            if s[i] == 1 { assert(c2[i] == 0); assert(u[i] == 0);
                assert(0 * st2[i] as int == 0) by(nonlinear_arith); assert(0 * old.strides@[i] as int == 0) by(nonlinear_arith); }
        } else {
            assert(st2[i] == 0); assert(u[i] == 0);
            assert(c2[i] * 0 == 0) by(nonlinear_arith); assert(0 * old.strides@[i] as int == 0) by(nonlinear_arith);
        }
    }
    lemma_stretch_tail(c2, st2, u, old.strides@);
    assert forall|i: int| 0 <= i < u.len() implies 0 <= #[trigger] u[i] < s[i] by {
        assert(s[i] == 1 || s[i] == t[i + rd]);
        assert(0 <= c[i + rd] < t[i + rd]);
    }
}

// ---- T02 ----
pub open spec fn same_but_dims(new: Layout, old: Layout, dims: Seq<usize>) -> bool {
    new.shape.dims@ == dims && new.offset == old.offset && is_row_major(new.strides@, dims)
}
pub open spec fn swapped(s: Seq<usize>, a: int, b: int) -> Seq<usize> { s.update(a, s[b]).update(b, s[a]) }
pub open spec fn swapped_i(s: Seq<int>, a: int, b: int) -> Seq<int> { s.update(a, s[b]).update(b, s[a]) }
/// T02: a transposed view reads, at c, the element at c with the two coordinates exchanged
pub proof fn T02_transpose_reads(old: Layout, new: Layout, a: int, b: int, c: Seq<int>)
    requires wf(old), 0 <= a < old.strides@.len(), 0 <= b < old.strides@.len(),
        new.shape.dims@ == swapped(old.shape.dims@, a, b), new.strides@ == swapped(old.strides@, a, b), new.offset == old.offset,
        in_box(c, new.shape.dims@),
    ensures addr(new, c) == addr(old, swapped_i(c, a, b)), in_box(swapped_i(c, a, b), old.shape.dims@),
{
    let st = old.strides@; let d = old.shape.dims@;
    let st1 = st.update(a, st[b]);
    lemma_dot_stride(c, st, a, st[b]);
    lemma_dot_stride(c, st1, b, st[a]);
    let c1 = c.update(a, c[b]);
    lemma_dot_coord(c, st, a, c[b]);
    lemma_dot_coord(c1, st, b, c[a]);
    if a == b {
        assert(c[a] * (st[b] as int - st[a] as int) == 0) by(nonlinear_arith) requires a == b;
        assert((c[b] - c[a]) * st[a] as int == 0) by(nonlinear_arith) requires a == b;
        assert(c[b] * (st[a] as int - st1[b] as int) == 0) by(nonlinear_arith) requires st1[b] == st[a];
        assert((c[a] - c1[b]) * st[b] as int == 0) by(nonlinear_arith) requires c1[b] == c[a];
    } else {
        assert(st1[b] == st[b]); assert(c1[b] == c[b]);
        assert(c[a] * (st[b] as int - st[a] as int) + c[b] * (st[a] as int - st[b] as int)
            == (c[b] - c[a]) * st[a] as int + (c[a] - c[b]) * st[b] as int) by(nonlinear_arith);
    }
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] swapped_i(c, a, b)[i] < d[i] by {
        assert(0 <= c[a] < swapped(d, a, b)[a]); assert(0 <= c[b] < swapped(d, a, b)[b]); assert(0 <= c[i] < swapped(d, a, b)[i]);
    }
}
pub open spec fn is_permutation(p: Seq<int>, n: int) -> bool {
    p.len() == n && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n)
    && (forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < j < n ==> p[i] != p[j])
}
/// first k steps of moving coordinate k to axis p[k]
pub open spec fn scatter_coords(c: Seq<int>, p: Seq<int>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::new(c.len(), |i: int| 0int) } else { scatter_coords(c, p, k - 1).update(p[k - 1], c[k - 1]) }
}
pub open spec fn gathered(s: Seq<usize>, p: Seq<int>) -> Seq<usize> { Seq::new(p.len(), |i: int| s[p[i]]) }
pub proof fn lemma_scatter(c: Seq<int>, st: Seq<usize>, p: Seq<int>, k: int)
    requires c.len() == st.len(), is_permutation(p, c.len() as int), 0 <= k <= c.len(),
    ensures dot(scatter_coords(c, p, k), st) == dot(c.take(k), gathered(st, p).take(k)),
        scatter_coords(c, p, k).len() == c.len(),
        forall|j: int| #![trigger p[j]] k <= j < c.len() ==> scatter_coords(c, p, k)[p[j]] == 0,
        forall|j: int| #![trigger p[j]] 0 <= j < k ==> scatter_coords(c, p, k)[p[j]] == c[j],
    decreases k,
{
    if k == 0 {
        lemma_dot_zero(scatter_coords(c, p, 0), st);
        assert(c.take(0) =~= Seq::<int>::empty());
    } else {
        lemma_scatter(c, st, p, k - 1);
        let d = scatter_coords(c, p, k - 1);
        lemma_dot_coord(d, st, p[k - 1], c[k - 1]);
        assert(d[p[k - 1]] == 0);
        let g = gathered(st, p);
        // dot over take(k) = dot over take(k-1) + last term
        lemma_dot_push(c.take(k - 1), g.take(k - 1), c[k - 1], g[k - 1]);
        assert(c.take(k) =~= c.take(k - 1).push(c[k - 1]));
        assert(g.take(k) =~= g.take(k - 1).push(g[k - 1]));
        assert((c[k - 1] - 0) * st[p[k - 1]] as int == c[k - 1] * g[k - 1] as int);
    }
}
pub proof fn lemma_dot_push(c: Seq<int>, st: Seq<usize>, x: int, s: usize)
    requires c.len() == st.len(),
    ensures dot(c.push(x), st.push(s)) == dot(c, st) + x * s as int,
    decreases c.len(),
{
    if c.len() == 0 {
        assert(c.push(x).skip(1) =~= Seq::<int>::empty());
        assert(dot(c.push(x).skip(1), st.push(s).skip(1)) == 0);
        assert(c.push(x)[0] == x); assert(st.push(s)[0] == s);
    } else {
        assert(c.push(x).skip(1) =~= c.skip(1).push(x));
        assert(st.push(s).skip(1) =~= st.skip(1).push(s));
        lemma_dot_push(c.skip(1), st.skip(1), x, s);
    }
}
/// T02: a permuted view reads, at c, the element whose axis p[k] has coordinate c[k]
pub proof fn T02_permute_reads(old: Layout, new: Layout, p: Seq<int>, c: Seq<int>)
    requires wf(old), is_permutation(p, old.strides@.len() as int),
        new.shape.dims@ == gathered(old.shape.dims@, p), new.strides@ == gathered(old.strides@, p), new.offset == old.offset,
        in_box(c, new.shape.dims@),
    ensures addr(new, c) == addr(old, scatter_coords(c, p, c.len() as int)),
        forall|k: int| #![trigger p[k]] 0 <= k < c.len() ==> scatter_coords(c, p, c.len() as int)[p[k]] == c[k],
{
    let n = c.len() as int;
    lemma_scatter(c, old.strides@, p, n);
    assert(c.take(n) =~= c);
    assert(gathered(old.strides@, p).take(n) =~= new.strides@);
}
pub open spec fn clampi(x: int, lo: int, hi: int) -> int { if x < lo { lo } else if x > hi { hi } else { x } }
pub open spec fn slice_start(start: int, n: int) -> int { clampi(if start < 0 { start + n } else { start }, 0, n) }
pub open spec fn slice_end(end: Option<i32>, n: int) -> int {
    match end { Some(e) => clampi(if e < 0 { e + n } else { e as int }, 0, n), None => n }
}
/// number of indices s, s+step, ... below e
pub open spec fn slice_len(s: int, e: int, step: int) -> int { if e > s && step > 0 { (e - s - 1) / step + 1 } else { 0 } }
/// T02: a sliced view reads, at c, the element at start + c[d]*step along the sliced axis
pub proof fn T02_slice_reads(old: Layout, new: Layout, d: int, s: int, e: int, step: int, c: Seq<int>)
    requires wf(old), 0 <= d < old.strides@.len(), 0 <= s <= e <= old.shape.dims@[d], step > 0,
        new.shape.dims@ == old.shape.dims@.update(d, slice_len(s, e, step) as usize),
        slice_len(s, e, step) <= usize::MAX,
        new.strides@ == old.strides@.update(d, (old.strides@[d] * step) as usize), 0 <= old.strides@[d] * step <= usize::MAX,
        new.offset as int == old.offset as int + s * old.strides@[d] as int,
        in_box(c, new.shape.dims@),
    ensures addr(new, c) == addr(old, c.update(d, s + c[d] * step)), in_box(c.update(d, s + c[d] * step), old.shape.dims@),
{
    let st = old.strides@;
    lemma_dot_stride(c, st, d, (st[d] * step) as usize);
    lemma_dot_coord(c, st, d, s + c[d] * step);
    assert(c[d] * (st[d] as int * step - st[d] as int) + s * st[d] as int == (s + c[d] * step - c[d]) * st[d] as int) by(nonlinear_arith);
    assert(0 <= c[d] < new.shape.dims@[d]);
    let q = (e - s - 1) / step;
    if e > s {
        assert(q * step <= e - s - 1) by(nonlinear_arith) requires q == (e - s - 1) / step, step > 0, e - s - 1 >= 0;
        assert(c[d] * step <= q * step) by(nonlinear_arith) requires c[d] <= q, step > 0, c[d] >= 0;
        assert(c[d] * step >= 0) by(nonlinear_arith) requires c[d] >= 0, step > 0;
    }
    assert forall|i: int| 0 <= i < c.len() implies 0 <= #[trigger] c.update(d, s + c[d] * step)[i] < old.shape.dims@[i] by {
        assert(0 <= c[i] < new.shape.dims@[i]);
    }
}
/// seq with the (distinct, in-range) positions in `gone` removed keeps the others in order
pub open spec fn without(s: Seq<usize>, gone: spec_fn(int) -> bool) -> Seq<usize> decreases s.len() {
    if s.len() == 0 { s } else {
        let r = without(s.drop_last(), gone);
        if gone(s.len() as int - 1) { r } else { r.push(s.last()) }
    }
}
pub proof fn lemma_without_remove(s: Seq<usize>, gone: spec_fn(int) -> bool, gone2: spec_fn(int) -> bool, k: int)
    requires 0 <= k < s.len(), forall|j: int| #[trigger] gone(j) ==> j > k, forall|j: int| #[trigger] gone2(j) <==> (gone(j) || j == k),
    ensures without(s, gone2) == without(s, gone).remove(k), without(s, gone).len() > k,
        without(s, gone)[k] == s[k],
    decreases s.len(),
{
    let n = s.len() - 1;
    if k == n {
        lemma_without_none(s, gone); lemma_without_none(s.drop_last(), gone2); lemma_without_none(s.drop_last(), gone);
        assert(without(s, gone).remove(k) =~= s.drop_last());
    } else {
        lemma_without_remove(s.drop_last(), gone, gone2, k);
        let r = without(s.drop_last(), gone);
        if gone(n) { assert(gone2(n)); }
        else { assert(r.push(s.last()).remove(k) =~= r.remove(k).push(s.last())); }
    }
}
pub proof fn lemma_without_none(s: Seq<usize>, gone: spec_fn(int) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> !#[trigger] gone(j),
    ensures without(s, gone) == s,
    decreases s.len(),
{
    if s.len() > 0 { lemma_without_none(s.drop_last(), gone); assert(s.drop_last().push(s.last()) =~= s); }
}
pub proof fn lemma_without_ext(s: Seq<usize>, a: spec_fn(int) -> bool, b: spec_fn(int) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> (#[trigger] a(j) <==> b(j)),
    ensures without(s, a) == without(s, b),
    decreases s.len(),
{
    if s.len() > 0 { lemma_without_ext(s.drop_last(), a, b); assert(a(s.len() - 1) <==> b(s.len() - 1)); }
}

pub open spec fn keep_not_one(s: Seq<usize>) -> Seq<usize> { without(s, |j: int| s[j] == 1) }
pub proof fn lemma_filter_without(s: Seq<usize>, p: spec_fn(usize) -> bool, gone: spec_fn(int) -> bool)
    requires forall|j: int| 0 <= j < s.len() ==> #[trigger] gone(j) == !p(s[j]),
    ensures s.filter(p) == without(s, gone),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { assert(gone(s.len() - 1) == !p(s[s.len() - 1])); lemma_filter_without(s.drop_last(), p, gone); }
}
pub proof fn lemma_prod_push(s: Seq<usize>, x: usize)
    ensures prod(s.push(x)) == prod(s) * x as int,
    decreases s.len(),
{
    if s.len() == 0 { assert(s.push(x).skip(1) =~= s); assert(x as int * 1 == x as int); }
    else { assert(s.push(x).skip(1) =~= s.skip(1).push(x)); lemma_prod_push(s.skip(1), x); assert(s.push(x)[0] == s[0]);
        assert(s[0] as int * (prod(s.skip(1)) * x as int) == (s[0] as int * prod(s.skip(1))) * x as int) by(nonlinear_arith); }
}
pub proof fn lemma_without_prod(s: Seq<usize>, gone: spec_fn(int) -> bool)
    requires forall|j: int| 0 <= j < s.len() && #[trigger] gone(j) ==> s[j] == 1,
    ensures prod(without(s, gone)) == prod(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_without_prod(s.drop_last(), gone);
        lemma_prod_push(s.drop_last(), s.last()); assert(s.drop_last().push(s.last()) =~= s);
        lemma_prod_push(without(s.drop_last(), gone), s.last());
        if gone(s.len() - 1) { assert(s.last() == 1); }
    }
}
/// every suffix of without(s) is without(suffix of s)
pub proof fn lemma_without_suffix(s: Seq<usize>, gone: spec_fn(int) -> bool, i: int) -> (j: int)
    requires 0 <= i <= without(s, gone).len(),
    ensures 0 <= j <= s.len(), without(s, gone).skip(i) == without(s.skip(j), |m: int| gone(m + j)),
    decreases s.len(),
{
    if s.len() == 0 { assert(s.skip(0) =~= s); assert(s.skip(i) =~= s); 0 }
    else {
        let r = without(s.drop_last(), gone); let n = s.len() as int - 1;
        if i <= r.len() {
            let j = lemma_without_suffix(s.drop_last(), gone, i);
            let g = |m: int| gone(m + j);
            assert(s.skip(j).drop_last() =~= s.drop_last().skip(j));
            assert(s.skip(j).last() == s.last());
            assert(g(s.skip(j).len() - 1) == gone(n));
            if !gone(n) { assert(r.push(s.last()).skip(i) =~= r.skip(i).push(s.last())); }
            j
        } else {
            assert(without(s, gone).skip(i) =~= Seq::<usize>::empty());
            assert(s.skip(s.len() as int) =~= Seq::<usize>::empty());
            s.len() as int
        }
    }
}
pub proof fn lemma_without_fits(s: Seq<usize>, gone: spec_fn(int) -> bool)
    requires fits(s), forall|j: int| 0 <= j < s.len() && #[trigger] gone(j) ==> s[j] == 1,
    ensures fits(without(s, gone)),
{
    let t = without(s, gone);
    assert forall|i: int| 0 <= i <= t.len() implies 0 <= #[trigger] prod(t.skip(i)) <= usize::MAX by {
        let j = lemma_without_suffix(s, gone, i);
        let g = |m: int| gone(m + j);
        assert forall|m: int| 0 <= m < s.skip(j).len() && #[trigger] g(m) implies s.skip(j)[m] == 1 by { assert(gone(m + j)); }
        lemma_without_prod(s.skip(j), g);
        assert(0 <= prod(s.skip(j)) <= usize::MAX);
    }
}
pub open spec fn taken(d: Seq<usize>, k: int) -> spec_fn(int) -> bool { |j: int| exists|m: int| #![trigger d[m]] 0 <= m < k && d[m] == j }
#[verifier::external_body]
pub fn vx_sort(v: &mut Vec<usize>)
    ensures final(v)@.len() == old(v)@.len(),
        forall|j: int, k: int| #![trigger final(v)@[j], final(v)@[k]] 0 <= j < k < final(v)@.len() ==> final(v)@[j] <= final(v)@[k],
        final(v)@.to_multiset() == old(v)@.to_multiset(),
{ v.sort_unstable() }
#[verifier::external_body]
pub fn vx_filter<F: Fn(usize) -> bool>(s: &[usize], f: F, p: Ghost<spec_fn(usize) -> bool>) -> (r: Vec<usize>)
    requires forall|x: usize| f.requires((x,)), forall|x: usize, b: bool| f.ensures((x,), b) ==> b == (p@)(x),
    ensures r@ == s@.filter(p@),
{ s.iter().filter(|x| f(**x)).copied().collect() }
/// sorting strictly-distinct positions and reversing lists them in strictly descending order, same members
pub proof fn lemma_sorted_desc(a: Seq<usize>, b: Seq<usize>, r: Seq<usize>)
    requires a.to_multiset() == b.to_multiset(), a.len() == b.len(), r == b.reverse(),
        forall|j: int, k: int| #![trigger b[j], b[k]] 0 <= j < k < b.len() ==> b[j] <= b[k],
        forall|j: int, k: int| #![trigger a[j], a[k]] 0 <= j < k < a.len() ==> a[j] != a[k],
    ensures r.len() == a.len(),
        forall|j: int, k: int| #![trigger r[j], r[k]] 0 <= j < k < r.len() ==> r[j] > r[k],
        forall|x: usize| r.contains(x) <==> a.contains(x),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { if i < j {} else { assert(a[j] != a[i]); } } }
    a.lemma_multiset_has_no_duplicates();
    b.lemma_multiset_has_no_duplicates_conv();
    assert forall|x: usize| r.contains(x) <==> a.contains(x) by {
        assert(a.contains(x) <==> a.to_multiset().count(x) > 0);
        assert(b.contains(x) <==> b.to_multiset().count(x) > 0);
        if r.contains(x) { let i = choose|i: int| 0 <= i < r.len() && r[i] == x; assert(b[b.len() - 1 - i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(r[b.len() - 1 - i] == x); }
    }
    assert forall|j: int, k: int| #![trigger r[j], r[k]] 0 <= j < k < r.len() implies r[j] > r[k] by {
        assert(r[j] == b[b.len() - 1 - j]); assert(r[k] == b[b.len() - 1 - k]);
    }
}
/// position of the first d with axis value
pub open spec fn axes_set(d: Seq<i32>, n: int) -> spec_fn(int) -> bool { |j: int| exists|k: int| #![trigger d[k]] 0 <= k < d.len() && axis_of(d[k] as int, n) == j }
pub open spec fn squeezable(d: Seq<i32>, dims: Seq<usize>) -> bool {
    (forall|k: int| 0 <= k < d.len() ==> axis_ok(#[trigger] d[k] as int, dims.len() as int) && dims[axis_of(d[k] as int, dims.len() as int)] == 1)
    && (forall|j: int, k: int| #![trigger d[j], d[k]] 0 <= j < k < d.len() ==> axis_of(d[j] as int, dims.len() as int) != axis_of(d[k] as int, dims.len() as int))
}
pub open spec fn fits_layout(l: Layout) -> bool { fits(l.shape.dims@) }
'''

CAST = "assert(forall|x: i32| x < 0 ==> #[trigger] (x as usize) >= 0xFFFF_FFFF_8000_0000usize) by(bit_vector); "

SHAPE_FNS = [
 Contract(SH,"Shape","new",ensures="r.dims@ == dims@"),
 Contract(SH,"Shape","scalar",ensures="r.dims@.len() == 0"),
 Contract(SH,"Shape","dims",ensures="r@ == self.dims@"),
 Contract(SH,"Shape","ndim",ensures="r == self.dims@.len()"),
 Contract(SH,"Shape","size",requires="fits(self.dims@)",ensures="r == prod(self.dims@)"),
 Contract(SH,"Shape","is_scalar",ensures="r == (self.dims@.len() == 0)"),
 Contract(SH,"Shape","last",ensures="self.dims@.len() == 0 ==> r is None, self.dims@.len() > 0 ==> r == Some(self.dims@.last())"),
 Contract(SH,"Shape","dim_size",requires="self.dims@.len() < 0x7fff_ffff",
   ensures="axis_ok(index as int, self.dims@.len() as int) ==> r == Some(self.dims@[axis_of(index as int, self.dims@.len() as int)]), !axis_ok(index as int, self.dims@.len() as int) ==> r is None",
   pre=CAST),
 Contract(SH,"Shape","normalize_axis",requires="self.dims@.len() < 0x7fff_ffff",
   ensures="axis_ok(axis as int, self.dims@.len() as int) ==> r == Some(axis_of(axis as int, self.dims@.len() as int) as usize), !axis_ok(axis as int, self.dims@.len() as int) ==> r is None"),
 Contract(SH,"Shape","can_broadcast_to",ensures="r == stretches(self.dims@, target.dims@)",
   loops=[dict(match="for",inv="self.dims@.len() <= target.dims@.len(), offset + self.dims@.len() == target.dims@.len(), offset + vx_s0.len() <= usize::MAX, vx_s0@ == self.dims@, forall|k: int| 0 <= k < vx_i0 ==> (#[trigger] self.dims@[k] == 1 || self.dims@[k] == target.dims@[k + target.dims@.len() - self.dims@.len()])")]),
 Contract(SH,"Shape","broadcast_shape",
   requires="lhs.dims@.len() < 0x7fff_ffff, rhs.dims@.len() < 0x7fff_ffff",
   ensures="r is Some <==> compatible(lhs.dims@, rhs.dims@), r is Some ==> is_broadcast_of(r->Some_0.dims@, lhs.dims@, rhs.dims@)",
   loops=[dict(match="for",inv="lhs.dims@.len() < 0x7fff_ffff, rhs.dims@.len() < 0x7fff_ffff, max_ndim == max_rank(lhs.dims@, rhs.dims@), result_dims@.len() == i, "
     "forall|k: int| #![trigger padded(lhs.dims@, max_ndim as int, k)] 0 <= k < i ==> (padded(lhs.dims@, max_ndim as int, k) == padded(rhs.dims@, max_ndim as int, k) || padded(lhs.dims@, max_ndim as int, k) == 1 || padded(rhs.dims@, max_ndim as int, k) == 1), "
     "forall|k: int| 0 <= k < i ==> #[trigger] result_dims@[k] as int == broadcast_dim(padded(lhs.dims@, max_ndim as int, k), padded(rhs.dims@, max_ndim as int, k))",
     head="proof { assert(padded(lhs.dims@, max_ndim as int, i as int) >= 0); assert(padded(rhs.dims@, max_ndim as int, i as int) >= 0); } ")],
   before=[(r"return None;","proof { let k = i as int; assert(lhs_dim as int == padded(lhs.dims@, max_ndim as int, k)); assert(rhs_dim as int == padded(rhs.dims@, max_ndim as int, k)); }")],
   extra=[(r"let mut result_dims =", "let mut result_dims: Vec<usize> =")]),
]
SHAPE_RAW = r'''
impl Shape {
    /// `From<Vec<usize>>` (SmallVec::from_vec): wraps the vector
    pub fn vx_from(dims: Vec<usize>) -> (r: Shape) ensures r.dims@ == dims@ { Shape { dims } }
}
'''
IDX=[(r"\bshape\[([^\]]*)\]", r"shape.dims[\1]"),(r"\btarget_shape\[", "target_shape.dims["),(r"Shape::from\(", "Shape::vx_from("),
     (r"\.dims_mut\(\)", ".dims")]
WF="wf(*self)"
LAYOUT_FNS=[
 Contract(LA,"Layout","new",requires="", ensures="r.shape == shape, r.strides@ == strides@, r.offset == 0"),
 Contract(LA,"Layout","shape",ensures="*r == self.shape"),
 Contract(LA,"Layout","strides",ensures="r@ == self.strides@"),
 Contract(LA,"Layout","offset",ensures="r == self.offset"),
 Contract(LA,"Layout","ndim",ensures="r == self.shape.dims@.len()"),
 Contract(LA,"Layout","dim_size",requires="self.shape.dims@.len() < 0x7fff_ffff",extra=IDX,
   ensures="axis_ok(index as int, self.shape.dims@.len() as int) ==> r == Some(self.shape.dims@[axis_of(index as int, self.shape.dims@.len() as int)]), !axis_ok(index as int, self.shape.dims@.len() as int) ==> r is None"),
 Contract(LA,"Layout","size",requires="fits_layout(*self)",ensures="r == prod(self.shape.dims@)"),
 Contract(LA,"Layout","set_shape",ensures="final(self).shape == shape, final(self).strides == old(self).strides, final(self).offset == old(self).offset"),
 Contract(LA,"Layout","set_strides",ensures="final(self).strides@ == strides@, final(self).shape == old(self).shape, final(self).offset == old(self).offset"),
 Contract(LA,"Layout","set_offset",ensures="final(self).offset == offset, final(self).strides == old(self).strides, final(self).shape == old(self).shape"),
 Contract(LA,"Layout","compute_strides",requires="fits(shape.dims@)",ensures="is_row_major(r@, shape.dims@)",extra=IDX,
   loops=[dict(match=r"rev\(\)",before="proof { assert(shape.dims@.skip(ndim as int) =~= Seq::<usize>::empty()); } ",
     inv="fits(shape.dims@), vx_lo0 == 0, vx_r0 <= ndim - 1, ndim == shape.dims@.len(), ndim > 0, strides@.len() == ndim, forall|k: int| vx_r0 <= k < ndim ==> #[trigger] strides@[k] as int == prod(shape.dims@.skip(k + 1))",
     head="proof { let n = i as int + 1; lemma_prod_skip(shape.dims@, n); assert(0 <= prod(shape.dims@.skip(n)) <= usize::MAX); assert(strides@[n] as int == prod(shape.dims@.skip(n + 1))); assert(strides@[n] * shape.dims@[n] == shape.dims@[n] * strides@[n]) by(nonlinear_arith); } ")]),
 Contract(LA,"Layout","is_contiguous",requires="wf(*self), fits_layout(*self)",ensures="r == is_row_major(self.strides@, self.shape.dims@)",
   extra=IDX+[(r"let mut expected_stride = 1;","let mut expected_stride: usize = 1;")],
   before=[(r"return false;","proof { let i = i as int; assert(self.strides@[i] as int != prod(self.shape.dims@.skip(i + 1))); }")],
   loops=[dict(match=r"rev\(\)",before="proof { assert(self.shape.dims@.skip(ndim as int) =~= Seq::<usize>::empty()); } ",
     inv="wf(*self), fits_layout(*self), vx_lo0 == 0, vx_r0 <= ndim, ndim == self.shape.dims@.len(), expected_stride as int == prod(self.shape.dims@.skip(vx_r0 as int)), forall|k: int| vx_r0 <= k < ndim ==> #[trigger] self.strides@[k] as int == prod(self.shape.dims@.skip(k + 1))",
     head="proof { let n = i as int; lemma_prod_skip(self.shape.dims@, n); assert(0 <= prod(self.shape.dims@.skip(n)) <= usize::MAX); assert(expected_stride * self.shape.dims@[n] == self.shape.dims@[n] * expected_stride) by(nonlinear_arith); } ")]),
 Contract(LA,"Layout","from_shape",requires="fits(shape.dims@)",ensures="r.shape == *shape, is_row_major(r.strides@, shape.dims@), r.offset == 0"),
 Contract(LA,"Layout","reshape",requires="wf(*self), fits_layout(*self), fits(new_shape.dims@)",
   ensures="r is Ok <==> prod(self.shape.dims@) == prod(new_shape.dims@) && is_row_major(self.strides@, self.shape.dims@), r is Ok ==> same_but_dims(r->Ok_0, *self, new_shape.dims@)"),
 Contract(LA,"Layout","flatten",requires="wf(*self), fits_layout(*self)",extra=IDX+[(r"vec!\[total_size\]","vx_from_elem(total_size, 1)")],
   before=[(r"let new_strides","proof { assert(new_shape.dims@.skip(1) =~= Seq::<usize>::empty()); assert(new_shape.dims@.skip(0) =~= new_shape.dims@); assert(self.shape.dims@.skip(0) =~= self.shape.dims@); assert(prod(new_shape.dims@.skip(1)) == 1); assert(new_shape.dims@[0] as int * 1 == new_shape.dims@[0]); assert forall|i: int| 0 <= i <= new_shape.dims@.len() implies 0 <= #[trigger] prod(new_shape.dims@.skip(i)) <= usize::MAX by { if i == 0 {} else {} } }")],
   ensures="r is Ok <==> is_row_major(self.strides@, self.shape.dims@), r is Ok ==> r->Ok_0.shape.dims@.len() == 1 && r->Ok_0.shape.dims@[0] == prod(self.shape.dims@) && r->Ok_0.offset == self.offset && is_row_major(r->Ok_0.strides@, r->Ok_0.shape.dims@)"),
 Contract(LA,"Layout","unsqueeze",requires="wf(*self), fits_layout(*self)",extra=IDX+[(r"let mut new_dims =","let mut new_dims: Vec<usize> =")],pre=CAST,
   ensures="r is Ok <==> axis_ok(dim as int, self.shape.dims@.len() as int + 1) && is_row_major(self.strides@, self.shape.dims@), r is Ok ==> same_but_dims(r->Ok_0, *self, self.shape.dims@.insert(axis_of(dim as int, self.shape.dims@.len() as int + 1), 1))",
   before=[(r"let new_shape","proof { assert(new_dims@ =~= self.shape.dims@.insert(actual_dim as int, 1)); lemma_fits_insert(self.shape.dims@, actual_dim as int); }")]),
 Contract(LA,"Layout","squeeze",requires="wf(*self), fits_layout(*self)",pre=CAST,
   extra=IDX+[(r"([\w.]+)\.iter\(\)\.filter\(\|&&(\w+)\|\s*([^()|]+?)\)\.copied\(\)\.collect\(\)", r"vx_filter(&\1, |\2: usize| -> (vx_b: bool) ensures vx_b == (\3) { \3 }, Ghost(|\2: usize| \3))"),
     (r"(\w+)\.sort_unstable\(\);", r"vx_sort(&mut \1);"), (r"let new_dims = if", "let new_dims: Vec<usize> = if"), (r"let mut actual_dims =", "let mut actual_dims: Vec<usize> ="), (r"(\w+)\.to_vec\(\)", r"vx_to_vec(\1)")],
   ensures="dims_to_squeeze@.len() == 0 ==> (r is Ok <==> is_row_major(self.strides@, self.shape.dims@)) && (r is Ok ==> same_but_dims(r->Ok_0, *self, keep_not_one(self.shape.dims@))), "
    "dims_to_squeeze@.len() > 0 ==> (r is Ok <==> is_row_major(self.strides@, self.shape.dims@) && squeezable(dims_to_squeeze@, self.shape.dims@)) && (r is Ok ==> same_but_dims(r->Ok_0, *self, without(self.shape.dims@, axes_set(dims_to_squeeze@, self.shape.dims@.len() as int))))",
   before=[(r"let new_shape","proof { if dims_to_squeeze@.len() == 0 { let p = |size: usize| size != 1; let g = |j: int| shape_dims@[j] == 1; lemma_filter_without(shape_dims@, p, g); lemma_without_fits(shape_dims@, g); lemma_without_ext(shape_dims@, g, |j: int| self.shape.dims@[j] == 1); } }"),
     (r"return Err\(HoduError\);\s*\}\s*actual_dims\.push","proof { let k = choose|k: int| #![trigger actual_dims@[k]] 0 <= k < vx_i0 && actual_dims@[k] == actual_dim; assert(axis_of(dims_to_squeeze@[k] as int, ndim as int) == actual_dim); assert(axis_of(dims_to_squeeze@[vx_i0 as int] as int, ndim as int) == actual_dim); assert(!squeezable(dims_to_squeeze@, shape_dims@)); }"),
     (r"vx_sort\(","let ghost uns = actual_dims@; "),
     (r"actual_dims\.reverse\(\)","let ghost srt = actual_dims@; ")],
   loops=[dict(match="in dims_to_squeeze$",inv="wf(*self), ndim == self.shape.dims@.len(), shape_dims@ == self.shape.dims@, vx_s0@ == dims_to_squeeze@, actual_dims@.len() == vx_i0, "
      "forall|x: i32| x < 0 ==> #[trigger] (x as usize) >= 0xFFFF_FFFF_8000_0000usize, "
      "forall|k: int| #![trigger actual_dims@[k]] #![trigger dims_to_squeeze@[k]] 0 <= k < vx_i0 ==> axis_ok(dims_to_squeeze@[k] as int, ndim as int) && actual_dims@[k] == axis_of(dims_to_squeeze@[k] as int, ndim as int) && shape_dims@[actual_dims@[k] as int] == 1, "
      "forall|j: int, k: int| #![trigger actual_dims@[j], actual_dims@[k]] 0 <= j < k < vx_i0 ==> actual_dims@[j] != actual_dims@[k]",
      head="let ghost old_ad = actual_dims@; proof { assert(squeezable(dims_to_squeeze@, shape_dims@) ==> axis_ok(dims_to_squeeze@[vx_i0 as int] as int, ndim as int)); } ",
      tail=" proof { assert(actual_dims@[vx_i0 as int] == actual_dim); } ",
      after=" proof { assert(squeezable(dims_to_squeeze@, shape_dims@)); } "),
    dict(match="in &actual_dims$",before="proof { lemma_sorted_desc(uns, srt, actual_dims@); let g = taken(actual_dims@, 0); lemma_without_none(shape_dims@, g); assert forall|m: int| 0 <= m < actual_dims@.len() implies #[trigger] actual_dims@[m] < ndim by { assert(actual_dims@.contains(actual_dims@[m])); assert(uns.contains(actual_dims@[m])); } } ",
      inv="shape_dims@ == self.shape.dims@, ndim == shape_dims@.len(), vx_s1@ == actual_dims@, new_dims@ == without(shape_dims@, taken(actual_dims@, vx_i1 as int)), forall|m: int| 0 <= m < actual_dims@.len() ==> #[trigger] actual_dims@[m] < ndim, "
      "forall|j: int, k: int| #![trigger actual_dims@[j], actual_dims@[k]] 0 <= j < k < actual_dims@.len() ==> actual_dims@[j] > actual_dims@[k]",
      head="proof { let k = vx_i1 as int; let g = taken(actual_dims@, k); let g2 = taken(actual_dims@, k + 1); assert forall|j: int| #[trigger] g2(j) <==> (g(j) || j == dim_idx) by { if g2(j) { let m = choose|m: int| #![trigger actual_dims@[m]] 0 <= m < k + 1 && actual_dims@[m] == j; if m < k { assert(actual_dims@[m] == j); assert(g(j)); } } if j == dim_idx { assert(actual_dims@[k] == j); } if g(j) { let m = choose|m: int| #![trigger actual_dims@[m]] 0 <= m < k && actual_dims@[m] == j; assert(actual_dims@[m] == j); } } assert forall|j: int| #[trigger] g(j) implies j > dim_idx by { let m = choose|m: int| #![trigger actual_dims@[m]] 0 <= m < k && actual_dims@[m] == j; assert(actual_dims@[m] > actual_dims@[k]); } lemma_without_remove(shape_dims@, g, g2, dim_idx as int); } ",
      after=" proof { let n = ndim as int; let g = taken(actual_dims@, actual_dims@.len() as int); let a = axes_set(dims_to_squeeze@, n); assert forall|j: int| 0 <= j < n implies (#[trigger] g(j) <==> a(j)) by { "
       "if g(j) { let m = choose|m: int| #![trigger actual_dims@[m]] 0 <= m < actual_dims@.len() && actual_dims@[m] == j; assert(actual_dims@.contains(actual_dims@[m])); assert(uns.contains(j as usize)); let q = choose|q: int| 0 <= q < uns.len() && uns[q] == j as usize; assert(axis_of(dims_to_squeeze@[q] as int, n) == j); assert(dims_to_squeeze@[q] == dims_to_squeeze@[q]); } "
       "if a(j) { let q = choose|q: int| #![trigger dims_to_squeeze@[q]] 0 <= q < dims_to_squeeze@.len() && axis_of(dims_to_squeeze@[q] as int, n) == j; assert(uns[q] == j); assert(uns.contains(j as usize)); assert(actual_dims@.contains(j as usize)); let m = choose|m: int| 0 <= m < actual_dims@.len() && actual_dims@[m] == j as usize; assert(actual_dims@[m] == j); } } "
       "lemma_without_ext(shape_dims@, g, a); assert forall|j: int| 0 <= j < n && #[trigger] a(j) implies shape_dims@[j] == 1 by { let q = choose|q: int| #![trigger dims_to_squeeze@[q]] 0 <= q < dims_to_squeeze@.len() && axis_of(dims_to_squeeze@[q] as int, n) == j; assert(uns[q] == j); } lemma_without_fits(shape_dims@, a); } ")]),
 Contract(LA,"Layout","broadcast_to",requires="wf(*self), target_shape.dims@.len() < 0x7fff_ffff",extra=IDX+[(r"let mut padded_shape =","let mut padded_shape: Vec<usize> ="),(r"let mut new_strides =","let mut new_strides: Vec<usize> =")],
   ensures="r is Ok <==> stretches(self.shape.dims@, target_shape.dims@), r is Ok ==> r->Ok_0.shape == *target_shape && r->Ok_0.offset == self.offset && stretch_strides(r->Ok_0.strides@, self.strides@, self.shape.dims@, target_shape.dims@)",
   loops=[dict(match="for i in 0..target_ndim",inv="wf(*self), *shape == self.shape, target_ndim == target_shape.dims@.len(), rank_diff + shape.dims@.len() == target_ndim, padded_shape@.len() == target_ndim, new_strides@.len() == target_ndim, "
      "forall|k: int| 0 <= k < target_ndim ==> #[trigger] padded_shape@[k] == (if k < rank_diff { 1usize } else { shape.dims@[k - rank_diff] }), "
      "forall|k: int| #![trigger shape.dims@[k]] 0 <= k < i - rank_diff ==> (shape.dims@[k] == 1 || shape.dims@[k] == target_shape.dims@[k + rank_diff]), "
      "forall|k: int| 0 <= k < i ==> #[trigger] new_strides@[k] == (if k < rank_diff { 0usize } else if shape.dims@[k - rank_diff] == target_shape.dims@[k] { self.strides@[k - rank_diff] } else { 0usize })",
      head="proof { assert(padded_shape@[i as int] == (if i < rank_diff { 1usize } else { shape.dims@[i - rank_diff] })); } ")]),
 Contract(LA,"Layout","broadcast_layouts",requires="wf(*lhs), wf(*rhs)",
   ensures="r is Ok <==> compatible(lhs.shape.dims@, rhs.shape.dims@), r is Ok ==> is_broadcast_of(r->Ok_0.0.shape.dims@, lhs.shape.dims@, rhs.shape.dims@) && r->Ok_0.1.shape.dims@ == r->Ok_0.0.shape.dims@"
     " && r->Ok_0.0.offset == lhs.offset && r->Ok_0.1.offset == rhs.offset && stretch_strides(r->Ok_0.0.strides@, lhs.strides@, lhs.shape.dims@, r->Ok_0.0.shape.dims@) && stretch_strides(r->Ok_0.1.strides@, rhs.strides@, rhs.shape.dims@, r->Ok_0.1.shape.dims@)",
   before=[(r"let lhs_broadcast","proof { lemma_result_stretches(lhs.shape.dims@, rhs.shape.dims@, broadcast_shape.dims@); }")]),
 Contract(LA,"Layout","transpose",requires="wf(*self)",extra=IDX,
   ensures="r is Ok <==> self.shape.dims@.len() >= 2 && axis_ok(dim1 as int, self.shape.dims@.len() as int) && axis_ok(dim2 as int, self.shape.dims@.len() as int), "
     "r is Ok ==> r->Ok_0.offset == self.offset && r->Ok_0.shape.dims@ == swapped(self.shape.dims@, axis_of(dim1 as int, self.shape.dims@.len() as int), axis_of(dim2 as int, self.shape.dims@.len() as int)) && r->Ok_0.strides@ == swapped(self.strides@, axis_of(dim1 as int, self.shape.dims@.len() as int), axis_of(dim2 as int, self.shape.dims@.len() as int))"),
 Contract(LA,"Layout","permute",requires="wf(*self)",extra=IDX+[(r"let mut actual_axes =","let mut actual_axes: Vec<usize> ="),(r"let mut seen =","let mut seen: Vec<bool> ="),(r"let mut new_dims =","let mut new_dims: Vec<usize> ="),(r"let mut new_strides =","let mut new_strides: Vec<usize> =")],
   ensures="r is Ok <==> permutes(axes@, self.shape.dims@.len() as int), r is Ok ==> r->Ok_0.offset == self.offset && r->Ok_0.shape.dims@ == gathered(self.shape.dims@, axes_norm(axes@, self.shape.dims@.len() as int)) && r->Ok_0.strides@ == gathered(self.strides@, axes_norm(axes@, self.shape.dims@.len() as int))",
   loops=[dict(match="in axes$",inv="wf(*self), ndim == self.shape.dims@.len(), axes@.len() == ndim, vx_s0@ == axes@, seen@.len() == ndim, actual_axes@.len() == vx_i0, "
       "forall|k: int| #![trigger actual_axes@[k]] #![trigger axes@[k]] 0 <= k < vx_i0 ==> axis_ok(axes@[k] as int, ndim as int) && actual_axes@[k] == axis_of(axes@[k] as int, ndim as int), forall|k: int| #![trigger actual_axes@[k]] 0 <= k < vx_i0 ==> actual_axes@[k] < seen@.len() && seen@[actual_axes@[k] as int], "
       "forall|j: int| 0 <= j < ndim && #[trigger] seen@[j] ==> exists|k: int| #![trigger actual_axes@[k]] 0 <= k < vx_i0 && actual_axes@[k] == j, "
       "forall|j: int, k: int| #![trigger actual_axes@[j], actual_axes@[k]] 0 <= j < k < vx_i0 ==> actual_axes@[j] != actual_axes@[k]",
       head="proof { assert(permutes(axes@, ndim as int) ==> axis_ok(axes@[vx_i0 as int] as int, ndim as int)); } let ghost old_seen = seen@; let ghost old_axes = actual_axes@; ",
       tail=" proof { assert forall|k: int| #![trigger actual_axes@[k]] #![trigger axes@[k]] 0 <= k < vx_i0 + 1 implies axis_ok(axes@[k] as int, ndim as int) && actual_axes@[k] == axis_of(axes@[k] as int, ndim as int) && seen@[actual_axes@[k] as int] by { if k < vx_i0 { assert(actual_axes@[k] == old_axes[k]); assert(axis_ok(axes@[k] as int, ndim as int)); assert(actual_axes@[k] == axis_of(axes@[k] as int, ndim as int)); assert(old_seen[old_axes[k] as int]); assert(seen@[actual_axes@[k] as int]); } else { assert(k == vx_i0); assert(actual_axes@[k] == actual_axis); } } assert forall|j: int| 0 <= j < ndim && #[trigger] seen@[j] implies exists|k: int| #![trigger actual_axes@[k]] 0 <= k < vx_i0 + 1 && actual_axes@[k] == j by { if j == actual_axis { assert(actual_axes@[vx_i0 as int] == j); } else { assert(old_seen[j]); let k = choose|k: int| #![trigger old_axes[k]] 0 <= k < vx_i0 && old_axes[k] == j; assert(actual_axes@[k] == j); } } } "),
     dict(match="in &actual_axes$",before="proof { let an = axes_norm(axes@, ndim as int); assert forall|k: int| 0 <= k < ndim implies an[k] == #[trigger] actual_axes@[k] by {}; assert(permutes(axes@, ndim as int)); } ",
       inv="wf(*self), ndim == self.shape.dims@.len(), vx_s1@ == actual_axes@, actual_axes@.len() == ndim, axes@.len() == ndim, new_dims@.len() == vx_i1, new_strides@.len() == vx_i1, permutes(axes@, ndim as int), "
       "forall|k: int| #![trigger actual_axes@[k]] 0 <= k < ndim ==> 0 <= actual_axes@[k] < ndim && actual_axes@[k] == axes_norm(axes@, ndim as int)[k], "
       "forall|k: int| 0 <= k < vx_i1 ==> #[trigger] new_dims@[k] == self.shape.dims@[actual_axes@[k] as int], forall|k: int| 0 <= k < vx_i1 ==> #[trigger] new_strides@[k] == self.strides@[actual_axes@[k] as int]",
       after=" proof { let an = axes_norm(axes@, ndim as int); assert(new_dims@ =~= gathered(self.shape.dims@, an)); assert(new_strides@ =~= gathered(self.strides@, an)); } ")],
   before=[(r"return Err\(HoduError\);\s*\}\s*seen\[","proof { let k = choose|k: int| #![trigger actual_axes@[k]] 0 <= k < vx_i0 && actual_axes@[k] == actual_axis; assert(actual_axes@[k] == actual_axis); assert(axis_of(axes@[k] as int, ndim as int) == axis_of(axes@[vx_i0 as int] as int, ndim as int)); assert(!permutes(axes@, ndim as int)); }")]),
 Contract(LA,"Layout","slice",requires="wf(*self), forall|k: int| 0 <= k < self.shape.dims@.len() ==> #[trigger] self.shape.dims@[k] < 0x7fff_ffff, forall|k: int| #![trigger self.strides@[k]] 0 <= k < self.strides@.len() ==> 0 <= self.offset + self.shape.dims@[k] * self.strides@[k] <= usize::MAX && 0 <= self.strides@[k] * step <= usize::MAX || step <= 0",extra=IDX,
   pre=CAST,
   ensures="({ let n = self.shape.dims@.len() as int; let d = axis_of(dim as int, n); let sz = self.shape.dims@[d] as int; let s = slice_start(start as int, sz); let e = slice_end(end, sz); "
     "&&& (r is Ok <==> axis_ok(dim as int, n) && step > 0 && slice_len(s, e, step as int) > 0) "
     "&&& (r is Ok ==> r->Ok_0.shape.dims@ == self.shape.dims@.update(d, slice_len(s, e, step as int) as usize) && r->Ok_0.strides@ == self.strides@.update(d, (self.strides@[d] * step) as usize) && r->Ok_0.offset as int == self.offset as int + s * self.strides@[d] as int) })",
   before=[(r"let new_size = if","proof { assert(step > 0); if clamped_end > clamped_start { let q = (clamped_end - clamped_start - 1) / step as int; assert(0 <= q <= clamped_end - clamped_start - 1) by(nonlinear_arith) requires q == (clamped_end - clamped_start - 1) / step as int, step > 0, clamped_end > clamped_start; } }"),
     (r"let new_offset","proof { let d = actual_dim as int; assert(clamped_start * self.strides@[d] <= self.shape.dims@[d] * self.strides@[d]) by(nonlinear_arith) requires 0 <= clamped_start <= self.shape.dims@[d], self.strides@[d] >= 0; assert(0 <= clamped_start * self.strides@[d]) by(nonlinear_arith) requires 0 <= clamped_start, self.strides@[d] >= 0; }")]),
]
LEM2=r'''
pub open spec fn axes_norm(a: Seq<i32>, n: int) -> Seq<int> { Seq::new(a.len(), |i: int| axis_of(a[i] as int, n)) }
pub open spec fn permutes(a: Seq<i32>, n: int) -> bool {
    a.len() == n && (forall|i: int| 0 <= i < n ==> axis_ok(#[trigger] a[i] as int, n))
    && (forall|i: int, j: int| #![trigger a[i], a[j]] 0 <= i < j < n ==> axis_of(a[i] as int, n) != axis_of(a[j] as int, n))
}
pub proof fn lemma_insert_prod(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(),
    ensures prod(s.insert(k, 1)) == prod(s),
    decreases s.len(),
{
    let t = s.insert(k, 1);
    if k == 0 { assert(t.skip(1) =~= s); assert(t[0] == 1); assert(1 * prod(s) == prod(s)); }
    else { assert(t.skip(1) =~= s.skip(1).insert(k - 1, 1)); lemma_insert_prod(s.skip(1), k - 1); assert(t[0] == s[0]); }
}
pub proof fn lemma_fits_insert(s: Seq<usize>, k: int)
    requires 0 <= k <= s.len(), fits(s),
    ensures fits(s.insert(k, 1)),
{
    let t = s.insert(k, 1);
    assert forall|i: int| 0 <= i <= t.len() implies 0 <= #[trigger] prod(t.skip(i)) <= usize::MAX by {
        if i <= k { assert(t.skip(i) =~= s.skip(i).insert(k - i, 1)); lemma_insert_prod(s.skip(i), k - i); assert(0 <= prod(s.skip(i)) <= usize::MAX); }
        else { assert(t.skip(i) =~= s.skip(i - 1)); assert(0 <= prod(s.skip(i - 1)) <= usize::MAX); }
    }
}
pub proof fn lemma_result_stretches(a: Seq<usize>, b: Seq<usize>, r: Seq<usize>)
    requires compatible(a, b), is_broadcast_of(r, a, b),
    ensures stretches(a, r), stretches(b, r),
{
    let n = max_rank(a, b);
    assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i] == 1 || a[i] == r[i + r.len() - a.len()]) by {
        let j = i + n - a.len(); assert(padded(a, n, j) == a[i]); assert(r[j] as int == broadcast_dim(padded(a, n, j), padded(b, n, j)));
    }
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i] == 1 || b[i] == r[i + r.len() - b.len()]) by {
        let j = i + n - b.len(); assert(padded(b, n, j) == b[i]); assert(padded(a, n, j) >= 0); assert(r[j] as int == broadcast_dim(padded(a, n, j), padded(b, n, j)));
    }
}
'''
UNIT = Unit("layout", [("struct", SH, "Shape"), ("struct", LA, "Layout"), ("raw", SPEC + LEM2 + SHAPE_RAW),
                       ("impl", "Shape", SH, SHAPE_FNS), ("impl", "Layout", LA, LAYOUT_FNS)])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__":
    import json
    print(json.dumps(UNIT.run(keep="/tmp/vt/layout.rs"), indent=1)[:3000])
