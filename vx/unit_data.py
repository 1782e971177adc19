"""Contracts for crates/hodu_datasets/src/data/{sampler,dataloader,dataset}.rs (property T19)."""
from vx import *
SA = "crates/hodu_datasets/src/data/sampler.rs"; DL = "crates/hodu_datasets/src/data/dataloader.rs"; DS = "crates/hodu_datasets/src/data/dataset.rs"
SPEC = r'''
#[verifier::external_body] pub struct Tensor { x: u8 }
pub enum DataItem { Single(Tensor), Pair(Tensor, Tensor), Multiple(Vec<Tensor>) }
#[verifier::external_body] pub struct Batch { x: u8 }
#[verifier::external_body] pub struct CollateFn { x: u8 }
/// what the collate function makes of the items handed to it, in order
pub uninterp spec fn collated(f: CollateFn, items: Seq<DataItem>) -> Batch;
#[verifier::external_body] pub fn vx_collate(f: &CollateFn, items: Vec<DataItem>) -> (r: HoduResult<Batch>) ensures r is Ok ==> r->Ok_0 == collated(*f, items@) { unimplemented!() }
#[verifier::external_body] pub fn vx_default_collate() -> CollateFn { unimplemented!() }
#[verifier::external_body] pub struct SmallRng { x: u8 }
#[verifier::external_body] pub fn vx_seed(s: u64) -> SmallRng { unimplemented!() }
#[verifier::external_body] pub fn vx_draw(r: &mut SmallRng, hi: usize) -> (j: usize) ensures j <= hi { unimplemented!() }
#[verifier::external_body] pub fn vx_upto(n: usize) -> (r: Vec<usize>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == i { (0..n).collect() }
#[verifier::external_body] pub fn vx_sub<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
#[verifier::external_body] pub fn vx_vec(s: &[usize]) -> (r: Vec<usize>) ensures r@ == s@ { s.to_vec() }
pub fn vx_min(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
pub fn vx_div_ceil(a: usize, b: usize) -> (r: usize) requires b > 0 ensures r == (a as int + b - 1) / (b as int) {
    let q = a / b; let r = a % b;
    proof { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, b as int); let (x, y, z) = (q as int, b as int, r as int);
        if z == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a as int + y - 1, y, x, y - 1); } else { assert(y * (x + 1) == y * x + y) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a as int + y - 1, y, x + 1, z - 1);
            assert(x < a) by(nonlinear_arith) requires a == y * x + z, y >= 2, z >= 1, x >= 0; } }
    if r == 0 { q } else { q + 1 } }

/// the samples of a data set: how many, and what each is
pub trait Dataset: Sized {
    spec fn n(&self) -> nat;
    spec fn item(&self, i: int) -> DataItem;
    spec fn ok(&self) -> bool;
    fn len(&self) -> (r: usize) requires self.ok() ensures r == self.n();
    fn get(&self, index: usize) -> (r: HoduResult<DataItem>) requires self.ok() ensures r is Ok ==> index < self.n() && r->Ok_0 == self.item(index as int);
}
pub trait Sampler: Sized {
    spec fn order(&self) -> Seq<usize>;
    fn vx_all(&self) -> (r: Vec<usize>) ensures r@ == self.order();
}
pub open spec fn perm(p: Seq<usize>) -> bool { (forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i] as int) < p.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j]) }
pub open spec fn by_perm(a: Seq<usize>, b: Seq<usize>, p: Seq<usize>) -> bool { perm(p) && p.len() == a.len() && a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[p[i] as int] }
/// a holds what b holds, each position of b used once
pub open spec fn rearranged(a: Seq<usize>, b: Seq<usize>) -> bool { exists|p: Seq<usize>| #[trigger] by_perm(a, b, p) }
pub open spec fn swapped(a: Seq<usize>, i: int, j: int) -> Seq<usize> { a.update(i, a[j]).update(j, a[i]) }
pub proof fn lemma_same(a: Seq<usize>) requires a.len() <= usize::MAX ensures rearranged(a, a) { let p = Seq::new(a.len(), |i: int| i as usize); assert(by_perm(a, a, p)); }
pub proof fn lemma_swapped(a: Seq<usize>, b: Seq<usize>, i: int, j: int) requires rearranged(a, b), 0 <= i < a.len(), 0 <= j < a.len() ensures rearranged(swapped(a, i, j), b) {
    let p = choose|p: Seq<usize>| #[trigger] by_perm(a, b, p); let q = swapped(p, i, j); let c = swapped(a, i, j);
    assert forall|x: int| 0 <= x < q.len() implies (#[trigger] q[x] as int) < q.len() by { assert(p[i] < p.len() && p[j] < p.len()); if x != i && x != j { assert(q[x] == p[x]); } }
    assert forall|x: int, y: int| 0 <= x < y < q.len() implies #[trigger] q[x] != #[trigger] q[y] by {
        let fx = if x == i { j } else if x == j { i } else { x }; let fy = if y == i { j } else if y == j { i } else { y };
        assert(q[x] == p[fx]); assert(q[y] == p[fy]); assert(fx != fy); if fx < fy { assert(p[fx] != p[fy]); } else { assert(p[fy] != p[fx]); } }
    assert forall|x: int| 0 <= x < c.len() implies #[trigger] c[x] == b[q[x] as int] by { let fx = if x == i { j } else if x == j { i } else { x }; assert(c[x] == a[fx]); assert(q[x] == p[fx]); assert(a[fx] == b[p[fx] as int]); }
    assert(by_perm(c, b, q)); }
/// a rearranged permutation is one
pub proof fn lemma_perm(a: Seq<usize>, b: Seq<usize>) requires rearranged(a, b), perm(b) ensures perm(a), a.len() == b.len() {
    let p = choose|p: Seq<usize>| #[trigger] by_perm(a, b, p);
    assert forall|x: int| 0 <= x < a.len() implies (#[trigger] a[x] as int) < a.len() by { assert(p[x] < p.len()); assert(a[x] == b[p[x] as int]); }
    assert forall|x: int, y: int| 0 <= x < y < a.len() implies #[trigger] a[x] != #[trigger] a[y] by { assert(p[x] != p[y]); assert(p[x] < p.len() && p[y] < p.len()); let (u, v) = (p[x] as int, p[y] as int); assert(a[x] == b[u] && a[y] == b[v]); if u < v { assert(b[u] != b[v]); } else { assert(b[v] != b[u]); } } }
/// number of batches of an epoch over n samples
pub open spec fn n_batches(n: int, bs: int, drop: bool) -> int { if drop { n / bs } else { (n + bs - 1) / bs } }
/// samples before batch k
pub open spec fn at(n: int, bs: int, k: int) -> int { if k * bs <= n { k * bs } else { n } }
pub open spec fn loader_ok<D: Dataset>(l: DataLoader<D>) -> bool { l.dataset.ok() && l.indices@.len() == l.dataset.n() && perm(l.indices@) && l.batch_size > 0 && 2 * l.dataset.n() <= usize::MAX && (l.current_idx == l.dataset.n() || (l.current_idx < l.dataset.n() && l.current_idx % l.batch_size == 0)) }
/// the items of the next batch
pub open spec fn next_items<D: Dataset>(l: DataLoader<D>) -> Seq<DataItem> { let e = if l.current_idx + l.batch_size <= l.dataset.n() { l.current_idx + l.batch_size } else { l.dataset.n() as int }; Seq::new((e - l.current_idx) as nat, |i: int| l.dataset.item(l.indices@[l.current_idx + i] as int)) }
pub open spec fn more<D: Dataset>(l: DataLoader<D>) -> bool { l.current_idx < l.dataset.n() && (l.drop_last ==> l.current_idx + l.batch_size <= l.dataset.n()) }
/// T19: after k batches of an epoch the loader stands at at(n, bs, k), and there is a next batch exactly when fewer than n_batches have been taken
pub proof fn T19_epoch_has_n_batches(n: int, bs: int, k: int, drop: bool)
    requires n >= 0, bs > 0, k >= 0
    ensures (at(n, bs, k) < n && (drop ==> at(n, bs, k) + bs <= n)) <==> k < n_batches(n, bs, drop), at(n, bs, k) < n ==> at(n, bs, k + 1) == (if at(n, bs, k) + bs <= n { at(n, bs, k) + bs } else { n }), at(n, bs, 0) == 0
{
    assert((k + 1) * bs == k * bs + bs) by(nonlinear_arith); assert(0 * bs == 0);
    let q = n / bs; let r = n % bs; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, bs); assert(0 <= r < bs) by { vstd::arithmetic::div_mod::lemma_mod_bound(n, bs); }
    assert(bs * (q + 1) == bs * q + bs) by(nonlinear_arith);
    if drop { if k < q { assert(k * bs + bs <= bs * q) by(nonlinear_arith) requires k + 1 <= q, bs > 0; } else { assert(k * bs >= bs * q) by(nonlinear_arith) requires k >= q, bs > 0; } }
    else {
        let c = n_batches(n, bs, false);
        if r == 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + bs - 1, bs, q, bs - 1); assert(c == q); } else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + bs - 1, bs, q + 1, r - 1); assert(c == q + 1); }
        assert(bs * (c - 1) == bs * c - bs) by(nonlinear_arith); if k < c { assert(k * bs <= bs * (c - 1)) by(nonlinear_arith) requires k <= c - 1, bs > 0; } else { assert(k * bs >= bs * c) by(nonlinear_arith) requires k >= c, bs > 0; }
    }
}
'''
SPEC2 = r'''
/// samples of the data sets before the i-th
pub open spec fn before_<D: Dataset>(d: Seq<D>, i: int) -> int decreases i { if i <= 0 { 0 } else { before_(d, i - 1) + d[i - 1].n() } }
pub open spec fn concat_ok<D: Dataset>(c: ConcatDataset<D>) -> bool { c.cumulative_sizes@.len() == c.datasets@.len() && (forall|i: int| 0 <= i < c.datasets@.len() ==> #[trigger] c.datasets@[i].ok()) && (forall|i: int| 0 <= i < c.datasets@.len() ==> #[trigger] c.cumulative_sizes@[i] == before_(c.datasets@, i + 1)) }
pub proof fn lemma_before<D: Dataset>(d: Seq<D>, a: int, b: int) requires 0 <= a <= b ensures 0 <= before_(d, a) <= before_(d, b) decreases b { if a < b { lemma_before(d, a, b - 1); } else if a > 0 { lemma_before(d, a - 1, a - 1); } }
pub open spec fn owner<D: Dataset>(d: Seq<D>, x: int, i: int) -> bool { 0 <= i < d.len() && before_(d, i) <= x < before_(d, i) + d[i].n() }
'''
SH = dict(match="for i in .*rev", inv="rearranged(self.indices@, old(self).indices@), self.indices@.len() == length, self.dataset == old(self).dataset, self.batch_size == old(self).batch_size, self.shuffle == old(self).shuffle, self.drop_last == old(self).drop_last, self.collate_fn == old(self).collate_fn, self.current_idx == old(self).current_idx, self.seed == old(self).seed, self.epoch == old(self).epoch, vx_r0 <= length, vx_lo0 == 1",
          before="proof { lemma_same(self.indices@); } ", head="let ghost g = self.indices@; ", tail=" proof { lemma_swapped(g, old(self).indices@, i as int, j as int); assert(self.indices@ =~= swapped(g, i as int, j as int)); } ")
def SV(of): return dict(match="for i in .*rev", inv="rearranged(indices@, %s), indices@.len() == length, vx_r0 <= length, vx_lo0 == 1" % of, before="proof { lemma_same(indices@); } ", head="let ghost g = indices@; ", tail=" proof { lemma_swapped(g, %s, i as int, j as int); assert(indices@ =~= swapped(g, i as int, j as int)); } " % of)
SAME = "final(self).dataset == old(self).dataset, final(self).batch_size == old(self).batch_size, final(self).shuffle == old(self).shuffle, final(self).drop_last == old(self).drop_last, final(self).collate_fn == old(self).collate_fn, final(self).seed == old(self).seed"
RS = [Contract(SA, "RandomSampler", "new", ensures="perm(r.indices@), r.indices@.len() == length", loops=[SV("g0")], before=[(r"let mut rng", "let ghost g0 = indices@;"), (r"Self \{ indices \}", "proof { assert(perm(g0)); lemma_perm(indices@, g0); }")]),
      Contract(SA, "RandomSampler", "with_indices", params="indices_: Vec<usize>, seed: Option<u64>", pre="let mut indices = indices_; ", ensures="rearranged(r.indices@, indices_@)", loops=[SV("indices_@")])]
DLF = [Contract(DL, "DataLoader", "new_with_config", requires="dataset.ok(), batch_size > 0, 2 * dataset.n() <= usize::MAX", ensures="loader_ok(r), r.dataset == dataset, r.batch_size == batch_size, r.shuffle == shuffle, r.drop_last == drop_last, r.seed == seed, r.epoch == 0, r.current_idx == 0, !shuffle ==> forall|i: int| 0 <= i < dataset.n() ==> #[trigger] r.indices@[i] == i"),
       Contract(DL, "DataLoader", "new", requires="dataset.ok(), batch_size > 0, 2 * dataset.n() <= usize::MAX", ensures="loader_ok(r), r.dataset == dataset, r.batch_size == batch_size, !r.shuffle, !r.drop_last, r.current_idx == 0, forall|i: int| 0 <= i < dataset.n() ==> #[trigger] r.indices@[i] == i", extra=[(r"\bdefault_collate\b", "vx_default_collate()")]),
       Contract(DL, "DataLoader", "shuffle_indices", requires="perm(old(self).indices@)", ensures="perm(final(self).indices@), final(self).indices@.len() == old(self).indices@.len(), final(self).current_idx == old(self).current_idx, final(self).epoch == old(self).epoch, " + SAME, loops=[SH], ret="", before=[(r"let length", "proof { lemma_same(self.indices@); }")]),
       Contract(DL, "DataLoader", "batch_size", ensures="r == self.batch_size"),
       Contract(DL, "DataLoader", "num_batches", requires="loader_ok(*self)", ensures="r == n_batches(self.dataset.n() as int, self.batch_size as int, self.drop_last)", extra=[(r"(\w+)\.div_ceil\(([\w.]+)\)", r"vx_div_ceil(\1, \2)")]),
       Contract(DL, "DataLoader", "reset", requires="loader_ok(*old(self)), old(self).epoch < u64::MAX", ensures="loader_ok(*final(self)), final(self).current_idx == 0, final(self).epoch == old(self).epoch + 1, !old(self).shuffle ==> final(self).indices@ == old(self).indices@, " + SAME),
       Contract(DL, "DataLoader", "has_next", requires="loader_ok(*self)", ensures="r == more(*self)"),
       Contract(DL, "DataLoader", "next_batch", requires="loader_ok(*old(self))",
          ensures="loader_ok(*final(self)), " + SAME + ", final(self).indices == old(self).indices, !more(*old(self)) ==> r is Ok && r->Ok_0 is None && *final(self) == *old(self), more(*old(self)) && r is Ok ==> r->Ok_0 is Some && (r->Ok_0)->Some_0 == collated(old(self).collate_fn, next_items(*old(self))) && final(self).current_idx == old(self).current_idx + next_items(*old(self)).len()",
          extra=[(r"\(self\.collate_fn\)\(", "vx_collate(&self.collate_fn, "), (r"\(start_idx \+ self\.batch_size\)\.min\(self\.dataset\.len\(\)\)", "vx_min(start_idx + self.batch_size, self.dataset.len())")],
          before=[(r"let end_idx", "proof { if start_idx > 0 { let (a, b) = (start_idx as int, self.batch_size as int); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b); assert(a >= b) by(nonlinear_arith) requires a == b * (a / b), a > 0, b > 0; } }"),
                  (r"let batch = ", "proof { assert(items@ =~= next_items(*old(self))); let (a, b) = (start_idx as int, self.batch_size as int); assert((a + b) % b == a % b) by { vstd::arithmetic::div_mod::lemma_mod_add_multiples_vanish(a, b); } }")],
          loops=[dict(match="in batch_indices", inv="*self == *old(self), loader_ok(*self), more(*self), start_idx == self.current_idx, end_idx == start_idx + next_items(*self).len(), end_idx <= self.dataset.n(), vx_s0@ == self.indices@.subrange(start_idx as int, end_idx as int), items@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] items@[i] == next_items(*self)[i]")])]
BS = [Contract(SA, "BatchSampler", "batches", requires="self.batch_size > 0, 2 * self.sampler.order().len() <= usize::MAX",
        ensures="r@.len() == n_batches(self.sampler.order().len() as int, self.batch_size as int, self.drop_last), forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k])@ == self.sampler.order().subrange(at(self.sampler.order().len() as int, self.batch_size as int, k), at(self.sampler.order().len() as int, self.batch_size as int, k + 1))",
        extra=[(r"self\.sampler\.iter\(\)\.collect\(\)", "self.sampler.vx_all()"), (r"let mut batches = Vec::new\(\);", "let mut batches: Vec<Vec<usize>> = Vec::new();"), (r"chunk\.to_vec\(\)", "vx_vec(chunk)")],
        loops=[dict(match="chunks", inv_except_break="vx_c0 == at(indices@.len() as int, self.batch_size as int, batches@.len() as int), (vx_c0 < indices@.len() && (self.drop_last ==> vx_c0 + self.batch_size <= indices@.len())) <==> batches@.len() < n_batches(indices@.len() as int, self.batch_size as int, self.drop_last)", inv="indices@ == self.sampler.order(), vx_n0 == self.batch_size, self.batch_size > 0, 2 * indices@.len() <= usize::MAX, vx_c0 <= indices@.len(), forall|k: int| 0 <= k < batches@.len() ==> (#[trigger] batches@[k])@ == indices@.subrange(at(indices@.len() as int, self.batch_size as int, k), at(indices@.len() as int, self.batch_size as int, k + 1)), batches@.len() <= n_batches(indices@.len() as int, self.batch_size as int, self.drop_last)",
             ensures="batches@.len() >= n_batches(indices@.len() as int, self.batch_size as int, self.drop_last)",
             before="proof { T19_epoch_has_n_batches(indices@.len() as int, self.batch_size as int, 0, self.drop_last); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(indices@.len() as int, self.batch_size as int); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(indices@.len() as int + self.batch_size - 1, self.batch_size as int); T19_epoch_has_n_batches(indices@.len() as int, self.batch_size as int, batches@.len() as int, self.drop_last); } ",
             head="proof { T19_epoch_has_n_batches(indices@.len() as int, self.batch_size as int, batches@.len() as int, self.drop_last); T19_epoch_has_n_batches(indices@.len() as int, self.batch_size as int, batches@.len() as int + 1, self.drop_last); } ")])]
SUB = [Contract(DS, "Subset", "new", ensures="r.dataset == dataset, r.indices == indices"),
       Contract(DS, "Subset", "len", rename="sub_len", ensures="r == self.indices@.len()"),
       Contract(DS, "Subset", "get", rename="sub_get", requires="self.dataset.ok()", ensures="r is Ok ==> index < self.indices@.len() && r->Ok_0 == self.dataset.item(self.indices@[index as int] as int)")]
CON = [Contract(DS, "ConcatDataset", "new", requires="forall|i: int| 0 <= i < datasets@.len() ==> #[trigger] datasets@[i].ok(), before_(datasets@, datasets@.len() as int) <= usize::MAX", ensures="concat_ok(r), r.datasets == datasets",
         extra=[("for dataset in &datasets", "for dataset in datasets.iter()"), ("let mut total = 0;", "let mut total: usize = 0;")],
         loops=[dict(match="datasets", inv="vx_s0@ == datasets@, forall|i: int| 0 <= i < datasets@.len() ==> #[trigger] datasets@[i].ok(), before_(datasets@, datasets@.len() as int) <= usize::MAX, total == before_(datasets@, vx_i0 as int), cumulative_sizes@.len() == vx_i0, forall|i: int| 0 <= i < vx_i0 ==> #[trigger] cumulative_sizes@[i] == before_(datasets@, i + 1)", head="proof { lemma_before(datasets@, vx_i0 as int + 1, datasets@.len() as int); } ")]),
       Contract(DS, "ConcatDataset", "len", rename="cat_len", requires="concat_ok(*self)", ensures="r == before_(self.datasets@, self.datasets@.len() as int)"),
       Contract(DS, "ConcatDataset", "get", rename="cat_get", requires="concat_ok(*self)", ensures="r is Ok ==> index < before_(self.datasets@, self.datasets@.len() as int) && exists|i: int| #[trigger] owner(self.datasets@, index as int, i) && r->Ok_0 == self.datasets@[i].item(index - before_(self.datasets@, i))",
         extra=[(r"self\.len\(\)", "self.cat_len()"), (r"unreachable!\(\)", "vx_never()")],
         loops=[dict(match="cumulative_sizes", inv="concat_ok(*self), vx_s0@ == self.cumulative_sizes@, index < before_(self.datasets@, self.datasets@.len() as int), index >= before_(self.datasets@, vx_i0 as int), vx_i0 <= vx_s0@.len()", head="proof { lemma_before(self.datasets@, vx_i0 as int, vx_i0 as int + 1); assert(self.cumulative_sizes@[vx_i0 as int] == before_(self.datasets@, vx_i0 as int + 1)); if vx_i0 > 0 { assert(self.cumulative_sizes@[vx_i0 - 1] == before_(self.datasets@, vx_i0 as int)); } } ")],
         before=[(r"return self\.datasets", "proof { assert(owner(self.datasets@, index as int, vx_i0 as int)); }")])]
SPLIT = Contract(DS, None, "random_split", generics="<D: Dataset>", requires="dataset.ok()",
    ensures="r.0.dataset == dataset, r.1.dataset == dataset, perm(r.0.indices@ + r.1.indices@), (r.0.indices@ + r.1.indices@).len() == dataset.n()",
    extra=[(r"\(total_len as f32 \* train_size\) as usize", "vx_part(total_len, train_size)"), (r"\((vx_part\([^()]*\))\)\.min\((\w+)\)", r"vx_min(\1, \2)"), (r"indices\[\.\.(\w+)\]\.to_vec\(\)", r"vx_vec(vx_sub(&indices, 0, \1))"), (r"indices\[(\w+)\.\.\]\.to_vec\(\)", r"vx_vec(vx_sub(&indices, \1, indices.len()))"), (r"dataset\.clone\(\)", "vx_same(&dataset)")],
    loops=[dict(match="for i in .*rev", inv="rearranged(indices@, g0), indices@.len() == total_len, vx_r0 <= total_len, vx_lo0 == 1", before="proof { lemma_same(indices@); } ", head="let ghost g = indices@; ", tail=" proof { lemma_swapped(g, g0, i as int, j as int); assert(indices@ =~= swapped(g, i as int, j as int)); } ")],
    before=[(r"let mut rng", "let ghost g0 = indices@;"), (r"let train_indices", "proof { assert(perm(g0)); lemma_perm(indices@, g0); }"), (r"let train_dataset", "proof { assert(train_indices@ + val_indices@ =~= indices@); }")])
SSUB = Contract(SA, "SubsetSampler", "new", ensures="r.indices == indices")
SSEQ = Contract(SA, "SequentialSampler", "new", ensures="r.length == length")
NEVER = "#[verifier::external_body] pub fn vx_part(n: usize, f: f32) -> usize { (n as f32 * f) as usize }\n#[verifier::external_body] pub fn vx_same<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }\n#[verifier::external_body] pub fn vx_never<T>() -> T requires false { unimplemented!() }\n"
UNIT = Unit("data", [("raw", SPEC + NEVER), ("struct", SA, "RandomSampler"), ("impl", "RandomSampler", SA, RS), ("struct", SA, "SubsetSampler"), ("impl", "SubsetSampler", SA, [SSUB]), ("struct", SA, "SequentialSampler"), ("impl", "SequentialSampler", SA, [SSEQ]), ("gstruct", SA, "BatchSampler", "<S: Sampler>"), ("impl", "BatchSampler", SA, BS, "<S: Sampler> BatchSampler<S>"),
    ("gstruct", DL, "DataLoader", "<D: Dataset>"), ("impl", "DataLoader", DL, DLF, "<D: Dataset> DataLoader<D>"), ("gstruct", DS, "Subset", "<D: Dataset>"), ("impl", "Subset", DS, SUB, "<D: Dataset> Subset<D>"), ("gstruct", DS, "ConcatDataset", "<D: Dataset>"), ("raw", SPEC2), ("impl", "ConcatDataset", DS, CON, "<D: Dataset> ConcatDataset<D>"), ("impl", None, DS, [SPLIT])])
def run(prop, u): return unit_result(UNIT.run(), u.get("fns"))
if __name__ == "__main__": report(UNIT)
