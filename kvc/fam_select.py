"""Contracts of the selecting kernels: non-zero count and positions, compress, cumulative sum."""
from fam_index import *
LEMMAS = """
pub open spec fn nd_ok(m: Seq<int>) -> bool { m.len() >= 2 && nonneg(m, 0, m.len() as int) }
/// the storage position of logical index id
pub open spec fn at(m: Seq<int>, id: int) -> int { m[2 + 2 * m[1]] + strided(m, 2, m, 2 + m[1], m[1], id) }
"""
NZRE = r"e_ne\((?:e_call_\w+_to_(?:float|double)\()?val\)?, (?:e_lit_0\(\)|e_of\(n\(0\)\))\)|e_truth\(val\)|e_ne\(e_int\(val\), n\(0\)\)|ne\(e_int\(val\), n\(0\)\)"
def nz(t):
    """the condition of a non-zero kernel, as a predicate of the element"""
    bodies = loop_bodies(t.text()); c = re.findall(r"if (.*)\n", bodies[0][1])
    if len(c) != 1 or not re.fullmatch(NZRE, c[0].strip()): raise Lost("condition %s" % c)
    return spec_expr(c[0].strip(), {})
def nzdecl(t):
    return """pub open spec fn nz(m: Seq<int>, inp: Seq<E>, id: int) -> bool { let val = inp[at(m, id)]; %s }
pub open spec fn cnt(m: Seq<int>, inp: Seq<E>, k: int) -> int decreases k { if k <= 0 { 0 } else { cnt(m, inp, k - 1) + (if nz(m, inp, k - 1) { 1int } else { 0 }) } }
""" % nz(t)
REQ = ["nd_ok(metadata@)", "metadata@.len() >= 3 + 2 * metadata@[1]", "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] at(metadata@, k) < input_ptr@.len()"]
def walk(i, j, inv=(), **kw):
    """the loop that turns logical index i into a storage position"""
    return descend("temp", "metadata@", 2, i, ["flat_idx@ == input_offset@ + dots(metadata@, 2, metadata@, 2 + metadata@[1], num_dims@, %s, d@ + 1)" % i] + list(inv), **kw)

def nonzero_count(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); bufs(t, "input_ptr", "input_ptr_off", "metadata", "metadata_off")
    A = "metadata@, input_ptr@"
    anns = {0: Ann(["0 <= id@ <= num_els@", "count@ == cnt(%s, id@)" % A], match=MAP, head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); assert(at(metadata@, id@) >= 0);"), 1: walk("id@", 1)}
    return [Fun(t, REQ + ["input_ptr_off@ == 0", "metadata_off@ == 0"], ["r@ == cnt(%s, metadata@[0])" % A], anns, decls=nzdecl(t))]

def nonzero_fill(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); o = "output"; bufs(t, "input_ptr", o, "metadata")
    decl = nzdecl(t) + """/// the coordinates of logical index id, and those of the non-zero elements below k in row-major order
pub open spec fn row(m: Seq<int>, id: int) -> Seq<E> { Seq::new(m[1] as nat, |d: int| z_e_of(coord(m, 2, m[1], id, d))) }
pub open spec fn rows(m: Seq<int>, inp: Seq<E>, k: int) -> Seq<E> decreases k { if k <= 0 { Seq::empty() } else if nz(m, inp, k - 1) { rows(m, inp, k - 1) + row(m, k - 1) } else { rows(m, inp, k - 1) } }
pub proof fn lemma_rows(m: Seq<int>, inp: Seq<E>, k: int, n: int) requires 0 <= k <= n, m[1] >= 0 ensures rows(m, inp, k).len() == cnt(m, inp, k) * m[1], 0 <= cnt(m, inp, k) <= cnt(m, inp, n), cnt(m, inp, k) * m[1] <= cnt(m, inp, n) * m[1] decreases n, k
{ if k < n { lemma_rows(m, inp, k, n - 1); assert(cnt(m, inp, k) * m[1] <= cnt(m, inp, n) * m[1]) by (nonlinear_arith) requires cnt(m, inp, k) <= cnt(m, inp, n), m[1] >= 0; } 
  else if k > 0 { lemma_rows(m, inp, k - 1, n - 1); assert((cnt(m, inp, k - 1) + 1) * m[1] == cnt(m, inp, k - 1) * m[1] + m[1]) by (nonlinear_arith); } }
"""
    A = "metadata@, input_ptr@"; R = "rows(%s, {0})" % A
    def out(k, x=""): return ["{o}@.len() == old({o})@.len()".format(o=o), "forall|j: int| 0 <= j < {r}.len() ==> #[trigger] {o}@[j] == {r}[j]".format(o=o, r=R.format(k))] 
    keep = lambda k: "forall|j: int| %s <= j < %s@.len() ==> #[trigger] %s@[j] == old(%s)@[j]" % (k, o, o, o)
    anns = {0: Ann(["0 <= id@ <= num_els@", "out_idx@ == cnt(%s, id@)" % A] + out("id@") + [keep(R.format("id@") + ".len()")], match=MAP,
                   head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); assert(at(metadata@, id@) >= 0); lemma_rows({a}, id@, num_els@); lemma_rows({a}, id@ + 1, num_els@); assert({r0}.len() == out_idx@ * num_dims@); if nz({a}, id@) {{ assert(({r0} + row(metadata@, id@)).len() == {r0}.len() + num_dims@); }}".format(a=A, r0=R.format("id@"))),
            1: walk("id@", 1, ["multi_idx@.len() == 32", "forall|j: int| d@ < j < num_dims@ ==> #[trigger] multi_idx@[j] == coord(metadata@, 2, num_dims@, id@, j)"]),
            2: Ann(["0 <= d@ <= num_dims@"] + out("id@") + ["forall|j: int| 0 <= j < d@ ==> #[trigger] {o}@[{r}.len() + j] == row(metadata@, id@)[j]".format(o=o, r=R.format("id@")), keep(R.format("id@") + ".len() + d@")], match=UP,
                   head="assert(multi_idx@[d@] == coord(metadata@, 2, num_dims@, id@, d@));",
                   after="let r0 = {r}; assert forall|j: int| 0 <= j < r0.len() + num_dims@ implies #[trigger] {o}@[j] == (r0 + row(metadata@, id@))[j] by {{ if j >= r0.len() {{ let q = j - r0.len(); assert({o}@[r0.len() + q] == row(metadata@, id@)[q]); }} }}".format(r=R.format("id@"), o=o))}
    ens = ["final({o})@.len() == old({o})@.len()".format(o=o), "forall|j: int| 0 <= j < {r}.len() ==> #[trigger] final({o})@[j] == {r}[j]".format(o=o, r=R.format("metadata@[0]")),
           "forall|j: int| {r}.len() <= j < old({o})@.len() ==> #[trigger] final({o})@[j] == old({o})@[j]".format(o=o, r=R.format("metadata@[0]")), "{r}.len() == cnt({a}, metadata@[0]) * metadata@[1]".format(r=R.format("metadata@[0]"), a=A)]
    return [Fun(t, REQ + ["metadata@[1] <= 16", "cnt(%s, metadata@[0]) * metadata@[1] <= old(%s)@.len()" % (A, o)], ens, anns, decls=decl, post="lemma_rows(%s, num_els@, num_els@);" % A)]

def compress(cfile, fn):
    from fam_conv import nest
    t = T(cfile, fn, callees=CAL).run(); o = "output_ptr"; bufs(t, "input_ptr", "condition", o, "metadata")
    m = "metadata@"; AX = "m[2 + 2 * m[1] + 3]"; CS = "m[2 + 2 * m[1] + 1]"; mm = lambda e: e.replace("m[", "metadata@[")
    loops = [("outer", "prd(m, 2, 2 + %s)" % AX), ("ci", CS), ("inner", "prd(m, 3 + %s, 2 + m[1])" % AX)]
    P = [("m", "Seq<int>"), ("inp", "Seq<E>"), ("con", "Seq<E>")]
    d2, inv = nest(P, "Seq<E>", None, loops, "t.push(inp[m[2 + 2 * m[1]] + lin(ccs(m, outer, ci, inner), m, 2 + m[1], m[1])])", guards={1: "z_e_truth(con[ci])"})
    decl = """/// the coordinates of position inner within the slice ci of the outer-th block
pub open spec fn ccs(m: Seq<int>, outer: int, ci: int, inner: int) -> spec_fn(int) -> int { let a = AX; |d: int| if d < a { coord(m, 2, a, outer, d) } else if d == a { ci } else { coord(m, 3 + a, m[1] - a - 1, inner, d - a - 1) } }
pub open spec fn flat(m: Seq<int>, inp: Seq<E>, con: Seq<E>, k: int) -> Seq<E> decreases k { if k <= 0 { Seq::empty() } else if z_e_truth(con[k - 1]) { flat(m, inp, con, k - 1).push(inp[at(m, k - 1)]) } else { flat(m, inp, con, k - 1) } }
pub proof fn mono_f(m: Seq<int>, inp: Seq<E>, con: Seq<E>, k: int, n: int) requires 0 <= k <= n ensures flat(m, inp, con, k).len() <= flat(m, inp, con, n).len() decreases n { if k < n { mono_f(m, inp, con, k, n - 1); } }
pub proof fn mono2(m: Seq<int>, inp: Seq<E>, con: Seq<E>, s: Seq<E>, outer: int, ci: int, k: int) requires k >= 0 ensures nf2(m, inp, con, s, outer, ci, k).len() == s.len() + k decreases k { if k > 0 { mono2(m, inp, con, s, outer, ci, k - 1); } }
pub proof fn mono1(m: Seq<int>, inp: Seq<E>, con: Seq<E>, s: Seq<E>, outer: int, k: int, n: int) requires 0 <= k <= n, BI >= 0 ensures nf1(m, inp, con, s, outer, k).len() <= nf1(m, inp, con, s, outer, n).len() decreases n { if k < n { mono1(m, inp, con, s, outer, k, n - 1); mono2(m, inp, con, nf1(m, inp, con, s, outer, n - 1), outer, n - 1, BI); } }
pub proof fn mono0(m: Seq<int>, inp: Seq<E>, con: Seq<E>, s: Seq<E>, k: int, n: int) requires 0 <= k <= n, BI >= 0, CS >= 0 ensures nf0(m, inp, con, s, k).len() <= nf0(m, inp, con, s, n).len() decreases n { if k < n { mono0(m, inp, con, s, k, n - 1); mono1(m, inp, con, nf0(m, inp, con, s, n - 1), n - 1, 0, CS); } }
/// the kept elements
pub open spec fn kept(m: Seq<int>, inp: Seq<E>, con: Seq<E>) -> Seq<E> { if m[2 + 2 * m[1] + 2] == 0 { flat(m, inp, con, if CS < m[0] { CS } else { m[0] }) } else { nf0(m, inp, con, Seq::empty(), BO) } }
""".replace("AX", AX).replace("CS", CS).replace("BI", loops[2][1]).replace("BO", loops[0][1])
    A = "metadata@, input_ptr@, condition@"; K = "kept(%s)" % A
    req = ["nd_ok(metadata@)", "metadata@[1] <= 16", "metadata@.len() >= 2 + 2 * metadata@[1] + 4", "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", mm(CS) + " <= condition@.len()",
           "metadata@[2 + 2 * metadata@[1] + 2] != 0 ==> {ax} < metadata@[1] && {cs} <= metadata@[2 + {ax}]".format(ax=mm(AX), cs=mm(CS)),
           "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] at(metadata@, k) < input_ptr@.len()",
           "forall|c: spec_fn(int) -> int| in_box(c, metadata@, 2, metadata@[1], 0) ==> 0 <= metadata@[2 + 2 * metadata@[1]] + #[trigger] lin(c, metadata@, 2 + metadata@[1], metadata@[1]) < input_ptr@.len()",
           "%s.len() <= old(%s)@.len()" % (K, o)]
    def st(s): return ["{o}@.len() == old({o})@.len()".format(o=o), "out_idx@ == %s.len()" % s, "forall|j: int| 0 <= j < out_idx@ ==> #[trigger] %s@[j] == %s[j]" % (o, s), "forall|j: int| out_idx@ <= j < {o}@.len() ==> #[trigger] {o}@[j] == old({o})@[j]".format(o=o)]
    N = "(if condition_size@ < num_input_els@ { condition_size@ } else { num_input_els@ })"
    S0 = "Seq::<E>::empty()"
    iv = lambda j: inv(j, A, S0).replace("ci@", "cond_idx@")
    C = "ccs(metadata@, outer@, cond_idx@, inner@)"
    sub = ("assert(prd({m}, 2, 2 + num_dims@) == prd({m}, 2, 2 + axis@) * prd({m}, 2 + axis@, 2 + num_dims@)) by {{ lemma_prd_split({m}, 2, 2 + axis@, 2 + num_dims@); }}").format(m=m)
    inner_pos = "lemma_prd_nonneg({m}, 3 + axis@, 2 + num_dims@); lemma_prd_nonneg({m}, 2, 2 + axis@); lemma_prd_pos({m}, 3 + axis@, 2 + num_dims@); lemma_prd_pos({m}, 2, 2 + axis@);".format(m=m)
    box = ("assert forall|d: int| 0 <= d < num_dims@ implies 0 <= #[trigger] {c}(d) < {m}[2 + d] by {{ if d < axis@ {{ lemma_coord_range({m}, 2, axis@, outer@, d); }} else if d > axis@ {{ lemma_coord_range({m}, 3 + axis@, num_dims@ - axis@ - 1, inner@, d - axis@ - 1); assert(3 + axis@ + (d - axis@ - 1) == 2 + d); }} }} assert(in_box({c}, {m}, 2, num_dims@, 0));").format(c=C, m=m)
    room = ("mono2({a}, {s1}, outer@, cond_idx@, inner@); mono2({a}, {s1}, outer@, cond_idx@, slice_size@); mono1({a}, {s0}, outer@, cond_idx@ + 1, condition_size@); mono0({a}, {e}, outer@ + 1, outer_size@);").format(a=A, s0=iv(0), s1=iv(1), e=S0)
    anns = {0: Ann(["0 <= i@ <= %s" % N] + st("flat(%s, i@)" % A), match=None, head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); assert(at(metadata@, i@) >= 0); mono_f({a}, i@ + 1, {n});".format(a=A, n=N)),
            1: walk("i@", 1),
            2: Ann(["axis@ + 1 <= d@ <= num_dims@", "slice_size@ * prd(metadata@, 2 + d@, 2 + num_dims@) == prd(metadata@, 3 + axis@, 2 + num_dims@)"], match=UP, head="lemma_mul_is_associative(slice_size@, metadata@[2 + d@], prd(metadata@, 3 + d@, 2 + num_dims@));", after="assert(slice_size@ == prd(metadata@, 3 + axis@, 2 + num_dims@));"),
            3: Ann(["0 <= d@ <= axis@", "outer_size@ == prd(metadata@, 2, 2 + d@)"], match=None, head="lemma_prd_snoc(metadata@, 2, 2 + d@);"),
            4: Ann(["0 <= outer@ <= outer_size@"] + st(iv(0)), match=None, before=inner_pos0(m)),
            5: Ann(["0 <= cond_idx@ <= condition_size@"] + st(iv(1)), match=None),
            6: Ann(["0 <= inner@ <= slice_size@"] + st(iv(2)), match=None, head=inner_pos + room + box),
            7: Ann(["-1 <= d@ < axis@", "multi_idx@.len() == 32", "temp@ == rest(metadata@, 2, axis@, outer@, d@ + 1)", "forall|j: int| d@ < j < axis@ ==> #[trigger] multi_idx@[j] == coord(metadata@, 2, axis@, outer@, j)"], match=None,
                   head="lemma_rest_bound(metadata@, 2, axis@, outer@, d@ + 1);"),
            8: Ann(["axis@ <= d@ < num_dims@", "multi_idx@.len() == 32", "multi_idx@[axis@] == cond_idx@", "temp@ == rest(metadata@, 3 + axis@, num_dims@ - axis@ - 1, inner@, d@ - axis@)", "forall|j: int| 0 <= j < axis@ ==> #[trigger] multi_idx@[j] == coord(metadata@, 2, axis@, outer@, j)",
                    "forall|j: int| d@ < j < num_dims@ ==> #[trigger] multi_idx@[j] == coord(metadata@, 3 + axis@, num_dims@ - axis@ - 1, inner@, j - axis@ - 1)"], match=None,
                   head="lemma_rest_bound(metadata@, 3 + axis@, num_dims@ - axis@ - 1, inner@, d@ - axis@); assert(3 + axis@ + (d@ - axis@ - 1) == 2 + d@); assert(d@ - axis@ - 1 + 1 == d@ - axis@);"),
            9: Ann(["0 <= d@ <= num_dims@", "flat_idx@ == input_offset@ + lin(%s, metadata@, 2 + num_dims@, d@)" % C], match=UP, head="assert(multi_idx@[d@] == %s(d@));" % C)}
    ens = ["final({o})@.len() == old({o})@.len()".format(o=o), "forall|j: int| 0 <= j < {k}.len() ==> #[trigger] final({o})@[j] == {k}[j]".format(o=o, k=K), "forall|j: int| {k}.len() <= j < old({o})@.len() ==> #[trigger] final({o})@[j] == old({o})@[j]".format(o=o, k=K)]
    return [Fun(t, req, ens, anns, decls=d2 + decl)]
def inner_pos0(m): return "lemma_prd_nonneg({m}, 3 + axis@, 2 + num_dims@); lemma_prd_nonneg({m}, 2, 2 + axis@);".format(m=m)

def cumsum(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); o = "output"; bufs(t, "input", o, "metadata"); text = t.text(); bodies = loop_bodies(text)
    m = "metadata@"; ND_ = "metadata@[1]"; DIM = "metadata@[3 + 2 * metadata@[1]]"; OFF = "metadata@[2 + 2 * metadata@[1]]"
    if len(bodies) != 8: raise Lost("loops")
    q = re.search(r"let mut acc = (.*);", bodies[4][1]); b5 = bodies[5][1]; tail = b5[b5.rindex("/*AFTER 7*/"):]; env = {"acc": "acc"}; sets = []
    fam_elem.sym(fam_elem.stmts(tail[tail.index("}") + 1:tail.rindex("/*TAIL 5*/")]), env, sets)
    if not q or not re.fullmatch(r"e_of\(n\(0\)\)|e_lit_0\(\)", q.group(1)) or len(sets) != 1 or sets[0][:2] != (o, "out_idx"): raise Lost("accumulation")
    X = "get(input, add(in_off, in_idx))"
    if env["acc"].count(X) != 1 or not re.fullmatch(r"e_add\(acc, (%s|e_call_\w+_to_float\(%s\)|e_of\(e_int\(%s\)\))\)" % ((re.escape(X),) * 3), env["acc"]): raise Lost("accumulates " + env["acc"])
    cv = sets[0][2].replace(env["acc"], "acc")
    if not re.fullmatch(r"acc|e_call_float_to_\w+\(acc\)", cv): raise Lost("stores " + cv)
    step = spec_expr(env["acc"].replace(X, "x"), {}); conv = spec_expr(cv, {}); I0 = spec_expr(q.group(1), {})
    decl = """/// what is left of a block number once the axes below d have been taken off it (the kernel numbers blocks with the first axis fastest)
pub open spec fn lrest(m: Seq<int>, outer: int, d: int) -> int decreases d { if d <= 0 { outer } else { lrest(m, outer, d - 1) / m[2 + d - 1] } }
/// the coordinates of position s of the scan of block outer, lane inner
pub open spec fn cu(m: Seq<int>, outer: int, inner: int, s: int) -> spec_fn(int) -> int { let a = m[3 + 2 * m[1]]; |d: int| if d < a { lrest(m, outer, d) % m[2 + d] } else if d == a { s } else { coord(m, 3 + a, m[1] - a - 1, inner, d - a - 1) } }
/// where position s lies in the input and in the (row-major) output
pub open spec fn ua(m: Seq<int>, outer: int, inner: int, s: int) -> int { m[2 + 2 * m[1]] + lin(cu(m, outer, inner, s), m, 2 + m[1], m[1]) }
pub open spec fn uo(m: Seq<int>, outer: int, inner: int, s: int) -> int { rm(cu(m, outer, inner, s), m, 2, m[1], 0) }
/// the sum of the positions below k
pub open spec fn us(m: Seq<int>, inp: Seq<E>, outer: int, inner: int, k: int) -> E decreases k { if k <= 0 { INIT } else { let acc = us(m, inp, outer, inner, k - 1); let x = inp[ua(m, outer, inner, k - 1)]; STEP } }
pub open spec fn uv(m: Seq<int>, inp: Seq<E>, outer: int, inner: int, s: int) -> E { let acc = us(m, inp, outer, inner, s + 1); CONV }
pub open spec fn cuok(m: Seq<int>) -> bool { nd_ok(m) && m[1] <= 16 && m.len() >= 4 + 2 * m[1] && m[3 + 2 * m[1]] < m[1] }
pub open spec fn rng(m: Seq<int>, outer: int, inner: int, s: int) -> bool { let a = m[3 + 2 * m[1]]; 0 <= outer < prd(m, 2, 2 + a) && 0 <= inner < prd(m, 3 + a, 2 + m[1]) && 0 <= s < m[2 + a] }
pub proof fn lemma_lrest(m: Seq<int>, outer: int, d: int) requires 0 <= d, outer >= 0, pos(m, 2, 2 + d) ensures lrest(m, outer, d) == outer / prd(m, 2, 2 + d), lrest(m, outer, d) >= 0, prd(m, 2, 2 + d) > 0 decreases d
{ if d > 0 { lemma_lrest(m, outer, d - 1); lemma_prd_snoc(m, 2, 2 + d - 1); lemma_div_denominator(outer, prd(m, 2, 2 + d - 1), m[2 + d - 1]); lemma_div_pos_is_pos(lrest(m, outer, d - 1), m[2 + d - 1]); lemma_mul_strictly_positive(prd(m, 2, 2 + d - 1), m[2 + d - 1]); } }
/// equal coordinates, equal block
pub proof fn lemma_block(m: Seq<int>, a: int, b: int, n: int, d: int) requires 0 <= d <= n, a >= 0, b >= 0, pos(m, 2, 2 + n), lrest(m, a, n) == lrest(m, b, n), forall|j: int| d <= j < n ==> lrest(m, a, j) % m[2 + j] == #[trigger] lrest(m, b, j) % m[2 + j] ensures lrest(m, a, d) == lrest(m, b, d) decreases n - d
{ if d < n { lemma_block(m, a, b, n, d + 1); lemma_lrest(m, a, d); lemma_lrest(m, b, d); assert(lrest(m, b, d) % m[2 + d] == lrest(m, a, d) % m[2 + d]); lemma_fundamental_div_mod(lrest(m, a, d), m[2 + d]); lemma_fundamental_div_mod(lrest(m, b, d), m[2 + d]); } }
pub proof fn lemma_lane(m: Seq<int>, so: int, nd: int, a: int, b: int, d: int) requires 0 <= d <= nd, a >= 0, b >= 0, pos(m, so, so + nd), rest(m, so, nd, a, 0) == rest(m, so, nd, b, 0), forall|j: int| 0 <= j < nd ==> coord(m, so, nd, a, j) == #[trigger] coord(m, so, nd, b, j) ensures rest(m, so, nd, a, d) == rest(m, so, nd, b, d) decreases d
{ if d > 0 { lemma_lane(m, so, nd, a, b, d - 1); assert(coord(m, so, nd, a, d - 1) == coord(m, so, nd, b, d - 1)); lemma_fundamental_div_mod(rest(m, so, nd, a, d), m[so + d - 1]); lemma_fundamental_div_mod(rest(m, so, nd, b, d), m[so + d - 1]); } }
pub proof fn lemma_rm_inj(c: spec_fn(int) -> int, e: spec_fn(int) -> int, m: Seq<int>, so: int, nd: int, d: int) requires 0 <= d <= nd, in_box(c, m, so, nd, d), in_box(e, m, so, nd, d), rm(c, m, so, nd, d) == rm(e, m, so, nd, d) ensures forall|j: int| d <= j < nd ==> #[trigger] c(j) == e(j) decreases nd - d
{ if d < nd { lemma_rm_bound(c, m, so, nd, d + 1); lemma_rm_bound(e, m, so, nd, d + 1); let p = prd(m, so + d + 1, so + nd); let x = rm(c, m, so, nd, d + 1); let y = rm(e, m, so, nd, d + 1); let u = c(d); let v = e(d);
  assert(u == v) by (nonlinear_arith) requires u * p + x == v * p + y, 0 <= x < p, 0 <= y < p; lemma_rm_inj(c, e, m, so, nd, d + 1); } }
pub proof fn lemma_cu_box(m: Seq<int>, outer: int, inner: int, s: int) requires cuok(m), rng(m, outer, inner, s) ensures in_box(cu(m, outer, inner, s), m, 2, m[1], 0), 0 <= uo(m, outer, inner, s) < prd(m, 2, 2 + m[1]), pos(m, 2, 2 + m[1])
{ let a = m[3 + 2 * m[1]]; let c = cu(m, outer, inner, s); lemma_prd_pos(m, 2, 2 + a); lemma_prd_pos(m, 3 + a, 2 + m[1]);
  assert forall|j: int| 2 <= j < 2 + m[1] implies #[trigger] m[j] > 0 by { if j == 2 + a { } }
  assert forall|d: int| 0 <= d < m[1] implies 0 <= #[trigger] c(d) < m[2 + d] by { if d < a { lemma_lrest(m, outer, d); lemma_mod_bound(lrest(m, outer, d), m[2 + d]); } else if d > a { lemma_coord_range(m, 3 + a, m[1] - a - 1, inner, d - a - 1); assert(3 + a + (d - a - 1) == 2 + d); } }
  lemma_rm_bound(c, m, 2, m[1], 0); }
/// no two positions share an output element
pub proof fn lemma_uo_inj(m: Seq<int>, o1: int, i1: int, s1: int, o2: int, i2: int, s2: int) requires cuok(m), rng(m, o1, i1, s1), rng(m, o2, i2, s2), uo(m, o1, i1, s1) == uo(m, o2, i2, s2) ensures o1 == o2, i1 == i2, s1 == s2
{ let a = m[3 + 2 * m[1]]; let nd = m[1]; let c = cu(m, o1, i1, s1); let e = cu(m, o2, i2, s2); lemma_cu_box(m, o1, i1, s1); lemma_cu_box(m, o2, i2, s2); lemma_rm_inj(c, e, m, 2, nd, 0);
  assert(c(a) == e(a));
  lemma_lrest(m, o1, a); lemma_lrest(m, o2, a); let p = prd(m, 2, 2 + a); assert(o1 / p == 0) by (nonlinear_arith) requires 0 <= o1 < p; assert(o2 / p == 0) by (nonlinear_arith) requires 0 <= o2 < p;
  assert forall|j: int| 0 <= j < a implies lrest(m, o1, j) % m[2 + j] == #[trigger] lrest(m, o2, j) % m[2 + j] by { assert(c(j) == e(j)); }
  lemma_block(m, o1, o2, a, 0);
  let n2 = nd - a - 1; lemma_rest_bound(m, 3 + a, n2, i1, 0); lemma_rest_bound(m, 3 + a, n2, i2, 0); let q = prd(m, 3 + a, 2 + nd); assert(3 + a + n2 == 2 + nd); assert(i1 / q == 0) by (nonlinear_arith) requires 0 <= i1 < q; assert(i2 / q == 0) by (nonlinear_arith) requires 0 <= i2 < q;
  assert forall|j: int| 0 <= j < n2 implies coord(m, 3 + a, n2, i1, j) == #[trigger] coord(m, 3 + a, n2, i2, j) by { assert(c(j + a + 1) == e(j + a + 1)); }
  lemma_lane(m, 3 + a, n2, i1, i2, n2); }
/// partial position sums
pub open spec fn lo(c: spec_fn(int) -> int, m: Seq<int>, nd: int, d: int) -> int decreases d { if d <= 0 { 0 } else { lo(c, m, nd, d - 1) + c(d - 1) * prd(m, 2 + d, 2 + nd) } }
pub proof fn lemma_lo(c: spec_fn(int) -> int, m: Seq<int>, nd: int, d: int) requires 0 <= d <= nd ensures rm(c, m, 2, nd, 0) == lo(c, m, nd, d) + rm(c, m, 2, nd, d) decreases d { if d > 0 { lemma_lo(c, m, nd, d - 1); assert(rm(c, m, 2, nd, d - 1) == c(d - 1) * prd(m, 2 + d, 2 + nd) + rm(c, m, 2, nd, d)); } }
pub proof fn lemma_lin(c: spec_fn(int) -> int, m: Seq<int>, st: int, nd: int, d: int) requires 0 <= d <= nd ensures lin(c, m, st, nd) == lin(c, m, st, d) + dotc(c, m, st, nd, d) decreases nd - d { if d < nd { lemma_lin(c, m, st, nd, d + 1); assert(lin(c, m, st, d + 1) == lin(c, m, st, d) + c(d) * m[st + d]); } }
""".replace("INIT", I0).replace("STEP", step).replace("CONV", conv)
    ALL = lambda cond: "forall|a: int, b: int, c: int| rng(metadata@, a, b, c) && (%s) ==> %s@[#[trigger] uo(metadata@, a, b, c)] == uv(metadata@, input@, a, b, c)" % (cond, o)
    keep = ["{o}@.len() == old({o})@.len()".format(o=o), "forall|j: int| metadata@[0] <= j < {o}@.len() ==> #[trigger] {o}@[j] == old({o})@[j]".format(o=o)]
    req = ["nd_ok(metadata@)", "metadata@[1] > 0 ==> cuok(metadata@) && metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "metadata@.len() >= 4 + 2 * metadata@[1]", "metadata@[0] <= old(%s)@.len()" % o,
           "metadata@[1] == 0 ==> metadata@[0] == 1 && %s < input@.len()" % OFF,
           "metadata@[1] > 0 ==> forall|c: spec_fn(int) -> int| in_box(c, metadata@, 2, metadata@[1], 0) ==> 0 <= %s + #[trigger] lin(c, metadata@, 2 + metadata@[1], metadata@[1]) < input@.len()" % OFF]
    ens = [k.replace(o + "@", "final(%s)@" % o).replace("old(final(%s))@" % o, "old(%s)@" % o) if False else k for k in []]
    ens = ["final({o})@.len() == old({o})@.len()".format(o=o), "forall|j: int| metadata@[0] <= j < old({o})@.len() ==> #[trigger] final({o})@[j] == old({o})@[j]".format(o=o),
           "metadata@[1] == 0 ==> final(%s)@[0] == input@[%s]" % (o, OFF),
           "metadata@[1] > 0 ==> forall|a: int, b: int, c: int| rng(metadata@, a, b, c) ==> final(%s)@[#[trigger] uo(metadata@, a, b, c)] == uv(metadata@, input@, a, b, c)" % o]
    C = "cu(metadata@, outer@, inner@, s@)"; OS = "forall|j: int| %s <= j < num_dims@ ==> #[trigger] out_strides@[j] == prd(metadata@, 3 + j, 2 + num_dims@)"
    anns = {0: Ann(["0 <= d@ < num_dims@", "out_strides@.len() == 16", OS % "d@"], match=None, head="lemma_mul_is_commutative(out_strides@[d@], metadata@[2 + d@]); assert(out_strides@[d@] == prd(metadata@, 3 + d@, 2 + num_dims@));"),
            1: Ann(["0 <= d@ <= dim@", "outer_size@ == prd(metadata@, 2, 2 + d@)"], match=None, head="lemma_prd_snoc(metadata@, 2, 2 + d@);"),
            2: Ann(["dim@ + 1 <= d@ <= num_dims@", "inner_size@ * prd(metadata@, 2 + d@, 2 + num_dims@) == prd(metadata@, 3 + dim@, 2 + num_dims@)"], match=None, head="lemma_mul_is_associative(inner_size@, metadata@[2 + d@], prd(metadata@, 3 + d@, 2 + num_dims@));", after="assert(inner_size@ == prd(metadata@, 3 + dim@, 2 + num_dims@));"),
            3: Ann(["0 <= outer@ <= outer_size@", ALL("a < outer@")] + keep, match=None, before="lemma_prd_nonneg(metadata@, 2, 2 + dim@);"),
            4: Ann(["0 <= inner@ <= inner_size@", ALL("a < outer@ || (a == outer@ && b < inner@)")] + keep, match=None, before="lemma_prd_nonneg(metadata@, 3 + dim@, 2 + num_dims@);"),
            5: Ann(["0 <= s@ <= scan_size@", "acc == us(metadata@, input@, outer@, inner@, s@)", ALL("a < outer@ || (a == outer@ && (b < inner@ || (b == inner@ && c < s@)))")] + keep, match=None,
                   head="lemma_cu_box(metadata@, outer@, inner@, s@); lemma_prd_pos(metadata@, 2, 2 + dim@); lemma_prd_pos(metadata@, 3 + dim@, 2 + num_dims@);"),
            6: Ann(["0 <= d@ <= dim@", "tmp_outer@ == lrest(metadata@, outer@, d@)", "in_idx@ == lin(%s, metadata@, 2 + num_dims@, d@)" % C, "out_idx@ == lo(%s, metadata@, num_dims@, d@)" % C], match=None,
                   head="lemma_lrest(metadata@, outer@, d@); assert(out_strides@[d@] == prd(metadata@, 3 + d@, 2 + num_dims@)); assert(%s(d@) == lrest(metadata@, outer@, d@) %% metadata@[2 + d@]);" % C),
            7: Ann(["dim@ <= d@ < num_dims@", "tmp_inner@ == rest(metadata@, 3 + dim@, num_dims@ - dim@ - 1, inner@, d@ - dim@)",
                    "in_idx@ == lin({c}, metadata@, 2 + num_dims@, dim@ + 1) + dotc({c}, metadata@, 2 + num_dims@, num_dims@, d@ + 1)".format(c=C), "out_idx@ == lo({c}, metadata@, num_dims@, dim@ + 1) + rm({c}, metadata@, 2, num_dims@, d@ + 1)".format(c=C)], match=None,
                   before="assert({c}(dim@) == s@); assert(out_strides@[dim@] == prd(metadata@, 3 + dim@, 2 + num_dims@)); assert(dotc({c}, metadata@, 2 + num_dims@, num_dims@, num_dims@) == 0); assert(rm({c}, metadata@, 2, num_dims@, num_dims@) == 0);".format(c=C),
                   head="lemma_rest_bound(metadata@, 3 + dim@, num_dims@ - dim@ - 1, inner@, d@ - dim@); assert(3 + dim@ + (d@ - dim@ - 1) == 2 + d@); assert(out_strides@[d@] == prd(metadata@, 3 + d@, 2 + num_dims@)); assert({c}(d@) == coord(metadata@, 3 + dim@, num_dims@ - dim@ - 1, inner@, d@ - dim@ - 1));".format(c=C),
                   after="lemma_lo({c}, metadata@, num_dims@, dim@ + 1); lemma_lin({c}, metadata@, 2 + num_dims@, num_dims@, dim@ + 1); assert(out_idx@ == uo(metadata@, outer@, inner@, s@)); assert forall|a: int, b: int, c: int| rng(metadata@, a, b, c) && (a < outer@ || (a == outer@ && (b < inner@ || (b == inner@ && c < s@)))) implies #[trigger] uo(metadata@, a, b, c) != out_idx@ && 0 <= uo(metadata@, a, b, c) < metadata@[0] by {{ lemma_cu_box(metadata@, a, b, c); if uo(metadata@, a, b, c) == out_idx@ {{ lemma_uo_inj(metadata@, a, b, c, outer@, inner@, s@); }} }}".format(c=C))}
    return [Fun(t, req, ens, anns, decls=decl)]
