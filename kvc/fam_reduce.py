"""Contracts of the reductions: output[o] = FIN(fold of STEP over the slice of o, in order), every element of the slice exactly once."""
from fam_move import *
import fam_elem
LEMMAS = """
// metadata of a reduction
pub open spec fn r_os(m: Seq<int>) -> int { 3 + 2 * m[0] }
pub open spec fn r_ol(m: Seq<int>) -> int { m[2 + 2 * m[0]] }
pub open spec fn r_nr(m: Seq<int>) -> int { m[3 + 2 * m[0] + r_ol(m)] }
pub open spec fn r_keep(m: Seq<int>) -> bool { m[4 + 2 * m[0] + r_ol(m) + r_nr(m)] != 0 }
pub open spec fn r_size(m: Seq<int>) -> int { m[5 + 2 * m[0] + r_ol(m) + r_nr(m)] }
pub open spec fn r_count(m: Seq<int>) -> int { prd(m, r_os(m), r_os(m) + r_ol(m)) }
pub open spec fn rdim(m: Seq<int>, i: int) -> int { m[4 + 2 * m[0] + r_ol(m) + i] }
#[verifier::opaque]
pub open spec fn red(m: Seq<int>, d: int) -> bool { exists|i: int| 0 <= i < r_nr(m) && #[trigger] rdim(m, i) == d }
#[verifier::opaque]
pub open spec fn rpos(m: Seq<int>, d: int) -> int { choose|i: int| 0 <= i < r_nr(m) && #[trigger] rdim(m, i) == d }
/// extents of the reduced axes, in the order given
pub open spec fn rsh(m: Seq<int>) -> Seq<int> { Seq::new(r_nr(m) as nat, |i: int| m[1 + rdim(m, i)]) }
/// kept axes below d
pub open spec fn nb(m: Seq<int>, d: int) -> int decreases d { if d <= 0 { 0 } else { nb(m, d - 1) + (if red(m, d - 1) { 0int } else { 1int }) } }
/// coordinates of the r-th element of output o's slice
pub open spec fn rcc(m: Seq<int>, o: int, r: int) -> spec_fn(int) -> int { |d: int| if red(m, d) { coord(rsh(m), 0, r_nr(m), r, rpos(m, d)) } else { coord(m, r_os(m), r_ol(m), o, if r_keep(m) { d } else { nb(m, d) }) } }
pub open spec fn rlin(m: Seq<int>, o: int, r: int, d: int) -> int { lin(rcc(m, o, r), m, 1 + m[0], d) }
pub open spec fn ra(m: Seq<int>, o: int, r: int) -> int { m[1 + 2 * m[0]] + rlin(m, o, r, m[0]) }
pub open spec fn rax(m: Seq<int>, r: int) -> int { if r_nr(m) > 0 { coord(rsh(m), 0, r_nr(m), r, 0) } else { 0 } }
pub open spec fn r_ok(m: Seq<int>) -> bool {
    m.len() >= 4 && nonneg(m, 0, m.len() as int) && m.len() >= 4 + 2 * m[0] && m.len() >= 4 + 2 * m[0] + r_ol(m) && m.len() >= 6 + 2 * m[0] + r_ol(m) + r_nr(m)
    && m[0] <= 16 && r_ol(m) <= 16 && r_size(m) == prd(rsh(m), 0, r_nr(m)) && (if r_keep(m) { r_ol(m) == m[0] } else { nb(m, m[0]) <= r_ol(m) })
    && (forall|i: int| 0 <= i < r_nr(m) ==> 0 <= #[trigger] rdim(m, i) < m[0]) && distinct(m)
}
#[verifier::opaque]
pub open spec fn distinct(m: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < r_nr(m) ==> #[trigger] rdim(m, i) != #[trigger] rdim(m, j) }
pub proof fn lemma_red(m: Seq<int>, d: int) requires red(m, d) ensures 0 <= rpos(m, d) < r_nr(m), rdim(m, rpos(m, d)) == d { reveal(red); reveal(rpos); }
pub proof fn lemma_red_at(m: Seq<int>, i: int) requires 0 <= i < r_nr(m) ensures red(m, rdim(m, i)) { reveal(red); }
/// the axis whose position is i
pub proof fn lemma_at(m: Seq<int>, i: int) ensures forall|d: int| red(m, d) && #[trigger] rpos(m, d) == i ==> d == rdim(m, i) { assert forall|d: int| red(m, d) && #[trigger] rpos(m, d) == i implies d == rdim(m, i) by { lemma_red(m, d); } }
pub proof fn lemma_pos_range(m: Seq<int>) ensures forall|d: int| red(m, d) ==> 0 <= #[trigger] rpos(m, d) < r_nr(m) { assert forall|d: int| red(m, d) implies 0 <= #[trigger] rpos(m, d) < r_nr(m) by { lemma_red(m, d); } }
/// taking the d-th coordinate off the index of an output
pub proof fn lemma_take(m: Seq<int>, o: int, d: int) requires r_ok(m), 0 <= o < r_count(m), 0 <= d < r_ol(m) ensures m[r_os(m) + d] > 0, rest(m, r_os(m), r_ol(m), o, d + 1) >= 0 { lemma_prd_pos(m, r_os(m), r_os(m) + r_ol(m)); lemma_rest_bound(m, r_os(m), r_ol(m), o, d + 1); }
/// taking the i-th digit off the index of an element of the slice
pub proof fn lemma_digit(m: Seq<int>, o: int, r: int, i: int) requires r_ok(m), 0 <= o, 0 <= r < r_size(m), r_count(m) > 0, 0 <= i < r_nr(m)
    ensures 0 <= rdim(m, i) < m[0], rsh(m)[i] == m[1 + rdim(m, i)], m[1 + rdim(m, i)] > 0, rest(rsh(m), 0, r_nr(m), r, i + 1) >= 0, red(m, rdim(m, i)), rpos(m, rdim(m, i)) == i
{ lemma_slice(m, o, r); lemma_rest_bound(rsh(m), 0, r_nr(m), r, i + 1); lemma_rpos(m, i); assert(0 <= rdim(m, i) < m[0]); assert(rsh(m)[i] > 0); }
pub proof fn lemma_at_r(m: Seq<int>, o: int, r: int) requires r_ok(m), 0 <= o, 0 <= r < r_size(m), r_count(m) > 0 ensures ra(m, o, r) >= 0, forall|d: int| 0 <= d < m[0] ==> #[trigger] rcc(m, o, r)(d) >= 0 { lemma_slice(m, o, r); }
pub proof fn lemma_ax(m: Seq<int>, o: int, r: int) requires r_ok(m) ensures r_nr(m) > 0 ==> 0 <= rdim(m, 0) < m[0] && rax(m, r) == rcc(m, o, r)(rdim(m, 0)) { if r_nr(m) > 0 { lemma_rpos(m, 0); } }
pub proof fn lemma_not_red(m: Seq<int>, d: int) requires forall|i: int| 0 <= i < r_nr(m) ==> #[trigger] rdim(m, i) != d ensures !red(m, d) { reveal(red); }
pub proof fn lemma_nb(m: Seq<int>, a: int, b: int) requires 0 <= a <= b ensures 0 <= nb(m, a) <= nb(m, b), decreases b { if a < b { lemma_nb(m, a, b - 1); } else if a > 0 { lemma_nb(m, a - 1, a - 1); } }
pub proof fn lemma_rpos(m: Seq<int>, i: int) requires r_ok(m), 0 <= i < r_nr(m) ensures red(m, rdim(m, i)), rpos(m, rdim(m, i)) == i { reveal(red); reveal(rpos); reveal(distinct); let p = rpos(m, rdim(m, i)); assert(rdim(m, i) == rdim(m, i)); if p < i { assert(rdim(m, p) != rdim(m, i)); } else if p > i { assert(rdim(m, i) != rdim(m, p)); } }
pub proof fn lemma_slice(m: Seq<int>, o: int, r: int) requires r_ok(m), 0 <= o, 0 <= r < r_size(m), r_count(m) > 0 ensures pos(rsh(m), 0, r_nr(m)), ra(m, o, r) >= 0, forall|d: int| 0 <= d < m[0] ==> #[trigger] rcc(m, o, r)(d) >= 0
{
    assert(nonneg(rsh(m), 0, r_nr(m))) by { assert forall|j: int| 0 <= j < r_nr(m) implies #[trigger] rsh(m)[j] >= 0 by { assert(0 <= rdim(m, j) < m[0]); } }
    lemma_prd_pos(rsh(m), 0, r_nr(m)); lemma_prd_pos(m, r_os(m), r_os(m) + r_ol(m));
    assert forall|d: int| 0 <= d < m[0] implies #[trigger] rcc(m, o, r)(d) >= 0 by {
        if red(m, d) { lemma_red(m, d); lemma_coord_range(rsh(m), 0, r_nr(m), r, rpos(m, d)); }
        else { lemma_nb(m, d, m[0]); lemma_nb(m, d + 1, m[0]); lemma_nb(m, 0, d); lemma_coord_range(m, r_os(m), r_ol(m), o, if r_keep(m) { d } else { nb(m, d) }); } }
    lemma_rlin(m, o, r, m[0]);
}
pub proof fn lemma_rlin(m: Seq<int>, o: int, r: int, d: int) requires 0 <= d <= m[0], m.len() >= 1 + 2 * m[0], nonneg(m, 0, m.len() as int), forall|d: int| 0 <= d < m[0] ==> #[trigger] rcc(m, o, r)(d) >= 0 ensures rlin(m, o, r, d) >= 0 decreases d
{ if d > 0 { lemma_rlin(m, o, r, d - 1); let a = rcc(m, o, r)(d - 1); let b = m[1 + m[0] + d - 1]; assert(a >= 0); assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; } }
/// a slice along the last axis alone, of stride 1, is consecutive
pub proof fn lemma_run(m: Seq<int>, o: int, r: int) requires r_ok(m), r_nr(m) == 1, m[0] >= 1, rdim(m, 0) == m[0] - 1, m[m[0] + m[0]] == 1, 0 <= r < r_size(m) ensures ra(m, o, r) == m[1 + 2 * m[0]] + rlin(m, o, 0, m[0] - 1) + r
{
    lemma_rpos(m, 0); let k = rsh(m)[0]; assert(prd(rsh(m), 0, 1) == k * prd(rsh(m), 1, 1)); assert(k * 1 == k); assert(r_size(m) == k);
    assert(rest(rsh(m), 0, 1, r, 1) == r); lemma_small_mod(r as nat, k as nat); assert(coord(rsh(m), 0, 1, r, 0) == r);
    assert(rcc(m, o, r)(m[0] - 1) == r); assert(rlin(m, o, r, m[0]) == rlin(m, o, r, m[0] - 1) + r * m[1 + m[0] + m[0] - 1]); assert(r * 1 == r);
    assert forall|d: int| 0 <= d < m[0] - 1 implies !red(m, d) by { if red(m, d) { lemma_red(m, d); } }
    lemma_runl(m, o, r, m[0] - 1);
}
pub proof fn lemma_runl(m: Seq<int>, o: int, r: int, d: int) requires 0 <= d, forall|j: int| 0 <= j < d ==> !red(m, j) ensures rlin(m, o, r, d) == rlin(m, o, 0, d) decreases d { if d > 0 { lemma_runl(m, o, r, d - 1); assert(!red(m, d - 1)); assert(rcc(m, o, r)(d - 1) == rcc(m, o, 0)(d - 1)); } }
"""
ME = "metadata@"; OI = "output_idx@"
ONE = {"f8e4m3": 56, "f8e5m2": 60, "bf16": 16256, "f16": 15360}
LOW = {"f8e4m3": 254, "f8e5m2": 252, "bf16": 65408, "f16": 64512}; HIGH = {"f8e4m3": 126, "f8e5m2": 124, "bf16": 32640, "f16": 31744}
def start(kind, ty):
    """regex of the value an empty slice reduces to"""
    nn = lambda v: r"e_of\(n\(%d\)\)" % v
    if kind in ("sum", "norm", "std", "var"): return r"e_lit_0\(\)|" + nn(0)
    if kind == "prod": return nn(ONE[ty]) if ty in ONE else r"e_lit_1\(\)|" + nn(1)
    m = re.match(r"([iu])(\d+)$", ty)
    if kind == "max": return nn(LOW[ty]) if ty in LOW else r"e_neg\(e_call___builtin_inff?\(\)\)" if ty[0] == "f" else nn(0) if not m or m.group(1) == "u" else r"e_of\(neg\(n\(%d\)\)\)|e_of\(sub\(neg\(n\(%d\)\), n\(1\)\)\)" % (2 ** (int(m.group(2)) - 1), 2 ** (int(m.group(2)) - 1) - 1)
    if kind == "min": return nn(HIGH[ty]) if ty in HIGH else r"e_call___builtin_inff?\(\)" if ty[0] == "f" else nn(1) if not m else nn(2 ** (int(m.group(2)) - (m.group(1) == "i")) - 1)
    return None
def expect(kind, fn, vals, init, step=0):
    """the step a reduction of this name must fold with; vals {state variable: spec expression over itself and v}"""
    T_ = r"(e_call_\w+_to_float\(v\)|v)"
    add = lambda a, b: r"(e_add|e_call_\w*_add)\(%s, %s\)" % (a, b)
    mul = lambda a, b: r"(e_mul|e_call_\w*_mul)\(%s, %s\)" % (a, b)
    ex = lambda a, c, g: r"\(if (e_%s\(%s, v\)) \{ %s \} else \{ v \}\)|(e_call_\w*_%s)\(%s, v\)" % (c, a, a, g, a)
    zero = r"e_lit_0\(\)|e_of\(n\(0\)\)|e_of\(0\)"
    ks = list(vals); V = [re.sub(r"\bz_", "", vals[k]) for k in ks]
    def ok(*rx): return len(V) == len(rx) and all(re.fullmatch(r, x) for r, x in zip(rx, V))
    if kind in ("sum", "prod", "max", "min"):
        a = ks[0]
        good = ok({"sum": add(a, "v"), "prod": mul(a, "v"), "max": ex(a, "gt", "max"), "min": ex(a, "lt", "min")}[kind])
    elif kind == "norm": a = ks[0]; good = ok(add(a, mul("v", "v")))
    elif kind in ("std", "var"): good = len(ks) == 2 and (ok(add(ks[0], "v"), add(ks[1], mul("v", "v"))) )
    elif kind == "logsumexp":
        a = ks[0]; good = ok(r"\(if e_gt\({0}, {1}\) \{{ {0} \}} else \{{ {1} \}}\)".format(T_, a)) if step == 0 else ok(add(a, r"e_call_expf?\(e_sub\(%s, fold0\(m, inp, o, r_size\(m\)\)\.0\)\)" % T_))
    elif kind in ("argmax", "argmin"):
        a, b = ks[:2]; c = r"\(if \(first \|\| (e_{0}\(v, ({1}|e_of\(b_int\({1}\)\))\)|e_truth\(e_call_\w+_{0}\(v, {1}\)\))\) \{{ %s \}} else \{{ %s \}}\)".format("gt" if kind == "argmax" else "lt", a)
        good = len(ks) == 3 and ok(c % (r"(v|e_truth\(v\))", a), c % (r"e_of\(ax\)", b), c % ("false", "first"))
    else: good = False
    ty = fn.rsplit("_", 1)[1]
    if good and kind in ("argmax", "argmin"): good = init[ks[2]] == "ne(n(1), n(0))" and re.fullmatch(r"e_of\(n\(0\)\)", init[ks[1]])
    elif good and kind == "logsumexp": good = re.fullmatch([r"e_neg\(e_lit_[13]_\w+\(\)\)", r"e_lit_0\(\)|e_of\(n\(0\)\)"][step], init[ks[0]])
    elif good: good = all(re.fullmatch(start(kind, ty), init[k]) for k in ks)
    if not good: raise Lost("%s folds with %s" % (kind, V))

def classify(text):
    bodies = loop_bodies(text); k = {}
    for i, (h, b) in bodies.items():
        if h == "lt(i, output_shape_len)": k[i] = "count"
        elif h == "lt(output_idx, num_els)": k[i] = "outer"
        elif h == "ge(d, n(0))": k[i] = "take"
        elif h == "lt(in_dim, num_dims)": k[i] = "map"
        elif h == "lt(r, num_reduce_dims)": k[i] = "isred"
        elif h == "lt(reduced_idx, reduce_size)": k[i] = "fold"
        elif h == "ge(i, n(0))": k[i] = "digits"
        elif h == "lt(i, num_dims)": k[i] = "flat" if "flat_index" in b else "keep"
        elif h == "lt(i, subu(num_dims, n(1)))": k[i] = "base"
        elif h == "lt(i, simd_end)": k[i] = "simd"
        elif h == "lt(i, reduce_size)": k[i] = "tail"
        elif h == "lt(i, num_els)": k[i] = "after"
        else: raise Lost("loop " + h)
    return k, bodies
def own(text):
    """the statements of a loop body behind its inner loops"""
    i = max((m.end() for m in re.finditer(r"/\*AFTER \d+\*/", text)), default=0)
    s = text[i:]; s = s[s.index("}") + 1:] if i else s
    return s[:re.search(r"/\*TAIL \d+\*/", s).start()]

REQ = ["r_ok(metadata@)", "r_count(metadata@) <= old(output_ptr)@.len()", "forall|o: int, r: int| 0 <= o < r_count(metadata@) && 0 <= r < r_size(metadata@) ==> #[trigger] ra(metadata@, o, r) < input_ptr@.len()"]
def skeleton(kinds, exf):
    """annotations of the loops every reduction has; exf: invariants about what has been written (of the outer loop)"""
    anns = {}
    nonkeep = "forall|d: int| 0 <= d < num_dims@ && !red(metadata@, d) ==> input_indices@[d] == #[trigger] rcc(metadata@, output_idx@, 0)(d)"
    for i, k in kinds.items():
        if k == "count": anns[i] = Ann(["0 <= i@ <= output_shape_len@", "num_els@ == prd(metadata@, output_shape_off@, output_shape_off@ + i@)"], head="lemma_prd_snoc(metadata@, output_shape_off@, output_shape_off@ + i@);", after="lemma_prd_nonneg(metadata@, output_shape_off@, output_shape_off@ + output_shape_len@);")
        if k == "take": anns[i] = Ann(["-1 <= d@ < output_shape_len@", "output_indices@.len() == 16", "temp@ == rest(metadata@, output_shape_off@, output_shape_len@, output_idx@, d@ + 1)", "forall|j: int| d@ < j < output_shape_len@ ==> #[trigger] output_indices@[j] == coord(metadata@, output_shape_off@, output_shape_len@, output_idx@, j)"],
                                      head="lemma_take(metadata@, output_idx@, d@);")
        if k == "keep": anns[i] = Ann(["0 <= i@ <= num_dims@", "input_indices@.len() == 16", "forall|j: int| 0 <= j < i@ ==> #[trigger] input_indices@[j] == coord(metadata@, output_shape_off@, output_shape_len@, output_idx@, j)"])
        if k == "map": anns[i] = Ann(["0 <= in_dim@ <= num_dims@", "input_indices@.len() == 16", "out_idx@ == nb(metadata@, in_dim@)", "forall|j: int| 0 <= j < in_dim@ && !red(metadata@, j) ==> #[trigger] input_indices@[j] == coord(metadata@, output_shape_off@, output_shape_len@, output_idx@, nb(metadata@, j))"],
                                     head="lemma_nb(metadata@, in_dim@, num_dims@); lemma_nb(metadata@, in_dim@ + 1, num_dims@); lemma_nb(metadata@, 0, in_dim@);")
        if k == "isred": anns[i] = Ann(exb=["0 <= r@ <= num_reduce_dims@", "!is_reduced", "forall|j: int| 0 <= j < r@ ==> #[trigger] rdim(metadata@, j) != in_dim@"], ens=["is_reduced ==> red(metadata@, in_dim@)", "!is_reduced ==> (forall|j: int| 0 <= j < num_reduce_dims@ ==> #[trigger] rdim(metadata@, j) != in_dim@)"], after="if !is_reduced { lemma_not_red(metadata@, in_dim@); }", head="assert(rdim(metadata@, r@) == metadata@[reduce_dims_off@ + r@]); lemma_red_at(metadata@, r@);")
        if k == "digits": anns[i] = Ann(["-1 <= i@ < num_reduce_dims@", "input_indices@.len() == 16", "temp_reduced@ == rest(rsh(metadata@), 0, num_reduce_dims@, reduced_idx@, i@ + 1)", "forall|d: int| 0 <= d < num_dims@ && (!red(metadata@, d) || rpos(metadata@, d) > i@) ==> input_indices@[d] == #[trigger] rcc(metadata@, output_idx@, reduced_idx@)(d)"],
                                        before="assert forall|d: int| 0 <= d < num_dims@ && !red(metadata@, d) implies input_indices@[d] == #[trigger] rcc(metadata@, output_idx@, reduced_idx@)(d) by { assert(rcc(metadata@, output_idx@, 0)(d) == input_indices@[d]); } lemma_pos_range(metadata@);",
                                        head="lemma_digit(metadata@, output_idx@, reduced_idx@, i@); lemma_at(metadata@, i@);",
                                        after="lemma_pos_range(metadata@); assert forall|d: int| 0 <= d < num_dims@ implies #[trigger] rcc(metadata@, output_idx@, reduced_idx@)(d) == input_indices@[d] by { } assert forall|d: int| 0 <= d < num_dims@ && !red(metadata@, d) implies input_indices@[d] == #[trigger] rcc(metadata@, output_idx@, 0)(d) by { assert(rcc(metadata@, output_idx@, reduced_idx@)(d) == input_indices@[d]); } lemma_ax(metadata@, output_idx@, reduced_idx@);")
        if k == "flat": anns[i] = Ann(["0 <= i@ <= num_dims@", "flat_index@ == offset@ + rlin(metadata@, output_idx@, reduced_idx@, i@)"], head="assert(rcc(metadata@, output_idx@, reduced_idx@)(i@) == input_indices@[i@]);", after="assert(flat_index@ == ra(metadata@, output_idx@, reduced_idx@));")
    return anns, nonkeep

def reduction(cfile, fn):
    kind = re.match(r"hodu_cpu_([a-z]+)_", fn).group(1)
    if kind in ("mean", "logsum"): return derived(cfile, fn)
    t = T(cfile, fn, callees=CAL).run()
    if [p.split(":")[0] for p in t.sig] != ["input_ptr", "output_ptr", "metadata"]: raise Lost("parameters")
    text = t.text(); kinds, bodies = classify(text)
    outer = [i for i, k in kinds.items() if k == "outer"]; folds = [i for i, k in kinds.items() if k == "fold"]
    if len(outer) != 1 or not folds or "after" in kinds.values(): raise Lost("shape of the kernel")
    ob = bodies[outer[0]][1]
    # declarations of the outer body (state variables and constants)
    init = {}; ty = {}
    for m in re.finditer(r"^ {12}let mut (\w+) = (.*);$", ob, re.M): init.setdefault(m.group(1), m.group(2))
    def kd(v, e): return "bool" if re.match(r"ne\(n\(\d\), n\(\d\)\)", e) else ("E" if re.match(r"e_|any_e", e) or "lit_" in e else "?")
    decl = ""; prev = {}; info = {}
    P = "m: Seq<int>, inp: Seq<E>, o: int"
    sp0 = lambda e: spec_expr(e, {})
    anyall = kind in ("any", "all")
    for p, i in enumerate(folds):
        s = own(bodies[i][1])
        if anyall:
            ss = fam_elem.stmts(s.replace("break;", ""))
            if len(ss) != 1 or ss[0][0] != "if": raise Lost("body of " + kind)
            c = ss[0][1].replace("get(input_ptr, flat_index)", "v"); neg = c.startswith("!")
            th = re.sub(r"\s+", " ", ss[0][2]).strip(" ;{}"); want = {"any": "result = ne(n(1), n(0)); break", "all": "result = ne(n(0), n(0)); break"}[kind]
            th = re.sub(r"\s+", " ", re.search(r"\{(.*?)\}", s[s.index("if "):][len("if "):].replace(ss[0][1], "", 1), re.S).group(1)).strip(" ;")
            if th != want: raise Lost("%s: %s" % (kind, th))
            if kind == "all":
                m = re.fullmatch(r"!\((.*)\)|!(e_\w+\(.*\))", c, re.S)
                if not m: raise Lost("condition of all: " + c)
                c = m.group(1) or m.group(2)
            if not re.fullmatch(r"v|e_ne\(v, e_of\(n\(0\)\)\)|e_ne\(e_band\(v, e_of\(n\((127|32767)\)\)\), e_of\(n\(0\)\)\)|e_ne\(v, e_lit_0\(\)\)|e_truth\(v\)", c): raise Lost("truth test " + c)
            decl += "pub open spec fn nz(v: E) -> bool { %s }\n" % sp0(c)
            info[i] = None; prev["result"] = "(exists|r: int| 0 <= r < r_size(m) && nz(inp[#[trigger] ra(m, o, r)]))" if kind == "any" else "(forall|r: int| 0 <= r < r_size(m) ==> nz(inp[#[trigger] ra(m, o, r)]))"
            continue
        env = {}; ss = fam_elem.stmts(s)
        fam_elem.sym(ss, env, [])
        st = [v for v in env if v in init and env[v] != v]
        # an `if` without else over outer variables: sym only merges what it has seen
        for q in ss:
            if q[0] == "if":
                e2 = {k: env.get(k, k) for k in env if k not in st}; e1 = dict(e2); fam_elem.sym(fam_elem.stmts(q[2]), e1, [])
                for v in e1:
                    if v in init: env[v] = "(if %s { %s } else { %s })" % (fam_elem.subst(q[1], e2), e1[v], v); st.append(v) if v not in st else None
        if not st: raise Lost("nothing is folded")
        st.sort(key=lambda v: list(init).index(v))
        vals = {}
        for v in st:
            e = env[v].replace("get(input_ptr, flat_index)", "v")
            e = re.sub(r"\(if gt\(num_reduce_dims, n\(0\)\) \{ iget\(&input_indices, iget\(metadata, add\(reduce_dims_off, n\(0\)\)\)\) \} else \{ n\(0\) \}\)", "AX", e)
            if re.search(r"\b(get|iget|any_e)\(", e) or re.search(r"\b(metadata|input_ptr|flat_index|reduced_idx)\b", e): raise Lost("step " + e)
            e = re.sub(r"\bactual_dim_idx\b", "AX", e); e = e.replace("e_of(AX)", "e_of_AX")
            vals[v] = sp0(e).replace("AX@", "ax").replace("e_of_AX", "z_e_of(ax)").replace("AX", "ax")
            vals[v] = re.sub(r"z_ne\(z_n\(1\), z_n\(0\)\)", "true", re.sub(r"z_ne\(z_n\(0\), z_n\(0\)\)", "false", vals[v]))
            if v in ("first",): pass
        for v in list(vals): vals[v] = re.sub(r"z_e_of\(ax\)", "z_e_of(ax)", vals[v])
        for v, e in prev.items():
            for w in vals:
                if w != v: vals[w] = re.sub(r"\b%s\b" % v, e, vals[w])
        used = set(re.findall(r"(?<![\w.])[A-Za-z_]\w*(?!\s*[\w(])", " ".join(vals.values()))) - set(st) - {"v", "ax", "if", "else", "true", "false", "m", "inp", "o", "nat"} 
        if any(u in init for u in used): raise Lost("step reads %s" % used)
        expect(kind, fn, {v: e for v, e in vals.items()}, {v: init[v] for v in st}, p)
        ty = [kd(v, init[v]) for v in st]
        if "?" in ty: raise Lost("state %s" % st)
        I0 = [("arbitrary::<E>()" if init[v].startswith("any_e") else {"ne(n(0), n(0))": "false", "ne(n(1), n(0))": "true"}.get(init[v], sp0(init[v]))) for v in st]
        un = lambda x: "; ".join("let %s = s.%d" % (v, j) for j, v in enumerate(st))
        tup = "(%s,)" % ", ".join(ty)
        decl += "pub open spec fn step%d(%s, s: %s, v: E, ax: int) -> %s { %s; (%s,) }\n" % (p, P, tup, tup, un(0), ", ".join(vals[v] for v in st))
        decl += "pub open spec fn fold%d(%s, k: int) -> %s decreases k { if k <= 0 { (%s,) } else { step%d(m, inp, o, fold%d(m, inp, o, k - 1), inp[ra(m, o, k - 1)], rax(m, k - 1)) } }\n" % (p, P, tup, ", ".join(I0), p, p)
        info[i] = (p, st, vals, I0)
        for j, v in enumerate(st): prev[v] = "fold%d(m, inp, o, r_size(m)).%d" % (p, j)
    # ---- the SIMD path
    simd = [i for i, k in kinds.items() if k == "simd"]; tails = [i for i, k in kinds.items() if k == "tail"]
    if simd:
        if len(simd) != 1 or len(tails) != 1 or len(folds) != 1: raise Lost("vector loops")
        p, st, vals, I0 = info[folds[0]]
        W = int(re.search(r"ge\(reduce_size, n\((\d+)\)\)", ob).group(1)); ft = re.search(r"\bv_(f\d+)_", ob).group(1)
        vb = bodies[simd[0]][1]; vb = vb[:re.search(r"/\*TAIL \d+\*/", vb).start()]; env = {}; fam_elem.sym(fam_elem.stmts(vb), env, [])
        vst = [v for v in env if re.search(r"let mut %s = vset1\(" % v, ob) and v in env]
        vinit = {v: re.search(r"let mut %s = vset1\((.*), n\(%d\)\);" % (v, W), ob).group(1) for v in vst}
        red_ = {}
        for m in re.finditer(r"^ *(\w+) = (v_%s_reduce_\w+)\((\w+)\);" % ft, ob, re.M): red_[m.group(1)] = (m.group(2), m.group(3))
        if set(red_) != set(st) or sorted(r[1] for r in red_.values()) != sorted(vst): raise Lost("vector reduction")
        want = {"sum": "add", "norm": "add", "std": "add", "var": "add", "max": "max", "min": "min"}[kind]
        if any(r[0] != "v_%s_reduce_%s" % (ft, want) for r in red_.values()): raise Lost("vector reduction")
        lanes = {}
        def lane(e):
            m = re.match(r"v_%s_(\w+)\((.*)\)$" % ft, e, re.S)
            if not m:
                if re.fullmatch(r"vload\(input_ptr, add\(flat_base, i\), n\(%d\)\)" % W, e): return "v"
                if e in vst: return e + "[j]"
                raise Lost("vector expression " + e)
            a = [lane(x) for x in vx.split_top(m.group(2))]
            return {"add": "z_e_add({0}, {1})", "mul": "z_e_mul({0}, {1})", "max": "(if z_e_gt({0}, {1}) {{ {0} }} else {{ {1} }})", "min": "(if z_e_lt({0}, {1}) {{ {0} }} else {{ {1} }})", "fmadd": "z_e_add(z_e_mul({0}, {1}), {2})"}[m.group(1)].format(*a)
        for v in vst: lanes[v] = lane(env[v])
        for v in st:       # each lane folds with the scalar step
            l = re.sub(r"%s\[j\]" % red_[v][1], v, lanes[red_[v][1]])
            com = lambda e: re.sub(r"z_e_add\((\w+), (z_e_mul\(\w+, \w+\))\)", r"z_e_add(\2, \1)", re.sub(r"\s+", " ", e))
            if com(l) != com(vals[v]): raise Lost("lane step %s against %s" % (l, vals[v]))
        tb = bodies[tails[0]][1]; tb = tb[:re.search(r"/\*TAIL \d+\*/", tb).start()]; env = {}; fam_elem.sym(fam_elem.stmts(tb), env, [])
        for v in st:
            if sp0(env[v].replace("get(input_ptr, add(flat_base, i))", "v")) != vals[v]: raise Lost("remainder step")
        vt = "(%s,)" % ", ".join("Seq<E>" for _ in vst)
        # lanes of the vector accumulators after k rounds
        body = ", ".join("Seq::new(%d, |j: int| { %s; let v = inp[ra(m, o, (k - 1) * %d + j)]; %s })" % (W, "; ".join("let %s = s.%d" % (q, x) for x, q in enumerate(vst)), W, lanes[v]) for v in vst)
        decl += "pub open spec fn vfold(%s, k: int) -> %s decreases k { if k <= 0 { (%s,) } else { let s = vfold(m, inp, o, k - 1); (%s,) } }\n" % (P, vt, ", ".join("Seq::new(%d, |j: int| %s)" % (W, sp0(vinit[v])) for v in vst), body)
        decl += "pub open spec fn s_end(m: Seq<int>) -> int { r_size(m) / %d * %d }\n" % (W, W)
        decl += "pub open spec fn s_path(m: Seq<int>) -> bool { r_nr(m) == 1 && rdim(m, 0) == m[0] - 1 && m[m[0] + m[0]] == 1 && r_size(m) >= %d }\n" % W
        tup = "(%s,)" % ", ".join("E" for _ in st)
        decl += "/// the lanes put together, then the elements left over\npub open spec fn tfold(%s, k: int) -> %s decreases k - s_end(m) { if k <= s_end(m) { let s = vfold(m, inp, o, r_size(m) / %d); (%s,) } else { step%d(m, inp, o, tfold(m, inp, o, k - 1), inp[ra(m, o, k - 1)], 0) } }\n" % (P, tup, W, ", ".join("z_%s(s.%d)" % (red_[v][0], vst.index(red_[v][1])) for v in st), p)
        for j, v in enumerate(st): prev[v] = "(if s_path(m) { tfold(m, inp, o, r_size(m)).%d } else { fold%d(m, inp, o, r_size(m)).%d })" % (j, p, j)
    # ---- what is stored
    tl = own(ob); env = {}; sets = []
    fam_elem.sym(fam_elem.stmts(re.sub(r"^[\s}]*", "", tl[tl.rindex("}") + 1:] if simd else tl)), env, sets)
    if len(sets) != 1 or sets[0][:2] != ("output_ptr", "output_idx"): raise Lost("store %s" % (sets,))
    f = sp0(re.sub(r"\breduce_size\b", "RS", sets[0][2])).replace("RS@", "r_size(m)").replace("RS", "r_size(m)")
    for v, e in prev.items(): f = re.sub(r"(?<![\w.])%s\b" % v, e, f)
    if re.search(r"\b(get|iget)\(", f): raise Lost("stored value")
    decl += "pub open spec fn fin(%s) -> E { %s }\n" % (P, f)
    spo = lambda k: "fin(metadata@, input_ptr@, %s)" % k
    anns, nonkeep = skeleton(kinds, None)
    o = outer[0]
    anns[o] = Ann(["0 <= output_idx@ <= num_els@"] + done("output_ptr", OI, spo), head="")
    A = "metadata@, input_ptr@, output_idx@"
    bridge = "assert forall|d: int| 0 <= d < num_dims@ && !red(metadata@, d) implies input_indices@[d] == #[trigger] rcc(metadata@, output_idx@, 0)(d) by { lemma_nb(metadata@, d, num_dims@); }"
    for i in folds:
        q = info[i]
        base = ["0 <= reduced_idx@ <= reduce_size@", "input_indices@.len() == 16", nonkeep]
        head = "lemma_at_r(metadata@, output_idx@, reduced_idx@);"
        if anyall:
            z = "nz(input_ptr@[#[trigger] ra(metadata@, output_idx@, r)])"
            if kind == "any": anns[i] = Ann(exb=base + ["!result", "forall|r: int| 0 <= r < reduced_idx@ ==> !%s" % z], ens=["result == " + prev["result"].replace("(m, o, r)", "(metadata@, output_idx@, r)").replace("r_size(m)", "r_size(metadata@)").replace("inp[", "input_ptr@[")], head=head, before=bridge)
            else: anns[i] = Ann(exb=base + ["result", "forall|r: int| 0 <= r < reduced_idx@ ==> %s" % z], ens=["result == " + prev["result"].replace("(m, o, r)", "(metadata@, output_idx@, r)").replace("r_size(m)", "r_size(metadata@)").replace("inp[", "input_ptr@[")], head=head, before=bridge)
            continue
        p, st, vals, I0 = q
        inv = base + [("reduced_idx@ > 0 ==> " if "arbitrary" in I0[j] else "") + "%s == fold%d(%s, reduced_idx@).%d" % (v, p, A, j) for j, v in enumerate(st)]
        anns[i] = Ann(inv, head=head, before=bridge)
    if simd:
        p, st, vals, I0 = info[folds[0]]
        b = [i for i, k in kinds.items() if k == "base"]
        if len(b) != 1: raise Lost("base loop")
        anns[b[0]] = Ann(["0 <= i@ <= num_dims@ - 1", "flat_base@ == offset@ + rlin(metadata@, output_idx@, 0, i@)"], before=bridge + " assert(rdim(metadata@, 0) == num_dims@ - 1); assert forall|d: int| 0 <= d < num_dims@ - 1 implies !red(metadata@, d) by { if red(metadata@, d) { lemma_red(metadata@, d); } }",
                         head="assert(!red(metadata@, i@)); assert(rcc(metadata@, output_idx@, 0)(i@) == input_indices@[i@]);")
        run = "assert forall|r: int| 0 <= r < r_size(metadata@) implies #[trigger] ra(metadata@, output_idx@, r) == flat_base@ + r by { lemma_run(metadata@, output_idx@, r); }"
        runi = "forall|r: int| 0 <= r < r_size(metadata@) ==> #[trigger] ra(metadata@, output_idx@, r) == flat_base@ + r"
        vi = ["0 <= i@ <= simd_end@", "simd_end@ == s_end(metadata@)", "s_end(metadata@) <= r_size(metadata@)", "i@ %% %d == 0" % W, runi] + ["%s@ =~= vfold(%s, i@ / %d).%d" % (v, A, W, x) for x, v in enumerate(vst)]
        anns[simd[0]] = Ann(vi, before=run + " lemma_fundamental_div_mod(r_size(metadata@), %d); lemma_mod_bound(r_size(metadata@), %d);" % (W, W),
            head="lemma_fundamental_div_mod(i@, {w}); lemma_slice(metadata@, output_idx@, i@); assert(i@ + {w} <= simd_end@) by {{ lemma_fundamental_div_mod(r_size(metadata@), {w}); let a = i@ / {w}; let b = r_size(metadata@) / {w}; assert(i@ == {w} * a); assert(simd_end@ == {w} * b); }} assert(ra(metadata@, output_idx@, i@ + {w1}) == flat_base@ + i@ + {w1});".format(w=W, w1=W - 1) + " " + " ".join("let o_%s = %s@;" % (v, v) for v in vst),
            tail="assert((i@ + {w}) / {w} == i@ / {w} + 1); assert((i@ + {w}) % {w} == 0); assert forall|j: int| 0 <= j < {w} implies #[trigger] input_ptr@[flat_base@ + i@ + j] == input_ptr@[ra(metadata@, output_idx@, i@ / {w} * {w} + j)] by {{ assert(ra(metadata@, output_idx@, i@ + j) == flat_base@ + (i@ + j)); }} ".format(w=W) +
                 " ".join("assert(%s@ =~= vfold(%s, i@ / %d + 1).%d);" % (v, A, W, x) for x, v in enumerate(vst)),
            after="assert(simd_end@ / %d == r_size(metadata@) / %d);" % (W, W))
        anns[tails[0]] = Ann(["simd_end@ <= i@ <= reduce_size@", "simd_end@ == s_end(metadata@)", runi] + ["%s == tfold(%s, i@).%d" % (v, A, x) for x, v in enumerate(st)], head="lemma_slice(metadata@, output_idx@, i@); assert(ra(metadata@, output_idx@, i@) == flat_base@ + i@);")
        anns[folds[0]].before += " assert(use_simd == s_path(metadata@)) by { assert(rdim(metadata@, 0) == metadata@[reduce_dims_off@]); }"
        anns[tails[0]].after = "assert(use_simd == s_path(metadata@)) by { assert(rdim(metadata@, 0) == metadata@[reduce_dims_off@]); }"
    return [Fun(t, REQ + (["metadata@[0] >= 1"] if simd else []), post("output_ptr", "r_count(metadata@)", spo), anns, decls=decl)]

def derived(cfile, fn):
    """mean and logsum: the sum kernel, then one operation on every output"""
    kind, ty = re.match(r"hodu_cpu_([a-z]+)_(\w+)$", fn).groups(); s = "hodu_cpu_sum_" + ty
    fs = reduction(cfile, s)
    t = T(cfile, fn, callees=dict(CAL, **{s: "V"})).run(); text = t.text(); kinds, bodies = classify(text)
    af = [i for i, k in kinds.items() if k == "after"]
    if sorted(kinds.values()) != ["after", "count"] or t.calls != [s]: raise Lost("shape of " + kind)
    env0 = {nm: e for nm, e in re.findall(r"^    let mut (\w+) = (.*);$", text, re.M)}
    env = {}; sets = []; fam_elem.sym(fam_elem.stmts(own(bodies[af[0]][1])), env, sets)
    if len(sets) != 1 or sets[0][:2] != ("output_ptr", "i"): raise Lost("store")
    e = sets[0][2]
    for v in ("reduce_size_typed", "reduce_size_f"):
        if v in env0: e = re.sub(r"\b%s\b" % v, env0[v], e)
    e = e.replace("get(output_ptr, i)", "x"); g = {"mean": r"(e_div|e_call_\w+_div)\(x, (e_of\(reduce_size\)|e_call_float_to_\w+\(e_of\(reduce_size\)\))\)", "logsum": r"e_call_logf?\(x\)|e_call_float_to_\w+\(e_call_logf\(e_call_\w+_to_float\(x\)\)\)"}[kind]
    if not re.fullmatch(g, e): raise Lost("%s stores %s" % (kind, e))
    f = spec_expr(re.sub(r"\breduce_size\b", "RS", e), {}).replace("RS", "r_size(m)")
    decl = "pub open spec fn fin_%s(m: Seq<int>, x: E) -> E { %s }\n" % (kind, f)
    spo = lambda k: "fin_%s(metadata@, fin(metadata@, input_ptr@, %s))" % (kind, k)
    anns, _ = skeleton(kinds, None)
    anns[af[0]] = Ann(["0 <= i@ <= num_els@", "output_ptr@.len() == old(output_ptr)@.len()", "forall|k: int| 0 <= k < i@ ==> #[trigger] output_ptr@[k] == " + spo("k"), "forall|k: int| i@ <= k < num_els@ ==> #[trigger] output_ptr@[k] == fin(metadata@, input_ptr@, k)", "forall|k: int| num_els@ <= k < output_ptr@.len() ==> #[trigger] output_ptr@[k] == old(output_ptr)@[k]"])
    return fs + [Fun(t, fs[0].requires, post("output_ptr", "r_count(metadata@)", spo), anns, decls=decl)]
