"""Contracts of the indexing kernels (index_select, index_put, gather, scatter*, onehot, nonzero, compress)."""
from fam_move import *
import fam_elem
LEMMAS = """
pub open spec fn nd_ok(m: Seq<int>) -> bool { m.len() >= 2 && nonneg(m, 0, m.len() as int) }
/// a possibly negative position along an axis of extent n
pub open spec fn norm(v: int, n: int) -> int { if v < 0 { v + n } else { v } }
"""
IDX = dict(ibufs={"indices"}, ivars={"selected_idx", "target_idx", "class_idx"})
CMPRE = r"\(?if (e_%(c)s\(s, a\)|e_%(c)s\(e_call_\w+_to_float\(s\), e_call_\w+_to_float\(a\)\)|z?_?e_truth\(e_call_\w+_%(c)s\(s, a\)\)) \{ s \} else \{ a \}\)?"
M = "metadata@"; ND = "metadata@[1]"
CONT = r"let t_\d+ = id;\s*id = add\(id, n\(1\)\);\s*continue;"
def bufs(t, *want):
    have = [p.split(":")[0] for p in t.sig]
    if have != list(want): raise Lost("parameters %s" % have)
def descend(temp, S, so, idx, inv=(), head="", **kw):
    """annotation of the loop that takes idx apart by the extents S[so..]"""
    return Ann(["-1 <= d@ < num_dims@", "%s@ == rest(%s, %s, num_dims@, %s, d@ + 1)" % (temp, S, so, idx)] + list(inv), match=DOWN,
               head="lemma_rest_bound(%s, %s, num_dims@, %s, d@ + 1); lemma_mod_bound(%s@, %s[%s + d@]); lemma_coord_range(%s, %s, num_dims@, %s, d@); %s" % (S, so, idx, temp, S, so, S, so, idx, head), **kw)

def index_select(cfile, fn):
    t = T(cfile, fn, callees=CAL, **IDX).run(); bufs(t, "input_ptr", "indices", "output_ptr", "metadata"); o = "output_ptr"
    decl = """pub open spec fn outs(m: Seq<int>) -> Seq<int> { let nd = m[1]; Seq::new(nd as nat, |d: int| if d == m[2 + 2 * nd + 1] { m[2 + 2 * nd + 2] } else { m[2 + d] }) }
/// the input position the index list names for output position id
pub open spec fn sel(m: Seq<int>, ind: Seq<int>, id: int) -> int { let nd = m[1]; let dim = m[2 + 2 * nd + 1]; norm(ind[coord(outs(m), 0, nd, id, dim)], m[2 + dim]) }
pub open spec fn selc(m: Seq<int>, ind: Seq<int>, id: int) -> spec_fn(int) -> int { |d: int| if d == m[2 + 2 * m[1] + 1] { sel(m, ind, id) } else { coord(outs(m), 0, m[1], id, d) } }
pub open spec fn seld(m: Seq<int>, ind: Seq<int>, id: int, d: int) -> int { dotc(selc(m, ind, id), m, 2 + m[1], m[1], d) }
pub open spec fn sela(m: Seq<int>, ind: Seq<int>, id: int) -> int { m[2 + 2 * m[1]] + seld(m, ind, id, 0) }
pub open spec fn selok(m: Seq<int>, ind: Seq<int>, id: int) -> bool { 0 <= sel(m, ind, id) < m[2 + m[2 + 2 * m[1] + 1]] }
"""
    A = "metadata@, indices@, {0}"
    sp = lambda k: "(if selok(%s) { input_ptr@[sela(%s)] } else { z_e_of(0) })" % (A.format(k), A.format(k))
    req = ["nd_ok(metadata@)", "metadata@.len() >= 2 + 2 * metadata@[1] + 3", "metadata@[2 + 2 * metadata@[1] + 1] < metadata@[1]", "metadata@[0] == prd(outs(metadata@), 0, metadata@[1])", "metadata@[0] <= old(%s)@.len()" % o,
           "metadata@[2 + 2 * metadata@[1] + 2] <= indices@.len()", "forall|k: int| 0 <= k < metadata@[0] && selok(%s) ==> 0 <= #[trigger] sela(%s) < input_ptr@.len()" % (A.format("k"), A.format("k"))]
    S = "outs(metadata@)"; i = "id@"
    anns = {0: Ann(["0 <= id@ <= num_els@"] + done(o, "id@", sp), match=MAP, head="lemma_prd_pos(%s, 0, metadata@[1]); assert(selok(%s) ==> sela(%s) >= 0);" % (S, A.format(i), A.format(i))),
            1: descend("temp2", S, 0, "id@", ["d@ < dim@ ==> idx_at_dim@ == coord(%s, 0, num_dims@, id@, dim@)" % S], after="lemma_coord_range(%s, 0, num_dims@, id@, dim@); assert(%s[dim@] == num_indices@);" % (S, S)),
            2: descend("temp", S, 0, "id@", ["flat_index@ == input_offset@ + seld(%s, d@ + 1)" % A.format(i)], head="let cc = selc(%s)(d@);" % A.format(i))}
    return [Fun(t, req, post(o, "metadata@[0]", sp), anns, decls=decl, pre="assert(nonneg(outs(metadata@), 0, metadata@[1]));")]

def index_put(cfile, fn):
    t = T(cfile, fn, callees=CAL, **IDX).run(); bufs(t, "input_ptr", "indices", "values_ptr", "output_ptr", "metadata"); o = "output_ptr"
    decl = """pub open spec fn pdim(m: Seq<int>) -> int { m[2 + 3 * m[1] + 2] }
/// first entry of the index list, from i on, that names position q of the axis
pub open spec fn fst(m: Seq<int>, ind: Seq<int>, q: int, i: int) -> int decreases m[2 + 3 * m[1] + 3] - i { if i >= m[2 + 3 * m[1] + 3] { -1 } else if norm(ind[i], m[2 + pdim(m)]) == q { i } else { fst(m, ind, q, i + 1) } }
pub open spec fn pf(m: Seq<int>, ind: Seq<int>, id: int) -> int { fst(m, ind, coord(m, 2, m[1], id, pdim(m)), 0) }
pub open spec fn putc(m: Seq<int>, ind: Seq<int>, id: int) -> spec_fn(int) -> int { |d: int| if d == pdim(m) { pf(m, ind, id) } else { coord(m, 2, m[1], id, d) } }
pub open spec fn putd(m: Seq<int>, ind: Seq<int>, id: int, d: int) -> int { dotc(putc(m, ind, id), m, 2 + 2 * m[1], m[1], d) }
pub open spec fn puta(m: Seq<int>, ind: Seq<int>, id: int) -> int { m[2 + 3 * m[1] + 1] + putd(m, ind, id, 0) }
pub open spec fn keepd(m: Seq<int>, id: int, d: int) -> int { dotc(co(m, 2, m[1], id), m, 2 + m[1], m[1], d) }
pub open spec fn keepa(m: Seq<int>, id: int) -> int { m[2 + 3 * m[1]] + keepd(m, id, 0) }
"""
    A = "metadata@, indices@, {0}"
    sp = lambda k: "(if pf(%s) >= 0 { values_ptr@[puta(%s)] } else { input_ptr@[keepa(metadata@, %s)] })" % (A.format(k), A.format(k), k)
    req = ["nd_ok(metadata@)", "metadata@.len() >= 2 + 3 * metadata@[1] + 4", "pdim(metadata@) < metadata@[1]", "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "metadata@[0] <= old(%s)@.len()" % o,
           "metadata@[2 + 3 * metadata@[1] + 3] <= indices@.len()", "forall|k: int| 0 <= k < metadata@[0] && pf(%s) >= 0 ==> 0 <= #[trigger] puta(%s) < values_ptr@.len()" % (A.format("k"), A.format("k")),
           "forall|k: int| 0 <= k < metadata@[0] && pf(%s) < 0 ==> 0 <= #[trigger] keepa(metadata@, k) < input_ptr@.len()" % A.format("k")]
    i = "id@"; Q = "coord(metadata@, 2, metadata@[1], id@, pdim(metadata@))"
    anns = {0: Ann(["0 <= id@ <= num_els@"] + done(o, "id@", sp), match=MAP, head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); lemma_coord_range(metadata@, 2, metadata@[1], id@, pdim(metadata@)); assert(pf({a}) >= 0 ==> puta({a}) >= 0); assert(pf({a}) < 0 ==> keepa(metadata@, id@) >= 0);".format(a=A.format(i))),
            1: descend("temp", M, 2, "id@", ["d@ < dim@ ==> idx_at_dim@ == coord(metadata@, 2, num_dims@, id@, dim@)"]),
            2: Ann(exb=["found@ == 0", "0 <= i@ <= num_indices@", "fst(metadata@, indices@, %s, 0) == fst(metadata@, indices@, %s, i@)" % (Q, Q)], ens=["found@ != 0 ==> values_idx_in_dim@ == pf(%s) && pf(%s) >= 0" % (A.format(i), A.format(i)), "found@ == 0 ==> pf(%s) < 0" % A.format(i)], match=r"^lt\(i, num_indices\)$"),
            3: descend("temp", M, 2, "id@", ["values_flat_idx@ == values_offset@ + putd(%s, d@ + 1)" % A.format(i)], head="let cc = putc(%s)(d@);" % A.format(i)),
            4: descend("temp", M, 2, "id@", ["input_flat_idx@ == input_offset@ + keepd(metadata@, id@, d@ + 1)"], head="let cc = co(metadata@, 2, metadata@[1], id@)(d@);")}
    return [Fun(t, req, post(o, "metadata@[0]", sp), anns, decls=decl)]

def gather(cfile, fn):
    t = T(cfile, fn, callees=CAL, **IDX).run(); bufs(t, "input_ptr", "indices", "output_ptr", "metadata"); o = "output_ptr"
    decl = """pub open spec fn gdim(m: Seq<int>) -> int { m[2 + 4 * m[1] + 2] }
pub open spec fn gid(m: Seq<int>, id: int, d: int) -> int { dotc(co(m, 2, m[1], id), m, 2 + 3 * m[1], m[1], d) }
pub open spec fn gia(m: Seq<int>, id: int) -> int { m[2 + 4 * m[1] + 1] + gid(m, id, 0) }
pub open spec fn gsel(m: Seq<int>, ind: Seq<int>, id: int) -> int { norm(ind[gia(m, id)], m[2 + m[1] + gdim(m)]) }
pub open spec fn gok(m: Seq<int>, ind: Seq<int>, id: int) -> bool { 0 <= gsel(m, ind, id) < m[2 + m[1] + gdim(m)] }
pub open spec fn gc(m: Seq<int>, ind: Seq<int>, id: int) -> spec_fn(int) -> int { |d: int| if d == gdim(m) { gsel(m, ind, id) } else { coord(m, 2, m[1], id, d) } }
pub open spec fn gd(m: Seq<int>, ind: Seq<int>, id: int, d: int) -> int { dotc(gc(m, ind, id), m, 2 + 2 * m[1], m[1], d) }
pub open spec fn ga(m: Seq<int>, ind: Seq<int>, id: int) -> int { m[2 + 4 * m[1]] + gd(m, ind, id, 0) }
"""
    A = "metadata@, indices@, {0}"
    sp = lambda k: "(if gok(%s) { input_ptr@[ga(%s)] } else { z_e_of(0) })" % (A.format(k), A.format(k))
    req = ["nd_ok(metadata@)", "metadata@.len() >= 2 + 4 * metadata@[1] + 3", "gdim(metadata@) < metadata@[1]", "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "metadata@[0] <= old(%s)@.len()" % o,
           "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] gia(metadata@, k) < indices@.len()", "forall|k: int| 0 <= k < metadata@[0] && gok(%s) ==> 0 <= #[trigger] ga(%s) < input_ptr@.len()" % (A.format("k"), A.format("k"))]
    i = "id@"; C = "forall|j: int| 0 <= j < num_dims@ ==> #[trigger] output_indices@[j] == coord(metadata@, 2, metadata@[1], id@, j)"
    anns = {0: Ann(["0 <= id@ <= num_els@"] + done(o, "id@", sp), match=MAP, head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); assert(gia(metadata@, id@) >= 0); assert(gok({a}) ==> ga({a}) >= 0);".format(a=A.format(i))),
            1: descend("temp", M, 2, "id@", ["output_indices@.len() == num_dims@", "forall|j: int| d@ < j < num_dims@ ==> #[trigger] output_indices@[j] == coord(metadata@, 2, metadata@[1], id@, j)"]),
            2: Ann(["0 <= d@ <= num_dims@", "indices_flat_idx@ + gid(metadata@, id@, d@) == gia(metadata@, id@)"], match=UP, head="assert(output_indices@[d@] == co(metadata@, 2, metadata@[1], id@)(d@));"),
            3: Ann(["0 <= d@ <= num_dims@", "input_flat_idx@ + gd({a}, d@) == ga({a})".format(a=A.format(i))], match=UP, head="assert(output_indices@[d@] == coord(metadata@, 2, metadata@[1], id@, d@)); let cc = gc(%s)(d@);" % A.format(i))}
    return [Fun(t, req, post(o, "metadata@[0]", sp), anns, decls=decl)]

def scatter(cfile, fn):
    t = T(cfile, fn, callees=CAL, **IDX).run(); bufs(t, "input_ptr", "indices", "src_ptr", "output_ptr", "metadata"); o = "output_ptr"
    text = t.text(); k = max(loop_bodies(text)); tail = text[text.index("/*AFTER %d*/" % k):]; tail = tail[tail.index("}") + 1:tail.index("/*TAIL 3*/")]
    # what a source element does to the element it reaches
    sets = []; env = {}; ss = fam_elem.stmts(tail)
    if ss and ss[-1][0] == "if":
        fam_elem.sym(ss[:-1], env, []); q = ss[-1]; th = []; fam_elem.sym(fam_elem.stmts(q[2]), dict(env), th)
        if len(th) != 1 or fam_elem.stmts(q[3]): raise Lost("stores")
        b, ix, v = th[0]; val = "(if %s { %s } else { get(%s, %s) })" % (fam_elem.subst(q[1], env), v, b, ix)
    else:
        fam_elem.sym(ss, env, sets)
        if len(sets) != 1: raise Lost("stores")
        b, ix, val = sets[0]
    if b != o or ix != "output_flat_idx": raise Lost("store")
    val = val.replace("get(output_ptr, output_flat_idx)", "O_").replace("get(src_ptr, src_flat_idx)", "S_")
    if re.search(r"\bi?get\(", val): raise Lost("store value")
    comb = spec_expr(val, {}).replace("O_", "a").replace("S_", "s")
    kind = re.match(r"hodu_cpu_scatter_(add|max|min)?_?", fn).group(1)
    g = {None: r"s", "add": r"(e_add|e_call_\w*add\w*)\(a, s\)|e_call_float_to_\w+\(e_add\(e_call_\w+_to_float\(a\), e_call_\w+_to_float\(s\)\)\)", "max": CMPRE % dict(c="gt"), "min": CMPRE % dict(c="lt")}[kind]
    if not re.fullmatch(g, re.sub(r"\bz_", "", comb)): raise Lost("scatter: " + comb)
    decl = """pub open spec fn comb(a: E, s: E) -> E { %s }
""" % comb + """pub open spec fn sdim(m: Seq<int>) -> int { m[2 + 5 * m[1] + 3] }
pub open spec fn total(m: Seq<int>) -> int { prd(m, 2, 2 + m[1]) }
pub open spec fn sind(m: Seq<int>, id: int, d: int) -> int { dotc(co(m, 2 + 2 * m[1], m[1], id), m, 2 + 4 * m[1], m[1], d) }
pub open spec fn sina(m: Seq<int>, id: int) -> int { m[2 + 5 * m[1] + 2] + sind(m, id, 0) }
pub open spec fn ssrd(m: Seq<int>, id: int, d: int) -> int { dotc(co(m, 2 + 2 * m[1], m[1], id), m, 2 + 3 * m[1], m[1], d) }
pub open spec fn ssra(m: Seq<int>, id: int) -> int { m[2 + 5 * m[1] + 1] + ssrd(m, id, 0) }
pub open spec fn sinp(m: Seq<int>, id: int, d: int) -> int { dotc(co(m, 2, m[1], id), m, 2 + m[1], m[1], d) }
pub open spec fn sinpa(m: Seq<int>, id: int) -> int { m[2 + 5 * m[1]] + sinp(m, id, 0) }
pub open spec fn stgt(m: Seq<int>, ind: Seq<int>, id: int) -> int { norm(ind[sina(m, id)], m[2 + sdim(m)]) }
pub open spec fn sc(m: Seq<int>, ind: Seq<int>, id: int) -> spec_fn(int) -> int { |d: int| if d == sdim(m) { stgt(m, ind, id) } else { coord(m, 2 + 2 * m[1], m[1], id, d) } }
/// where source element id goes
pub open spec fn sdst(m: Seq<int>, ind: Seq<int>, id: int) -> int { rm(sc(m, ind, id), m, 2, m[1], 0) }
pub open spec fn sgo(m: Seq<int>, ind: Seq<int>, id: int) -> bool { 0 <= stgt(m, ind, id) < m[2 + sdim(m)] && sdst(m, ind, id) < total(m) }
/// the output once the first n source elements have been applied, in order
pub open spec fn fold(m: Seq<int>, ind: Seq<int>, src: Seq<E>, base: Seq<E>, n: int) -> Seq<E> decreases n {
    if n <= 0 { base } else { let p = fold(m, ind, src, base, n - 1); if sgo(m, ind, n - 1) { let w = sdst(m, ind, n - 1); p.update(w, comb(p[w], src[ssra(m, n - 1)])) } else { p } } }
pub open spec fn base(m: Seq<int>, inp: Seq<E>, out: Seq<E>) -> Seq<E> { Seq::new(out.len(), |i: int| if i < total(m) { inp[sinpa(m, i)] } else { out[i] }) }
pub proof fn lemma_fold_len(m: Seq<int>, ind: Seq<int>, src: Seq<E>, b: Seq<E>, n: int) ensures fold(m, ind, src, b, n).len() == b.len() decreases n { if n > 0 { lemma_fold_len(m, ind, src, b, n - 1); } }
pub proof fn lemma_sbox(c: spec_fn(int) -> int, m: Seq<int>, so: int, nd: int, d: int) requires 0 <= d <= nd, nonneg(m, so, so + nd), forall|j: int| 0 <= j < nd ==> #[trigger] c(j) >= 0 ensures rm(c, m, so, nd, d) >= 0 decreases nd - d
{ if d < nd { lemma_sbox(c, m, so, nd, d + 1); lemma_prd_nonneg(m, so + d + 1, so + nd); let p = prd(m, so + d + 1, so + nd); assert(c(d) >= 0); assert(c(d) * p >= 0) by (nonlinear_arith) requires c(d) >= 0, p >= 0; } }
"""
    A = "metadata@, indices@, {0}"; i = "id@"; B = "base(metadata@, input_ptr@, old(output_ptr)@)"; F = "fold(metadata@, indices@, src_ptr@, %s, {0})" % B; SS = "2 + 2 * metadata@[1]"
    req = ["nd_ok(metadata@)", "metadata@[1] <= 32", "metadata@.len() >= 2 + 5 * metadata@[1] + 4", "sdim(metadata@) < metadata@[1]", "metadata@[0] == prd(metadata@, %s, %s + metadata@[1])" % (SS, SS), "total(metadata@) <= old(output_ptr)@.len()",
           "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] sina(metadata@, k) < indices@.len()", "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] ssra(metadata@, k) < src_ptr@.len()",
           "forall|k: int| 0 <= k < total(metadata@) ==> 0 <= #[trigger] sinpa(metadata@, k) < input_ptr@.len()"]
    bd = lambda kk: ["output_ptr@.len() == old(output_ptr)@.len()", "forall|k: int| 0 <= k < %s ==> #[trigger] output_ptr@[k] == input_ptr@[sinpa(metadata@, k)]" % kk, "forall|k: int| %s <= k < output_ptr@.len() ==> #[trigger] output_ptr@[k] == old(output_ptr)@[k]" % kk]
    anns = {0: Ann(["0 <= i@ <= num_dims@", "input_total_els@ == prd(metadata@, 2, 2 + i@)"], match=UP, head="lemma_prd_snoc(metadata@, 2, 2 + i@);"),
            1: Ann(["0 <= i@ <= input_total_els@", "input_total_els@ == total(metadata@)"] + bd("i@"), match=r"^lt\(i, input_total_els\)$", before="lemma_prd_nonneg(metadata@, 2, 2 + metadata@[1]);", head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); assert(sinpa(metadata@, i@) >= 0);", after="assert(output_ptr@ =~= %s);" % B),
            2: descend("temp", M, 2, "i@", ["flat_idx@ == input_offset@ + sinp(metadata@, i@, d@ + 1)"], head="let cc = co(metadata@, 2, metadata@[1], i@)(d@);"),
            3: Ann(["0 <= id@ <= num_els@", "input_total_els@ == total(metadata@)", "output_ptr@ == " + F.format(i)], match=MAP, head="lemma_prd_pos(metadata@, {s}, {s} + metadata@[1]); assert(sina(metadata@, id@) >= 0); assert(ssra(metadata@, id@) >= 0); lemma_fold_len(metadata@, indices@, src_ptr@, {b}, id@); let o0 = output_ptr@;".format(s=SS, b=B),
                   tail="assert(%s =~= output_ptr@);" % F.format("id@ + 1")),
            4: descend("temp", M, SS, "id@", ["indices_flat_idx@ == indices_offset@ + sind(metadata@, id@, d@ + 1)"], head="let cc = co(metadata@, %s, metadata@[1], id@)(d@);" % SS),
            5: descend("temp", M, SS, "id@", ["multi_idx@.len() == 32", "forall|j: int| d@ < j < num_dims@ ==> #[trigger] multi_idx@[j] == coord(metadata@, %s, metadata@[1], id@, j)" % SS]),
            6: Ann(["0 <= d@ <= num_dims@", "output_flat_idx@ + rm(sc({a}), metadata@, 2, metadata@[1], d@) == sdst({a})".format(a=A.format(i))], match=UP, head="assert(multi_idx@[d@] == sc(%s)(d@));" % A.format(i),
                   before="assert forall|j: int| 0 <= j < num_dims@ implies #[trigger] sc({a})(j) >= 0 by {{ lemma_coord_range(metadata@, {s}, metadata@[1], id@, j); }} lemma_sbox(sc({a}), metadata@, 2, metadata@[1], 0);".format(a=A.format(i), s=SS)),
            7: Ann(["d@ + 1 <= dd@ <= num_dims@", "stride@ == prd(metadata@, 2 + d@ + 1, 2 + dd@)"], match=UP, head="lemma_prd_snoc(metadata@, 2 + d@ + 1, 2 + dd@);"),
            8: descend("temp", M, SS, "id@", ["src_flat_idx@ == src_offset@ + ssrd(metadata@, id@, d@ + 1)"], head="let cc = co(metadata@, %s, metadata@[1], id@)(d@);" % SS)}
    ens = ["final(output_ptr)@ == " + F.format("metadata@[0]").replace("old(output_ptr)", "old(output_ptr)")]
    return [Fun(t, req, ens, anns, decls=decl)]

def onehot(cfile, fn):
    t = T(cfile, fn, callees=CAL, **IDX).run(); bufs(t, "indices", "output_ptr", "metadata"); o = "output_ptr"
    sets = [args_of(t.text(), m.end() - 1) for m in re.finditer(r"(?<![\w])set\(", t.text())]
    if len(sets) != 2: raise Lost("stores")
    zero, one = sets[0][2], sets[1][2]
    if not re.fullmatch(r"e_of\(n\(0\)\)|(e_call_float_to_\w+\()?e_lit_0\(\)\)?", zero) or not re.fullmatch(r"e_of\(n\(1\)\)|(e_call_float_to_\w+\()?e_lit_1\(\)\)?", one): raise Lost("values %s %s" % (zero, one))
    ZE, ON = spec_expr(zero, {}), spec_expr(one, {})
    decl = """/// extents of the index tensor: those of the output without the class axis
pub open spec fn oin(m: Seq<int>) -> Seq<int> { Seq::new((m[4] - 1) as nat, |d: int| if d < m[3] { m[5 + d] } else { m[5 + d + 1] }) }
pub open spec fn ocl(m: Seq<int>, ind: Seq<int>, i: int) -> int { norm(ind[i], m[2]) }
pub open spec fn ook(m: Seq<int>, ind: Seq<int>, i: int) -> bool { 0 <= ocl(m, ind, i) < m[2] }
pub open spec fn oc(m: Seq<int>, ind: Seq<int>, i: int) -> spec_fn(int) -> int { |d: int| if d == m[3] { ocl(m, ind, i) } else { coord(oin(m), 0, m[4] - 1, i, if d < m[3] { d } else { d - 1 }) } }
/// where index entry i puts its one
pub open spec fn odst(m: Seq<int>, ind: Seq<int>, i: int) -> int { rm(oc(m, ind, i), m, 5, m[4], 0) }
pub open spec fn ohit(m: Seq<int>, ind: Seq<int>, n: int, p: int) -> bool { exists|i: int| 0 <= i < n && ook(m, ind, i) && #[trigger] odst(m, ind, i) == p }
pub proof fn lemma_oc(m: Seq<int>, ind: Seq<int>, i: int) requires ook(m, ind, i), 0 <= m[3] < m[4], m[5 + m[3]] == m[2], pos(oin(m), 0, m[4] - 1), i >= 0 ensures in_box(oc(m, ind, i), m, 5, m[4], 0)
{ assert forall|d: int| 0 <= d < m[4] implies 0 <= #[trigger] oc(m, ind, i)(d) < m[5 + d] by { if d != m[3] { let e = if d < m[3] { d } else { d - 1 }; lemma_coord_range(oin(m), 0, m[4] - 1, i, e); assert(oin(m)[e] == m[5 + d]); } } }
/// the extents without one axis multiply to the whole over that axis' extent; what matters here is that they are positive
pub proof fn lemma_oin(m: Seq<int>) requires nonneg(m, 0, m.len() as int), 0 <= m[3] < m[4], m.len() >= 5 + m[4], prd(oin(m), 0, m[4] - 1) > 0 ensures pos(oin(m), 0, m[4] - 1)
{ assert(nonneg(oin(m), 0, m[4] - 1)); lemma_prd_pos(oin(m), 0, m[4] - 1); }
"""
    A = "metadata@, indices@, {0}"
    v = lambda n: (lambda k: "(if ohit(metadata@, indices@, %s, %s) { %s } else { %s })" % (n, k, ON, ZE))
    req = ["nonneg(metadata@, 0, metadata@.len() as int)", "metadata@.len() >= 5", "1 <= metadata@[4] <= 32", "metadata@.len() >= 5 + metadata@[4]", "metadata@[3] < metadata@[4]", "metadata@[5 + metadata@[3]] == metadata@[2]", "metadata@[0] == prd(metadata@, 5, 5 + metadata@[4])",
           "metadata@[1] == prd(oin(metadata@), 0, metadata@[4] - 1)", "metadata@[1] <= indices@.len()", "metadata@[0] <= old(%s)@.len()" % o]
    full = lambda n: ["{o}@.len() == old({o})@.len()".format(o=o), "forall|k: int| 0 <= k < metadata@[0] ==> #[trigger] %s@[k] == %s" % (o, v(n)("k")), "forall|k: int| metadata@[0] <= k < %s@.len() ==> #[trigger] %s@[k] == old(%s)@[k]" % (o, o, o)]
    SI = ["output_strides@.len() == 32", "forall|j: int| 0 <= j < num_dims_out@ ==> #[trigger] output_strides@[j] == prd(metadata@, 5 + j + 1, 5 + num_dims_out@)"]
    anns = {0: Ann(["0 <= i@ <= num_els@"] + done(o, "i@", lambda k: ZE), match=MAP, before="lemma_prd_nonneg(metadata@, 5, 5 + metadata@[4]); assert(nonneg(oin(metadata@), 0, metadata@[4] - 1)); lemma_prd_nonneg(oin(metadata@), 0, metadata@[4] - 1);"),
            1: Ann(["-1 <= d@ < num_dims_out@ - 1", "output_strides@.len() == 32", "forall|j: int| d@ < j < num_dims_out@ ==> #[trigger] output_strides@[j] == prd(metadata@, 5 + j + 1, 5 + num_dims_out@)"], match=DOWN, head="lemma_mul_is_commutative(output_strides@[d@ + 1], metadata@[5 + d@ + 1]);"),
            2: Ann(["0 <= d@ <= num_dims_out@", "input_shape@.len() == 32", "id@ == (if d@ <= axis@ { d@ } else { d@ - 1 })", "forall|j: int| 0 <= j < id@ ==> #[trigger] input_shape@[j] == oin(metadata@)[j]"], match=r"^lt\(d, num_dims_out\)$"),
            3: Ann(["0 <= i@ <= num_input_els@"] + full("i@"), match=r"^lt\(i, num_input_els\)$", head="lemma_oin(metadata@); if ook(%s) { lemma_oc(%s); lemma_rm_bound(oc(%s), metadata@, 5, metadata@[4], 0); }" % ((A.format("i@"),) * 3)),
            4: Ann(["-1 <= d@ < num_dims_in@", "input_indices@.len() == 32", "temp@ == rest(oin(metadata@), 0, num_dims_in@, i@, d@ + 1)", "forall|j: int| d@ < j < num_dims_in@ ==> #[trigger] input_indices@[j] == coord(oin(metadata@), 0, num_dims_in@, i@, j)"], match=DOWN,
                   head="lemma_rest_bound(oin(metadata@), 0, num_dims_in@, i@, d@ + 1); assert(input_shape@[d@] == oin(metadata@)[d@]); assert(oin(metadata@)[d@] > 0);"),
            5: Ann(["0 <= d@ <= num_dims_out@", "input_dim@ == (if d@ <= axis@ { d@ } else { d@ - 1 })", "output_idx@ + rm(oc({a}), metadata@, 5, metadata@[4], d@) == odst({a})".format(a=A.format("i@"))], match=r"^lt\(d, num_dims_out\)$",
                   head="assert(output_strides@[d@] == prd(metadata@, 5 + d@ + 1, 5 + num_dims_out@)); if d@ != axis@ { assert(input_indices@[input_dim@] == oc(%s)(d@)); }" % A.format("i@"))}
    hits = "assert forall|k: int| 0 <= k < metadata@[0] implies #[trigger] output_ptr@[k] == {v} by {{ if ohit(metadata@, indices@, i@ + 1, k) {{ let q = choose|q: int| 0 <= q < i@ + 1 && ook(metadata@, indices@, q) && #[trigger] odst(metadata@, indices@, q) == k; if q < i@ {{ assert(ohit(metadata@, indices@, i@, k)); }} }} if ohit(metadata@, indices@, i@, k) {{ assert(ohit(metadata@, indices@, i@ + 1, k)); }} assert(odst(metadata@, indices@, i@) == odst(metadata@, indices@, i@)); }}".format(v=v("i@ + 1")("k"))
    anns[3].tail = hits
    z = "assert forall|k: int| 0 <= k < metadata@[0] implies #[trigger] output_ptr@[k] == %s by { }" % v("0")("k")
    anns[0].after = z
    for j in (1, 2): anns[j].inv += full("0")
    anns[2].inv += SI; anns[3].inv += SI + ["forall|j: int| 0 <= j < num_dims_in@ ==> #[trigger] input_shape@[j] == oin(metadata@)[j]", "input_shape@.len() == 32"]
    ens = [e.replace("output_ptr@", "final(output_ptr)@").replace("old(output_ptr)@", "old(output_ptr)@") if 0 else e for e in []]
    fo = "final(%s)" % o
    ens = ["%s@.len() == old(%s)@.len()" % (fo, o), "forall|k: int| 0 <= k < metadata@[0] ==> #[trigger] %s@[k] == %s" % (fo, v("metadata@[1]")("k")), "forall|k: int| metadata@[0] <= k < %s@.len() ==> #[trigger] %s@[k] == old(%s)@[k]" % (fo, fo, o)]
    return [Fun(t, req, ens, anns, decls=decl, before=[(r"let t_\d+ = i;\s*i = add\(i, n\(1\)\);\s*continue;", "proof { %s }" % hits)])]
