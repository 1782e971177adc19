"""Contracts of the window reductions: output[o] folds, in order, over every position of o's window, padding by the named value."""
from fam_move import *
import fam_elem, fam_reduce
LEMMAS = """
// metadata of a window reduction: extents, strides, offset, window, steps, padding (before, after), output extents
pub open spec fn w_st(m: Seq<int>) -> int { 2 + m[1] }
pub open spec fn w_wo(m: Seq<int>) -> int { 3 + 2 * m[1] }
pub open spec fn w_so(m: Seq<int>) -> int { 3 + 3 * m[1] }
pub open spec fn w_po(m: Seq<int>) -> int { 3 + 4 * m[1] }
pub open spec fn w_oo(m: Seq<int>) -> int { 3 + 6 * m[1] }
pub open spec fn w_size(m: Seq<int>) -> int { prd(m, w_wo(m), w_wo(m) + m[1]) }
/// the input position under window position w of output o; outside the input it is padding
pub open spec fn wc(m: Seq<int>, o: int, w: int) -> spec_fn(int) -> int { |d: int| coord(m, w_oo(m), m[1], o, d) * m[w_so(m) + d] + coord(m, w_wo(m), m[1], w, d) - m[w_po(m) + d * 2] }
pub open spec fn win(m: Seq<int>, o: int, w: int) -> bool { in_box(wc(m, o, w), m, 2, m[1], 0) }
pub open spec fn wa(m: Seq<int>, o: int, w: int) -> int { m[2 + 2 * m[1]] + lin(wc(m, o, w), m, w_st(m), m[1]) }
pub open spec fn w_ok(m: Seq<int>) -> bool { m.len() >= 2 && nonneg(m, 0, m.len() as int) && m[1] <= 16 && m.len() >= 3 + 7 * m[1] && m[0] == prd(m, w_oo(m), w_oo(m) + m[1]) }
pub proof fn lemma_linpos(c: spec_fn(int) -> int, t: Seq<int>, st: int, d: int) requires 0 <= d, forall|j: int| 0 <= j < d ==> #[trigger] c(j) >= 0, nonneg(t, st, st + d) ensures lin(c, t, st, d) >= 0 decreases d
{ if d > 0 { lemma_linpos(c, t, st, d - 1); let a = c(d - 1); let b = t[st + d - 1]; assert(a >= 0); assert(a * b >= 0) by (nonlinear_arith) requires a >= 0, b >= 0; } }
"""
A = "metadata@, out_idx@, win_idx@"
def window(cfile, fn):
    kind, ty = re.match(r"hodu_cpu_reduce_window_([a-z]+)_(\w+)$", fn).groups()
    t = T(cfile, fn, callees=CAL).run(); text = t.text(); bodies = loop_bodies(text); o = "output_ptr"
    if [p.split(":")[0] for p in t.sig] != ["input_ptr", "output_ptr", "metadata"]: raise Lost("parameters")
    L = {}
    for i, (h, b) in bodies.items():
        k = {"lt(out_idx, num_els)": "map", "lt(win_idx, window_size)": "win"}.get(h)
        if h == "ge(i, n(0))": k = "out" if "out_coords" in b else "wco"
        if h == "lt(i, num_dims)": k = "size" if "window_size" in b else "pos" if "in_bounds" in b else "flat"
        if k is None or k in L: raise Lost("loop " + h)
        L[k] = i
    if set(L) != {"map", "out", "size", "win", "wco", "pos", "flat"}: raise Lost("loops")
    # the step of one window position
    wb = bodies[L["win"]][1]; s = wb[wb.index("/*AFTER %d*/" % L["pos"]):]; s = s[s.index("}") + 1:]; s = s[:s.rindex("/*TAIL %d*/" % L["win"])]
    a = s.index("{", s.index("let mut idx = ") if "let mut idx = " in s else 0); s = s[:a] + s[match(s, a) + 1:]
    s = s.replace("let mut idx = input_offset;", "")
    ob = bodies[L["map"]][1]; fin = ob[ob.index("/*AFTER %d*/" % L["win"]):]; fin = fin[fin.index("}") + 1:]; fin = fin[:fin.rindex("/*TAIL %d*/" % L["map"])]
    cand = [v for v in re.findall(r"let mut (\w+) = (.*);", ob) if re.search(r"(?<!let mut )\b%s = " % v[0], s) and v[0] != "val"]
    if len(cand) != 1: raise Lost("accumulator")
    acc, init = cand[0]
    env = {acc: acc}; sets = []; fam_elem.sym(fam_elem.stmts(s), env, sets)
    if sets or "in_bounds" in env: raise Lost("stores")
    st = env[acc].replace("get(input_ptr, idx)", "V_")
    if re.search(r"\bi?get\(|\bidx\b", st): raise Lost("step " + st)
    st = re.sub(r"\bin_bounds\b", "IN_", st)
    sp = lambda e: re.sub(r"\b(V_|IN_|W_)@", r"\1", spec_expr(e, {}))
    step = sp(st)
    fs = []; fam_elem.sym(fam_elem.stmts(fin), {}, fs)
    if len(fs) != 1 or fs[0][:2] != (o, "out_idx"): raise Lost("store")
    f = re.sub(r"\bwindow_size\b", "W_", fs[0][2])
    plain = lambda e: re.sub(r"\s+", " ", e)
    kd = "sum" if kind == "mean" else kind
    if not re.fullmatch(fam_reduce.start(kd, ty), init): raise Lost("starts from " + init)
    pad = r"\(if IN_ \{ V_ \} else \{ (%s) \}\)" % fam_reduce.start(kd, ty)
    g = {"sum": r"(e_add|e_call_\w*_add)\(%s, %s\)" % (acc, pad), "max": r"\(if (?:e_gt\(A, P\)) \{ A \} else \{ P \}\)|e_call_\w*_max\(A, P\)".replace("A", acc).replace("P", pad), "min": r"\(if (?:e_lt\(A, P\)) \{ A \} else \{ P \}\)|e_call_\w*_min\(A, P\)".replace("A", acc).replace("P", pad),
         "mean": r"\(if IN_ \{ e_add\(%s, (e_call_\w+_to_float\(V_\)|V_)\) \} else \{ %s \}\)" % (acc, acc)}.get(kind)
    if not g or not re.fullmatch(g, plain(st)): raise Lost("folds with " + st)
    gf = acc if kind != "mean" else r"e_call_float_to_\w+\(e_div\({0}, e_of\(W_\)\)\)|e_div\({0}, e_of\(W_\)\)".format(acc)
    if not re.fullmatch(gf, f): raise Lost("stores " + f)
    P = "m: Seq<int>, inp: Seq<E>, o: int"
    decl = "pub open spec fn wstep(%s, V_: E, IN_: bool) -> E { %s }\n" % (acc + ": E", step)
    decl += "pub open spec fn wfold(%s, k: int) -> E decreases k { if k <= 0 { %s } else { wstep(wfold(m, inp, o, k - 1), inp[wa(m, o, k - 1)], win(m, o, k - 1)) } }\n" % (P, sp(init))
    decl += "pub open spec fn wfin(%s) -> E { let %s = wfold(m, inp, o, w_size(m)); let W_ = w_size(m); %s }\n" % (P, acc, sp(f))
    spo = lambda k: "wfin(metadata@, input_ptr@, %s)" % k
    req = ["w_ok(metadata@)", "metadata@[0] <= old(%s)@.len()" % o, "forall|o: int, w: int| 0 <= o < metadata@[0] && 0 <= w < w_size(metadata@) && win(metadata@, o, w) ==> #[trigger] wa(metadata@, o, w) < input_ptr@.len()"]
    OC = ["out_coords@.len() == 16", "forall|j: int| 0 <= j < num_dims@ ==> #[trigger] out_coords@[j] == coord(metadata@, w_oo(metadata@), metadata@[1], out_idx@, j)"]
    def take(tmp, buf, so, idx):
        return Ann(["-1 <= i@ < num_dims@", "%s@.len() == 16" % buf, "%s@ == rest(metadata@, %s, metadata@[1], %s, i@ + 1)" % (tmp, so, idx), "forall|j: int| i@ < j < num_dims@ ==> #[trigger] %s@[j] == coord(metadata@, %s, metadata@[1], %s, j)" % (buf, so, idx)],
                   head="lemma_rest_bound(metadata@, {s}, metadata@[1], {i}, i@ + 1); lemma_mod_bound({t}@, metadata@[{s} + i@]);".format(s=so, i=idx, t=tmp))
    OO, WO = "w_oo(metadata@)", "w_wo(metadata@)"
    anns = {L["map"]: Ann(["0 <= out_idx@ <= num_els@"] + done(o, "out_idx@", spo), head="lemma_prd_pos(metadata@, %s, %s + metadata@[1]);" % (OO, OO)),
            L["out"]: take("tmp", "out_coords", OO, "out_idx@"), L["wco"]: take("tmp_win", "window_coords", WO, "win_idx@"),
            L["size"]: Ann(["0 <= i@ <= num_dims@", "window_size@ == prd(metadata@, {w}, {w} + i@)".format(w=WO)], head="lemma_prd_snoc(metadata@, {w}, {w} + i@);".format(w=WO)),
            L["win"]: Ann(["0 <= win_idx@ <= window_size@", "window_size@ == w_size(metadata@)", "%s == wfold(metadata@, input_ptr@, out_idx@, win_idx@)" % acc] + OC, before="lemma_prd_nonneg(metadata@, {w}, {w} + metadata@[1]);".format(w=WO), head="lemma_prd_pos(metadata@, {w}, {w} + metadata@[1]);".format(w=WO)),
            L["pos"]: Ann(exb=["0 <= i@ <= num_dims@", "in_bounds", "input_coords@.len() == 16", "forall|j: int| 0 <= j < i@ ==> #[trigger] input_coords@[j] == wc(%s)(j)" % A, "forall|j: int| 0 <= j < i@ ==> 0 <= #[trigger] wc(%s)(j) < metadata@[2 + j]" % A],
                           ens=["in_bounds == win(%s)" % A, "in_bounds ==> input_coords@.len() == 16 && forall|j: int| 0 <= j < num_dims@ ==> #[trigger] input_coords@[j] == wc(%s)(j)" % A],
                           head="let ci = wc(%s)(i@); assert(out_coords@[i@] == coord(metadata@, %s, metadata@[1], out_idx@, i@)); assert(window_coords@[i@] == coord(metadata@, %s, metadata@[1], win_idx@, i@));" % (A, OO, WO)),
            L["flat"]: Ann(["0 <= i@ <= num_dims@", "idx@ == input_offset@ + lin(wc(%s), metadata@, w_st(metadata@), i@)" % A], head="assert(input_coords@[i@] == wc(%s)(i@));" % A, after="lemma_linpos(wc(%s), metadata@, w_st(metadata@), metadata@[1]); assert(wa(%s) >= 0);" % (A, A))}
    return [Fun(t, req, post(o, "metadata@[0]", spo), anns, decls=decl)]
