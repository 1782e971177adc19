"""Contracts of the direct convolutions: the sum over channels and kernel positions, in order, of input times weight; the transposed ones scatter it."""
from fam_move import *
import fam_elem
LEMMAS = """
pub proof fn lemma_horner(a: int, n: int, b: int, k: int) requires 0 <= a < n, 0 <= b < k ensures 0 <= a * k + b < n * k { assert(a * k + k <= n * k) by (nonlinear_arith) requires a + 1 <= n, k >= 0; assert(a * k >= 0) by (nonlinear_arith) requires a >= 0, k >= 0; }
pub open spec fn conv_ok(m: Seq<int>, sd: int) -> bool { m.len() >= 6 + 6 * sd && nonneg(m, 0, m.len() as int) }
"""
DIMS = {1: "w", 2: "hw", 3: "dhw"}; SUF = {"d": "depth", "h": "height", "w": "width"}
def nest(P, S, init, loops, step, guards=None):
    """nested in-order folds; loops [(variable, bound)]; step(state, variables) of the innermost; guards {level: condition for entering the next}
    -> (declarations, invariant expression of level j). P = [(name, type)]"""
    ps = ", ".join("%s: %s" % p for p in P); pa = ", ".join(p[0] for p in P); d = ""; n = len(loops); guards = guards or {}
    for j in range(n - 1, -1, -1):
        outer = "".join(", %s: int" % v for v, _ in loops[:j]); oa = "".join(", " + v for v, _ in loops[:j]); var = loops[j][0]
        prev = "nf%d(%s, s%s, k - 1)" % (j, pa, oa)
        if j == n - 1: body = "{ let t = %s; let %s = k - 1; %s }" % (prev, var, step)
        else:
            inner = "nf%d(%s, t%s, %s, %s)" % (j + 1, pa, oa, var, loops[j + 1][1])
            if j in guards: inner = "if %s { %s } else { t }" % (guards[j], inner)
            body = "{ let t = %s; let %s = k - 1; %s }" % (prev, var, inner)
        d += "pub open spec fn nf%d(%s, s: %s%s, k: int) -> %s decreases k { if k <= 0 { s } else %s }\n" % (j, ps, S, outer, S, body)
    def inv(j, args, init):
        e = init
        for i in range(j + 1): e = "nf%d(%s, %s%s, %s@)" % (i, args, e, "".join(", %s@" % v for v, _ in loops[:i]), loops[i][0])
        return e
    return d, inv
def horner(xs, ns):
    e = xs[0]
    for x, n in zip(xs[1:], ns[1:]): e = "(%s * %s + %s)" % (e, n, x)
    return e
def hbounds(xs, ns):
    """proof that a row-major index lies below the product of the extents"""
    out = []; e, n = xs[0], ns[0]
    for x, k in zip(xs[1:], ns[1:]): out.append("lemma_horner(%s, %s, %s, %s);" % (e, n, x, k)); e = "(%s * %s + %s)" % (e, k, x); n = "(%s * %s)" % (n, k)
    return " ".join(out), n
def common(fn):
    m = re.match(r"hodu_cpu_conv(_transpose)?([123])d_(\w+)$", fn)
    if not m: raise Lost("name")
    D = int(m.group(2)); ds = DIMS[D]; nm = lambda q, d: q + ("_" + d if D > 1 else "")
    pos = {}                  # position in the metadata of every parameter
    for j, d in enumerate(ds):
        for g, q in enumerate(("in_", "kernel_", "out_")): pos[q + SUF[d]] = 4 + g * D + j
        for g, q in enumerate(("stride", "padding", "dilation")): pos[nm(q, d)] = 4 + (3 + g) * D + j
    pos.update(batch=1, in_channels=2, out_channels=3, input_offset=4 + 6 * D, weight_offset=5 + 6 * D)
    return D, ds, nm, pos
def macc(e, st, a, b):
    """state plus input times weight, in the type's own operations"""
    q = re.fullmatch(r"(e_add|e_call_\w+_add)\({0}, (e_mul|e_call_\w+_mul)\({1}, {2}\)\)".format(re.escape(st), re.escape(a), re.escape(b)), e)
    if not q: raise Lost("accumulates " + e)
    return lambda s, x, y: "z_%s(%s, z_%s(%s, %s))" % (q.group(1), s, q.group(2), x, y)
def get_args(e):
    out = []
    for m in re.finditer(r"\bget\(", e):
        j = match(e, m.end() - 1); a = vx.split_top(e[m.end():j]); out.append((a[0], a[1], e[m.start():j + 1]))
    return out
def block(body, loop):
    """the statements of an innermost loop's body"""
    return body[:body.rindex("/*TAIL %d*/" % loop)]

def conv(cfile, fn):
    D, ds, nm, pos = common(fn)
    t = T(cfile, fn, callees=CAL).run(); text = t.text(); bodies = loop_bodies(text); o = "output_ptr"
    if [p.split(":")[0] for p in t.sig] != ["input_ptr", "weight_ptr", o, "metadata"]: raise Lost("parameters")
    ks = ["k" + d for d in ds]; want = ["lt(idx, num_els)", "lt(ic, in_channels)"] + ["lt(k%s, kernel_%s)" % (d, SUF[d]) for d in ds]
    if [bodies[i][0] for i in sorted(bodies)] != want: raise Lost("loops")
    M = lambda k, m="metadata@": "%s[%d]" % (m, pos[k])
    last = D + 1; env = {}; sets = []; ss = fam_elem.stmts(block(bodies[last][1], last))
    env = {"sum": "sum"}
    fam_elem.sym([q for q in ss if q[0] == "let"], env, sets)
    iff = [q for q in ss if q[0] == "if"]
    if len(iff) != 1 or fam_elem.stmts(iff[0][3]): raise Lost("condition")
    e2 = {"sum": "sum"}; fam_elem.sym(fam_elem.stmts(iff[0][2]), e2, sets)
    if sets: raise Lost("stores")
    ga = get_args(e2["sum"])
    if [g[0] for g in ga] != ["input_ptr", "weight_ptr"]: raise Lost("reads")
    mac = macc(e2["sum"], "sum", ga[0][2], ga[1][2])
    # the outputs' coordinates
    ob = ["batch", "out_channels"] + ["out_" + SUF[d] for d in ds]; n = D + 2
    decl = "pub open spec fn ob(m: Seq<int>) -> Seq<int> { seq![%s] }\n" % ", ".join(M(x, "m") for x in ob)
    C = lambda j: "coord(ob(m), 0, %d, id, %d)" % (n, j)
    # input position under kernel position k of output id
    pd = lambda j, d, k: "%s * %s - %s + %s * %s" % (C(2 + j), M(nm("stride", d), "m"), M(nm("padding", d), "m"), k, M(nm("dilation", d), "m"))
    kp = ", ".join("%s: int" % k for k in ks)
    for j, d in enumerate(ds): decl += "pub open spec fn c%s(m: Seq<int>, id: int, k: int) -> int { %s }\n" % (d, pd(j, d, "k"))
    ok = " && ".join("0 <= c%s(m, id, k%s) < %s" % (d, d, M("in_" + SUF[d], "m")) for d in ds)
    ia = "%s + %s" % (M("input_offset", "m"), horner([C(0), "ic"] + ["c%s(m, id, k%s)" % (d, d) for d in ds], ["", M("in_channels", "m")] + [M("in_" + SUF[d], "m") for d in ds]))
    wa = "%s + %s" % (M("weight_offset", "m"), horner([C(1), "ic"] + ks, ["", M("in_channels", "m")] + [M("kernel_" + SUF[d], "m") for d in ds]))
    decl += "pub open spec fn cin(m: Seq<int>, id: int, %s) -> bool { %s }\npub open spec fn cia(m: Seq<int>, id: int, ic: int, %s) -> int { %s }\npub open spec fn cwa(m: Seq<int>, id: int, ic: int, %s) -> int { %s }\n" % (kp, ok, kp, ia, kp, wa)
    kl = ", ".join(ks)
    loops = [("ic", M("in_channels", "m"))] + [("k" + d, M("kernel_" + SUF[d], "m")) for d in ds]
    d2, inv = nest([("m", "Seq<int>"), ("inp", "Seq<E>"), ("wt", "Seq<E>"), ("id", "int")], "E", None, loops, "if cin(m, id, %s) { %s } else { t }" % (kl, mac("t", "inp[cia(m, id, ic, %s)]" % kl, "wt[cwa(m, id, ic, %s)]" % kl)))
    decl += d2
    ob_ = bodies[0][1]; q = re.search(r"let mut sum = (.*);", ob_)
    if not q or not re.fullmatch(r"e_of\(n\(0\)\)|e_lit_0\(\)", q.group(1)): raise Lost("start")
    tail = ob_[ob_.rindex("/*AFTER 1*/"):]; fs = []; fam_elem.sym(fam_elem.stmts(tail[tail.index("}") + 1:tail.rindex("/*TAIL 0*/")]), {}, fs)
    if fs != [(o, "idx", "sum")]: raise Lost("store")
    I0 = spec_expr(q.group(1), {})
    spo = lambda k: "nf0(metadata@, input_ptr@, weight_ptr@, %s, %s, %s)" % (k, I0, M("in_channels"))
    exi = ["batch", "in_channels"] + ["in_" + SUF[d] for d in ds]; exw = ["out_channels", "in_channels"] + ["kernel_" + SUF[d] for d in ds]
    req = ["conv_ok(metadata@, %d)" % D, "metadata@[0] == prd(ob(metadata@), 0, %d)" % n, "metadata@[0] <= old(%s)@.len()" % o,
           "%s + %s <= input_ptr@.len()" % (M("input_offset"), hbounds(["0"] * n, [M(x) for x in exi])[1]), "%s + %s <= weight_ptr@.len()" % (M("weight_offset"), hbounds(["0"] * n, [M(x) for x in exw])[1])]
    kind = {k: "I" for k in list(pos) + ["idx", "ic", "b", "oc", "num_els"] + ks + ["o" + d for d in ds] + ["i" + d for d in ds]}
    oc_ = ["b", "oc"] + ["o" + d for d in ds]
    envs = {}
    for nm_, ex in re.findall(r"let mut (\w+) = (.*);", ob_[:ob_.index("let mut sum")]): envs[nm_] = ex
    if set(envs) != set(oc_): raise Lost("output coordinates")
    facts = ["%s@ == coord(ob(metadata@), 0, %d, idx@, %d)" % (v, n, j) for j, v in enumerate(oc_)]
    # idx / (A * B) is idx / A / B
    chain = "let S = ob(metadata@); assert(nonneg(S, 0, {n})); lemma_prd_pos(S, 0, {n}); assert(rest(S, 0, {n}, idx@, {n}) == idx@);".format(n=n)
    for j in range(n - 1, -1, -1): chain += " assert(S[%d] > 0); assert(rest(S, 0, %d, idx@, %d) == rest(S, 0, %d, idx@, %d) / S[%d]);" % (j, n, j, n, j + 1, j)
    den = "S[%d]" % (n - 1)
    for j in range(n - 2, 0, -1): chain += " lemma_mul_strictly_positive({a}, S[{j}]); lemma_div_denominator(idx@, {a}, S[{j}]);".format(a=den, j=j); den = "(%s * S[%d])" % (den, j)
    for j in range(n): chain += " lemma_coord_range(S, 0, %d, idx@, %d);" % (n, j)
    # rest(.., 0) == 0: the first coordinate needs no remainder
    chain += " lemma_rest_bound(S, 0, {n}, idx@, 1); assert(prd(S, 0, {n}) == S[0] * prd(S, 1, {n})); assert(idx@ / prd(S, 1, {n}) < S[0]) by (nonlinear_arith) requires 0 <= idx@ < S[0] * prd(S, 1, {n}), prd(S, 1, {n}) > 0; lemma_small_mod(rest(S, 0, {n}, idx@, 1) as nat, S[0] as nat);".format(n=n)
    A = "metadata@, input_ptr@, weight_ptr@, idx@"
    anns = {0: Ann(["0 <= idx@ <= num_els@"] + done(o, "idx@", spo), match=None, head=chain)}
    for j, (v, bnd) in enumerate(loops):
        anns[j + 1] = Ann(["0 <= %s@ <= %s" % (v, bnd.replace("m[", "metadata@[")), "sum == " + inv(j, A, I0)] + (facts if j == 0 else []))
    sx = lambda e: spec_expr(e, kind)
    cs = ["c%s(metadata@, idx@, k%s@)" % (d, d) for d in ds]
    hi, _ = hbounds(["b@", "ic@"] + ["i%s@" % d for d in ds], [M(x) for x in exi]); hw, _ = hbounds(["oc@", "ic@"] + ["k%s@" % d for d in ds], [M(x) for x in exw])
    IA = "metadata@[%d] + %s" % (pos["input_offset"], horner(["b@", "ic@"] + ["i%s@" % d for d in ds], ["", "in_channels@"] + ["in_%s@" % SUF[d] for d in ds]))
    WA = "metadata@[%d] + %s" % (pos["weight_offset"], horner(["oc@", "ic@"] + ["k%s@" % d for d in ds], ["", "in_channels@"] + ["kernel_%s@" % SUF[d] for d in ds]))
    pk = ", ".join("k%s@" % d for d in ds)
    def same(code, spec, off): return "assert({c} == {s}) by (nonlinear_arith) requires {o}@ == metadata@[{p}];".format(c=arith(sx(code)), s=spec, o=off, p=pos[off])
    hint = " ".join("assert(i%s@ == %s);" % (d, c) for d, c in zip(ds, cs)) + " " + same(ga[0][1], IA, "input_offset") + " " + same(ga[1][1], WA, "weight_offset")
    hint += " if cin(metadata@, idx@, {p}) {{ {h} {w} assert(cia(metadata@, idx@, ic@, {p}) == {ia}); assert(cwa(metadata@, idx@, ic@, {p}) == {wa}); }}".format(p=pk, h=hi, w=hw, ia=IA, wa=WA)
    return [Fun(t, req, post(o, "metadata@[0]", spo), anns, decls=decl, before=[(r"if \(+\w+\(i[dhw],", "proof { %s }" % hint)])]
def arith(e):
    """z_add(a, z_mul(b, c)) -> (a + (b * c))"""
    while True:
        m = None
        for q in re.finditer(r"z_(add|sub|subu|mul|n)\(", e): m = q
        if not m: return e
        j = match(e, m.end() - 1); a = [x.strip() for x in vx.split_top(e[m.end():j])]
        e = e[:m.start()] + (a[0] if m.group(1) == "n" else "(%s %s %s)" % (a[0], {"add": "+", "sub": "-", "subu": "-", "mul": "*"}[m.group(1)], a[1])) + e[j + 1:]

def transpose(cfile, fn):
    D, ds, nm, pos = common(fn)
    t = T(cfile, fn, callees=CAL).run(); text = t.text(); bodies = loop_bodies(text); o = "output_ptr"
    if [p.split(":")[0] for p in t.sig] != ["input_ptr", "weight_ptr", o, "metadata"]: raise Lost("parameters")
    ks = ["k" + d for d in ds]; is_ = ["i" + d for d in ds]; os_ = ["o" + d for d in ds]
    want = ["lt(b, batch)", "lt(ic, in_channels)"] + ["lt(i%s, in_%s)" % (d, SUF[d]) for d in ds] + ["lt(k%s, kernel_%s)" % (d, SUF[d]) for d in ds] + ["lt(oc, out_channels)"]
    hdr = [bodies[i][0] for i in sorted(bodies)]; z = hdr[:1] == ["lt(i, num_els)"]
    if hdr[z:] != want: raise Lost("loops")
    M = lambda k, m="metadata@": "%s[%d]" % (m, pos[k])
    last = z + len(want) - 1; sets = []; env = {}
    # offsets computed outside the innermost loop are substituted
    fam_elem.sym(fam_elem.stmts(block(bodies[last][1], last)), env, sets)
    if len(sets) != 1 or sets[0][0] != o: raise Lost("stores")
    oidx, val = sets[0][1], sets[0][2]; ga = get_args(val)
    ga = [g for g in ga]; by = {g[0]: g for g in ga}
    if sorted(by) != sorted(["input_ptr", "weight_ptr", o]) or len(ga) != 3 or by[o][1] != oidx: raise Lost("reads")
    mac = macc(val, by[o][2], by["input_ptr"][2], by["weight_ptr"][2])
    if z:
        s0 = []; fam_elem.sym(fam_elem.stmts(block(bodies[0][1], 0)), {}, s0)
        if len(s0) != 1 or s0[0][:2] != (o, "i") or not re.fullmatch(r"e_of\(n\(0\)\)|e_lit_0\(\)", s0[0][2]): raise Lost("start")
        I0 = spec_expr(s0[0][2], {})
    else:
        if text.count("set_zero(output_ptr, n(0), num_els);") != 1: raise Lost("start")
        I0 = "z_e_of(0)"
    decl = "".join("pub open spec fn p%s(m: Seq<int>, i: int, k: int) -> int { i * %s - %s + k * %s }\n" % (d, M(nm("stride", d), "m"), M(nm("padding", d), "m"), M(nm("dilation", d), "m")) for d in ds)
    pv = ", ".join(["i%s: int, k%s: int" % (d, d) for d in ds]); pl = lambda at="": ", ".join("i%s%s, k%s%s" % (d, at, d, at) for d in ds)
    P = lambda d, m="m", at="": "p%s(%s, i%s%s, k%s%s)" % (d, m, d, at, d, at)
    ok = " && ".join("0 <= %s < %s" % (P(d), M("out_" + SUF[d], "m")) for d in ds)
    exi = ["batch", "in_channels"] + ["in_" + SUF[d] for d in ds]; exw = ["in_channels", "out_channels"] + ["kernel_" + SUF[d] for d in ds]; exo = ["batch", "out_channels"] + ["out_" + SUF[d] for d in ds]
    ia = "%s + %s" % (M("input_offset", "m"), horner(["b", "ic"] + is_, [""] + [M(x, "m") for x in exi[1:]]))
    wa = "%s + %s" % (M("weight_offset", "m"), horner(["ic", "oc"] + ks, [""] + [M(x, "m") for x in exw[1:]]))
    oa = horner(["b", "oc"] + [P(d) for d in ds], [""] + [M(x, "m") for x in exo[1:]])
    decl += "pub open spec fn tin(m: Seq<int>, %s) -> bool { %s }\n" % (pv, ok)
    decl += "pub open spec fn tia(m: Seq<int>, b: int, ic: int, %s) -> int { %s }\npub open spec fn twa(m: Seq<int>, ic: int, oc: int, %s) -> int { %s }\npub open spec fn toa(m: Seq<int>, b: int, oc: int, %s) -> int { %s }\n" % (pv, ia, pv, wa, pv, oa)
    loops = [("b", M("batch", "m")), ("ic", M("in_channels", "m"))] + [("i" + d, M("in_" + SUF[d], "m")) for d in ds] + [("k" + d, M("kernel_" + SUF[d], "m")) for d in ds] + [("oc", M("out_channels", "m"))]
    n = len(loops)
    O = "toa(m, b, oc, %s)" % pl()
    d2, inv = nest([("m", "Seq<int>"), ("inp", "Seq<E>"), ("wt", "Seq<E>")], "Seq<E>", None, loops, "t.update(%s, %s)" % (O, mac("t[%s]" % O, "inp[tia(m, b, ic, %s)]" % pl(), "wt[twa(m, ic, oc, %s)]" % pl())), guards={n - 2: "tin(m, %s)" % pl()})
    decl += d2 + "pub open spec fn zeroed(s: Seq<E>, n: int) -> Seq<E> { Seq::new(s.len(), |j: int| if j < n { %s } else { s[j] }) }\n" % I0
    A = "metadata@, input_ptr@, weight_ptr@"; S0 = "zeroed(old(%s)@, metadata@[0])" % o
    size = lambda ex: hbounds(["0"] * len(ex), [M(x) for x in ex])[1]
    req = ["conv_ok(metadata@, %d)" % D, "metadata@[0] <= old(%s)@.len()" % o, "%s + %s <= input_ptr@.len()" % (M("input_offset"), size(exi)), "%s + %s <= weight_ptr@.len()" % (M("weight_offset"), size(exw)), "%s <= old(%s)@.len()" % (size(exo), o)]
    ens = ["final(%s)@ == nf0(%s, %s, %s)" % (o, A, S0, M("batch"))]
    anns = {}
    if z: anns[0] = Ann(["0 <= i@ <= num_els@"] + done(o, "i@", lambda k: I0), match=None)
    for j, (v, bnd) in enumerate(loops):
        anns[z + j] = Ann(["0 <= %s@ <= %s" % (v, bnd.replace("m[", "metadata@[")), "%s@ == %s" % (o, inv(j, A, S0)), "%s@.len() == old(%s)@.len()" % (o, o)], before="assert(%s@ =~= %s);" % (o, S0) if j == 0 else "")
    kind = {k: "I" for k in list(pos) + ["num_els"] + [v for v, _ in loops] + os_}
    sx = lambda e: spec_expr(e, kind)
    hi, _ = hbounds(["b@", "ic@"] + [x + "@" for x in is_], [M(x) for x in exi]); hw, _ = hbounds(["ic@", "oc@"] + [x + "@" for x in ks], [M(x) for x in exw]); ho, _ = hbounds(["b@", "oc@"] + [x + "@" for x in os_], [M(x) for x in exo])
    IA = M("input_offset") + " + " + horner([v + "@" for v in ["b", "ic"] + is_], [""] + [x + "@" for x in exi[1:]])
    WA = M("weight_offset") + " + " + horner([v + "@" for v in ["ic", "oc"] + ks], [""] + [x + "@" for x in exw[1:]])
    OA = horner([v + "@" for v in ["b", "oc"] + os_], [""] + [x + "@" for x in exo[1:]])
    same = lambda code, spec, off=None: "assert({c} == {s}) by (nonlinear_arith){r};".format(c=arith(sx(code)), s=spec, r=" requires {o}@ == metadata@[{p}]".format(o=off, p=pos[off]) if off else "")
    head = " ".join([hi, hw, ho, same(by["input_ptr"][1], IA, "input_offset"), same(by["weight_ptr"][1], WA, "weight_offset"), same(oidx, OA)]
        + ["assert(o%s@ == p%s(metadata@, i%s@, k%s@));" % (d, d, d, d) for d in ds]
        + ["assert(tia(metadata@, b@, ic@, {p}) == {i}); assert(twa(metadata@, ic@, oc@, {p}) == {w}); assert(toa(metadata@, b@, oc@, {p}) == {o});".format(p=pl("@"), i=IA, w=WA, o=OA)])
    anns[last].head = head
    cond = " ".join("assert(o%s@ == p%s(metadata@, i%s@, k%s@));" % (d, d, d, d) for d in ds)
    return [Fun(t, req, ens, anns, decls=decl, before=[(r"if \(+\w+\(o[dhw],", "proof { %s }" % cond)])]
