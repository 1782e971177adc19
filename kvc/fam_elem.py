"""Contracts of the element-wise kernels (binary, unary, scalar, cast, bitwise, contiguous):
output[k] = F(operands at logical index k) for every k below the element count, nothing else written.
F is read from the kernel's own general (strided) path; every other path must compute the same."""
import re
from kvc import *
ADDR = {  # operand -> (offset slot, shape slot, stride slot) in terms of nd
 "binary": {"lhs": ("2 + 4 * nd", "2", "2 + 2 * nd"), "rhs": ("2 + 4 * nd + 1", "2 + nd", "2 + 3 * nd")},
 "unary": {"input": ("2 + 2 * nd", "2", "2 + nd")},
}
LEN = {"binary": "4 * nd + 4", "unary": "2 * nd + 3"}
VOPS = {"add": "z_e_add(a0, a1)", "sub": "z_e_sub(a0, a1)", "mul": "z_e_mul(a0, a1)", "div": "z_e_div(a0, a1)", "neg": "z_e_neg(a0)"}
def vop_decls(vops, names):
    s = ""
    for o, (w, k) in sorted(vops.items()):
        t, op = o.split("_", 1); sfx = "f" if t == "f32" else ""
        lane = {"add": "z_e_add({0}, {1})", "sub": "z_e_sub({0}, {1})", "mul": "z_e_mul({0}, {1})", "div": "z_e_div({0}, {1})", "neg": "z_e_neg({0})",
                "abs": "z_e_call_fabs%s({0})" % sfx, "sqrt": "z_e_call_sqrt%s({0})" % sfx, "max": "(if z_e_gt({0}, {1}) {{ {0} }} else {{ {1} }})", "min": "(if z_e_lt({0}, {1}) {{ {0} }} else {{ {1} }})", "fmadd": "z_e_add(z_e_mul({0}, {1}), {2})"}.get(op)
        ps = ", ".join("a%d: W" % i for i in range(k))
        if op.startswith("reduce"):
            s += "pub uninterp spec fn z_v_%s(s: Seq<E>) -> E;\n#[verifier::external_body] pub fn v_%s(a0: W) -> (r: E) ensures r == z_v_%s(a0@) { unimplemented!() }\n" % (o, o, o); continue
        if lane is None:
            s += "#[verifier::external_body] pub fn v_%s(%s) -> (r: W) { unimplemented!() }\n" % (o, ps); continue
        lane = lane.format(*["a%d@[j]" % i for i in range(k)])
        for nm in re.findall(r"z_(e_\w+)\(", lane): names.setdefault(nm, (2, "bool") if nm in ("e_gt", "e_lt") else (2 if nm in ("e_add", "e_sub", "e_mul", "e_div") else 1, "E"))
        s += "#[verifier::external_body] pub fn v_%s(%s) -> (r: W) requires %s ensures r@ == Seq::new(%d as nat, |j: int| %s) { unimplemented!() }\n" % (
            o, ps, ", ".join("a%d@.len() == %d" % (i, w) for i in range(k)), w, lane)
    return s

# ---- symbolic reading of a map-loop body
def stmts(s):
    """[(kind, ...)] of a block's text: ('let', name, expr) ('set', buf, ix, val) ('if', cond, then, else) ('call', text)"""
    out = []; i = 0; s = re.sub(r"/\*.*?\*/", "", s)
    while True:
        while i < len(s) and s[i] in " \n;": i += 1
        if i >= len(s): return out
        if s[i] == "{":
            j = match(s, i); out += stmts(s[i + 1:j]); i = j + 1; continue
        m = re.compile(r"if\s+").match(s, i)
        if m:
            j = m.end(); d = 0
            while not (s[j] == "{" and d == 0):
                d += (s[j] in "(["); d -= (s[j] in ")]")
                if s[j] == "{" and d: j = match(s, j)
                j += 1
            cond = s[m.end():j].strip(); e = match(s, j); th = s[j + 1:e]; el = ""; i = e + 1
            m2 = re.compile(r"\s*else\s*(?=if\b|\{)").match(s, i)
            if m2:
                i = m2.end()
                if s[i] == "{": e = match(s, i); el = s[i + 1:e]; i = e + 1
                else: raise Lost("else if")
            out.append(("if", cond, th, el)); continue
        m = re.compile(r"while ge\(\w+, n\(0\)\)\s*\{").match(s, i)
        if m: i = match(s, m.end() - 1) + 1; out.append(("walk",)); continue      # the coordinate walk: its effect is its annotation's business
        if s.startswith("while", i) or s.startswith("loop", i): raise Lost("inner loop")
        j = i; d = 0
        while not (s[j] == ";" and d == 0):
            d += (s[j] in "([{"); d -= (s[j] in ")]}"); j += 1
        t = s[i:j].strip(); i = j + 1
        m = re.match(r"let (?:mut )?(\w+) = (.*)$", t, re.S)
        if m: out.append(("let", m.group(1), m.group(2))); continue
        m = re.match(r"(\w+) = (.*)$", t, re.S)
        if m: out.append(("let", m.group(1), m.group(2))); continue
        m = re.match(r"set\((.*)\)$", t, re.S)
        if m:
            a = vx.split_top(m.group(1)); out.append(("set", a[0], a[1], a[2])); continue
        if t in ("break", "continue", "return"): raise Lost(t)
        out.append(("call", t))
def subst(e, env):
    return re.sub(r"(?<![\w.])([A-Za-z_]\w*)(?!\s*\(|\w)", lambda m: env.get(m.group(1), m.group(1)), e)
def sym(ss, env, sets):
    for q in ss:
        if q[0] == "let": env[q[1]] = subst(q[2], env)
        elif q[0] == "set": sets.append((q[1], subst(q[2], env), subst(q[3], env)))
        elif q[0] == "if":
            c = subst(q[1], env); e1, e2 = dict(env), dict(env); s1, s2 = [], []
            sym(stmts(q[2]), e1, s1); sym(stmts(q[3]), e2, s2)
            if len(s1) != len(s2): raise Lost("store under a condition")
            for a, b in zip(s1, s2):
                if a[0] != b[0] or a[1] != b[1]: raise Lost("store under a condition")
                sets.append((a[0], a[1], "(if %s { %s } else { %s })" % (c, a[2], b[2])))
            for k in set(e1) | set(e2):
                if e1.get(k) != e2.get(k) and k in env: env[k] = "(if %s { %s } else { %s })" % (c, e1.get(k, k), e2.get(k, k))
        elif q[0] == "walk": pass
        else: raise Lost("statement " + q[1])
def simp(e):
    """`(if true {A} else {B})` -> A"""
    while True:
        m = re.search(r"\(if (true|\(true\)) \{", e)
        if not m: return e
        a = match(e, m.end() - 1); th = e[m.end():a].strip(); j = e.index("{", a + 1); b = match(e, j); k = match(e, m.start())
        e = e[:m.start()] + "(" + th + ")" + e[k + 1:]
def spec_of(val, kinds, addr, i):
    """stored expression -> spec expression over buffers and k"""
    e = simp(re.sub(r"\b\w+_nn\b", "true", val)); out = ""; p = 0
    while True:
        m = re.compile(r"\b(get|iget)\(").search(e, p)
        if not m: out += e[p:]; break
        j = match(e, m.end() - 1); a = vx.split_top(e[m.end():j]); b = a[0].lstrip("& ")
        out += e[p:m.start()] + "%s[%s]" % ("@BUF" + b, addr[b] if b in addr else spec_expr(a[1], kinds)); p = j + 1
    out = re.sub(r"@BUF(\w+)\[", r"\1@[", out)
    return spec_expr(out, {k: v for k, v in kinds.items() if k not in addr})

def straight_env(text, upto):
    """values of the straight-line lets before a loop (all enclosing blocks)"""
    env = {}
    for m in re.finditer(r"let mut (\w+) = (.*?);\n", text[:upto]):
        env[m.group(1)] = m.group(2)
    return env

def elementwise(cfile, fn, form):
    """[Fun...] for a kernel and its workers"""
    t = T(cfile, fn, callees=dict(CAL, **{f: "V" for f in FALLBACKS if f != fn})).run()
    text = t.text(); addr0 = ADDR[form]; out = []
    bodies = loop_bodies(text)
    kinds = {}
    for p in t.sig:
        nm, ty = p.split(": "); kinds[nm] = {"I": "I"}.get(ty, "E")
    bufs = [p.split(": ")[0] for p in t.sig if p.endswith("&Buf")]; obuf = "output"
    if not any(p == "output: &mut Buf" for p in t.sig): raise Lost("no output")
    addr = {b: "%s@[%s] + strided(metadata@, %s, metadata@, %s, nd, k)" % ("metadata", o, s, r) for b, (o, s, r) in addr0.items()}
    env0 = {}
    tops = re.findall(r"^    let mut (\w+) = (.*);$", text, re.M)
    for nm, e in tops:
        env0[nm] = subst(e, env0)
    scal = {nm: v for nm, v in env0.items()}
    # F: the last loop that stores
    F = None
    def loop_sets(k):
        hdr, b = bodies[k]; sets = []; env = dict(); sym(stmts(b), env, sets); return sets
    mapk = {}
    for k in sorted(bodies):
        hdr, b = bodies[k]
        m = re.match(r"lt\((\w+), (\w+)\)$", hdr)
        if re.match(r"ge\(\w+, n\(0\)\)$", hdr): mapk[k] = ("walk", None); continue
        if "_worker(" in b: mapk[k] = ("thread", m)
        elif "vstore(" in b: mapk[k] = ("simd", m)
        elif "set(" in b: mapk[k] = ("map", m)
        else: mapk[k] = ("idle", m)
        if m is None: raise Lost("loop header " + hdr)
    mk = [k for k in mapk if mapk[k][0] == "map"]
    if not mk: raise Lost("no map loop")
    k = mk[-1]; sets = loop_sets(k)
    if len(sets) != 1: raise Lost("stores")
    iv = mapk[k][1].group(1)
    if sets[0][1] != iv: raise Lost("store index %s" % sets[0][1])
    val = subst(sets[0][2], {nm: v for nm, v in scal.items() if nm != iv and nm in scal})
    # scalars read outside the loop
    Fs = spec_of(val, kinds, addr, iv)
    sp = "sp_" + fn
    prm = ["%s: Seq<%s>" % (p.split(": ")[0], "int" if "IBuf" in p else "E") for p in t.sig if p.endswith("&Buf") or p.endswith("&IBuf")]
    for p in t.sig:
        if p.endswith(": I") or p.endswith(": E"): prm.append("%s: %s" % (p.split(": ")[0], "int" if p.endswith("I") else "E"))
    pn = [p.split(": ")[0] for p in prm]
    scalar_I = {p.split(": ")[0] for p in t.sig if p.endswith(": I")}
    nob = lambda e: re.sub(r"\b(%s)@" % "|".join(pn), r"\1", e)
    decl = "pub open spec fn %s(%s, k: int) -> E { let nd = metadata[1]; %s }\n" % (sp, ", ".join(prm), nob(Fs))
    act = ", ".join((q + "@" if (q in scalar_I or any(p.startswith(q + ": &") for p in t.sig)) else q) for q in pn)
    SP = lambda kk: "%s(%s, %s)" % (sp, act, kk)
    # scalars used as elements must be readable
    req = ["nd_ok(metadata@)" , "metadata@.len() >= " + LEN[form].replace("nd", "metadata@[1]"), "metadata@[0] <= output@.len()"]
    for p in t.sig:
        if p.endswith(": bool") and p.split(": ")[0].endswith("_nn"): req.append(p.split(": ")[0])
    nd = lambda e: re.sub(r"\bnd\b", "metadata@[1]", e)
    for b, (o, s, r) in addr0.items():
        req.append("metadata@[0] == prd(metadata@, %s, %s + metadata@[1])" % (nd(s), nd(s)))
        req.append("forall|k: int| 0 <= k < metadata@[0] ==> 0 <= metadata@[%s] + #[trigger] strided(metadata@, %s, metadata@, %s, metadata@[1], k) < %s@.len()" % (nd(o), nd(s), nd(r), b))
    for b in bufs:
        if b not in addr0: req.append("%s@.len() >= 1" % b)
    N = "metadata@[0]"
    ens = ["final(output)@.len() == old(output)@.len()", "forall|k: int| 0 <= k < metadata@[0] ==> #[trigger] final(output)@[k] == " + SP("k"),
           "forall|k: int| metadata@[0] <= k < old(output)@.len() ==> #[trigger] final(output)@[k] == old(output)@[k]"]
    req = [q.replace("output@", "old(output)@") for q in req]
    def done(hi): return ["output@.len() == old(output)@.len()", "forall|k: int| 0 <= k < %s ==> #[trigger] output@[k] == %s" % (hi, SP("k")),
                          "forall|k: int| %s <= k < output@.len() ==> #[trigger] output@[k] == old(output)@[k]" % hi]
    acc = " ".join("assert(metadata@[%s] + strided(metadata@, %s, metadata@, %s, metadata@[1], {0}) >= 0);" % (nd(o), nd(s), nd(r)) for b, (o, s, r) in addr0.items())
    anns = {}
    for k, (kind, m) in mapk.items():
        if kind == "walk":
            host = [j for j in mapk if mapk[j][0] == "map" and "/*LOOP %d " % k in bodies[j][1]]
            if len(host) != 1: raise Lost("walk outside a map")
            anns[k] = walk(bodies[k][1], bodies[host[0]][1], mapk[host[0]][1].group(1), addr0, nd, req); continue
        iv, hi = m.group(1), m.group(2)
        if kind == "map": anns[k] = Ann(inv=["0 <= %s@ <= %s" % (iv, N), "%s@ == %s" % (hi, N)] + done(iv + "@"), head=acc.format(iv + "@"))
        elif kind == "simd":
            w = re.search(r"vstore\(\w+, [^;]*?n\((\d+)\)", bodies[k][1])
            if not w: raise Lost("vector width")
            w = int(w.group(1))
            anns[k] = Ann(inv=["0 <= %s@ <= %s@ <= %s" % (iv, hi, N), "%s@ %% %d == 0" % (iv, w), "%s@ %% %d == 0" % (hi, w)] + done(iv + "@"),
                          head=" ".join(acc.format("%s@ + %d" % (iv, j)) for j in range(w)))
        elif kind == "thread":
            wm = re.search(r"(\w+_worker)\(", bodies[k][1])
            c, r = "chunk_size@", "remaining@"
            if re.search(r"let (?:mut )?args_start = mul\(%s, chunk_size\);" % iv, bodies[k][1]):
                q = "(num_els@ / %s@)" % hi; B = "(if {0} == %s@ {{ num_els@ }} else {{ ({0}) * %s }})" % (hi, q)
                anns[k] = Ann(inv=["0 <= %s@ <= %s@" % (iv, hi)] + done(B.format(iv + "@")),
                    before="lemma_fundamental_div_mod(num_els@, {h}@); lemma_mod_bound(num_els@, {h}@); lemma_div_pos_is_pos(num_els@, {h}@); assert(0 * {q} == 0);".format(h=hi, q=q),
                    head="lemma_even({i}@, {h}@, num_els@); let c0 = {i}@ * {q}; let c1 = {b}; if c0 < c1 {{ {a0} {a1} }}".format(i=iv, h=hi, q=q, b=B.format(iv + "@ + 1"), a0=acc.format("c0"), a1=acc.format("c1 - 1")))
                continue
            anns[k] = Ann(inv=["0 <= %s@ <= %s@" % (iv, hi)] + done("chunk(%s@, num_els@ / %s@, num_els@ %% %s@)" % (iv, hi, hi)),
                          before="lemma_chunk_mono(0, 0, num_els@ / {h}@, num_els@ % {h}@); lemma_div_pos_is_pos(num_els@, {h}@); lemma_mod_bound(num_els@, {h}@); assert(chunk(0, num_els@ / {h}@, num_els@ % {h}@) == 0) by {{ assert(0 * (num_els@ / {h}@) == 0); }};".format(h=hi),
                          head="lemma_chunk({i}@, num_els@ / {h}@, num_els@ % {h}@); lemma_chunk_end(num_els@, {h}@); lemma_div_pos_is_pos(num_els@, {h}@); lemma_mod_bound(num_els@, {h}@); lemma_chunk_mono({i}@ + 1, {h}@, num_els@ / {h}@, num_els@ % {h}@); lemma_chunk_mono(0, {i}@, num_els@ / {h}@, num_els@ % {h}@); let c0 = chunk({i}@, num_els@ / {h}@, num_els@ % {h}@); let c1 = chunk({i}@ + 1, num_els@ / {h}@, num_els@ % {h}@); if c0 < c1 {{ {a0} {a1} }}".format(
                              i=iv, h=hi, a0=acc.format("c0"), a1=acc.format("c1 - 1")),
                          after="lemma_chunk_end(num_els@, %s@);" % hi)
            if "num_els" not in env0: raise Lost("num_els")
        else:
            anns[k] = Ann(inv=["0 <= %s@ <= %s@" % (iv, hi)] + done(N))
    for w, fields in t.workers.items():
        ws = worker(cfile, w, fields); out += ws; nullable_args(t, ws[0].t, fields)
    bef = []
    if re.search(r"(?<![\w])copy\(", text):
        bef = [(r"(?<![\w])copy\(", "proof { if metadata@[0] > 0 { %s %s } }" % (acc.format("0"), acc.format("metadata@[0] - 1")))]
    pre = " ".join("lemma_prd_pos0(metadata@, %s, %s + metadata@[1]);" % (nd(s), nd(s)) for b, (o, s, r) in addr0.items())
    f = Fun(t, req, ens, anns, pre=pre, decls=decl, covers=[fn], before=bef)
    out.append(f); return out

def walk(body, host, iv, addr0, nd, req):
    """the loop that takes an index apart, axis by axis from the last, and adds coordinate * stride"""
    b = re.sub(r"/\*.*?\*/", "", body); ss = stmts(b); co = acc = None; offs = []; left = None; shp = None; dv = None
    for q in ss:
        if q[0] != "let": raise Lost("walk statement")
        m = re.match(r"rem\((\w+), iget\(metadata, add\((\w+), (\w+)\)\)\)$", q[2])
        if m: co, left, shp, dv = q[1], m.group(1), m.group(2), m.group(3); continue
        m = re.match(r"add\((\w+), mul\((\w+), iget\(metadata, add\((\w+), (\w+)\)\)\)\)$", q[2])
        if m and m.group(1) == q[1] and m.group(2) == co: offs.append((q[1], m.group(3))); continue
        if q[1] == left or q[1] == dv or re.match(r"t_\d+$", q[1]): continue
        raise Lost("walk statement " + str(q))
    if not co or not offs: raise Lost("walk")
    A = "metadata@, %s@, metadata@, %s@, num_dims@, %s@, {0}"
    inv = ["-1 <= %s@ < num_dims@" % dv, "%s@ == rest(metadata@, %s@, num_dims@, %s@, %s@ + 1)" % (left, shp, iv, dv)]; after = ""; 
    for x, st in offs:
        m = re.search(r"let mut %s = (.*?);" % x, host)
        if not m: raise Lost("walk start")
        init = m.group(1); init = init + "@" if re.match(r"\w+$", init) else "0" if init == "n(0)" else None
        if init is None: raise Lost("walk start")
        inv.append("%s@ == %s + dots(%s)" % (x, init, (A % (shp, st, iv)).format(dv + "@ + 1")))
        for bb, (o, s, r) in addr0.items(): after += "lemma_dots_ext(metadata@, %s@, %s, metadata@, %s@, num_dims@, %s@, 0); " % (shp, nd(s), st, iv)
    for bb, (o, s, r) in addr0.items():
        if s != "2": req.append("same(metadata@, 2, %s, metadata@[1])" % nd(s))
    return Ann(inv, head="lemma_rest_bound(metadata@, %s@, num_dims@, %s@, %s@ + 1); lemma_mod_bound(%s@, metadata@[%s@ + %s@]);" % (shp, iv, dv, left, shp, dv), before="lemma_prd_pos(metadata@, %s@, %s@ + num_dims@);" % (shp, shp), after=after)

def nullable_args(t, wt, fields):
    """pass the null tests of a worker's pointers at its call site"""
    for f in sorted(wt.nullable):
        base = fields[f][0][1]; have = any(p == base + "_nn: bool" for p in t.sig)
        pos = [p.split(":")[0] for p in wt.sig].index(f + "_nn")
        for i, l in enumerate(t.out):
            m = re.search(r"\b%s\(" % wt.fn, l)
            if m:
                a = args_of(l, m.end() - 1); a.insert(pos, base + "_nn" if have else "true"); t.out[i] = l[:m.end()] + ", ".join(a) + ");"

def worker(cfile, w, fields):
    """a thread worker: its own map, over [start, end)"""
    st = {}
    for k, v in fields.items(): st[k] = "PE" if isinstance(v[0], tuple) else v[0]
    if any(v not in ("PE", "I", "E") for v in st.values()): raise Lost("worker field")
    t = T(cfile, w, callees=CAL).run(struct=st); text = t.text(); bodies = loop_bodies(text)
    kinds = {}
    for p in t.sig:
        nm, ty = p.split(": "); kinds[nm] = "I" if ty == "I" else "E"
    chosen = None; ivs = {}
    for k, (hdr, b) in sorted(bodies.items()):
        m = re.match(r"lt\((\w+), (\w+)\)$", hdr)
        if not m: raise Lost("worker header")
        sets = []; sym(stmts(b), {}, sets)
        if len(sets) != 1: raise Lost("worker stores")
        iv = ivs[k] = m.group(1); kinds[iv] = "I"
        ob, ix, val = sets[0]; val = simp(re.sub(r"\b\w+_nn\b", "true", val))
        if ix not in ("add(%s_off, %s)" % (ob, iv),): raise Lost("worker store index " + ix)
        if chosen is None and not re.search(r"get\(%s\b" % ob, val): chosen = (ob, iv, val)
    if not chosen: raise Lost("worker stores")
    ob, iv, val = chosen
    nok = lambda e: re.sub(r"\b%s@" % iv, "k", e)
    F = nok(spec_of(val, kinds, {}, iv))
    gets = []; e = val; p = 0
    while True:
        g = re.compile(r"\bget\(").search(e, p)
        if not g: break
        a = args_of(e, g.end() - 1); gets.append((a[0], nok(spec_expr(a[1], kinds)))); p = g.end()
    if "start" not in st or "end" not in st: raise Lost("worker range")
    req = ["%s_off@ == 0" % ob, "0 <= start@ <= end@ <= old(%s)@.len()" % ob]
    for p in t.sig:
        if p.endswith("_off: I") and p != "%s_off: I" % ob: req.append("%s@ == 0" % p.split(":")[0])
    for p in t.sig:
        if p.endswith("_nn: bool"): req.append(p.split(":")[0])
    for g0, g1 in gets:
        if g0 == ob: raise Lost("worker reads its output")
        req.append("start@ < end@ ==> 0 <= %s && %s < %s@.len()" % (re.sub(r"\bk\b", "start@", g1), re.sub(r"\bk\b", "(end@ - 1)", g1), g0))
    ens = ["final({o})@.len() == old({o})@.len()".format(o=ob), "forall|k: int| start@ <= k < end@ ==> #[trigger] final(%s)@[k] == %s" % (ob, F),
           "forall|k: int| 0 <= k < old({o})@.len() && !(start@ <= k < end@) ==> #[trigger] final({o})@[k] == old({o})@[k]".format(o=ob)]
    anns = {}
    for k, iv in ivs.items():
        anns[k] = Ann(inv=["start@ <= %s@ <= end@" % iv, "{o}@.len() == old({o})@.len()".format(o=ob), "forall|k: int| start@ <= k < %s@ ==> #[trigger] %s@[k] == %s" % (iv, ob, F),
                   "forall|k: int| 0 <= k < {o}@.len() && !(start@ <= k < {i}@) ==> #[trigger] {o}@[k] == old({o})@[k]".format(o=ob, i=iv)])
    return [Fun(t, req, ens, anns)]
FALLBACKS = ("hodu_cpu_mul_scalar_f32_fallback", "hodu_cpu_mul_scalar_f64_fallback")
LEMMAS = """
/// the nd entries from a and from b agree
pub open spec fn same(m: Seq<int>, a: int, b: int, nd: int) -> bool { forall|j: int| a <= j < a + nd ==> #[trigger] m[j] == m[j - a + b] }
pub proof fn lemma_dots_ext(m: Seq<int>, a: int, b: int, t: Seq<int>, st: int, nd: int, idx: int, d: int)
    requires 0 <= d <= nd, same(m, a, b, nd) ensures dots(m, a, t, st, nd, idx, d) == dots(m, b, t, st, nd, idx, d), rest(m, a, nd, idx, d) == rest(m, b, nd, idx, d) decreases nd - d
{ if d < nd { lemma_dots_ext(m, a, b, t, st, nd, idx, d + 1); assert(m[a + d] == m[b + d]); } }
pub proof fn lemma_even(t: int, h: int, n: int) requires 0 <= t < h, n >= 0 ensures t * (n / h) + n / h == (t + 1) * (n / h), (t + 1) * (n / h) <= n, t + 1 == h ==> (t + 1) * (n / h) + n % h == n, 0 <= t * (n / h), n / h >= 0, n % h >= 0
{ lemma_fundamental_div_mod(n, h); lemma_mod_bound(n, h); lemma_div_pos_is_pos(n, h); let q = n / h; assert(t * q + q == (t + 1) * q) by (nonlinear_arith); assert((t + 1) * q <= h * q) by (nonlinear_arith) requires t + 1 <= h, q >= 0; assert(0 <= t * q) by (nonlinear_arith) requires t >= 0, q >= 0; }
pub open spec fn nd_ok(m: Seq<int>) -> bool { m.len() >= 2 && nonneg(m, 0, m.len() as int) }
pub proof fn lemma_prd_pos0(m: Seq<int>, a: int, b: int) requires nonneg(m, a, b) ensures prd(m, a, b) >= 0, prd(m, a, b) > 0 ==> pos(m, a, b) { lemma_prd_nonneg(m, a, b); if prd(m, a, b) > 0 { lemma_prd_pos(m, a, b); } }
"""
if __name__ == "__main__":
    import sys
    fs = elementwise(sys.argv[1], sys.argv[2], sys.argv[3])
    hs = helpers(sys.argv[1])
    ops = {}
    for f in fs: ops.update(f.t.eops)
    vo = {}
    for f in fs: vo.update(f.t.vops)
    vd = vop_decls(vo, ops)
    txt = PRE + TRUSTED_HELPERS + LEMMAS + eop_decls(ops) + vd + "".join(f.text() for f in hs + fs) + vx.END
    r = vx.run_verus(txt, "t", 30, keep="/tmp/t.rs")
    print(r["json"].get("verification-results"), r["wall"]); print(vx.brief(r, txt))
    if not (r["json"].get("verification-results") or {}).get("verified"): print(r["err"][:3000])
