"""Contracts of the data-movement kernels."""
from kvc import *
LEMMAS = """
pub open spec fn nd_ok(m: Seq<int>) -> bool { m.len() >= 2 && nonneg(m, 0, m.len() as int) }
"""
M = "metadata@"; ND = "metadata@[1]"
def done(o, i, sp):
    """everything below i written, the rest untouched"""
    return ["{o}@.len() == old({o})@.len()".format(o=o), "forall|k: int| 0 <= k < %s ==> #[trigger] %s@[k] == %s" % (i, o, sp("k")),
            "forall|k: int| %s <= k < %s@.len() ==> #[trigger] %s@[k] == old(%s)@[k]" % (i, o, o, o)]
def post(o, n, sp):
    return ["final({o})@.len() == old({o})@.len()".format(o=o), "forall|k: int| 0 <= k < %s ==> #[trigger] final(%s)@[k] == %s" % (n, o, sp("k")),
            "forall|k: int| %s <= k < old(%s)@.len() ==> #[trigger] final(%s)@[k] == old(%s)@[k]" % (n, o, o, o)]
def names(t):
    """(input buffer, output buffer) of a translated kernel"""
    o = [p.split(":")[0] for p in t.sig if p.endswith("&mut Buf")]
    i = [p.split(":")[0] for p in t.sig if p.endswith(": &Buf")]
    if len(o) != 1 or not i: raise Lost("buffers")
    return i, o[0]
UP = r"^lt\(\w+, (num_dims|ndim)\)$"; DOWN = r"^ge\(\w+, n\(0\)\)$"; POP = r"^let t_\d+ = (\w+);; \1 = decw\(\1\); gt\(t_\d+, n\(0\)\)$"; MAP = r"^lt\(\w+, num_els\)$"

def flip(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); ins, o = names(t); x = ins[0]
    sp = lambda k: "%s@[rm(flipc(metadata@, metadata@[1], %s), metadata@, 2, metadata@[1], 0)]" % (x, k)
    decl = """pub open spec fn flipc(m: Seq<int>, nd: int, id: int) -> spec_fn(int) -> int { |d: int| if m[2 + nd + d] != 0 { m[2 + d] - 1 - coord(m, 2, nd, id, d) } else { coord(m, 2, nd, id, d) } }
pub proof fn lemma_flipc(m: Seq<int>, nd: int, id: int) requires nd >= 0, pos(m, 2, 2 + nd), id >= 0 ensures in_box(flipc(m, nd, id), m, 2, nd, 0)
{ assert forall|d: int| 0 <= d < nd implies 0 <= #[trigger] flipc(m, nd, id)(d) < m[2 + d] by { lemma_coord_range(m, 2, nd, id, d); } }
"""
    C = "flipc(metadata@, metadata@[1], i@)"
    req = ["nd_ok(metadata@)", "metadata@.len() >= 2 + 2 * metadata@[1]", "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "metadata@[0] <= %s@.len()" % x, "metadata@[0] <= old(%s)@.len()" % o]
    anns = {0: Ann(["0 <= i@ <= num_els@"] + done(o, "i@", sp), match=MAP, head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); lemma_flipc(metadata@, metadata@[1], i@); lemma_rm_bound(%s, metadata@, 2, metadata@[1], 0);" % C),
            1: Ann(exb=["0 <= d@ <= num_dims@", "remaining@ == rest(metadata@, 2, metadata@[1], i@, d@)", "input_idx@ == rm(%s, metadata@, 2, metadata@[1], d@)" % C, "in_stride@ == prd(metadata@, 2 + d@, 2 + metadata@[1])"],
                   ens=["input_idx@ == rm(%s, metadata@, 2, metadata@[1], 0)" % C], match=POP,
                   head="lemma_rest_bound(metadata@, 2, metadata@[1], i@, d@ + 1); lemma_mod_bound(remaining@, metadata@[2 + d@]); lemma_mul_is_commutative(in_stride@, metadata@[2 + d@]);")}
    return [Fun(t, req, post(o, "metadata@[0]", sp), anns, decls=decl)]

def split(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); ins, o = names(t); x = ins[0]
    A = "splita(metadata@, metadata@[1], {0})"
    sp = lambda k: "%s@[%s]" % (x, A.format(k))
    decl = """pub open spec fn splits(m: Seq<int>, nd: int) -> Seq<int> { Seq::new(nd as nat, |d: int| if d == m[2 + 2 * nd + 1] { m[2 + 2 * nd + 2] } else { m[2 + d] }) }
pub open spec fn splitc(m: Seq<int>, nd: int, id: int) -> spec_fn(int) -> int { |d: int| coord(splits(m, nd), 0, nd, id, d) + (if d == m[2 + 2 * nd + 1] { m[2 + 2 * nd + 3] } else { 0 }) }
pub open spec fn splita(m: Seq<int>, nd: int, id: int) -> int { m[2 + 2 * nd] + lin(splitc(m, nd, id), m, 2 + nd, nd) }
pub proof fn lemma_rest_ext(a: Seq<int>, b: Seq<int>, nd: int, id: int, d: int) requires 0 <= d <= nd, forall|j: int| 0 <= j < nd ==> a[j] == b[j] ensures rest(a, 0, nd, id, d) == rest(b, 0, nd, id, d) decreases nd - d { if d < nd { lemma_rest_ext(a, b, nd, id, d + 1); } }
"""
    S = "splits(metadata@, metadata@[1])"
    req = ["nd_ok(metadata@)", "metadata@[1] <= 16", "metadata@.len() >= 2 + 2 * metadata@[1] + 4", "metadata@[0] == prd(%s, 0, metadata@[1])" % S, "metadata@[0] <= old(%s)@.len()" % o,
           "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] %s < %s@.len()" % (A.format("k"), x)]
    anns = {0: Ann(["0 <= i@ <= num_dims@", "output_shape@.len() == 16", "forall|j: int| 0 <= j < i@ ==> #[trigger] output_shape@[j] == %s[j]" % S] + done(o, "0", sp), match=UP),
            1: Ann(["0 <= id@ <= num_els@"] + done(o, "id@", sp), match=MAP, head="lemma_prd_pos(%s, 0, metadata@[1]); assert(%s >= 0);" % (S, A.format("id@"))),
            2: Ann(["-1 <= d@ < num_dims@", "output_indices@.len() == 16", "temp@ == rest(%s, 0, metadata@[1], id@, d@ + 1)" % S, "forall|j: int| d@ < j < num_dims@ ==> #[trigger] output_indices@[j] == coord(%s, 0, metadata@[1], id@, j)" % S], match=DOWN,
                   head="lemma_rest_bound(%s, 0, metadata@[1], id@, d@ + 1); assert(%s[d@] > 0); assert(output_shape@[d@] == %s[d@]);" % (S, S, S)),
            3: Ann(["0 <= i@ <= num_dims@", "flat_index@ == input_offset@ + lin(splitc(metadata@, metadata@[1], id@), metadata@, 2 + metadata@[1], i@)"], match=UP, head="assert(output_indices@[i@] == coord(%s, 0, metadata@[1], id@, i@));" % S)}
    pre = "assert(nonneg(%s, 0, metadata@[1]));" % S
    return [Fun(t, req, post(o, "metadata@[0]", sp), anns, decls=decl, pre=pre)]

def concat(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); ins, o = names(t); x = ins[0]
    # which input a coordinate along the axis falls into, and how much of the axis lies before it
    decl = """pub open spec fn cs(m: Seq<int>, nd: int, i: int) -> int { m[4 + nd + i * nd + m[2 + nd]] }
/// extent of the first i inputs along the axis
pub open spec fn cb(m: Seq<int>, nd: int, i: int) -> int decreases i { if i <= 0 { 0 } else { cb(m, nd, i - 1) + cs(m, nd, i - 1) } }
/// input i holds the coordinate q along the axis
pub open spec fn holds(m: Seq<int>, nd: int, i: int, q: int) -> bool { 0 <= i < m[2 + nd + 1] && cb(m, nd, i) <= q < cb(m, nd, i + 1) }
pub open spec fn catc(m: Seq<int>, nd: int, id: int, i: int) -> spec_fn(int) -> int { |d: int| if d == m[2 + nd] { coord(m, 2, nd, id, d) - cb(m, nd, i) } else { coord(m, 2, nd, id, d) } }
/// where input i keeps the element with output position id
pub open spec fn cata(m: Seq<int>, nd: int, id: int, i: int) -> int {
    let ni = m[2 + nd + 1]; let so = 4 + nd; let st = so + ni * nd; let of = st + ni * nd; let bo = of + ni;
    m[bo + i] + (m[of + i] + lin(catc(m, nd, id, i), m, st + i * nd, nd)) }
pub open spec fn catq(m: Seq<int>, nd: int, id: int) -> int { coord(m, 2, nd, id, m[2 + nd]) }
pub proof fn lemma_idx(i: int, ni: int, nd: int, a: int) requires 0 <= i < ni, 0 <= a < nd ensures 0 <= i * nd + a < ni * nd { assert(i * nd + a < (i + 1) * nd) by (nonlinear_arith) requires a < nd; assert((i + 1) * nd <= ni * nd) by (nonlinear_arith) requires i + 1 <= ni, nd >= 0; assert(i * nd >= 0) by (nonlinear_arith) requires i >= 0, nd >= 0; }
pub proof fn lemma_cb_mono(m: Seq<int>, nd: int, i: int, j: int) requires 0 <= i <= j, forall|k: int| i <= k < j ==> #[trigger] cs(m, nd, k) >= 0 ensures cb(m, nd, i) <= cb(m, nd, j) decreases j - i { if i < j { lemma_cb_mono(m, nd, i, j - 1); assert(cs(m, nd, j - 1) >= 0); } }
"""
    N, NI = "metadata@[1]", "metadata@[2 + metadata@[1] + 1]"
    hit = "holds(metadata@, metadata@[1], j, catq(metadata@, metadata@[1], {0}))"
    sp2 = "forall|k: int, j: int| 0 <= k < {n} && %s ==> #[trigger] {o}@[k] == %s@[#[trigger] cata(metadata@, metadata@[1], k, j)]" % (hit.format("k"), x)
    req = ["nd_ok(metadata@)", "metadata@[1] <= 16", "metadata@.len() >= 4 + metadata@[1]", "metadata@.len() >= 4 + metadata@[1] + 2 * (%s * metadata@[1]) + 2 * %s" % (NI, NI), "metadata@[2 + metadata@[1]] < metadata@[1]",
           "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "metadata@[0] <= old(%s)@.len()" % o,
           "cb(metadata@, metadata@[1], %s) == metadata@[2 + metadata@[2 + metadata@[1]]]" % NI,
           "forall|k: int, j: int| 0 <= k < metadata@[0] && %s ==> 0 <= #[trigger] cata(metadata@, metadata@[1], k, j) < %s@.len()" % (hit.format("k"), x)]
    def dn(i): return ["{o}@.len() == old({o})@.len()".format(o=o), sp2.format(n=i, o=o), "forall|k: int| %s <= k < %s@.len() ==> #[trigger] %s@[k] == old(%s)@[k]" % (i, o, o, o)]
    ens = ["final({o})@.len() == old({o})@.len()".format(o=o), sp2.format(n="metadata@[0]", o="final(%s)" % o), "forall|k: int| metadata@[0] <= k < old(%s)@.len() ==> #[trigger] final(%s)@[k] == old(%s)@[k]" % (o, o, o)]
    nn = "lemma_idx({0}, num_inputs@, num_dims@, concat_dim@);"
    anns = {0: Ann(["0 <= id@ <= num_els@"] + dn("id@"), match=MAP, head="lemma_prd_pos(metadata@, 2, 2 + metadata@[1]);",
                   tail="assert forall|k: int, j: int| 0 <= k < id@ + 1 && %s implies #[trigger] %s@[k] == %s@[#[trigger] cata(metadata@, metadata@[1], k, j)] by { if k == id@ { lemma_uniq(metadata@, metadata@[1], tensor_idx@, j, catq(metadata@, metadata@[1], id@)); } }" % (hit.format("k"), o, x)),
            1: Ann(["-1 <= d@ < num_dims@", "output_indices@.len() == 16", "temp@ == rest(metadata@, 2, metadata@[1], id@, d@ + 1)", "forall|j: int| d@ < j < num_dims@ ==> #[trigger] output_indices@[j] == coord(metadata@, 2, metadata@[1], id@, j)"], match=DOWN,
                   head="lemma_rest_bound(metadata@, 2, metadata@[1], id@, d@ + 1);", after="lemma_coord_range(metadata@, 2, metadata@[1], id@, concat_dim@);"),
            2: Ann(exb=["tensor_idx@ == 0", "0 <= i@ <= num_inputs@", "cumulative_size@ == cb(metadata@, metadata@[1], i@)", "cumulative_size@ <= dim_index@"], match=r"^lt\(i, num_inputs\)$",
                   ens=["0 <= tensor_idx@ < num_inputs@", "cumulative_size@ == cb(metadata@, metadata@[1], tensor_idx@)", "holds(metadata@, metadata@[1], tensor_idx@, dim_index@)"],
                   head=nn.format("i@") + " assert(cb(metadata@, metadata@[1], i@ + 1) == cb(metadata@, metadata@[1], i@) + cs(metadata@, metadata@[1], i@));"),
            3: Ann(["0 <= i@ <= num_dims@", "flat_index@ == input_offset@ + lin(catc(metadata@, metadata@[1], id@, tensor_idx@), metadata@, input_stride_off@, i@)", "input_stride_off@ == input_strides_off@ + tensor_idx@ * num_dims@"], match=UP,
                   before="lemma_idx(tensor_idx@, num_inputs@, num_dims@, concat_dim@);", head="lemma_idx(tensor_idx@, num_inputs@, num_dims@, i@); assert(output_indices@[i@] == coord(metadata@, 2, metadata@[1], id@, i@));", after="assert(cata(metadata@, metadata@[1], id@, tensor_idx@) >= 0);")}
    decl += """pub proof fn lemma_uniq(m: Seq<int>, nd: int, i: int, j: int, q: int)
    requires nd_ok(m), holds(m, nd, i, q), holds(m, nd, j, q), 0 <= m[2 + nd] < nd, m.len() >= 4 + nd + m[2 + nd + 1] * nd ensures i == j
{ assert forall|k: int| 0 <= k < m[2 + nd + 1] implies #[trigger] cs(m, nd, k) >= 0 by { lemma_idx(k, m[2 + nd + 1], nd, m[2 + nd]); }
  if i < j { lemma_cb_mono(m, nd, i + 1, j); } else if j < i { lemma_cb_mono(m, nd, j + 1, i); } }
"""
    pre = "assert(metadata@[2 + metadata@[1] + 1] * metadata@[1] >= 0) by (nonlinear_arith) requires metadata@[2 + metadata@[1] + 1] >= 0, metadata@[1] >= 0;"
    return [Fun(t, req, ens, anns, decls=decl, pre=pre)]

PADX = """
/// where the reflection of an axis of the given extent puts position i: the triangular wave of period 2 * (extent - 1)
pub open spec fn z_reflect(i: int, size: int) -> int { let a = if i < 0 { -i } else { i }; let p = 2 * (size - 1); if p > 0 { let r = a % p; if r < size { r } else { p - r } } else { 0 } }
pub open spec fn z_clamp(i: int, size: int) -> int { if i < 0 { 0 } else if i >= size { size - 1 } else { i } }
pub open spec fn z_wrap(i: int, size: int) -> int { i % size }
"""
PAD = {"reflect": ("reflect_index", "z_reflect"), "replicate": ("replicate_index", "z_clamp"), "circular": ("circular_index", "z_wrap")}
def pad_helper(cfile, fn, sp):
    t = T(cfile, fn, callees=CAL).run()
    p = [q.split(":")[0] for q in t.sig]
    if len(p) != 2 or t.loops or t.ret != "I": raise Lost("helper " + fn)
    pre = {"z_reflect": "let a = if idx@ < 0 { -idx@ } else { idx@ }; if size@ > 1 { lemma_mod_bound(a, 2 * (size@ - 1)); if a < size@ { lemma_small_mod(a as nat, (2 * (size@ - 1)) as nat); } }",
           "z_clamp": "", "z_wrap": "lemma_mod_bound(idx@, size@); if idx@ < 0 { let a = -idx@; lemma_fundamental_div_mod(a, size@); lemma_mod_bound(a, size@); let q = a / size@; let r = a % size@; if r > 0 { assert(idx@ == (-q - 1) * size@ + (size@ - r)) by (nonlinear_arith) requires idx@ == -a, a == size@ * q + r; lemma_fundamental_div_mod_converse(idx@, size@, -q - 1, size@ - r); } else { assert(idx@ == (-q) * size@ + 0) by (nonlinear_arith) requires idx@ == -a, a == size@ * q + r, r == 0; lemma_fundamental_div_mod_converse(idx@, size@, -q, 0); } }"}[sp]
    pre = pre.replace("idx@", p[0] + "@").replace("size@", p[1] + "@")
    return Fun(t, ["%s@ > 0" % p[1]], ["r@ == %s(%s@, %s@)" % (sp, "old_" + p[0] if 0 else p[0], p[1]), "0 <= r@ < %s@" % p[1]], {}, pre=pre)

def pad(cfile, fn):
    kind = re.match(r"hodu_cpu_pad_([a-z]+)_", fn).group(1)
    cal = dict(CAL); fs = []
    if kind != "constant": h, hs = PAD[kind]; cal[h] = "I"; fs = [pad_helper(cfile, h, hs)]
    t = T(cfile, fn, callees=cal).run(); ins, o = names(t); x = ins[0]
    g = "coord(m, 2 + nd, nd, id, d) - m[2 + 2 * nd + d]"
    decl = PADX + "pub open spec fn padc(m: Seq<int>, nd: int, id: int) -> spec_fn(int) -> int { |d: int| %s }\n" % (g if kind == "constant" else "%s(%s, m[2 + d])" % (hs, g))
    C = "padc(metadata@, metadata@[1], %s)"; c = C % "i@"
    box = "in_box(%s, metadata@, 2, metadata@[1], 0)"; RM = "rm(%s, metadata@, 2, metadata@[1], {0})"
    val = lambda k: "%s@[%s]" % (x, (RM % (C % k)).format(0))
    sp = val if kind != "constant" else (lambda k: "(if %s { %s } else { %s@[0] })" % (box % (C % k), val(k), ins[1]))
    req = ["nd_ok(metadata@)", "metadata@.len() >= 2 + 3 * metadata@[1]", "metadata@[0] == prd(metadata@, 2 + metadata@[1], 2 + 2 * metadata@[1])", "prd(metadata@, 2, 2 + metadata@[1]) <= %s@.len()" % x, "metadata@[0] <= old(%s)@.len()" % o]
    if kind == "constant": req.append("%s@.len() >= 1" % ins[1])
    else: req.append("pos(metadata@, 2, 2 + metadata@[1])")
    head = "lemma_prd_pos(metadata@, 2 + metadata@[1], 2 + 2 * metadata@[1]); if %s { lemma_rm_bound(%s, metadata@, 2, metadata@[1], 0); }" % (box % c, c)
    if kind != "constant": head = head.replace(" if ", " lemma_padc(metadata@, metadata@[1], i@); if ", 1)
    if kind != "constant": decl += """pub proof fn lemma_padc(m: Seq<int>, nd: int, id: int) requires nd >= 0, pos(m, 2, 2 + nd) ensures in_box(padc(m, nd, id), m, 2, nd, 0)
{ assert forall|d: int| 0 <= d < nd implies 0 <= #[trigger] padc(m, nd, id)(d) < m[2 + d] by { let i = coord(m, 2 + nd, nd, id, d) - m[2 + 2 * nd + d]; let k = m[2 + d]; assert(k > 0); let a = if i < 0 { -i } else { i }; if k > 1 { lemma_mod_bound(a, 2 * (k - 1)); } lemma_mod_bound(i, k); } }
"""
    inv = ["0 <= d@ <= num_dims@", "remaining@ == rest(metadata@, 2 + metadata@[1], metadata@[1], i@, d@)", "input_idx@ == " + (RM % c).format("d@")]
    ens = ["input_idx@ == " + (RM % c).format(0)]
    if kind == "constant":
        inv += ["in_bounds", "in_box(%s, metadata@, 2, metadata@[1], d@)" % c]
        ens = ["in_bounds ==> %s && input_idx@ == %s" % (box % c, (RM % c).format(0)), "!in_bounds ==> !%s" % (box % c)]
    anns = {0: Ann(["0 <= i@ <= num_els@"] + done(o, "i@", sp), match=MAP, head=head),
            1: Ann(exb=inv, ens=ens, match=POP, head="lemma_rest_bound(metadata@, 2 + metadata@[1], metadata@[1], i@, d@ + 1); lemma_mod_bound(remaining@, metadata@[2 + metadata@[1] + d@]); let c1 = %s(d@);" % c,
                   tail="" ),
            2: Ann(["d@ + 1 <= k@ <= num_dims@", "in_stride@ == prd(metadata@, 2 + d@ + 1, 2 + k@)"], match=UP, head="lemma_prd_split(metadata@, 2 + d@ + 1, 2 + k@, 2 + k@ + 1); assert(prd(metadata@, 2 + k@ + 1, 2 + k@ + 1) == 1);",
                   after="assert(%s == %s(d@) * prd(metadata@, 2 + d@ + 1, 2 + metadata@[1]) + %s);" % ((RM % c).format("d@"), c, (RM % c).format("d@ + 1")))}
    return fs + [Fun(t, req, post(o, "metadata@[0]", sp), anns, decls=decl)]

def const_set(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); ins, o = names(t); v = "value@[0]"; bodies = loop_bodies(t.text())
    if ins != ["value"]: raise Lost("buffers")
    decl = """/// where the view keeps its k-th element
pub open spec fn csa(m: Seq<int>, k: int) -> int { m[2 + 2 * m[1]] + strided(m, 2, m, 2 + m[1], m[1], k) }
pub open spec fn cshit(m: Seq<int>, n: int, p: int) -> bool { exists|k: int| 0 <= k < n && #[trigger] csa(m, k) == p }
"""
    def dn(f, n): return ["{f}@.len() == old({o})@.len()".format(f=f, o=o), "forall|k: int| 0 <= k < %s ==> %s@[#[trigger] csa(metadata@, k)] == %s" % (n, f, v),
                       "forall|p: int| 0 <= p < {f}@.len() && !cshit(metadata@, {n}, p) ==> #[trigger] {f}@[p] == old({o})@[p]".format(f=f, o=o, n=n)]
    req = ["nd_ok(metadata@)", "metadata@.len() >= 3 + 2 * metadata@[1]", "metadata@[0] == prd(metadata@, 2, 2 + metadata@[1])", "value@.len() >= 1", "forall|k: int| 0 <= k < metadata@[0] ==> 0 <= #[trigger] csa(metadata@, k) < old(%s)@.len()" % o]
    anns = {}; ws = []
    for w, fields in t.workers.items():
        st = {k: ("PE" if isinstance(q[0], tuple) else q[0]) for k, q in fields.items()}
        wt = T(cfile, w, callees=CAL).run(struct=st)
        if sorted(st) != ["end", "offset", "output", "start", "value"] or wt.loops != 1: raise Lost("worker")
        wd = lambda f, e: ["{f}@.len() == old(output)@.len()".format(f=f), "forall|p: int| 0 <= p < {f}@.len() ==> #[trigger] {f}@[p] == (if offset@ + start@ <= p < offset@ + {e} {{ value }} else {{ old(output)@[p] }})".format(f=f, e=e)]
        ws.append(Fun(wt, ["output_off@ == 0", "0 <= start@ <= end@", "offset@ >= 0", "start@ < end@ ==> offset@ + end@ <= old(output)@.len()"], wd("final(output)", "end@"), {0: Ann(["start@ <= i@ <= end@"] + wd("output", "i@"), match=r"^lt\(i, end\)$")}))
    for k, (hdr, b) in bodies.items():
        m = re.match(r"lt\((\w+), (\w+)\)$", hdr)
        if not m: raise Lost("loop header " + hdr)
        i, h = m.groups()
        if "_worker(" in b:
            ch = "chunk({0}, num_els@ / %s@, num_els@ %% %s@)" % (h, h)
            anns[k] = Ann(["0 <= %s@ <= %s@" % (i, h)] + dn(o, ch.format(i + "@")), before="lemma_chunk_mono(0, 0, num_els@ / {h}@, num_els@ % {h}@); lemma_div_pos_is_pos(num_els@, {h}@); lemma_mod_bound(num_els@, {h}@); assert({c} == 0) by {{ assert(0 * (num_els@ / {h}@) == 0); }};".format(h=h, c=ch.format("0")),
                head="lemma_chunk({i}@, num_els@ / {h}@, num_els@ % {h}@); lemma_chunk_end(num_els@, {h}@); lemma_div_pos_is_pos(num_els@, {h}@); lemma_mod_bound(num_els@, {h}@); lemma_chunk_mono({i}@ + 1, {h}@, num_els@ / {h}@, num_els@ % {h}@); lemma_chunk_mono(0, {i}@, num_els@ / {h}@, num_els@ % {h}@); let c0 = {c0}; let c1 = {c1}; if c0 < c1 {{ assert(csa(metadata@, c0) >= 0); assert(csa(metadata@, c1 - 1) >= 0); }}".format(i=i, h=h, c0=ch.format(i + "@"), c1=ch.format(i + "@ + 1")),
                tail="let c0 = {c0}; let c1 = {c1}; assert forall|p: int| 0 <= p < output@.len() && !cshit(metadata@, c1, p) implies #[trigger] output@[p] == old(output)@[p] by {{ if metadata@[2 + 2 * metadata@[1]] + c0 <= p < metadata@[2 + 2 * metadata@[1]] + c1 {{ let k = p - metadata@[2 + 2 * metadata@[1]]; assert(csa(metadata@, k) == p); }} if cshit(metadata@, c0, p) {{ let k = choose|k: int| 0 <= k < c0 && #[trigger] csa(metadata@, k) == p; assert(csa(metadata@, k) == p); }} }} assert forall|k: int| 0 <= k < c1 implies output@[#[trigger] csa(metadata@, k)] == {v} by {{ if k < c0 {{ }} }}".format(v=v, c0=ch.format(i + "@"), c1=ch.format(i + "@ + 1")),
                after="lemma_chunk_end(num_els@, %s@);" % h)
        elif "set(" in b:
            if h != "num_els": raise Lost("bound")
            anns[k] = Ann(["0 <= %s@ <= metadata@[0]" % i] + dn(o, i + "@"), head="assert(csa(metadata@, %s@) >= 0);" % i,
                tail="assert forall|p: int| 0 <= p < output@.len() && !cshit(metadata@, {i}@ + 1, p) implies #[trigger] output@[p] == old(output)@[p] by {{ assert(csa(metadata@, {i}@) != p); if cshit(metadata@, {i}@, p) {{ let k = choose|k: int| 0 <= k < {i}@ && #[trigger] csa(metadata@, k) == p; assert(csa(metadata@, k) == p); }} }}".format(i=i))
        else: anns[k] = Ann(["0 <= %s@ <= %s@" % (i, h)] + dn(o, "metadata@[0]"))
    pre = "lemma_prd_nonneg(metadata@, 2, 2 + metadata@[1]); if metadata@[0] > 0 { lemma_prd_pos(metadata@, 2, 2 + metadata@[1]); }"
    return ws + [Fun(t, req, dn("final(%s)" % o, "metadata@[0]"), anns, decls=decl, pre=pre)]
