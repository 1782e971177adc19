"""Contracts of the matrix products: output[i, j] is the in-order sum over k of lhs[i, k] * rhs[k, j], in the type's own addition and
multiplication, starting from zero, whichever path (threads, blocks, strides, batches) computes it; nothing else is written."""
import re
from kvc import *
import fam_elem
LEMMAS = fam_elem.LEMMAS + """
/// address of entry (i, k) of a strided matrix
pub open spec fn la(o: int, sm: int, sk: int, i: int, k: int) -> int { o + i * sm + k * sk }
/// entry (r, c) of a row-major matrix of n columns
pub open spec fn rc(n: int, r: int, c: int) -> int { r * n + c }
pub open spec fn at(o: Seq<E>, n: int, r: int, c: int) -> E { o[rc(n, r, c)] }
pub open spec fn mn(a: int, b: int) -> int { if a < b { a } else { b } }
pub proof fn lemma_at(n: int, m: int, r: int, c: int) requires 0 <= r < m, 0 <= c < n ensures 0 <= r * n + c < m * n, r * n >= 0
{ assert(r * n + c < m * n) by (nonlinear_arith) requires r + 1 <= m, c < n, n > 0; assert(r * n >= 0) by (nonlinear_arith) requires r >= 0, n >= 0; }
pub proof fn lemma_at_all(n: int, m: int) ensures forall|r: int, c: int| 0 <= r < m && 0 <= c < n ==> 0 <= #[trigger] rc(n, r, c) < m * n
{ assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n implies 0 <= #[trigger] rc(n, r, c) < m * n by { lemma_at(n, m, r, c); } }
pub proof fn lemma_at_set(o: Seq<E>, p: Seq<E>, n: int, m: int, i: int, j: int)
    requires 0 <= i < m, 0 <= j < n, m * n <= o.len(), p == o.update(i * n + j, p[i * n + j])
    ensures p.len() == o.len(), forall|r: int, c: int| 0 <= r < m && 0 <= c < n && (r != i || c != j) ==> #[trigger] at(p, n, r, c) == at(o, n, r, c), forall|q: int| m * n <= q < o.len() ==> #[trigger] p[q] == o[q]
{
    lemma_at(n, m, i, j);
    assert forall|r: int, c: int| 0 <= r < m && 0 <= c < n && (r != i || c != j) implies #[trigger] at(p, n, r, c) == at(o, n, r, c) by {
        lemma_at(n, m, r, c);
        if r < i { assert(r * n + n <= i * n) by (nonlinear_arith) requires r + 1 <= i, n >= 0; } else if r > i { assert(i * n + n <= r * n) by (nonlinear_arith) requires i + 1 <= r, n >= 0; }
        assert(rc(n, r, c) != rc(n, i, j));
    }
}
"""
def ops(t):
    ad = [o for o in t.eops if re.fullmatch(r"e_add|e_call_\w+_add", o)]; mu = [o for o in t.eops if re.fullmatch(r"e_mul|e_call_\w+_mul", o)]
    if len(ad) != 1 or len(mu) != 1: raise Lost("operations %s" % sorted(t.eops))
    return "z_" + ad[0], "z_" + mu[0]
def dotf(t):
    ad, mu = ops(t)
    return """
/// the first k terms of entry (i, j) of the product, added in order
pub open spec fn dotf(l: Seq<E>, r: Seq<E>, lo: int, lm: int, lk: int, ro: int, rk: int, rn: int, i: int, j: int, k: int) -> E decreases k
{ if k <= 0 { z_e_of(0) } else { %s(dotf(l, r, lo, lm, lk, ro, rk, rn, i, j, k - 1), %s(l[la(lo, lm, lk, i, k - 1)], r[la(ro, rn, rk, j, k - 1)])) } }
""" % (ad, mu)
RC = "forall|r: int, c: int| 0 <= r < {M} && 0 <= c < {N} ==> #[trigger] at({o}, {N}, r, c) == "
def readable(b, o, sm, sk, i, k): return "forall|i: int, k: int| 0 <= i < %s && 0 <= k < %s ==> 0 <= #[trigger] la(%s, %s, %s, i, k) < %s@.len()" % (i, k, o, sm, sk, b)

def worker(cfile, w, fields):
    st = {k: "PE" if isinstance(v[0], tuple) else v[0] for k, v in fields.items()}
    want = dict(lhs="PE", rhs="PE", output="PE", start_row="I", end_row="I", M="I", K="I", N="I")
    if st != want: raise Lost("worker fields")
    t = T(cfile, w, callees=CAL).run(struct=st)
    if t.loop_headers != ["lt(i, end_row)", "lt(j, N)", "lt(k, K)"]: raise Lost("worker loops")
    D = lambda r, c, k: "dotf(lhs@, rhs@, 0, K@, 1, 0, N@, 1, %s, %s, %s)" % (r, c, k)
    req = ["lhs_off@ == 0", "rhs_off@ == 0", "output_off@ == 0", "0 <= start_row@ <= end_row@ <= M@", "0 <= K@", "0 <= N@", "M@ * N@ <= old(output)@.len()",
           readable("lhs", "0", "K@", "1", "M@", "K@"), readable("rhs", "0", "1", "N@", "N@", "K@")]
    O = "output@"
    def state(o, cond, prev):
        return ["{o}.len() == old(output)@.len()".format(o=o), "forall|r: int, c: int| 0 <= r < M@ && 0 <= c < N@ && (%s) ==> #[trigger] at(%s, N@, r, c) == %s" % (cond, o, D("r", "c", "K@")),
                "forall|r: int, c: int| 0 <= r < M@ && 0 <= c < N@ && !(%s) ==> #[trigger] at(%s, N@, r, c) == at(old(output)@, N@, r, c)" % (cond, o), "forall|q: int| M@ * N@ <= q < %s.len() ==> #[trigger] %s[q] == old(output)@[q]" % (o, o)]
    ens = state("final(output)@", "start_row@ <= r < end_row@", "")
    anns = {0: Ann(["start_row@ <= i@ <= end_row@"] + state(O, "start_row@ <= r < i@", "")),
            1: Ann(["0 <= j@ <= N@"] + state(O, "start_row@ <= r < i@ || (r == i@ && c < j@)", "")),
            2: Ann(["0 <= k@ <= K@", "sum == " + D("i@", "j@", "k@")], head="let x = la(0, K@, 1, i@, k@); let y = la(0, 1, N@, j@, k@); assert(i@ * K@ + k@ == x); assert(k@ * N@ + j@ == y); assert(0 <= x && 0 <= y);", before="lemma_at(N@, M@, i@, j@);")}
    anns[1].tail = "lemma_at_set(o0, output@, N@, M@, i@, j@);"
    return Fun(t, req, ens, anns, before=[(r"set\(output,", "let ghost o0 = output@;")])

def dot(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); text = t.text(); o = "output_ptr"
    if [p.split(":")[0] for p in t.sig] != ["lhs_ptr", "rhs_ptr", o, "metadata"]: raise Lost("parameters")
    H = t.loop_headers; z = H[:1] == ["lt(i, mul(M, N))"]
    blk = ["lt(ii, M)", "lt(kk, K)", "lt(jj, N)"]; reg = ["lt(ir, subu(i_reg_end, i))", "lt(jr, subu(j_reg_end, j))"]
    want = ["lt(t, num_threads)"] * 2 + blk + ["lt(i, i_end)", "lt(j, j_end)"] + reg + ["lt(k, k_end)"] + reg + reg + blk + ["lt(i, i_end)", "lt(k, k_end)", "lt(j, j_end)"]
    if H[z:] != want: raise Lost("loops")
    m = "metadata@"; M, K, N = m + "[0]", m + "[1]", m + "[2]"; lm, lk, rk, rn, lo, ro = ["%s[%d]" % (m, q) for q in range(3, 9)]
    D = lambda r, c, k: "dotf(lhs_ptr@, rhs_ptr@, %s, %s, %s)" % (", ".join([lo, lm, lk, ro, rk, rn]), "%s, %s" % (r, c), k)
    def st(cnt, ob=o + "@"): return ["%s.len() == old(%s)@.len()" % (ob, o), RC.format(M=M, N=N, o=ob) + D("r", "c", cnt), "forall|q: int| %s * %s <= q < %s.len() ==> #[trigger] %s[q] == old(%s)@[q]" % (M, N, ob, ob, o)]
    req = ["metadata@.len() >= 9", "nonneg(metadata@, 0, 9)", "%s * %s <= old(%s)@.len()" % (M, N, o), readable("lhs_ptr", lo, lm, lk, M, K), readable("rhs_ptr", ro, rn, rk, N, K)]
    ens = st(K, "final(%s)@" % o)
    b = z; A = {}
    if z: A[0] = Ann(["0 <= i@ <= %s * %s" % (M, N), "%s@.len() == old(%s)@.len()" % (o, o), "forall|q: int| 0 <= q < i@ ==> #[trigger] %s@[q] == z_e_of(0)" % o, "forall|q: int| i@ <= q < %s@.len() ==> #[trigger] %s@[q] == old(%s)@[q]" % (o, o, o)],
                     before="assert(M@ * N@ >= 0) by (nonlinear_arith) requires M@ >= 0, N@ >= 0;")
    q = "(M@ / num_threads@)"; B = "(if {0} == num_threads@ {{ M@ }} else {{ ({0}) * %s }})" % q
    A[b] = Ann(["0 <= t@ <= num_threads@"] + st("(if r < %s { %s } else { 0 })" % (B.format("t@"), K)), before="assert(0 * %s == 0); lemma_fundamental_div_mod(M@, num_threads@);" % q,
               head="lemma_even(t@, num_threads@, M@); assert forall|i: int, k: int| 0 <= i < M@ && 0 <= k < K@ implies 0 <= #[trigger] la(0, K@, 1, i, k) < lhs_ptr@.len() by { assert(la(0, K@, 1, i, k) == la(%s, %s, %s, i, k)); } assert forall|i: int, k: int| 0 <= i < N@ && 0 <= k < K@ implies 0 <= #[trigger] la(0, 1, N@, i, k) < rhs_ptr@.len() by { assert(la(0, 1, N@, i, k) == la(%s, %s, %s, i, k)); }" % (lo, lm, lk, ro, rn, rk))
    A[b + 1] = Ann(["0 <= t@ <= num_threads@"])
    kc = lambda e: "(if c < %s { k_end@ } else { kk@ })" % e
    if_ = lambda *ps: "".join("if %s { %s } else " % p for p in ps[:-1]) + "{ %s }" % ps[-1]
    w = lambda *ps: "(" + if_(*ps) + ")"
    head = ("r < ii@", K)
    L = {"ii": w(head, "0int"), "kk": w(head, ("r < i_end@", "mn(kk@, K@)"), "0int"), "jj": w(head, ("r < i_end@", kc("jj@")), "0int"),
         "i": w(head, ("r < mn(i@, i_end@)", kc("j_end@")), ("r < i_end@", kc("jj@")), "0int"),
         "j": w(head, ("r < i@", kc("j_end@")), ("r < i_reg_end@", kc("mn(j@, j_end@)")), ("r < i_end@", kc("jj@")), "0int"),
         "ir": w(head, ("r < i@", kc("j_end@")), ("r < i_reg_end@", "(if c < j@ || (c < j_reg_end@ && r < i@ + ir@) { k_end@ } else { kk@ })"), ("r < i_end@", kc("jj@")), "0int"),
         "jr": w(head, ("r < i@", kc("j_end@")), ("r < i_reg_end@", "(if c < j@ || (c < j_reg_end@ && r < i@ + ir@) || (r == i@ + ir@ && c < j@ + jr@) { k_end@ } else { kk@ })"), ("r < i_end@", kc("jj@")), "0int"),
         "k": w(head, ("r < i@", kc("j_end@")), ("r == i@", "(if c < jj@ { k_end@ } else if c < j_end@ { k@ } else { kk@ })"), ("r < i_end@", kc("jj@")), "0int"),
         "sj": w(head, ("r < i@", kc("j_end@")), ("r == i@", "(if c < jj@ { k_end@ } else if c < j@ { k@ + 1 } else if c < j_end@ { k@ } else { kk@ })"), ("r < i_end@", kc("jj@")), "0int")}
    for s in (b + 2, b + 14):
        A[s] = Ann(["0 <= ii@"] + st(L["ii"])); A[s + 1] = Ann(["0 <= kk@"] + st(L["kk"])); A[s + 2] = Ann(["0 <= jj@"] + st(L["jj"])); A[s + 3] = Ann(["ii@ <= i@"] + st(L["i"]))
    wd = re.search(r"let mut acc = buf\w*\(n\((\d+)\)\)", text)
    row = re.search(r"get\(&acc, add\(mul\(ir, n\((\d+)\)\), jr\)\)", text)
    if not wd or not row: raise Lost("accumulators")
    R, C = int(wd.group(1)) // int(row.group(1)), int(row.group(1)); AC = "acc@.len() == %d" % (R * C)
    acc = lambda cond, k: "forall|x: int, y: int| 0 <= x < i_reg_end@ - i@ && 0 <= y < j_reg_end@ - j@ && (%s) ==> #[trigger] at(acc@, %d, x, y) == %s" % (cond, C, D("i@ + x", "j@ + y", k))
    IR = ["0 <= ir@ <= i_reg_end@ - i@", AC]; JR = ["0 <= jr@ <= j_reg_end@ - j@", AC]
    setacc = "lemma_at_set(a0, acc@, %d, %d, ir@, jr@);" % (C, R)
    cell = "lemma_at(N@, M@, i@ + ir@, j@ + jr@); lemma_at({C}, {R}, ir@, jr@);".format(C=C, R=R)
    A[b + 6] = Ann(["jj@ <= j@"] + st(L["j"]))
    A[b + 7] = Ann(IR + st(L["j"]) + [acc("x < ir@", "kk@")]); A[b + 8] = Ann(JR + st(L["j"]) + [acc("x < ir@ || (x == ir@ && y < jr@)", "kk@")], head=cell + " assert(at(%s@, N@, i@ + ir@, j@ + jr@) == %s);" % (o, D("i@ + ir@", "j@ + jr@", "kk@")), tail=setacc)
    A[b + 9] = Ann(["kk@ <= k@ <= k_end@", AC] + st(L["j"]) + [acc("true", "k@")])
    A[b + 10] = Ann(IR + [acc("true", "(if x < ir@ { k@ + 1 } else { k@ })")], head="assert((i@ + ir@) * K@ + k@ == la({lo}, {lm}, {lk}, i@ + ir@, k@));".format(lo=lo, lm=lm, lk=lk))
    A[b + 11] = Ann(JR + [acc("true", "(if x < ir@ || (x == ir@ && y < jr@) { k@ + 1 } else { k@ })")], tail=setacc,
                    head=cell + " assert(k@ * N@ + (j@ + jr@) == la({ro}, {rn}, {rk}, j@ + jr@, k@)); assert(at(acc@, {C}, ir@, jr@) == {d});".format(ro=ro, rn=rn, rk=rk, C=C, d=D("i@ + ir@", "j@ + jr@", "k@")))
    A[b + 12] = Ann(IR + st(L["ir"]) + [acc("true", "k_end@")]); A[b + 13] = Ann(JR + st(L["jr"]) + [acc("true", "k_end@")], head=cell + " assert(at(acc@, {C}, ir@, jr@) == {d});".format(C=C, d=D("i@ + ir@", "j@ + jr@", "k_end@")), tail="lemma_at_set(o0, %s@, N@, M@, i@ + ir@, j@ + jr@);" % o)
    A[b + 18] = Ann(["kk@ <= k@ <= k_end@"] + st(L["k"]), head="assert(la({lo}, {lm}, {lk}, i@, k@) >= 0);".format(lo=lo, lm=lm, lk=lk))
    A[b + 19] = Ann(["jj@ <= j@ <= j_end@"] + st(L["sj"]), head="lemma_at(N@, M@, i@, j@); assert(la({ro}, {rn}, {rk}, j@, k@) >= 0); assert(at({o}@, N@, i@, j@) == {d});".format(ro=ro, rn=rn, rk=rk, o=o, d=D("i@", "j@", "k@")), tail="lemma_at_set(o0, %s@, N@, M@, i@, j@);" % o)
    # b + 14 .. b + 17 are the strided ii, kk, jj, i
    before = [(r"set\(%s, (?!i\b)" % o, "let ghost o0 = %s@;" % o), (r"(let v_\d+ = [^;]*; let i_\d+ = [^;]*;\s*)?set\(&mut acc,", "let ghost a0 = acc@;"),
              (r"let mut BLOCK_M = ", "proof { lemma_at_all(N@, M@); }")]
    ws = [worker(cfile, w, f) for w, f in t.workers.items()]
    pre = "assert({M} * {N} >= 0) by (nonlinear_arith) requires {M} >= 0, {N} >= 0;".format(M=M, N=N)
    return ws + [Fun(t, req, ens, A, decls=dotf(t), before=before, pre=pre)]

BATCH = """
/// what the first d batch axes of one operand contribute to its address for the b-th matrix of the batch (an axis of extent 1 is broadcast)
pub open spec fn bsum(m: Seq<int>, bs: int, nb: int, b: int, sh: int, st: int, nd: int, d: int) -> int decreases d
{ if d <= 0 { 0 } else { bsum(m, bs, nb, b, sh, st, nd, d - 1) + (if m[sh + d - 1] == 1 { 0 } else { coord(m, bs, nb, b, nb - nd + d - 1) }) * m[st + d - 1] } }
pub open spec fn ml(m: Seq<int>) -> int { m[1] }
pub open spec fn mr(m: Seq<int>) -> int { m[2] }
pub open spec fn mb(m: Seq<int>) -> int { m[3] }
pub open spec fn m_bs(m: Seq<int>) -> int { 4 + m[1] + m[2] }
pub open spec fn m_ls(m: Seq<int>) -> int { m_bs(m) + m[3] }
pub open spec fn m_rs(m: Seq<int>) -> int { m_ls(m) + m[1] }
pub open spec fn m_e(m: Seq<int>) -> int { m_rs(m) + m[2] }
pub open spec fn b_l(m: Seq<int>, b: int) -> int { m[m_e(m)] + bsum(m, m_bs(m), m[3], b, 4, m_ls(m), m[1] - 2, m[1] - 2) }
pub open spec fn b_r(m: Seq<int>, b: int) -> int { m[m_e(m) + 1] + bsum(m, m_bs(m), m[3], b, 4 + m[1], m_rs(m), m[2] - 2, m[2] - 2) }
pub proof fn lemma_flat(n: int, m: int, q: int) requires 0 <= q < m * n, n >= 0, m >= 0 ensures n > 0, m > 0, m * n > 0, 0 <= q / n < m, 0 <= q % n < n, rc(n, q / n, q % n) == q, q % (m * n) == q, q / (m * n) == 0
{
    assert(n > 0 && m > 0) by (nonlinear_arith) requires 0 <= q < m * n, n >= 0, m >= 0; lemma_fundamental_div_mod(q, n); lemma_mod_bound(q, n); lemma_div_pos_is_pos(q, n); lemma_mul_is_commutative(n, q / n);
    assert(q / n < m) by (nonlinear_arith) requires (q / n) * n <= q, q < m * n, n > 0;
    lemma_small_mod(q as nat, (m * n) as nat); lemma_basic_div(q, m * n);
}
pub proof fn lemma_cell(n: int, m: int, q: int) requires 0 <= q, n >= 0, m >= 0, m * n > 0 ensures n > 0, m > 0, 0 <= q % (m * n) < m * n, 0 <= (q % (m * n)) / n < m, 0 <= (q % (m * n)) % n < n, 0 <= q / (m * n)
{ lemma_mod_bound(q, m * n); lemma_flat(n, m, q % (m * n)); lemma_div_pos_is_pos(q, m * n); }
pub proof fn lemma_batch(b: int, mn_: int, q: int) requires 0 <= q < b * mn_, b >= 0, mn_ >= 0 ensures mn_ > 0, b > 0, 0 <= q / mn_ < b
{ lemma_flat(mn_, b, q); }
"""
def matmul(cfile, fn):
    t = T(cfile, fn, callees=CAL).run(); text = t.text(); o = "output_ptr"
    if [p.split(":")[0] for p in t.sig] != ["lhs_ptr", "rhs_ptr", o, "metadata"]: raise Lost("parameters")
    want = ["lt(t, num_threads)"] * 2 + ["lt(i, M)", "lt(j, N)", "lt(k, K)", "lt(idx, num_els)", "ge(d, n(0))", "lt(d, lhs_batch_ndim)", "lt(d, rhs_batch_ndim)", "lt(k, K)", "lt(d, lhs_batch_ndim)", "lt(d, rhs_batch_ndim)"]
    if t.loop_headers != want: raise Lost("loops")
    m = "metadata@"; E_ = "m_e(%s)" % m; M, K, N = ["%s[%s + %d]" % (m, E_, q) for q in (2, 3, 4)]
    lm, lk = "%s[m_ls(%s) + %s[1] - 2]" % (m, m, m), "%s[m_ls(%s) + %s[1] - 1]" % (m, m, m); rk, rn = "%s[m_rs(%s) + %s[2] - 2]" % (m, m, m), "%s[m_rs(%s) + %s[2] - 1]" % (m, m, m)
    MN = "(%s * %s)" % (M, N)
    D = lambda b, r, c, k: "dotf(lhs_ptr@, rhs_ptr@, b_l({m}, {b}), {lm}, {lk}, b_r({m}, {b}), {rk}, {rn}, {r}, {c}, {k})".format(m=m, b=b, lm=lm, lk=lk, rk=rk, rn=rn, r=r, c=c, k=k)
    SP = lambda q: D("{q} / {MN}".format(q=q, MN=MN), "({q} % {MN}) / {N}".format(q=q, MN=MN, N=N), "({q} % {MN}) % {N}".format(q=q, MN=MN, N=N), K)
    P = "prd({m}, m_bs({m}), m_ls({m}))".format(m=m)
    from fam_move import done, post
    rd = lambda b, f, x, y, I, k: "forall|b: int, i: int, k: int| 0 <= b < {P} && 0 <= i < {I} && 0 <= k < {K} ==> 0 <= #[trigger] la({f}({m}, b), {x}, {y}, i, k) < {b}@.len()".format(P=P, I=I, K=K, f=f, m=m, x=x, y=y, b=b)
    req = ["{m}.len() >= 4".format(m=m), "nonneg({m}, 0, {m}.len() as int)".format(m=m), "{m}.len() >= {e} + 5".format(m=m, e=E_), "2 <= {m}[1] <= {m}[3] + 2".format(m=m), "2 <= {m}[2] <= {m}[3] + 2".format(m=m), "{m}[3] <= 16".format(m=m),
           "{m}[0] == {P} * {MN}".format(m=m, P=P, MN=MN), "{m}[0] <= old({o})@.len()".format(m=m, o=o), rd("lhs_ptr", "b_l", lm, lk, M, K), rd("rhs_ptr", "b_r", rn, rk, N, K)]
    A = {}; q = "(M@ / num_threads@)"; B = "(if {0} == num_threads@ {{ M@ }} else {{ ({0}) * %s }})" % q
    F = lambda r, c, k="K@": "dotf(lhs_ptr@, rhs_ptr@, 0, K@, 1, 0, N@, 1, %s, %s, %s)" % (r, c, k)
    same = ["%s@.len() == old(%s)@.len()" % (o, o), "forall|q: int| M@ * N@ <= q < {o}@.len() ==> #[trigger] {o}@[q] == old({o})@[q]".format(o=o)]
    state = lambda cond: same + ["forall|r: int, c: int| 0 <= r < M@ && 0 <= c < N@ && (%s) ==> #[trigger] at(%s@, N@, r, c) == %s" % (cond, o, F("r", "c"))]
    A[0] = Ann(["0 <= t@ <= num_threads@"] + state("r < " + B.format("t@")), before="assert(0 * %s == 0);" % q, head="lemma_even(t@, num_threads@, M@);")
    whole = "assert forall|q: int| 0 <= q < {m}[0] implies #[trigger] {o}@[q] == {sp} by {{ lemma_flat(N@, M@, q); assert(at({o}@, N@, q / N@, q % N@) == {f}); }}".format(m=m, o=o, sp=SP("q"), f=F("q / N@", "q % N@"))
    A[1] = Ann(["0 <= t@ <= num_threads@"], after=whole)
    A[2] = Ann(["0 <= i@ <= M@"] + state("r < i@"), after=whole)
    A[3] = Ann(["0 <= j@ <= N@"] + state("r < i@ || (r == i@ && c < j@)"), tail="lemma_at_set(o0, %s@, N@, M@, i@, j@);" % o)
    A[4] = Ann(["0 <= k@ <= K@", "sum == " + F("i@", "j@", "k@")], before="lemma_at(N@, M@, i@, j@);", head="let x = la(0, K@, 1, i@, k@); let y = la(0, 1, N@, j@, k@); assert(i@ * K@ + k@ == x); assert(k@ * N@ + j@ == y); assert(0 <= x && 0 <= y);")
    bi = "idx@ / %s" % MN
    A[5] = Ann(["0 <= idx@ <= num_els@"] + done(o, "idx@", SP), head="lemma_prd_nonneg({m}, m_bs({m}), m_ls({m})); assert(M@ * N@ >= 0) by (nonlinear_arith) requires M@ >= 0, N@ >= 0; lemma_batch({P}, {MN}, idx@); lemma_cell(N@, M@, idx@); lemma_prd_pos({m}, m_bs({m}), m_ls({m}));".format(m=m, P=P, MN=MN))
    co = lambda j: "coord({m}, m_bs({m}), {m}[3], {bi}, {j})".format(m=m, bi=bi, j=j)
    A[6] = Ann(["-1 <= d@ < batch_ndim@", "batch_indices@.len() == 16", "temp@ == rest({m}, m_bs({m}), {m}[3], {bi}, d@ + 1)".format(m=m, bi=bi), "forall|j: int| d@ < j < batch_ndim@ ==> #[trigger] batch_indices@[j] == " + co("j")],
               head="lemma_rest_bound({m}, m_bs({m}), {m}[3], {bi}, d@ + 1); assert({m}[m_bs({m}) + d@] > 0);".format(m=m, bi=bi))
    def fill(x, sh, ndx): return Ann(["0 <= d@ <= %s_batch_ndim@" % x, "%s_batch_indices@.len() == 16" % x, "forall|j: int| 0 <= j < d@ ==> #[trigger] %s_batch_indices@[j] == (if %s[%s + j] == 1 { 0 } else { %s })" % (x, m, sh, co("{m}[3] - {nd} + j".format(m=m, nd=ndx)))],
                                     head="assert(batch_indices@[batch_ndim@ - {x}_batch_ndim@ + d@] == {c});".format(x=x, c=co("{m}[3] - {nd} + d@".format(m=m, nd=ndx))))
    A[7] = fill("lhs", "4", "(%s[1] - 2)" % m); A[8] = fill("rhs", "4 + %s[1]" % m, "(%s[2] - 2)" % m)
    cell = "((idx@ % {MN}) / {N}), ((idx@ % {MN}) % {N})".format(MN=MN, N=N); ci, cj = [x.strip() for x in vx.split_top(cell)]
    A[9] = Ann(["0 <= k@ <= K@", "sum == " + D(bi, ci, cj, "k@")],
               head="assert(la(b_l({m}, {bi}), {lm}, {lk}, {ci}, k@) >= 0); assert(la(b_r({m}, {bi}), {rn}, {rk}, {cj}, k@) >= 0);".format(m=m, bi=bi, lm=lm, lk=lk, rn=rn, rk=rk, ci=ci, cj=cj))
    def walk(x, sh, st, nd, e): return Ann(["0 <= d@ <= %s_batch_ndim@" % x, "{x}_idx@ == {m}[{e}] + bsum({m}, m_bs({m}), {m}[3], {bi}, {sh}, {st}, {nd}, d@)".format(x=x, m=m, e=e, bi=bi, sh=sh, st=st, nd=nd)],
                                           head="assert({x}_batch_indices@[d@] == (if {m}[{sh} + d@] == 1 {{ 0 }} else {{ {c} }}));".format(x=x, m=m, sh=sh, c=co("{m}[3] - {nd} + d@".format(m=m, nd=nd))))
    A[10] = walk("lhs", "4", "m_ls(%s)" % m, "(%s[1] - 2)" % m, E_); A[11] = walk("rhs", "4 + %s[1]" % m, "m_rs(%s)" % m, "(%s[2] - 2)" % m, E_ + " + 1")
    fast = """assert(M@ * N@ >= 0) by (nonlinear_arith) requires M@ >= 0, N@ >= 0; assert({P} == 1); assert({m}[0] == M@ * N@); assert(b_l({m}, 0) == 0); assert(b_r({m}, 0) == 0);
 assert forall|i: int, k: int| 0 <= i < M@ && 0 <= k < K@ implies 0 <= #[trigger] la(0, K@, 1, i, k) < lhs_ptr@.len() by {{ assert(la(0, K@, 1, i, k) == la(b_l({m}, 0), {lm}, {lk}, i, k)); }}
 assert forall|i: int, k: int| 0 <= i < N@ && 0 <= k < K@ implies 0 <= #[trigger] la(0, 1, N@, i, k) < rhs_ptr@.len() by {{ assert(la(0, 1, N@, i, k) == la(b_r({m}, 0), {rn}, {rk}, i, k)); }}""".format(P=P, m=m, lm=lm, lk=lk, rn=rn, rk=rk)
    before = [(r"let mut num_threads = ", "proof { %s }" % fast), (r"set\(%s, add\(" % o, "let ghost o0 = %s@;" % o)]
    ws = [worker(cfile, w, f) for w, f in t.workers.items()]
    return ws + [Fun(t, req, post(o, m + "[0]", SP), A, decls=dotf(t) + BATCH, before=before)]

# ---- the BLAS back end: cblas_?gemm is trusted, what is proved is that it is asked for the right product
GEMM = """
/// what BLAS computes from a row and a column (their sum of products, in an order of its own)
pub uninterp spec fn z_gdot(x: Seq<E>, y: Seq<E>) -> E;
pub open spec fn rowv(a: Seq<E>, k: int, o: int, sm: int, sk: int, i: int) -> Seq<E> { Seq::new(k as nat, |q: int| a[la(o, sm, sk, i, q)]) }
pub open spec fn s1(t: int, ld: int) -> int { if t == 112 { 1 } else { ld } }
pub open spec fn s2(t: int, ld: int) -> int { if t == 112 { ld } else { 1 } }
pub open spec fn tf(t: bool) -> int { if t { 112 } else { 111 } }
/// cblas_sgemm / cblas_dgemm (101: row major, 111: as stored, 112: transposed)
#[verifier::external_body] pub fn gemm(order: I, ta: I, tb: I, m: I, n_: I, k: I, alpha: I, a: &Buf, ao: I, lda: I, b: &Buf, bo: I, ldb: I, beta: I, c: &mut Buf, co: I, ldc: I)
    requires order@ == 101, ta@ == 111 || ta@ == 112, tb@ == 111 || tb@ == 112, m@ >= 0, n_@ >= 0, k@ >= 0, alpha@ == 1, beta@ == 0,
        lda@ >= 1, lda@ >= (if ta@ == 112 { m@ } else { k@ }), ldb@ >= 1, ldb@ >= (if tb@ == 112 { k@ } else { n_@ }), ldc@ >= 1, ldc@ >= n_@,
        forall|i: int, q: int| 0 <= i < m@ && 0 <= q < k@ ==> 0 <= #[trigger] la(ao@, s1(ta@, lda@), s2(ta@, lda@), i, q) < a@.len(),
        forall|j: int, q: int| 0 <= j < n_@ && 0 <= q < k@ ==> 0 <= #[trigger] la(bo@, s2(tb@, ldb@), s1(tb@, ldb@), j, q) < b@.len(),
        forall|i: int, j: int| 0 <= i < m@ && 0 <= j < n_@ ==> 0 <= #[trigger] la(co@, ldc@, 1, i, j) < old(c)@.len(),
    ensures final(c)@.len() == old(c)@.len(), m@ == 0 || n_@ == 0 ==> final(c)@ == old(c)@,
        forall|i: int, j: int| 0 <= i < m@ && 0 <= j < n_@ ==> #[trigger] final(c)@[la(co@, ldc@, 1, i, j)] == z_gdot(rowv(a@, k@, ao@, s1(ta@, lda@), s2(ta@, lda@), i), rowv(b@, k@, bo@, s2(tb@, ldb@), s1(tb@, ldb@), j)),
        forall|q: int| 0 <= q < old(c)@.len() && !(co@ <= q < co@ + m@ * ldc@) ==> #[trigger] final(c)@[q] == old(c)@[q]
{ unimplemented!() }
pub proof fn lemma_in_batch(b: int, mn_: int, q: int) requires mn_ > 0, b * mn_ <= q < (b + 1) * mn_ ensures q / mn_ == b, q % mn_ == q - b * mn_
{ assert((b + 1) * mn_ == b * mn_ + mn_) by (nonlinear_arith); lemma_fundamental_div_mod_converse(q, mn_, b, q - b * mn_); }
/// matrix b of a batch lies inside the output
pub proof fn lemma_slot(b: int, B: int, m: int, n: int) requires 0 <= b < B, m >= 0, n >= 0 ensures 0 <= m * n, 0 <= b * (m * n), b * (m * n) + m * n == (b + 1) * (m * n), (b + 1) * (m * n) <= B * (m * n),
    forall|o: int, r: int, c: int| 0 <= r < m && 0 <= c < n ==> o <= #[trigger] la(o, n, 1, r, c) < o + m * n
{
    assert(0 <= m * n) by (nonlinear_arith) requires m >= 0, n >= 0; let x = m * n; assert(0 <= b * x) by (nonlinear_arith) requires b >= 0, x >= 0; assert(b * x + x == (b + 1) * x) by (nonlinear_arith); assert((b + 1) * x <= B * x) by (nonlinear_arith) requires b + 1 <= B, x >= 0;
    assert forall|o: int, r: int, c: int| 0 <= r < m && 0 <= c < n implies o <= #[trigger] la(o, n, 1, r, c) < o + m * n by { lemma_at(n, m, r, c); }
}
"""
LA0 = """
pub proof fn lemma_la0() ensures forall|o: int, sm: int, sk: int, i: int, k: int| (i == 0 ==> #[trigger] la(o, sm, sk, i, k) == o + k * sk) && (k == 0 ==> la(o, sm, sk, i, k) == o + i * sm) && (sk == 1 ==> la(o, sm, sk, i, k) == o + i * sm + k) && (sm == 1 ==> la(o, sm, sk, i, k) == o + i + k * sk)
{ assert forall|o: int, sm: int, sk: int, i: int, k: int| (i == 0 ==> #[trigger] la(o, sm, sk, i, k) == o + k * sk) && (k == 0 ==> la(o, sm, sk, i, k) == o + i * sm) && (sk == 1 ==> la(o, sm, sk, i, k) == o + i * sm + k) && (sm == 1 ==> la(o, sm, sk, i, k) == o + i + k * sk) by { } }
"""
def leading_dim(cfile):
    t = T(cfile, "blas_leading_dim", callees=CAL).run()
    if t.sig != ["rows: I", "cols: I", "row_stride: I", "col_stride: I", "trans: &mut bool"]: raise Lost("blas_leading_dim")
    ens = ["r@ >= 0", "r@ != 0 ==> r@ >= (if *final(trans) { rows@ } else { cols@ })",
           "r@ != 0 ==> forall|o: int, i: int, k: int| 0 <= i < rows@ && 0 <= k < cols@ ==> #[trigger] la(o, row_stride@, col_stride@, i, k) == la(o, s1(tf(*final(trans)), r@), s2(tf(*final(trans)), r@), i, k)"]
    return Fun(t, ["rows@ >= 0", "cols@ >= 0", "row_stride@ >= 0", "col_stride@ >= 0"], ens, {}, pre="lemma_la0();")
def fallback(cfile, fn, bld):
    fs = bld("ops_matrix.c", fn + "_fallback")
    ft = fs[-1].t; ft.sig = list(ft.sig); return fs
def gemm_hint(lo, lm, lk, ro, rk, rn, lof, rof, M="M@", K="K@", N="N@"):
    """gemm's reads are those of the strided operands"""
    return """assert forall|i: int, q: int| 0 <= i < {M} && 0 <= q < {K} implies 0 <= #[trigger] la({lof}, s1(trans_lhs@, lda@), s2(trans_lhs@, lda@), i, q) < lhs_ptr@.len() by {{ assert({lof} == {lo}); assert(0 <= la({lo}, {lm}, {lk}, i, q) < lhs_ptr@.len()); }}
 assert forall|j: int, q: int| 0 <= j < {N} && 0 <= q < {K} implies 0 <= #[trigger] la({rof}, s2(trans_rhs@, ldb@), s1(trans_rhs@, ldb@), j, q) < rhs_ptr@.len() by {{ assert({rof} == {ro}); assert(0 <= la({ro}, {rn}, {rk}, j, q) < rhs_ptr@.len()); assert(la({ro}, {rk}, {rn}, q, j) == la({ro}, s1(trans_rhs@, ldb@), s2(trans_rhs@, ldb@), q, j)); }}""".format(**locals())
def gemm_same(lo, lm, lk, ro, rk, rn, r, c, K="K@"):
    return """assert(rowv(lhs_ptr@, {K}, {lo}, s1(trans_lhs@, lda@), s2(trans_lhs@, lda@), {r}) =~= rowv(lhs_ptr@, {K}, {lo}, {lm}, {lk}, {r})) by {{ assert forall|q: int| 0 <= q < {K} implies la({lo}, s1(trans_lhs@, lda@), s2(trans_lhs@, lda@), {r}, q) == #[trigger] la({lo}, {lm}, {lk}, {r}, q) by {{ }} }}
 assert(rowv(rhs_ptr@, {K}, {ro}, s2(trans_rhs@, ldb@), s1(trans_rhs@, ldb@), {c}) =~= rowv(rhs_ptr@, {K}, {ro}, {rn}, {rk}, {c})) by {{ assert forall|q: int| 0 <= q < {K} implies la({ro}, s2(trans_rhs@, ldb@), s1(trans_rhs@, ldb@), {c}, q) == #[trigger] la({ro}, {rn}, {rk}, {c}, q) by {{ assert(la({ro}, {rk}, {rn}, q, {c}) == la({ro}, s1(trans_rhs@, ldb@), s2(trans_rhs@, ldb@), q, {c})); }} }}""".format(**locals())
def gd(lo, lm, lk, ro, rk, rn, r, c, K): return "z_gdot(rowv(lhs_ptr@, {K}, {lo}, {lm}, {lk}, {r}), rowv(rhs_ptr@, {K}, {ro}, {rn}, {rk}, {c}))".format(**locals())

def dot_blas(cfile, fn):
    fb = fallback(cfile, fn, dot); t = T(cfile, fn, callees=dict(CAL, blas_leading_dim="I", **{fn + "_fallback": "V"})).run(); o = "output_ptr"
    if t.loop_headers or [p.split(":")[0] for p in t.sig] != ["lhs_ptr", "rhs_ptr", o, "metadata"]: raise Lost("shape of the wrapper")
    f = fb[-1]; m = "metadata@"; M, K, N = m + "[0]", m + "[1]", m + "[2]"; lm, lk, rk, rn, lo, ro = ["%s[%d]" % (m, q) for q in range(3, 9)]
    G = lambda r, c: gd(lo, lm, lk, ro, rk, rn, r, c, K)
    ens = [f.ensures[0], f.ensures[2], "(%s) || (%s)" % (RC.format(M=M, N=N, o="final(%s)@" % o) + G("r", "c"), f.ensures[1])]
    hint = "lemma_slot(0, 1, M@, N@); " + gemm_hint(lo, lm, lk, ro, rk, rn, "lhs_off@", "rhs_off@")
    same = "assert forall|r: int, c: int| 0 <= r < M@ && 0 <= c < N@ implies #[trigger] at(%s@, N@, r, c) == %s by { %s assert(la(0, N@, 1, r, c) == rc(N@, r, c)); }" % (o, G("r", "c"), gemm_same(lo, lm, lk, ro, rk, rn, "r", "c"))
    return fb + [leading_dim(cfile), Fun(t, f.requires, ens, {}, decls=LA0 + GEMM, before=[(r"gemm\(", "proof { %s }" % hint), (r"\n(?=\s*\}\s*else\s*\{\s*hodu_cpu_dot)", "proof { %s }" % same)])]

def matmul_blas(cfile, fn):
    fb = fallback(cfile, fn, matmul); t = T(cfile, fn, callees=dict(CAL, blas_leading_dim="I", **{fn + "_fallback": "V"})).run(); o = "output_ptr"
    if t.loop_headers != ["lt(i, batch_ndim)", "lt(batch_idx, total_batches)", "gt(i, n(0))"] or [p.split(":")[0] for p in t.sig] != ["lhs_ptr", "rhs_ptr", o, "metadata"]: raise Lost("shape of the wrapper")
    f = fb[-1]; m = "metadata@"; E_ = "m_e(%s)" % m; M, K, N = ["%s[%s + %d]" % (m, E_, q) for q in (2, 3, 4)]; MN = "(%s * %s)" % (M, N)
    lm, lk = "%s[m_ls(%s) + %s[1] - 2]" % (m, m, m), "%s[m_ls(%s) + %s[1] - 1]" % (m, m, m); rk, rn = "%s[m_rs(%s) + %s[2] - 2]" % (m, m, m), "%s[m_rs(%s) + %s[2] - 1]" % (m, m, m)
    bl = lambda b: "b_l(%s, %s)" % (m, b); br = lambda b: "b_r(%s, %s)" % (m, b)
    G = lambda b, r, c: gd(bl(b), lm, lk, br(b), rk, rn, r, c, K)
    GP = lambda q: G("%s / %s" % (q, MN), "(%s %% %s) / %s" % (q, MN, N), "(%s %% %s) %% %s" % (q, MN, N))
    ens = [f.ensures[0], f.ensures[2], "(forall|q: int| 0 <= q < %s[0] ==> #[trigger] final(%s)@[q] == %s) || (%s)" % (m, o, GP("q"), f.ensures[1])]
    def hint(b, lof, rof, co): return "lemma_slot({b}, {P}, M@, N@); assert({lof} == {x}); assert({rof} == {y}); ".format(b=b, P="prd({m}, m_bs({m}), m_ls({m}))".format(m=m), lof=lof, rof=rof, x=bl(b), y=br(b)) + gemm_hint(bl(b), lm, lk, br(b), rk, rn, lof, rof)
    def same(b, co): return "assert forall|q: int| {co} <= q < {co} + M@ * N@ implies #[trigger] {o}@[q] == {g} by {{ lemma_slot({b}, {b} + 1int, M@, N@); lemma_flat(N@, M@, q - {co}); lemma_in_batch({b}, M@ * N@, q); let r = (q - {co}) / N@; let c = (q - {co}) % N@; {s} assert(la({co}, N@, 1, r, c) == q); }}".format(
        b=b, co=co, o=o, g=GP("q"), s=gemm_same(bl(b), lm, lk, br(b), rk, rn, "r", "c"))
    zero = "assert(prd({m}, m_bs({m}), m_ls({m})) == 1);".format(m=m)
    A = {0: Ann(["0 <= i@ <= batch_ndim@", "total_batches@ == prd({m}, m_bs({m}), m_bs({m}) + i@)".format(m=m)], head="lemma_prd_split({m}, m_bs({m}), m_bs({m}) + i@, m_bs({m}) + i@ + 1); assert(prd({m}, m_bs({m}) + i@ + 1, m_bs({m}) + i@ + 1) == 1); assert(prd({m}, m_bs({m}) + i@, m_bs({m}) + i@ + 1) == {m}[m_bs({m}) + i@] * 1);".format(m=m))}
    A[1] = Ann(["0 <= batch_idx@ <= total_batches@", "%s@.len() == old(%s)@.len()" % (o, o), "forall|q: int| 0 <= q < batch_idx@ * (M@ * N@) ==> #[trigger] %s@[q] == %s" % (o, GP("q")),
                "forall|q: int| batch_idx@ * (M@ * N@) <= q < {o}@.len() ==> #[trigger] {o}@[q] == old({o})@[q]".format(o=o)], before="lemma_prd_nonneg({m}, m_bs({m}), m_ls({m})); assert(0 * (M@ * N@) == 0);".format(m=m),
               head="lemma_prd_pos({m}, m_bs({m}), m_ls({m}));".format(m=m))
    def part(sh, st, nd): return "(bsum({m}, m_bs({m}), {m}[3], batch_idx@, {sh}, {st}, {nd}, {nd}) - bsum({m}, m_bs({m}), {m}[3], batch_idx@, {sh}, {st}, {nd}, mx0({nd} - ({m}[3] - i@))))".format(m=m, sh=sh, st=st, nd=nd)
    A[2] = Ann(["0 <= i@ <= batch_ndim@", "idx@ == rest({m}, m_bs({m}), {m}[3], batch_idx@, i@)".format(m=m), "lhs_batch_offset@ == " + part("4", "m_ls(%s)" % m, "(%s[1] - 2)" % m), "rhs_batch_offset@ == " + part("4 + %s[1]" % m, "m_rs(%s)" % m, "(%s[2] - 2)" % m)],
               head="lemma_rest_bound({m}, m_bs({m}), {m}[3], batch_idx@, i@); assert({m}[m_bs({m}) + i@ - 1] > 0);".format(m=m))
    before = [(r"gemm\((?=[^;]*lhs_off,)", "proof { %s %s }" % (zero, hint("0", "lhs_off@", "rhs_off@", "0"))), (r"gemm\((?=[^;]*lhs_batch_off,)", "let ghost o0 = %s@; proof { %s }" % (o, hint("batch_idx@", "lhs_batch_off@", "rhs_batch_off@", "out_batch_off@"))),
              (r"(?<=output_ptr, n\(0\), ldc\);)\n", "proof { %s assert(0 * (M@ * N@) == 0); %s }" % (zero, same("0", "0"))),
              (r"(?<=output_ptr, out_batch_off, ldc\);)\n", "proof { assert(out_batch_off@ == batch_idx@ * (M@ * N@)); %s }" % same("batch_idx@", "out_batch_off@"))]
    return fb + [leading_dim(cfile), Fun(t, f.requires, ens, A, decls=LA0 + GEMM + "pub open spec fn mx0(a: int) -> int { if a < 0 { 0 } else { a } }\n", before=before)]
