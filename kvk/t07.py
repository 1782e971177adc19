"""T07: what the integer kernels compute on one element, for every operand value (CBMC over the kernels' C source)."""
TYPES = [("u8", 8, 0), ("u16", 16, 0), ("u32", 32, 0), ("u64", 64, 0), ("i8", 8, 1), ("i16", 16, 1), ("i32", 32, 1), ("i64", 64, 1), ("bool", 8, 0)]
HEAD = '''#include "ops_binary.c"
#include "ops_unary.c"
#include "ops_bitwise.c"
#include "kc.h"
typedef __int128 W;
static const size_t M2[8] = {1, 1, 1, 1, 1, 1, 0, 0}, M1[5] = {1, 1, 1, 1, 0};
'''
# contract of each operation on x, y as integers: (specified when, result)
SPEC = {
 "add": ("FITS(x + y)", "x + y"), "sub": (None, None), "maximum": ("1", "x > y ? x : y"), "minimum": ("1", "x < y ? x : y"),
 "eq": ("1", "x == y"), "ne": ("1", "x != y"), "lt": ("1", "x < y"), "le": ("1", "x <= y"), "gt": ("1", "x > y"), "ge": ("1", "x >= y"),
 "logical_and": ("1", "x != 0 && y != 0"), "logical_or": ("1", "x != 0 || y != 0"), "logical_xor": ("1", "(x != 0) != (y != 0)"),
}
CMP = ["eq", "ne", "lt", "le", "gt", "ge"]
def spec(op, sg):
    if op == "mul": return "1", "x * y"  # bool only
    if op == "pow": return "1", "y == 0 ? 1 : x"
    if op == "sub": return ("FITS(x - y)", "x - y") if sg else ("1", "x > y ? x - y : 0")
    return SPEC[op]
def chk(op, t, cond, val, call, msg, out):
    return '  { %s r = 0; %s; if (%s) CHECK((W)r == (W)(%s), "%s"); %s }\n' % (out, call, cond, val, msg, 'CHECK(*(unsigned char *)&r <= 1, "%s gives a truth value other than 0 or 1");' % op if out == "bool" else "")
def build():
    """(source, [(harness, kind)])"""
    src, fns = HEAD, []
    for t, bits, sg in TYPES:
        T = t + "_t" if t != "bool" else "bool"
        lo, hi = ("-((W)1 << %d)" % (bits - 1), "((W)1 << %d) - 1" % (bits - 1)) if sg else ("0", "((W)1 << %d) - 1" % bits)
        if t == "bool": hi = "1"
        src += "#undef FITS\n#define FITS(v) ((W)(v) >= %s && (W)(v) <= %s)\n" % (lo, hi)
        UT = "u%d_t" % bits
        two = "IN(%s, a); IN(%s, b); W x = a, y = b;\n" % (T, T) if t != "bool" else "IN(u8_t, p); IN(u8_t, q); ASSUME(p <= 1 && q <= 1); bool a = p, b = q; W x = a, y = b;\n"
        b2 = lambda op: "hodu_cpu_%s_%s(&a, &b, &r, M2)" % (op, t)
        s2 = lambda op: "hodu_cpu_%s_scalar_%s(&a, &r, M1, &b)" % (op, t)
        u1 = lambda op: "hodu_cpu_%s_%s(&a, &r, M1)" % (op, t)
        body = two; ops = ["add", "sub", "maximum", "minimum"] + CMP + ["logical_and", "logical_or", "logical_xor"]
        if t == "bool": ops = ops[1:] + ["mul", "pow"]
        for op in ops:
            c, v = spec(op, sg); o = "bool" if op in CMP or op.startswith("logical") else T
            body += chk(op, t, c, v, b2(op), "%s_%s" % (op, t), o)
            if not op.startswith("logical"): body += chk(op, t, c, v, s2(op), "%s_scalar_%s" % (op, t), o)
        src += "void order_%s(void) { %s}\n" % (t, body); fns.append(("order_" + t, "sat"))
        body = "IN(%s, a); W x = a;\n" % T if t != "bool" else "IN(u8_t, p); ASSUME(p <= 1); bool a = p; W x = a;\n"
        body += chk("logical_not", t, "1", "x == 0", u1("logical_not"), "logical_not_" + t, "bool")
        if t != "bool":
            body += chk("abs", t, "FITS(x < 0 ? -x : x)", "x < 0 ? -x : x", u1("abs"), "abs_" + t, T)
            body += chk("sign", t, "1", "(x > 0) - (x < 0)", u1("sign"), "sign_" + t, T)
            if sg:
                body += chk("neg", t, "FITS(-x)", "-x", u1("neg"), "neg_" + t, T)
                body += chk("relu", t, "1", "x > 0 ? x : 0", u1("relu"), "relu_" + t, T)
            body += chk("bitwise_not", t, "1", "(%s)~a" % T, u1("bitwise_not"), "bitwise_not_" + t, T)
        src += "void one_%s(void) { %s}\n" % (t, body); fns.append(("one_" + t, "sat"))
        if t == "bool": continue
        body = two
        for op, e in (("bitwise_and", "&"), ("bitwise_or", "|"), ("bitwise_xor", "^")): body += chk(op, t, "1", "(%s)(x %s y)" % (T, e), b2(op), "%s_%s" % (op, t), T)
        # shifts: specified for counts below the width
        shl = "(W)x * ((W)1 << y)" if sg else "(%s)((W)x << y)" % T
        ok = "y >= 0 && y < %d" % bits
        body += "  if (%s) {\n" % ok + chk("shl", t, "FITS(%s)" % shl if sg else "1", shl, b2("shl"), "shl_" + t, T) + chk("shr", t, "1", "x >> y", b2("shr"), "shr_" + t, T)
        body += chk("shl", t, "FITS(%s)" % shl if sg else "1", shl, "hodu_cpu_shl_scalar_%s(&a, &r, M1, (u32_t)b)" % t, "shl_scalar_" + t, T) + chk("shr", t, "1", "x >> y", "hodu_cpu_shr_scalar_%s(&a, &r, M1, (u32_t)b)" % t, "shr_scalar_" + t, T) + "  }\n"
        src += "void bits_%s(void) { %s}\n" % (t, body.replace("(W)x * ((W)1 << y)", "(W)((unsigned __int128)x << y)")); fns.append(("bits_" + t, "sat"))
        # wrapped multiplication is the exact product whenever that is representable
        ov = lambda p, q: "({ %s z; !__builtin_mul_overflow(%s, %s, &z); })" % (T, p, q)
        prod = lambda p, q: "(%s)((%s)%s * (%s)%s)" % (T, UT if bits > 16 else "unsigned", p, UT if bits > 16 else "unsigned", q)
        for nm, call, p, q in (("mul", b2("mul"), "a", "b"), ("mul_scalar", s2("mul"), "a", "b"), ("square", u1("square"), "a", "a")):
            body = two + chk(nm, t, ov(p, q), prod(p, q), call, "%s_%s" % (nm, t), T)
            src += "void %s_%s(void) { %s}\n" % (nm, t, body); fns.append(("%s_%s" % (nm, t), "smt" if bits > 8 else "sat"))
        for nm, e in (("div", "/"), ("rem", "%")):
            for sc in ("", "_scalar"):
                z = "(b == 0 ? (W)0 : (W)(a %s b))" % e; c = "1"
                if sg and nm == "div": c = "!(b == -1 && x == %s)" % lo
                if sg: z = "(b == 0 ? (W)0 : b == -1 ? %s : (W)(%sa %s b))" % ("-x" if nm == "div" else "(W)0", "(int64_t)" if bits > 16 else "", e)
                src += "void %s%s_%s(void) { %s}\n" % (nm, sc, t, two + chk(nm, t, c, z, s2(nm) if sc else b2(nm), "%s%s_%s" % (nm, sc, t), T)); fns.append(("%s%s_%s" % (nm, sc, t), "div" if bits > 8 else "divsat"))
        # x^y: y = 0..width with x symbolic (no other x^y with |x| > 1 is representable), then x in {-1, 0, 1} with y symbolic
        kern = lambda sc: "hodu_cpu_pow_scalar_%s(&a, &r, M1, &b)" % t if sc else "hodu_cpu_pow_%s(&a, &b, &r, M2)" % t
        for sc in ("", "_scalar"):
            n = "pow%s_%s" % (sc, t)
            body = "  IN(%s, a); uint64_t p = 1; W e = 1; int rep = 1;\n  for (int k = 0; k <= %d; k++) { %s b = k, r = 0; %s; CHECK(!rep || r == (%s)p, \"%s\"); p *= (uint64_t)(int64_t)a; %s z; rep = rep && !__builtin_mul_overflow((%s)e, a, &z); e = z; }\n" % (T, bits, T, kern(sc), T, n, T, T)
            src += "void %s(void) {\n%s}\n" % (n, body); fns.append((n, "pow"))
            body = "  IN(%s, b);\n" % T
            for v in ((0, 1, -1) if sg else (0, 1)):
                w = {0: "b == 0 ? 1 : 0", 1: "1", -1: "b & 1 ? -1 : 1"}[v]
                body += "  { %s a = %d, r = 0; %s; if (%s) CHECK(r == (%s), \"%s of %d\"); }\n" % (T, v, kern(sc), "b >= 0" if v == 0 and sg else "1", w, n, v)
            src += "void %s_unit(void) {\n%s}\n" % (n, body); fns.append((n + "_unit", "powu"))
    return src, fns
if __name__ == "__main__":
    import os; os.makedirs("/tmp/c7", exist_ok=True); s, f = build(); open("/tmp/c7/t07.c", "w").write(s); open("/tmp/c7/fns", "w").write("\n".join(a + " " + b for a, b in f)); print(len(f))
