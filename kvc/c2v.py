"""c2v: mechanical translation of C kernel functions to Verus, from clang's AST of the current source.

What it drops or abstracts (and nothing else):
 * sizes, indices and loop counters (size_t, int and, where a contract says so, index elements) are
   mathematical integers: no wrap-around; an unsigned subtraction must not go below zero and a
   division must not be by zero (both are obligations);
 * element arithmetic (+, <, fmodf(), f16_add() ...) is uninterpreted: one unknown function per
   operator or callee, implicit arithmetic conversions included;
 * a pointer is the buffer it points into plus an offset; distinct buffer parameters do not overlap;
 * `thread_create(h, worker, &args)` is the call of worker(args), `thread_join` nothing;
 * malloc succeeds; free is dropped.
Anything else outside this subset raises Unsupported: the function is then not decided here.
"""
import json, os, re, subprocess, tempfile, hashlib, functools
REPO = os.environ.get("HODU_REPO", "/repo")
KD = "crates/hodu_cpu_kernels/kernels"
DEFS = ["-DENABLE_THREADS", "-DUSE_BLAS", "-DENABLE_SIMD_AUTO"]
class Unsupported(Exception): pass
_pp = {}
def preprocess(cfile):
    if cfile not in _pp:
        p = os.path.join(REPO, KD, cfile)
        r = subprocess.run(["clang", "-E", "-P"] + DEFS + [p], capture_output=True, text=True, cwd=os.path.dirname(p))
        if r.returncode: raise Unsupported("preprocessor: " + r.stderr[:300])
        f = tempfile.NamedTemporaryFile("w", suffix=".i", delete=False); f.write(r.stdout); f.close()
        _pp[cfile] = (f.name, r.stdout)
    return _pp[cfile]
def functions(cfile):
    """names of the external kernels defined in a file"""
    return re.findall(r"\b(?:void|size_t)\s+(hodu_cpu_\w+)\s*\([^;{)]*\)\s*\{", preprocess(cfile)[1])
SFX = r"(f8e4m3|f8e5m2|bf16|f16|f32|f64|i8|i16|i32|i64|u8|u16|u32|u64|bool)"
_split = {}
def split(cfile):
    """text of every function defined in a file"""
    if cfile in _split: return _split[cfile]
    s = preprocess(cfile)[1]; out = {}; n = len(s)
    for m in re.finditer(r"\b(\w+)\s*\(", s):
        if m.group(1) in ("if", "for", "while", "switch", "return", "sizeof", "defined"): continue
        i = m.end(); d = 1
        while i < n and d and s[i] not in ";{": d += (s[i] == "(") - (s[i] == ")"); i += 1
        if d: continue
        while i < n and s[i].isspace(): i += 1
        if i >= n or s[i] != "{" or m.group(1) in out: continue
        j = i; d = 0
        while True:
            if s[j] == "{": d += 1
            elif s[j] == "}":
                d -= 1
                if d == 0: break
            j += 1
        out[m.group(1)] = s[m.start():j + 1]
    _split[cfile] = out
    return out
def norm_text(t):
    t = re.sub(r"\b(u?int(8|16|32|64)_t|[iu](8|16|32|64)_t|f(8e4m3|8e5m2|16|32|64)_t|bf16_t|bool_t)\b", "ELEM", t)
    t = re.sub(r"(?<=_)" + SFX + r"\b", "SFX", t); t = re.sub(r"(?<=_)" + SFX + r"(?=_)", "SFX", t); t = re.sub(r"\b" + SFX + r"(?=_)", "SFX", t)
    return re.sub(r"\s+", " ", t)
def closure(cfile, fn):
    """the function and every function of its file it mentions, transitively"""
    sp = split(cfile); seen = []; todo = [fn]
    while todo:
        f = todo.pop(0)
        if f in seen or f not in sp: continue
        seen.append(f); todo += [w for w in re.findall(r"\b\w+\b", sp[f]) if w in sp and w not in seen]
    return seen
def shape_key(cfile, fn): return hashlib.sha1("|".join(norm_text(split(cfile)[f]) for f in closure(cfile, fn)).encode()).hexdigest()
def groups(cfile):
    """kernels of a file whose texts differ only in element type names"""
    g = {}
    for f in functions(cfile): g.setdefault(shape_key(cfile, f), []).append(f)
    return list(g.values())
_asts = {}
def load_asts(cfile, fns):
    """parse the given kernels (and what they mention) in one go: the other kernels' bodies are cut out of the copy given to clang"""
    sp = split(cfile); keep = set()
    for f in fns: keep |= set(closure(cfile, f))
    s = preprocess(cfile)[1]
    for f, t in sp.items():
        if f not in keep and (f.startswith("hodu_cpu_") or f.endswith("_worker")): s = s.replace(t, t[:t.index("{")].rstrip() + ";", 1)
    p = tempfile.NamedTemporaryFile("w", suffix=".i", delete=False); p.write(s); p.close()
    for filt in ("hodu_cpu_", "_worker"):
        r = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, "-x", "c", p.name], capture_output=True, text=True)
        for d in decode(r.stdout):
            if d.get("kind") == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())): _asts[(cfile, d["name"])] = d
    os.unlink(p.name)
def decode(s):
    dec = json.JSONDecoder(); i = 0
    while True:
        i = s.find("{", i)
        if i < 0: return
        d, i = dec.raw_decode(s, i); yield d
def ast(cfile, fn):
    if (cfile, fn) in _asts: return _asts[(cfile, fn)]
    d = ast1(cfile, fn); _asts[(cfile, fn)] = d; return d
def ast1(cfile, fn):
    path, _ = preprocess(cfile)
    r = subprocess.run(["clang", "-fsyntax-only", "-w", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + fn, "-x", "c", path], capture_output=True, text=True)
    dec = json.JSONDecoder(); s = r.stdout; i = 0; out = None
    while i < len(s):
        while i < len(s) and s[i] != "{": i += 1
        if i >= len(s): break
        d, i = dec.raw_decode(s, i)
        if d.get("kind") == "FunctionDecl" and d.get("name") == fn and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", ())): out = d
    if out is None: raise Unsupported("no definition of " + fn)
    return out
ITYPES = {"size_t", "int", "unsigned int", "ptrdiff_t", "ssize_t", "long", "unsigned long"}
def strip(t): return re.sub(r"\s+", " ", t.replace("const ", "").replace(" const", "").replace("restrict", "").replace("volatile ", "")).strip()
BIN = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne", "<<": "shl", ">>": "shr", "&": "band", "|": "bor", "^": "bxor"}
CMP = {"<", "<=", ">", ">=", "==", "!="}
class T:
    """one function. ibufs: names of pointers whose elements are integers; ivars: names that are integers"""
    def __init__(self, cfile, fn, ibufs=(), ivars=(), callees=None, rename=None, evars=(), drop=()):
        self.cfile, self.fn = cfile, fn; self.ibufs, self.ivars, self.evars = set(ibufs), set(ivars), set(evars)
        self.callees = callees or {}; self.eops = {}; self.loops = 0; self.workers = {}; self.tmp = 0; self.nullable = set(); self.written = set(); self.used = []
        self.d = ast(cfile, fn); self.env = [{}]; self.out = []; self.params = []; self.pre = []; self.localbufs = {}; self.fields = {}; self.argsvar = None; self.loop_headers = []; self.inc_stack = []; self.names = {}
        self.calls = []; self.vops = {}
    # ---- environment
    def look(self, n):
        for e in reversed(self.env):
            if n in e: return e[n]
        raise Unsupported("unknown name " + n)
    def emit(self, s): self.out.append("    " * len(self.env) + s)
    def kindof(self, name, qt):
        t = strip(qt)
        if name in self.evars: return "E"
        if name in self.ivars: return "I"
        if t in ITYPES or t.startswith("enum "): return "I"
        if t == "bool" or t == "_Bool": return "b?"
        return "E"
    # ---- expressions: returns (kind, text); kinds I, B, E, ("P", base, off), V (void), ("S", name) struct pointer
    def x(self, n):
        k = n["kind"]; c = n.get("inner", [])
        if k in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"): return self.x(c[0])
        if k == "CStyleCastExpr":
            if n.get("castKind") == "NullToPointer" or (c and self.is_null(n)): return ("P", None, None), "null"
            e = self.x(c[0]); t = strip(n["type"]["qualType"])
            if isinstance(e[0], tuple) or e[0] == "V": return e
            if e[0] == "E":
                if t in ITYPES and n.get("castKind") == "IntegralCast" and t != "int": return "I", "e_int(%s)" % e[1]
                return e
            return e
        if k == "IntegerLiteral": return "I", "n(%s)" % n["value"]
        if k == "FloatingLiteral": return "E", self.eop("lit_" + re.sub(r"\W", "_", str(n["value"])), [])
        if k == "CharacterLiteral": return "I", "n(%s)" % n["value"]
        if k == "DeclRefExpr":
            nm = n["referencedDecl"]["name"]
            if n["referencedDecl"]["kind"] == "FunctionDecl": return "F", nm
            try: return self.look(nm)
            except Unsupported:
                if n["referencedDecl"]["kind"] == "EnumConstantDecl":
                    m = re.search(r"\b%s\s*=\s*(\d+)" % nm, preprocess(self.cfile)[1])
                    if not m: raise
                    return "I", "n(%s)" % m.group(1)
                return "E", self.eop("const_" + nm, [])
        if k == "MemberExpr":
            if not c: raise Unsupported("member")
            b = self.x(c[0])
            if b[0] == "S": return self.look(n["name"]) if n.get("isArrow") else self.fields_get(n["name"])
            raise Unsupported("member of " + str(b))
        if k == "ArraySubscriptExpr":
            b = self.x(c[0])
            if b[0] == "A": return "S", b[1]
            m = re.match(r".*\[(\d+)\]$", n["type"]["qualType"])
            if m: return self.padd(b, "mul(%s, n(%s))" % (self.I(self.x(c[1])), m.group(1)))     # a row of a two-dimensional array
            return self.load(b, self.I(self.x(c[1])))
        if k == "UnaryOperator":
            op = n["opcode"]
            if op == "*":
                b = self.x(c[0])
                if b[0] == "R": return "B", "*" + b[1]
                return self.load(b, "n(0)")
            if op == "&":
                a = c[0]
                while a["kind"] in ("ParenExpr", "ImplicitCastExpr"): a = a["inner"][0]
                if a["kind"] == "ArraySubscriptExpr":
                    b = self.x(a["inner"][0])
                    if b[0] == "A": return "S", b[1]
                    i = self.I(self.x(a["inner"][1])); return self.padd(b, i)
                if a["kind"] == "DeclRefExpr":
                    v = self.x(a)
                    if v[0] == "B" and re.fullmatch(r"\w+", v[1]): return "RB", "&mut " + v[1]
                raise Unsupported("address-of")
            if op in ("++", "--"):
                v = self.x(c[0])
                if isinstance(v[0], tuple):
                    if v[0][2] is None: raise Unsupported("pointer step")
                    nm = v[0][2]
                else:
                    if v[0] != "I" or not re.fullmatch(r"\w+", v[1]): raise Unsupported("++ on " + v[1])
                    nm = v[1]
                f = "add(%s, n(1))" % nm if op == "++" else ("dec(%s)" if self.is_unsigned(c[0]) else "sub(%s, n(1))") % nm
                if n.get("isPostfix"):
                    self.tmp += 1; t = "t_%d" % self.tmp; self.pre.append("let %s = %s;" % (t, nm)); self.pre.append("%s = %s;" % (nm, f)); return ("I", t) if not isinstance(v[0], tuple) else (("P", v[0][1], t), "p")
                self.pre.append("%s = %s;" % (nm, f)); return v
            e = self.x(c[0])
            if op == "!": return "B", "!%s" % self.par(self.B(e))
            if op == "-": return ("I", "neg(%s)" % e[1]) if e[0] == "I" else ("E", self.eop("neg", [self.E(e)]))
            if op == "+": return e
            if op == "~": return "E", self.eop("bnot", [self.E(e)])
            raise Unsupported("unary " + op)
        if k == "ConditionalOperator":
            b = self.B(self.x(c[0])); n0 = len(self.pre); l, r = self.x(c[1]), self.x(c[2])
            if len(self.pre) != n0: raise Unsupported("side effect in ?:")
            if isinstance(l[0], tuple) or isinstance(r[0], tuple):
                if l[0][1] is None: l = (("P", r[0][1], "n(0)"), "p")
                if r[0][1] is None: r = (("P", l[0][1], "n(0)"), "p")
                if l[0][1] != r[0][1]: raise Unsupported("pointer choice")
                return ("P", l[0][1], "(if %s { %s } else { %s })" % (b, l[0][2] or "n(0)", r[0][2] or "n(0)")), "p"
            if "E" in (l[0], r[0]): return "E", "(if %s { %s } else { %s })" % (b, self.E(l), self.E(r))
            if "B" in (l[0], r[0]) and l[0] == r[0]: return "B", "(if %s { %s } else { %s })" % (b, l[1], r[1])
            return "I", "(if %s { %s } else { %s })" % (b, self.I(l), self.I(r))
        if k == "BinaryOperator": return self.binop(n["opcode"], n, c)
        if k == "CompoundAssignOperator":
            op = n["opcode"][:-1]; self.assign(c[0], self.arith(op, self.x(c[0]), self.x(c[1]), c[0])); return "V", ""
        if k == "CallExpr": return self.call(c)
        if k == "UnaryExprOrTypeTraitExpr": return "I", "n(1)"
        if k == "InitListExpr": return "Z", "zero"
        raise Unsupported(k)
    def fields_get(self, f): 
        if f not in self.fields: raise Unsupported("field " + f)
        return self.fields[f]
    def is_null(self, n):
        while n.get("inner"): n = n["inner"][0]
        return n.get("kind") == "IntegerLiteral" and n.get("value") == "0" and False
    def all_zero(self, n):
        return n["kind"] == "ImplicitValueInitExpr" or (n["kind"] in ("IntegerLiteral", "FloatingLiteral") and float(n["value"]) == 0) or (n["kind"] in ("InitListExpr", "ImplicitCastExpr") and all(self.all_zero(q) for q in n.get("inner", []) + n.get("array_filler", [])))
    def is_unsigned(self, n):
        t = n["type"].get("desugaredQualType", n["type"]["qualType"]); return "unsigned" in t
    def par(self, s): return s if re.fullmatch(r"[\w]+(\(.*\))?", s) or s.startswith("(") else "(" + s + ")"
    def I(self, e):
        if e[0] == "I": return e[1]
        if e[0] == "B": return "b_int(%s)" % e[1]
        if e[0] == "E": return "e_int(%s)" % e[1]
        raise Unsupported("not an integer: %s" % (e,))
    def B(self, e):
        if e[0] == "B": return e[1]
        if e[0] == "I": return "ne(%s, n(0))" % e[1]
        if e[0] == "E": return "e_truth(%s)" % e[1]
        if isinstance(e[0], tuple) and e[0][0] == "P":
            if e[0][1] is None: return "false"
            self.nullable.add(e[0][1]); return e[0][1] + "_nn"
        raise Unsupported("not a condition: %s" % (e,))
    def E(self, e):
        if e[0] == "E": return e[1]
        if e[0] == "I": return "e_of(%s)" % e[1]
        if e[0] == "B": return "e_of(b_int(%s))" % e[1]
        raise Unsupported("not an element: %s" % (e,))
    def eop(self, name, args):
        name = "e_" + name; self.eops[name] = (len(args), "E"); return "%s(%s)" % (name, ", ".join(args))
    def ecmp(self, name, args):
        name = "e_" + name; self.eops[name] = (len(args), "bool"); return "%s(%s)" % (name, ", ".join(args))
    def padd(self, p, i):
        (_, base, off), _t = p
        return ("P", base, "add(%s, %s)" % (off, i) if off else i), "p"
    def load(self, b, i):
        if not isinstance(b[0], tuple) or b[0][1] is None: raise Unsupported("load from %s" % (b,))
        (_, base, off), _t = b; ix = "add(%s, %s)" % (off, i) if off and off != "n(0)" else i
        self.used.append(base)
        return ("I" if self.bufkind(base) == "I" else "E"), "%sget(%s, %s)" % ("i" if self.bufkind(base) == "I" else "", self.ref(base), ix)
    def ref(self, base): return "&" + base if base in self.localbufs else base
    def bufkind(self, base):
        if base in self.localbufs: return self.localbufs[base]
        return self.names.get(base, "E")
    def arith(self, op, l, r, ln=None):
        if isinstance(l[0], tuple) or isinstance(r[0], tuple):
            if op in ("==", "!="):
                if isinstance(l[0], tuple) and (r[0] == "I" or (isinstance(r[0], tuple) and r[0][1] is None)): b = self.B(l); return "B", ("!" + b if op == "==" else b)
            if op == "+" and isinstance(l[0], tuple): return self.padd(l, self.I(r))
            if op == "+": return self.padd(r, self.I(l))
            if op == "-" and r[0] == "I": return ("P", l[0][1], "sub(%s, %s)" % (l[0][2] or "n(0)", r[1])), "p"
            raise Unsupported("pointer " + op)
        if "E" in (l[0], r[0]):
            if op in CMP: return "B", self.ecmp(BIN[op], [self.E(l), self.E(r)])
            return "E", self.eop(BIN[op], [self.E(l), self.E(r)])
        if op in CMP:
            if l[0] == "B" and r[0] == "B": return "B", "(%s %s %s)" % (l[1], op, r[1])
            return "B", "%s(%s, %s)" % (BIN[op], self.I(l), self.I(r))
        if op in ("|", "&") and l[0] == "B" and r[0] == "B": return "B", "(%s %s %s)" % (l[1], op, r[1])
        l, r = self.I(l), self.I(r); f = BIN[op]
        if f in ("shl", "shr", "band", "bor", "bxor"): raise Unsupported("bit operation on an index")
        if f == "sub" and ln is not None and self.is_unsigned(ln): f = "subu"
        if f in ("div", "rem") and ln is not None and not self.is_unsigned(ln): f = "s" + f
        return "I", "%s(%s, %s)" % (f, l, r)
    def binop(self, op, n, c):
        if op == "=": self.assign(c[0], self.x(c[1])); return self.x(c[0]) if False else ("V", "")
        if op in ("&&", "||"):
            l = self.B(self.x(c[0])); k = len(self.pre); r = self.B(self.x(c[1]))
            if len(self.pre) != k: raise Unsupported("side effect in " + op)
            return "B", "(%s %s %s)" % (l, op, r)
        if op == ",":
            self.x(c[0]); return self.x(c[1])
        return self.arith(op, self.x(c[0]), self.x(c[1]), n)
    def flush(self):
        for p in self.pre: self.emit(p)
        self.pre = []
    def assign(self, lhs, v):
        while lhs["kind"] in ("ParenExpr",): lhs = lhs["inner"][0]
        k = lhs["kind"]; c = lhs.get("inner", [])
        if k == "DeclRefExpr":
            nm = lhs["referencedDecl"]["name"]; cur = self.look(nm)
            if isinstance(cur[0], tuple):
                base, off = cur[0][1], cur[0][2]
                if base is None or base != v[0][1]: raise Unsupported("pointer reassigned")
                if off != nm + "_off": raise Unsupported("pointer reassigned")
                self.pre.append("%s = %s;" % (off, v[0][2] or "n(0)")); return
            self.pre.append("%s = %s;" % (cur[1], {"I": self.I, "B": self.B, "E": self.E, "W": lambda q: q[1]}[cur[0]](v))); return
        if k == "MemberExpr":
            b = self.x(c[0])
            if b[0] != "S": raise Unsupported("field of " + str(b))
            f = lhs["name"]
            if isinstance(v[0], tuple): self.fields[f] = v
            else:
                known = any("#" + f in e for e in self.env)     # a later assignment changes the field declared in this or an enclosing block
                if known and self.fields.get(f, ("",))[0] != v[0]: raise Unsupported("field changes kind")
                self.pre.append("%sargs_%s = %s;" % ("" if known else "let mut ", f, v[1])); self.fields[f] = (v[0], "args_" + f)
                if not known: self.env[-1]["#" + f] = True
            return
        if k == "ArraySubscriptExpr": b, i = self.x(c[0]), self.I(self.x(c[1]))
        elif k == "UnaryOperator" and lhs["opcode"] == "*":
            b, i = self.x(c[0]), "n(0)"
            if b[0] == "R": self.pre.append("*%s = %s;" % (b[1], self.B(v))); return
        else: raise Unsupported("assign to " + k)
        if not isinstance(b[0], tuple): raise Unsupported("store to %s" % (b,))
        (_, base, off), _t = b; ix = "add(%s, %s)" % (off, i) if off and off != "n(0)" else i
        self.written.add(base)
        kind = self.bufkind(base); val = (self.I if kind == "I" else self.E)(v)
        m = "&mut " + base if base in self.localbufs else base
        if base in self.localbufs and re.search(r"&%s\b" % base, val + ix):
            self.tmp += 1; self.pre.append("let v_%d = %s; let i_%d = %s;" % (self.tmp, val, self.tmp, ix)); val, ix = "v_%d" % self.tmp, "i_%d" % self.tmp
        self.pre.append("%sset(%s, %s, %s);" % ("i" if kind == "I" else "", m, ix, val))
    def call(self, c):
        f = self.x(c[0])[1]; a = c[1:]
        if f in ("free", "thread_join", "pthread_join"): return "V", ""
        if f == "openblas_set_num_threads": return "V", ""
        if f == "openblas_get_num_threads": return "I", "any_i()"
        if f in ("cblas_sgemm", "cblas_dgemm"): return self.gemm(a)
        if f == "thread_create":
            w = self.x(a[1])[1]; s = self.x(a[2])
            if s[0] != "S": raise Unsupported("thread argument")
            self.workers[w] = dict(self.fields)
            self.pre.append("%s(%s);" % (w, ", ".join(self.actual(self.fields[k]) for k in sorted(self.fields)))); self.calls.append(w)
            for k in self.fields:
                if isinstance(self.fields[k][0], tuple): pass
            return "I", "n(0)"
        if f in ("memcpy", "memmove"):
            d, s = self.x(a[0]), self.x(a[1]); cnt = self.count(a[2])
            kd, ks = self.bufkind(d[0][1]), self.bufkind(s[0][1])
            if kd != ks: raise Unsupported("memcpy kinds")
            self.written.add(d[0][1]); b = d[0][1]; m = "&mut " + b if b in self.localbufs else b
            self.pre.append("%scopy(%s, %s, %s, %s, %s);" % ("i" if kd == "I" else "", m, d[0][2] or "n(0)", self.ref(s[0][1]), s[0][2] or "n(0)", cnt)); return "V", ""
        if f in ("malloc", "calloc"): return "M", self.count(a[0] if f == "malloc" else a[0])
        m = re.match(r"simd_(f32|f64)_(\w+)$", f)
        if m:
            w = self.lanes(m.group(1)); op = m.group(2)
            if op == "load":
                p = self.x(a[0])
                if not isinstance(p[0], tuple) or self.bufkind(p[0][1]) != "E": raise Unsupported("vector load")
                self.used.append(p[0][1]); return "W", "vload(%s, %s, n(%d))" % (self.ref(p[0][1]), p[0][2] or "n(0)", w)
            if op == "store":
                p = self.x(a[0]); v = self.x(a[1])
                if not isinstance(p[0], tuple) or v[0] != "W": raise Unsupported("vector store")
                b = p[0][1]; self.written.add(b); mm = "&mut " + b if b in self.localbufs else b
                self.pre.append("vstore(%s, %s, n(%d), %s);" % (mm, p[0][2] or "n(0)", w, v[1])); return "V", ""
            if op == "set1": return "W", "vset1(%s, n(%d))" % (self.E(self.x(a[0])), w)
            es = [self.x(p) for p in a]
            if any(e[0] != "W" for e in es): raise Unsupported("vector operands")
            self.vops[m.group(1) + "_" + op] = (w, len(es))
            return ("E" if op.startswith("reduce") else "W"), "v_%s_%s(%s)" % (m.group(1), op, ", ".join(e[1] for e in es))
        if f == "memset":
            d = self.x(a[0]); v = self.x(a[1]); cnt = self.count(a[2])
            if v[1] != "n(0)" or not isinstance(d[0], tuple): raise Unsupported("memset")
            b = d[0][1]; self.written.add(b); mm = "&mut " + b if b in self.localbufs else b
            if self.bufkind(b) != "E": raise Unsupported("memset of integers")
            self.pre.append("set_zero(%s, %s, %s);" % (mm, d[0][2] or "n(0)", cnt)); return "V", ""
        if f in self.callees:
            args = []
            for p in a:
                e = self.x(p)
                if isinstance(e[0], tuple): args += [self.actual(e)]
                elif e[0] in ("I", "B", "E", "RB"): args.append(e[1])
                else: raise Unsupported("argument %s" % (e,))
            self.calls.append(f); r = self.callees[f]
            if f.startswith("hodu_cpu_"): args = [re.sub(r", n\(0\)$", "", q) for q in args]
            t = "%s(%s)" % (f, ", ".join(args))
            if r == "V": self.pre.append(t + ";"); return "V", ""
            return r, t
        es = [self.x(p) for p in a]
        if any(isinstance(e[0], tuple) for e in es): raise Unsupported("call of %s with a pointer" % f)
        if not re.search(r"index|coord", f):
            args = [self.E(e) for e in es]; rt = "E"
            return "E", self.eop("call_" + f, args)
        raise Unsupported("call of " + f)
    def gemm(self, a):
        """C = alpha * op(A) * op(B) + beta * C, as the trusted call gemm(..)"""
        if len(a) != 14: raise Unsupported("gemm arguments")
        def num(q):
            while q["kind"] in ("ImplicitCastExpr", "ParenExpr"): q = q["inner"][0]
            if q["kind"] != "FloatingLiteral" or float(q["value"]) not in (0.0, 1.0): raise Unsupported("gemm factor")
            return "n(%d)" % float(q["value"])
        out = []
        for i, q in enumerate(a):
            if i in (6, 11): out.append(num(q)); continue
            e = self.x(q)
            if i in (7, 9):
                if not isinstance(e[0], tuple) or self.bufkind(e[0][1]) != "E": raise Unsupported("gemm operand")
                self.used.append(e[0][1]); out.append("%s, %s" % (self.ref(e[0][1]), e[0][2] or "n(0)"))
            elif i == 12:
                if not isinstance(e[0], tuple): raise Unsupported("gemm output")
                self.written.add(e[0][1]); out.append("%s%s, %s" % ("&mut " if e[0][1] in self.localbufs else "", e[0][1], e[0][2] or "n(0)"))
            else: out.append(self.I(e))
        self.pre.append("gemm(%s);" % ", ".join(out)); return "V", ""
    def lanes(self, t):
        m = re.search(r"typedef\s+(__m128d?|__m256d?|float32x4_t|float64x2_t)\s+simd_%s_t" % t, preprocess(self.cfile)[1])
        if not m: raise Unsupported("vector width")
        return {"__m128": 4, "__m128d": 2, "__m256": 8, "__m256d": 4, "float32x4_t": 4, "float64x2_t": 2}[m.group(1)]
    def actual(self, e):
        if not isinstance(e[0], tuple): return e[1]
        (_, base, off), _t = e
        m = "&mut " + base if base in self.localbufs else base
        return "%s, %s" % (m, off or "n(0)")
    def count(self, n):
        """n * sizeof(T)"""
        while n["kind"] in ("ParenExpr", "ImplicitCastExpr"): n = n["inner"][0]
        if n["kind"] == "BinaryOperator" and n["opcode"] == "*":
            l, r = n["inner"]
            def sz(q):
                while q["kind"] in ("ParenExpr", "ImplicitCastExpr"): q = q["inner"][0]
                return q["kind"] == "UnaryExprOrTypeTraitExpr"
            if sz(r): return self.I(self.x(l))
            if sz(l): return self.I(self.x(r))
        raise Unsupported("byte count")
    # ---- statements
    def s(self, n):
        k = n["kind"]; c = n.get("inner", [])
        if k == "CompoundStmt":
            self.emit("{"); self.env.append({})
            for q in c: self.s(q)
            self.env.pop(); self.emit("}"); return
        if k == "NullStmt": return
        if k == "DeclStmt":
            for d in c: self.decl(d)
            return
        if k == "IfStmt":
            b = self.B(self.x(c[0])); self.flush(); self.emit("if %s" % b); self.block(c[1])
            if len(c) > 2: self.emit("else"); self.block(c[2])
            return
        if k in ("ForStmt", "WhileStmt", "DoStmt"): return self.loop(n)
        if k == "BreakStmt": self.emit("break;"); return
        if k == "ContinueStmt":
            inc = self.inc_stack[-1]
            if inc: self.x(inc); self.flush()
            self.emit("continue;"); return
        if k == "ReturnStmt":
            if c:
                e = self.x(c[0]); self.flush()
                if isinstance(e[0], tuple) or e[0] == "V" or self.ret is None: self.emit("return;")
                else: self.emit("return %s;" % {"I": self.I, "B": self.B, "E": self.E}[self.ret](e))
            else: self.emit("return;")
            return
        e = self.x(n); self.flush()
    def block(self, n):
        if n["kind"] == "CompoundStmt": self.s(n)
        else:
            self.emit("{"); self.env.append({}); self.s(n); self.env.pop(); self.emit("}")
    def decl(self, d):
        if d["kind"] == "FunctionDecl": return
        if d["kind"] != "VarDecl": raise Unsupported(d["kind"])
        nm, qt = d["name"], d["type"]["qualType"]; t = strip(qt); init = d.get("inner", [])
        init = [i for i in init if "Expr" in i["kind"] or "Operator" in i["kind"] or "Literal" in i["kind"]]
        rn = nm if nm not in ("in", "mod", "ref", "type", "use", "move", "fn", "match", "loop", "where", "box", "final", "n", "add", "sub", "mul", "div", "rem", "get", "set", "lt", "le", "gt", "ge", "eq", "ne", "copy") else nm + "_v"
        m = re.match(r"(.*?)\s*\[(.*)\]$", t)
        if m:
            el, size = m.group(1), m.group(2)
            if "thread" in el and "args" not in el: return
            if el.endswith("args_t") or "args" in el: self.env[-1][nm] = ("A", nm); return
            kind = "I" if (el in ITYPES or nm in self.ibufs) and nm not in self.evars else "E"
            m2 = re.fullmatch(r"(\d+)\]\s*\[(\d+)", size)
            if m2: size = str(int(m2.group(1)) * int(m2.group(2)))
            if "[" in size or "]" in size: raise Unsupported("array of arrays")
            if init and init[0]["kind"] == "InitListExpr" and not self.all_zero(init[0]): raise Unsupported("array initialiser")
            if not size.isdigit():
                if not init:
                    v = self.look(size) if re.fullmatch(r"[A-Za-z_]\w*", size) else ("?", "")
                    if v[0] != "I": raise Unsupported("array size")
                    self.flush(); self.localbufs[rn] = kind; self.emit("let mut %s = %sbuf(%s);" % (rn, "i" if kind == "I" else "", v[1])); self.env[-1][nm] = (("P", rn, None), "p"); return
                sz = self.I(self.x(init[0])); init = init[1:]
            else: sz = "n(%s)" % size
            self.flush(); self.localbufs[rn] = kind
            z = "_zero" if init else ""
            self.emit("let mut %s = %sbuf%s(%s);" % (rn, "i" if kind == "I" else "", z, sz)); self.env[-1][nm] = (("P", rn, None), "p"); return
        if t.endswith("*"):
            if not init:
                raise Unsupported("uninitialised pointer")
            e = self.x(init[0]); self.flush()
            if e[0] == "S": self.env[-1][nm] = e; return
            if e[0] == "M":
                kind = "I" if (t[:-1].strip() in ITYPES or nm in self.ibufs) and nm not in self.evars else "E"
                self.localbufs[rn] = kind; self.emit("let mut %s = %sbuf(%s);" % (rn, "i" if kind == "I" else "", e[1])); self.env[-1][nm] = (("P", rn, None), "p"); return
            if not isinstance(e[0], tuple): raise Unsupported("pointer from %s" % (e,))
            (_, base, off), _t = e
            if base is None: raise Unsupported("null pointer variable")
            el = t[:-1].strip()
            if base not in self.localbufs and base in self.paramkind and self.paramkind[base] is None:
                self.paramkind[base] = "I" if (el in ITYPES or nm in self.ibufs) else "E"; self.names[base] = self.paramkind[base]
            mut = any(q == nm for q in self.ptr_assigned)
            if off is None and not mut: self.env[-1][nm] = (("P", base, None), "p")
            else: self.emit("let mut %s_off = %s;" % (nm, off or "n(0)")); self.env[-1][nm] = (("P", base, nm + "_off"), "p")
            return
        if "args_t" in t: self.env[-1][nm] = ("S", nm); return
        if t == "thread_t" or t == "pthread_t": return
        if re.match(r"simd_f(32|64)_t$", t):
            e = self.x(init[0]); self.flush()
            if e[0] != "W": raise Unsupported("vector from %s" % (e,))
            self.emit("let mut %s = %s;" % (rn, e[1])); self.env[-1][nm] = ("W", rn); return
        kind = self.kindof(nm, qt)
        if init:
            e = self.x(init[0]); self.flush()
            if kind == "b?": kind = "E" if e[0] == "E" else "B"
            v = {"I": self.I, "B": self.B, "E": self.E}[kind](e)
            if kind == "I" and t in ("int", "long", "ptrdiff_t", "ssize_t") and v.startswith("subu("): v = "sub(" + v[5:]   # converted back to a signed type
        else:
            if kind == "b?": kind = "B"
            v = {"I": "any_i()", "B": "any_b()", "E": "any_e()"}[kind]
        self.emit("let mut %s = %s;" % (rn, v)); self.env[-1][nm] = (kind, rn)
    def loop(self, n):
        c = n["inner"]; k = n["kind"]; self.env.append({}) ; self.emit_at(-1, "{")
        if k == "ForStmt":
            init, _, cond, inc, body = c
            if init.get("kind"): self.s(init)
        elif k == "WhileStmt": cond, body = c[0], c[-1]; inc = {}
        else: raise Unsupported("do loop")
        if not inc.get("kind"): inc = None
        idx = self.loops; self.loops += 1
        if cond.get("kind"):
            e = self.B(self.x(cond)); pre = [q.replace("= dec(", "= decw(") for q in self.pre]; self.pre = []
        else: e = "true"; pre = []
        hdr = ("; ".join(pre) + " " if pre else "") + e; self.loop_headers.append(hdr)
        self.emit("/*BEFORE %d*/" % idx)
        if pre:
            self.emit("loop /*LOOP %d %s*/ {" % (idx, hdr)); self.env.append({})
            for p in pre: self.emit(p)
            self.emit("if !(%s) { break; }" % e)
        else:
            self.emit("while %s /*LOOP %d %s*/ {" % (e, idx, hdr)); self.env.append({})
        self.emit("/*HEAD %d*/" % idx)
        self.inc_stack.append(inc)
        self.block(body) if body["kind"] != "CompoundStmt" else [self.s(q) for q in body.get("inner", [])]
        self.inc_stack.pop()
        self.emit("/*TAIL %d*/" % idx)
        if inc: self.x(inc); self.flush()
        self.emit("/*END %d*/" % idx)
        self.env.pop(); self.emit("}"); self.emit("/*AFTER %d*/" % idx)
        self.env.pop(); self.emit("}")
    def emit_at(self, d, s): self.out.append("    " * (len(self.env) + d) + s)
    # ---- the function
    def run(self, struct=None):
        """struct: for a thread worker, the fields' kinds {name: (kind or 'P'+kind)}"""
        d = self.d; self.paramkind = {}; self.ptr_assigned = self.find_ptr_assigned(d)
        ps = [p for p in d["inner"] if p["kind"] == "ParmVarDecl"]; body = [p for p in d["inner"] if p["kind"] == "CompoundStmt"][0]
        rt = strip(d["type"]["qualType"].split("(")[0])
        self.ret = None if rt.startswith("void") else ("B" if rt in ("bool", "_Bool") else "I" if rt in ITYPES else "E")
        order = []
        if struct is not None:
            self.env[0][ps[0]["name"]] = ("S", ps[0]["name"])
            for f in sorted(struct):
                kd = struct[f]
                if kd.startswith("P"): self.names[f] = kd[1]; self.paramkind[f] = kd[1]; self.env[0][f] = (("P", f, f + "_off"), "p"); order.append(("P", f))
                else: self.env[0][f] = (kd, f); order.append((kd, f))
        else:
            for p in ps:
                nm = p["name"]; t = strip(p["type"]["qualType"])
                if t.endswith("*"):
                    el = t[:-1].strip()
                    if el in ("bool", "_Bool") and not d["name"].startswith("hodu_cpu") and "const" not in p["type"]["qualType"]: self.env[0][nm] = ("R", nm); order.append(("R", nm)); continue
                    kd = None if el == "void" else ("I" if el in ITYPES or nm in self.ibufs else "E")
                    if nm in self.ibufs: kd = "I"
                    self.paramkind[nm] = kd
                    if kd: self.names[nm] = kd
                    off = None if self.ret is None and d["name"].startswith("hodu_cpu") else nm + "_off"
                    self.env[0][nm] = (("P", nm, off), "p"); order.append(("P", nm))
                else:
                    kd = self.kindof(nm, p["type"]["qualType"]); kd = "B" if kd == "b?" else kd
                    self.env[0][nm] = (kd, nm); order.append((kd, nm))
        for q in body.get("inner", []): self.s(q)
        sig = []
        for kd, nm in order:
            if kd == "P":
                k2 = self.names.get(nm, "E"); mut = nm in self.written or nm in getattr(self, "mutparams", ())
                sig.append("%s: %s%s" % (nm, "&mut " if mut else "&", "IBuf" if k2 == "I" else "Buf"))
                if self.env[0].get(nm) and self.env[0][nm][0][2]: sig.append("%s_off: I" % nm)
                if nm in self.nullable: sig.append("%s_nn: bool" % nm)
            else: sig.append("%s: %s" % (nm, {"I": "I", "B": "bool", "E": "E", "R": "&mut bool"}[kd]))
        self.sig = sig
        return self
    def find_ptr_assigned(self, d):
        out = set()
        def w(n):
            if n.get("kind") in ("BinaryOperator", "CompoundAssignOperator") and n.get("opcode", "").endswith("=") and n["opcode"] not in ("==", "!=", "<=", ">=") or (n.get("kind") == "UnaryOperator" and n.get("opcode") in ("++", "--")):
                l = n["inner"][0]
                while l["kind"] == "ParenExpr": l = l["inner"][0]
                if l["kind"] == "DeclRefExpr" and "*" in l["type"]["qualType"]: out.add(l["referencedDecl"]["name"])
            for q in n.get("inner", []): w(q)
        w(d); return out
    def text(self): return "\n".join(self.out)
if __name__ == "__main__":
    import sys
    t = T(sys.argv[1], sys.argv[2], callees={"get_strided_index": "I", "is_contiguous": "B", "get_optimal_threads": "I"}).run()
    print("fn %s(%s)" % (t.fn, ", ".join(t.sig))); print(t.text()); print(t.eops, t.workers.keys())
