"""Mechanical extraction of real Rust functions from /repo into Verus, with contracts.

The executable text of every function under contract is taken from /repo on every run;
only the desugarings listed in REWRITES (see rewrite_body) are applied, and contracts,
loop invariants and proof blocks are inserted around it.  A function that cannot be
found, or whose loops are not the ones the invariants were written for, raises
LostAnchor: the caller then falls back to the bounded stand-in and says so.
"""
import re, os, subprocess, json, time, tempfile, shutil

REPO = os.environ.get("HODU_REPO", "/repo")

class LostAnchor(Exception):
    pass

# ----------------------------------------------------------------- lexing helpers
def strip_comments(s):
    """Remove comments and attributes; keep strings and chars."""
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
        elif s.startswith("/*", i):
            d, i = 1, i + 2
            while i < n and d:
                if s.startswith("/*", i): d += 1; i += 2
                elif s.startswith("*/", i): d -= 1; i += 2
                else: i += 1
        elif c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1]); i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
            if m: out.append(m.group(0)); i += len(m.group(0))
            else: out.append(c); i += 1
        elif c == "#" and re.match(r"#!?\[", s[i:]):
            j = s.index("[", i); d = 0
            k = j
            while True:
                if s[k] == "[": d += 1
                elif s[k] == "]":
                    d -= 1
                    if d == 0: break
                k += 1
            attr = s[i:k + 1]
            if re.match(r"#\[cfg\(test\)\]", attr):
                out.append(" __CFG_TEST__ ")
            i = k + 1
        else:
            out.append(c); i += 1
    return "".join(out)

OPEN, CLOSE = "([{", ")]}"
def skip_lit(s, i):
    """If a string/char literal starts at i return its end, else None."""
    if s[i] == '"':
        j = i + 1
        while s[j] != '"':
            j += 2 if s[j] == "\\" else 1
        return j + 1
    if s[i] == "'":
        m = re.match(r"'(\\.[^']*|[^\\'])'", s[i:])
        if m: return i + len(m.group(0))
    return None

def match_close(s, i):
    """s[i] is an opening bracket; index of its partner."""
    d, n = 0, len(s)
    while i < n:
        e = skip_lit(s, i)
        if e: i = e; continue
        if s[i] in OPEN: d += 1
        elif s[i] in CLOSE:
            d -= 1
            if d == 0: return i
        i += 1
    raise LostAnchor("unbalanced brackets")

def norm_ws(s):
    return re.sub(r"\s+", " ", s).strip()

# ----------------------------------------------------------------- items
class Fn:
    def __init__(self, impl, name, sig, params, ret, body):
        self.impl, self.name, self.sig, self.params, self.ret, self.body = impl, name, sig, params, ret, body

class Source:
    def __init__(self, path):
        self.path = path
        full = os.path.join(REPO, path)
        if not os.path.exists(full):
            raise LostAnchor("file %s is gone" % path)
        self.text = strip_comments(open(full).read())
        i = self.text.find("__CFG_TEST__")
        while i >= 0:  # drop #[cfg(test)] items
            b = self.text.index("{", i); e = match_close(self.text, b)
            self.text = self.text[:i] + self.text[e + 1:]
            i = self.text.find("__CFG_TEST__")
        self.fns = {}
        self.structs = {}
        self._scan(self.text, None)

    def _scan(self, s, impl):
        i, n = 0, len(s)
        while i < n:
            e = skip_lit(s, i)
            if e: i = e; continue
            m = re.compile(r"\b(impl)\b([^{;]*)\{").match(s, i)
            if m and impl is None and (i == 0 or not s[i-1].isalnum()):
                b = m.end() - 1; c = match_close(s, b)
                head = m.group(2).strip()
                if " for " in head:
                    ty = head
                else:
                    ty = re.sub(r"<.*", "", re.sub(r"^<[^>]*>", "", head).strip()).strip()
                self._scan(s[b + 1:c], ty)
                i = c + 1; continue
            m = re.compile(r"\b(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?fn\s+(\w+)").match(s, i)
            if m and (i == 0 or not (s[i-1].isalnum() or s[i-1] == "_")):
                j = m.end()
                gen = ""
                if s[j] == "<":
                    d = 0; k = j
                    while True:
                        if s[k] == "<": d += 1
                        elif s[k] == ">" and s[k-1] != "-":
                            d -= 1
                            if d == 0: break
                        k += 1
                    gen = s[j:k+1]; j = k + 1
                while s[j].isspace(): j += 1
                pc = match_close(s, j)
                params = s[j + 1:pc]
                k = pc + 1
                # return type up to { or ; at depth 0
                while s[k] not in "{;":
                    if s[k] in "([": k = match_close(s, k)
                    k += 1
                rt = s[pc + 1:k].strip()
                where = ""
                if re.search(r"\bwhere\b", rt):
                    rt, where = re.split(r"\bwhere\b", rt, maxsplit=1)
                rt = rt.strip()
                ret = rt[2:].strip() if rt.startswith("->") else "()"
                if s[k] == "{":
                    c = match_close(s, k)
                    key = (impl, m.group(1))
                    self.fns[key] = Fn(impl, m.group(1), norm_ws(m.group(0) + gen), norm_ws(params).rstrip(", "), norm_ws(ret), s[k + 1:c])
                    i = c + 1
                else:
                    i = k + 1
                continue
            m = re.compile(r"\b(?:pub(?:\([a-z]+\))?\s+)?(struct|enum)\s+(\w+)(<[^{;(]*>)?\s*([{(;])").match(s, i)
            if m and impl is None and (i == 0 or not (s[i-1].isalnum() or s[i-1] == "_")):
                if m.group(4) in "{(":
                    b = m.end() - 1; c = match_close(s, b)
                    self.structs[m.group(2)] = (m.group(1), m.group(4), s[b + 1:c])
                    i = c + 1
                else:
                    i = m.end()
                continue
            if s[i] == "{":
                # unrelated block (mod, trait, fn body of macro): step over
                i = match_close(s, i) + 1
                continue
            i += 1

    def fn(self, impl, name):
        f = self.fns.get((impl, name))
        if f is None:
            raise LostAnchor("function %s%s not found in %s" % ((impl + "::") if impl else "", name, self.path))
        return f

# ----------------------------------------------------------------- desugarings
def find_calls(s, head):
    """positions of regex head followed by an opening bracket"""
    for m in re.finditer(head, s):
        yield m

def drop_error_payloads(s):
    """HoduError::Anything(...)/{...}  ->  HoduError   (error payloads are not specified)"""
    out, i = [], 0
    pat = re.compile(r"\b(?:hodu_core::error::)?HoduError\s*::\s*\w+\s*")
    while True:
        m = pat.search(s, i)
        if not m:
            out.append(s[i:]); break
        out.append(s[i:m.start()]); out.append("HoduError")
        j = m.end()
        if j < len(s) and s[j] in "({":
            j = match_close(s, j) + 1
        i = j
    return "".join(out)

def split_top(s, sep=","):
    parts, d, last, i = [], 0, 0, 0
    while i < len(s):
        e = skip_lit(s, i)
        if e: i = e; continue
        if s[i] in OPEN: d += 1
        elif s[i] in CLOSE: d -= 1
        elif s[i] == sep and d == 0:
            parts.append(s[last:i]); last = i + 1
        i += 1
    parts.append(s[last:])
    return [p.strip() for p in parts]

LOOP = re.compile(r"(?<![\w.'])(?:'\w+\s*:\s*)?(for|while|loop)\b")

def find_loops(s):
    """list of (start, header_end(index of '{'), close, header_text) in source order (outer before inner)"""
    res, i = [], 0
    while True:
        # skip literals
        m = LOOP.search(s, i)
        if not m: break
        # find the '{' of the body at bracket depth 0
        j = m.end()
        while s[j] != "{":
            e = skip_lit(s, j)
            if e: j = e; continue
            if s[j] in "([": j = match_close(s, j)
            j += 1
        c = match_close(s, j)
        res.append((m.start(), j, c, norm_ws(s[m.start():j])))
        i = j + 1
    return res

def pat_vars(p):
    p = p.strip()
    return p

def bind(pat, expr, owned):
    """let-binding of one loop pattern against element reference `expr` (an index expression)."""
    pat = pat.strip()
    if pat == "_":
        return ""
    if pat.startswith("&mut "):
        raise LostAnchor("pattern " + pat)
    if pat.startswith("&"):
        return "let %s = %s; " % (pat[1:].strip(), expr)
    return "let %s = &%s; " % (pat, expr)

def slice_expr(e):
    e = e.strip()
    e = re.sub(r"\.iter\(\)$", "", e)
    e = re.sub(r"^&\s*", "", e)
    return e

def desugar_for(header, k):
    """Return (prelude, new header, binding) for a for-loop header, or None to keep it."""
    m = re.match(r"^for\s+(.*?)\s+in\s+(.*)$", header)
    if not m:
        return None
    pat, ex = m.group(1), m.group(2).strip()
    depth_range = re.search(r"\.\.", ex) and len(re.findall(r"\.\.", re.sub(r"\[[^\]]*\]", "", ex))) > 0
    mr = re.match(r"^\((.*)\)\.rev\(\)$", ex)
    if mr and ".." in mr.group(1):
        a, b = mr.group(1).split("..", 1)
        if b.startswith("="):
            raise LostAnchor("inclusive reversed range")
        return ("let vx_lo%d = %s; let mut vx_r%d = %s; " % (k, a.strip() or "0", k, b.strip()),
                "while vx_r%d > vx_lo%d" % (k, k), "vx_r%d -= 1; let %s = vx_r%d; " % (k, pat, k), "vx_r%d - vx_lo%d" % (k, k))
    if depth_range:
        if pat == "_":
            return ("", "for vx_i%d in %s" % (k, ex), "", None)
        return None
    me = re.match(r"^(.*)\.iter\(\)\.enumerate\(\)$", ex) or re.match(r"^(.*)\.enumerate\(\)$", ex)
    mz = re.match(r"^(.*?)\.iter\(\)\.zip\((.*)\)$", ex)
    if me and pat.startswith("("):
        pi, pe = split_top(pat[1:-1])
        base = slice_expr(me.group(1))
        return ("let vx_s%d = &%s; " % (k, base), "for vx_i%d in 0..vx_s%d.len()" % (k, k),
                ("let %s = vx_i%d; " % (pi, k) if pi != "_" else "") + bind(pe, "vx_s%d[vx_i%d]" % (k, k), False), None)
    if mz and pat.startswith("("):
        pa, pb = split_top(pat[1:-1])
        a, b = slice_expr(mz.group(1)), slice_expr(mz.group(2))
        return ("let vx_s%d = &%s; let vx_t%d = &%s; " % (k, a, k, b),
                "for vx_i%d in 0..(if vx_s%d.len() <= vx_t%d.len() { vx_s%d.len() } else { vx_t%d.len() })" % (k, k, k, k, k),
                bind(pa, "vx_s%d[vx_i%d]" % (k, k), False) + bind(pb, "vx_t%d[vx_i%d]" % (k, k), False), None)
    mc = re.match(r"^([\w.]+)\.chunks\((.*)\)$", ex)
    if mc:
        return ("let vx_n%d = %s; let mut vx_c%d: usize = 0; " % (k, mc.group(2), k), "while vx_c%d < %s.len()" % (k, mc.group(1)),
                "let vx_e%d = if %s.len() - vx_c%d < vx_n%d { %s.len() } else { vx_c%d + vx_n%d }; let %s = vx_sub(&%s, vx_c%d, vx_e%d); vx_c%d = vx_e%d; " % (k, mc.group(1), k, k, mc.group(1), k, k, pat, mc.group(1), k, k, k, k), "%s.len() - vx_c%d" % (mc.group(1), k))
    if re.search(r"\.(map|filter|skip|take|rev|chain|step_by|windows|chunks)\(", ex):
        raise LostAnchor("iterator adaptor in loop header: " + header)
    base = slice_expr(ex)
    return ("let vx_s%d = &%s; " % (k, base), "for vx_i%d in 0..vx_s%d.len()" % (k, k),
            bind(pat, "vx_s%d[vx_i%d]" % (k, k), False), None)

def desugar_iter_chains(s):
    """`X.iter().filter(|P| C).copied().collect()`, `X.iter().map(|P| E).collect()` -> loops in a block."""
    # filter + copied + collect
    pat = re.compile(r"([\w.()]+?)\.iter\(\)\s*\.filter\(\|(&&?)(\w+)\|\s*([^|]*?)\)\s*\.copied\(\)\s*\.collect(?:::<[^()]*>)?\(\)")
    s = pat.sub(lambda m: "vx_filter!(%s, %s, %s)" % (m.group(1), m.group(3), m.group(4)), s)
    return s

def rewrite_body(s, extra=()):
    s = drop_error_payloads(s)
    s = re.sub(r"\s*\.ok_or_else\(\s*\|\|\s*\{?\s*HoduError\s*\}?\s*\)", ".ok_or(HoduError)", s)
    s = re.sub(r"SmallVec::from_vec\(", "vx_id(", s)
    s = re.sub(r"SmallVec::from_slice\(([^()]*(?:\([^()]*\))?[^()]*)\)", r"vx_to_vec(\1)", s)
    s = re.sub(r"SmallVec::from_elem\(", "vx_from_elem(", s)
    s = re.sub(r"SmallVec::(new|with_capacity)", r"Vec::\1", s)
    s = re.sub(r"SmallVec<\[([^;\]]+); *\d+\]>", r"Vec<\1>", s)
    s = re.sub(r"([\w.]+)\.iter\(\)\.product(?:::<usize>)?\(\)", r"vx_product(&\1)", s)
    s = re.sub(r"\.to_string\(\)", "", s)
    s = re.sub(r"\(0\.\.([\w.()]+?)\)\.collect\(\)", r"vx_upto(\1)", s)
    s = re.sub(r"&([\w.]+)\[([\w.]+)\.\.([\w.]+)\]", r"vx_sub(&\1, \2, \3)", s)
    s = re.sub(r"\buse rand::[\w:*]+;", "", s)
    s = re.sub(r"SmallRng::seed_from_u64\(", "vx_seed(", s)
    s = re.sub(r"(\w+)\.random_range\(0\.\.=(\w+)\)", r"vx_draw(&mut \1, \2)", s)
    s = re.sub(r"\bdebug_assert(_eq|_ne)?!\([^;]*\);", "", s)
    for a, b in extra:
        s = re.sub(a, b, s)
    return s

def rewrite_type(t):
    t = re.sub(r"SmallVec<\[([^;\]]+); *\d+\]>", r"Vec<\1>", t)
    t = t.replace("impl Into<Shape>", "Shape").replace("HashMap<char, usize>", "CharMap").replace("crate::einsum::", "")
    return t

# ----------------------------------------------------------------- emission
class Contract:
    """Contract for one real function."""
    def __init__(self, file, impl, name, requires="", ensures="", ret="r", loops=(), pre="", post=(), extra=(),
                 before=(), rename=None, params=None, attrs="", recommends="", mode="exec", decreases="", generics=None):
        self.__dict__.update(locals())

def emit_assumed(src, c):
    """the contract alone: the body is left unchecked (bounded stand-in), callers still use the contract"""
    f = src.fn(c.impl, c.name)
    sig = re.sub(r"^const ", "", f.sig.replace("pub const", "pub"))
    if c.rename:
        sig = re.sub(r"\b%s\b" % c.name, c.rename, sig)
    params = c.params if c.params is not None else rewrite_type(f.params)
    ret = rewrite_type(f.ret)
    out = "#[verifier::external_body]\n" + sig + "(" + params + ")"
    if ret != "()": out += " -> (%s: %s)" % (c.ret, ret)
    out += "\n"
    if c.requires: out += "    requires " + c.requires.strip().rstrip(",") + ",\n"
    if c.ensures: out += "    ensures " + c.ensures.strip().rstrip(",") + ",\n"
    return out + "{ unimplemented!() }\n"

def emit_fn(src, c):
    f = src.fn(c.impl, c.name)
    body = rewrite_body(f.body, c.extra)
    # loops, innermost-last so indices stay valid: process from the end
    loops = find_loops(body)
    if len(loops) != len(c.loops):
        raise LostAnchor("%s: %d loops, contract has %d" % (c.name, len(loops), len(c.loops)))
    for idx in range(len(loops) - 1, -1, -1):
        st, hb, cl, header = loops[idx]
        spec = c.loops[idx]
        if not re.search(spec["match"], header):
            raise LostAnchor("%s: loop %d is `%s`" % (c.name, idx, header))
        des = desugar_for(header, idx)
        pre, hd, bnd, decr = ("", header, "", None) if des is None else des
        inv = spec.get("inv", "")
        dec = spec.get("dec") or decr
        txt = pre + spec.get("before", "") + hd + "\n"
        if spec.get("inv_except_break"):
            txt += "    invariant_except_break " + spec["inv_except_break"] + ",\n"
        txt += ("    invariant " + inv + ",\n" if inv else "")
        if spec.get("ensures"):
            txt += "    ensures " + spec["ensures"] + ",\n"
        if dec: txt += "    decreases " + dec + ",\n"
        # the loop's own text may have inner loops already rewritten: recompute close
        cl2 = match_close(body, hb)
        inner = body[hb + 1:cl2]
        txt += "{ " + bnd + spec.get("head", "") + inner + spec.get("tail", "") + " }" + spec.get("after", "")
        body = body[:st] + txt + body[cl2 + 1:]
    for a, b in c.before:  # proof text inserted before the (unique) match of a regex
        ms = list(re.finditer(a, body))
        if len(ms) < 1:
            raise LostAnchor("%s: no anchor /%s/" % (c.name, a))
        for m in reversed(ms):
            body = body[:m.start()] + b + " " + body[m.start():]
    sig = re.sub(r"^const ", "", f.sig.replace("pub const", "pub"))
    if c.generics is not None: sig = re.sub(r"<.*>$", "", sig) + c.generics
    if c.rename:
        sig = re.sub(r"\b%s\b" % c.name, c.rename, sig)
    params = c.params if c.params is not None else rewrite_type(f.params)
    ret = rewrite_type(f.ret)
    out = c.attrs + "\n" + sig + "(" + params + ")"
    if ret != "()":
        out += " -> (%s: %s)" % (c.ret, ret)
    out += "\n"
    if c.requires: out += "    requires " + c.requires.strip().rstrip(",") + ",\n"
    if c.ensures: out += "    ensures " + c.ensures.strip().rstrip(",") + ",\n"
    if c.decreases: out += "    decreases " + c.decreases + ",\n"
    out += "{\n" + c.pre + body + "\n}\n"
    probe = None
    if c.requires:
        pname = "vxprobe_" + (c.rename or c.name)
        psig = re.sub(r"\b%s\b" % (c.rename or c.name), pname, sig)
        probe = psig + "(" + params + ")" + (" -> (%s: %s)" % (c.ret, ret) if ret != "()" else "") + \
            "\n    requires " + c.requires.strip().rstrip(",") + ",\n{ proof { assert(false); } loop decreases 0int { assume(false); } }\n"
    return out, probe

def emit_struct(src, name, pub=True):
    if name not in src.structs:
        raise LostAnchor("struct %s not found in %s" % (name, src.path))
    kind, br, body = src.structs[name]
    body = rewrite_type(norm_ws(body))
    if kind == "struct" and br == "{":
        fields = [re.sub(r"^(pub(\([a-z]+\))?\s+)?", "pub ", x) for x in split_top(body) if x]
        body = ", ".join(fields)
    close = {"{": "}", "(": ");"}[br]
    return "pub %s %s %s %s %s\n" % (kind, name, br, body, close)

PRELUDE = open(os.path.join(os.path.dirname(__file__), "prelude.rs")).read()


END = "\n} // verus!\nfn main() {}\n"

class Unit:
    """A set of real functions verified together.  parts: ("raw", text) | ("struct", file, name) |
    ("impl", type or None, file, [Contract])."""
    def __init__(self, name, parts, prelude=PRELUDE, rlimit=60):
        self.name, self.parts, self.prelude, self.rlimit = name, parts, prelude, rlimit
    def build(self, assumed=()):
        """-> (text with bodies, text with vacuity probes, [fn names], {fn: why lost})"""
        srcs = {}
        def S(f):
            if f not in srcs: srcs[f] = Source(f)
            return srcs[f]
        text, probes, names, lost = self.prelude, "", [], {}
        for p in self.parts:
            if p[0] == "raw": text += p[1]
            elif p[0] == "struct": text += emit_struct(S(p[1]), p[2])
            elif p[0] == "denum": text += "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + re.sub(r"\s*=\s*\d+", "", emit_struct(S(p[1]), p[2]))
            elif p[0] == "gstruct": text += emit_struct(S(p[1]), p[2]).replace(" " + p[2] + " ", " " + p[2] + p[3] + " ", 1)
            elif p[0] == "impl":
                _, ty, f, cs = p[:4]; hd = p[4] if len(p) > 4 else ty
                if ty: text += "impl%s {\n" % (hd if hd.startswith("<") else " " + hd)
                pr = ""
                for c in cs:
                    q = (ty + "::" if ty else "") + (c.rename or c.name)
                    names.append(q)
                    try:
                        if q in assumed: raise LostAnchor(assumed[q])
                        t, pb = emit_fn(S(f), c)
                    except LostAnchor as e:
                        lost[q] = str(e)
                        t, pb = emit_assumed(S(f), c), None   # raises LostAnchor when the function is gone
                    except (IndexError, ValueError) as e:
                        lost[q] = "extraction: %r" % e
                        t, pb = emit_assumed(S(f), c), None
                    text += t
                    if pb: pr += pb
                if ty: text += "}\n"
                if pr: probes += ("impl%s {\n%s}\n" % (hd if hd.startswith("<") else " " + hd, pr)) if ty else pr
        return text, probes, names, lost

    def run(self, keep=None):
        """-> dict(status, verified, failed, undecided, assumed, probes, ...)"""
        t0 = time.time()
        res = dict(unit=self.name, verified=0, failed=[], undecided=[], assumed={}, probes=0, vacuous=[], functions=[], wall=0, solver_s=0.0, lost=None)
        assumed = {}
        try:
            for attempt in range(8):
                text, probes, names, lost = self.build(assumed)
                assumed.update(lost)
                full = text + END
                r = run_verus(full, self.name, self.rlimit, keep=keep)
                js = r["json"].get("verification-results")
                quals = {}
                for q in names: quals.setdefault(q.split("::")[-1], q)
                located = parse_errors(r["err"], full)
                errs = [(k, m, ln, fn) for (k, m, ln, fn) in located if k == "error"]
                # rustc/VIR errors (not verification failures): leave those functions to the stand-in
                if js is None or (js.get("encountered-vir-error") or js.get("verified", 0) == 0):
                    bad = {quals[fn] for (_, m, ln, fn) in errs if fn in quals and quals[fn] not in assumed}
                    if not bad: raise LostAnchor("unit does not compile: " + r["err"][:800])
                    for q in bad:
                        assumed[q] = "outside the verifier's subset: " + "; ".join(m for (_, m, ln, fn) in errs if quals.get(fn) == q)[:300]
                    continue
                break
            else:
                raise LostAnchor("no verifiable subset found")
            res["verified"] = js["verified"]
            res["functions"] = names
            res["assumed"] = dict(assumed)
            for (_, m, ln, fn) in errs:
                if m.startswith("aborting"): continue
                q = quals.get(fn)
                item = dict(fn=q or fn, message=m, line=ln, text=full.split("\n")[ln - 1].strip()[:300])
                if "esource limit" in m or q is None: res["undecided"].append(item)
                else: res["failed"].append(item)
            res["verifier_output"] = r["err"][-20000:] if errs else ""
            res["solver_s"] = float(r["json"].get("times-ms", {}).get("smt", {}).get("smt-run", 0) or 0) / 1000.0
            # vacuity probes: no precondition may be contradictory
            if probes:
                pt = text + probes + END
                pr = run_verus(pt, self.name + "_probe", self.rlimit, extra=["--no-lifetime"] if False else ())
                hit = {fn for (k, m, ln, fn) in parse_errors(pr["err"], pt) if k == "error" and fn and fn.startswith("vxprobe_")}
                want = set(re.findall(r"\bfn\s+(vxprobe_\w+)", probes))
                res["probes"] = len(want)
                res["vacuous"] = sorted(want - hit)
        except LostAnchor as e:
            res["lost"] = str(e)
        except subprocess.SubprocessError as e:
            res["lost"] = repr(e)
        res["wall"] = time.time() - t0
        return res

def run_verus(text, tag, rlimit=60, keep=None, extra=()):
    d = tempfile.mkdtemp(prefix="vx_")
    p = os.path.join(d, tag + ".rs")
    open(p, "w").write(text)
    t0 = time.time()
    try:
        r = subprocess.run(["verus", p, "--rlimit", str(rlimit), "--output-json", "--time-expanded", "--multiple-errors", "4", *extra],
                           capture_output=True, text=True, timeout=800, cwd=d)
        out, err, rc = r.stdout, r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out, err, rc = "", "TIMEOUT", -1
    if keep:
        shutil.copy(p, keep)
    shutil.rmtree(d, ignore_errors=True)
    try:
        js = json.loads(out)
    except Exception:
        js = {}
    return dict(rc=rc, json=js, err=err, wall=time.time() - t0)

def parse_errors(err, text):
    """[(kind, line, fn)] from rustc-style output"""
    lines = text.split("\n")
    fn_at = {}
    cur = None
    for i, l in enumerate(lines, 1):
        m = re.search(r"\bfn\s+(\w+)", l)
        if m and not l.strip().startswith("//"): cur = m.group(1)
        fn_at[i] = cur
    res = []
    for m in re.finditer(r"^(error|note)(?:\[[^\]]*\])?: (.*?)\n\s*--> [^\n:]*:(\d+):\d+", err, re.M):
        res.append((m.group(1), m.group(2), int(m.group(3)), fn_at.get(int(m.group(3)))))
    return res

def brief(r, text, width=160):
    """compact listing of a Verus run's errors"""
    lines = text.split("\n")
    fn_at, cur = {}, None
    for i, l in enumerate(lines, 1):
        m = re.search(r"\bfn\s+(\w+)", l)
        if m and not l.strip().startswith("//"): cur = m.group(1)
        fn_at[i] = cur
    out = []
    for m in re.finditer(r"^error(?:\[[^\]]*\])?: (.*?)\n\s*--> [^\n:]*:(\d+):(\d+)(.*?)(?=^(?:error|note|warning)|\Z)", r["err"], re.M | re.S):
        ln, col = int(m.group(2)), int(m.group(3))
        out.append("%s [%s] @%d: %s" % (m.group(1), fn_at.get(ln), ln, lines[ln - 1][col - 1:col - 1 + width]))
        for l in m.group(4).split("\n"):
            k = re.match(r"^(\d+)\s*\|", l)
            mm = re.match(r"^[\s|]*([-^]{3,})\s+(failed.*|.*)$", l.split("|",1)[1]) if "|" in l else None
            if "failed this" in l: out.append("      " + l.strip()[-120:])
    return "\n".join(out)

def unit_result(res, fns=None):
    """Unit.run result -> the record check.py consumes, restricted to the functions a property depends on"""
    mine = lambda q: fns is None or q is None or any(q.startswith(p) for p in fns)
    lost = res["lost"]
    bounded = [dict(fn=k, why=v) for k, v in res["assumed"].items() if mine(k)]
    if lost: bounded.append(dict(fn="unit " + res["unit"], why=lost))
    failed = [dict(fn=f["fn"], message=f["message"], at=f["text"], verifier_output=res.get("verifier_output", "")[-6000:]) for f in res["failed"] if mine(f["fn"])]
    und = [f for f in res["undecided"]] + [dict(fn=v, message="contradictory precondition (vacuous)") for v in res["vacuous"]]
    nf = len({f["fn"] for f in failed}) + len(und)
    return dict(obligations=res["verified"] + nf, discharged=res["verified"], functions=[f for f in res["functions"] if mine(f) and f not in res["assumed"]],
                bounded=bounded, undecided=und, failed=failed, backend="Verus/z3", solver_s=res["solver_s"],
                notes=["%s: %d vacuity probes, all refuted" % (res["unit"], res["probes"])] if not res["vacuous"] else ["VACUOUS: %s" % res["vacuous"]])

def report(unit, keep="/tmp/vt_%s.rs"):
    """command line: verify a unit and list what fails"""
    k = keep % unit.name; r = unit.run(keep=k)
    print({x: r[x] for x in ("verified", "assumed", "undecided", "lost", "vacuous", "probes", "solver_s", "wall")})
    for f in r["failed"]: print(f)
    if r.get("verifier_output"): print(brief(dict(err=r["verifier_output"]), open(k).read()))
