"""kvc: contracts on the C kernels, discharged by Verus over the text c2v.py translates from /repo's current source."""
import os, re, sys, json, time, hashlib, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "vx"))
import vx, c2v
from c2v import T, Unsupported
PRE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "prelude_c.rs")).read()
VOC = {"n", "add", "sub", "subu", "mul", "div", "rem", "sdiv", "srem", "neg", "lt", "le", "gt", "ge", "eq", "ne", "b_int", "e_of", "e_int", "e_truth"}
class Lost(Exception): pass

# ------------------------------------------------------------------ annotations
class Ann:
    """invariants and proof text of one loop"""
    def __init__(self, inv=(), before="", head="", tail="", end="", after="", exb=(), ens=(), raw="", match=None):
        self.raw, self.match = raw, match; self.inv, self.before, self.head, self.tail, self.end, self.after, self.exb, self.ens = list(inv), before, head, tail, end, after, list(exb), list(ens)
def proof(s): return ("proof { %s }" % s) if s else ""
def annotate(text, anns):
    """insert the loops' annotations; anns: {index: Ann}"""
    def sub(m):
        kind, k = m.group(1), int(m.group(2)); a = anns.get(k)
        if a is None: return ""
        return (a.raw if kind == "BEFORE" else "") + proof({"BEFORE": a.before, "HEAD": a.head, "TAIL": a.tail, "END": a.end, "AFTER": a.after}[kind])
    text = re.sub(r"/\*(BEFORE|HEAD|TAIL|END|AFTER) (\d+)\*/", sub, text)
    def loop(m):
        a = anns.get(int(m.group(1)))
        if a is None: return "{"
        if a.match and not re.search(a.match, m.group(2)): raise Lost("loop %s is `%s`" % (m.group(1), m.group(2)))
        s = ""
        if a.inv: s += "\n invariant " + ", ".join(a.inv) + ","
        if a.exb: s += "\n invariant_except_break " + ", ".join(a.exb) + ","
        if a.ens: s += "\n ensures " + ", ".join(a.ens) + ","
        return s + "\n{"
    return re.sub(r"/\*LOOP (\d+) (.*?)\*/ \{", loop, text)

class Fun:
    """one translated function with its contract"""
    def __init__(self, t, requires=(), ensures=(), anns=None, pre="", post="", decls="", name=None, covers=(), ret=None, before=(), assumed=False):
        self.t, self.requires, self.ensures, self.anns, self.pre, self.post, self.decls = t, list(requires), list(ensures), anns or {}, pre, post, decls
        self.name = name or t.fn; self.covers = list(covers) or [self.name]; self.ret = ret or t.ret; self.before = before; self.assumed = assumed
    def text(self, assumed=None):
        t = self.t; body = t.text()
        if set(range(t.loops)) - set(self.anns): raise Lost("loop without annotation in " + self.name)
        body = annotate(body, self.anns)
        for a, b in self.before:
            if not re.search(a, body): raise Lost("no anchor /%s/ in %s" % (a, self.name))
            body = re.sub(a, lambda m: b + " " + m.group(0), body)
        sh = ""
        for p in t.sig:
            nm, ty = p.split(": ")
            if ty in ("I", "E", "bool") and re.search(r"(?<![\w.])%s = " % nm, body): sh += "let old_%s = %s; let mut %s = %s; " % (nm, nm, nm, nm)
        body = sh + body
        sig = "fn %s(%s)" % (self.name, ", ".join(t.sig))
        if self.ret: sig += " -> (r: %s)" % {"I": "I", "B": "bool", "E": "E"}[self.ret]
        spec = ""
        if self.requires: spec += "\n requires " + ",\n  ".join(self.requires) + ","
        if self.ensures: spec += "\n ensures " + ",\n  ".join(self.ensures) + ","
        if assumed: return self.decls + "\n#[verifier::external_body]\n" + sig + spec + "\n{ unimplemented!() }\n"
        return self.decls + "\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::exec_allows_no_decreases_clause]\n" + sig + spec + "\n{\n" + proof(self.pre) + "\n" + body + "\n" + proof(self.post) + "\n}\n"
    def probe(self):
        if not self.requires: return ""
        r = " -> (r: %s)" % {"I": "I", "B": "bool", "E": "E"}[self.ret] if self.ret else ""
        return "\n#[verifier::exec_allows_no_decreases_clause]\nfn vxprobe_%s(%s)%s\n requires %s,\n{ proof { assert(false); } loop { assume(false); } }\n" % (self.name, ", ".join(self.t.sig), r, ",\n ".join(self.requires))

def eop_decls(ops):
    s = ""
    for o, (k, r) in sorted(ops.items()):
        ps = ", ".join("a%d: E" % i for i in range(k)); a = ", ".join("a%d" % i for i in range(k))
        s += "pub uninterp spec fn z_%s(%s) -> %s;\n#[verifier::external_body] pub fn %s(%s) -> (r: %s) ensures r == z_%s(%s) { unimplemented!() }\n" % (o, ps, r, o, ps, r, o, a)
    return s

# ------------------------------------------------------------------ reading the meaning of a straight-line body
def match(s, i):
    d = 0
    while i < len(s):
        if s[i] in "([{": d += 1
        elif s[i] in ")]}":
            d -= 1
            if d == 0: return i
        i += 1
    raise Lost("unbalanced")
def args_of(s, i):
    """arguments of the call whose '(' is at i"""
    return vx.split_top(s[i + 1:match(s, i)])
def loop_bodies(text):
    """{index: (header, body text)} of the translated loops"""
    out = {}
    for m in re.finditer(r"/\*LOOP (\d+) (.*?)\*/ \{", text):
        out[int(m.group(1))] = (m.group(2), text[m.end():match(text, m.end() - 1)])
    return out
def spec_expr(e, kinds):
    """exec expression -> spec expression"""
    e = re.sub(r"\b(%s|e_\w+)\(" % "|".join(sorted(VOC)), lambda m: "z_" + m.group(1) + "(", e)
    return re.sub(r"(?<![\w.@])([A-Za-z_]\w*)(?![\w(@])", lambda m: m.group(1) + "@" if kinds.get(m.group(1)) in ("I", "P") and m.group(1) not in ("if", "else") else m.group(1), e)

# ------------------------------------------------------------------ running
def normal(text):
    """rename uninterpreted operations in order of appearance, and type names away"""
    names = {}
    def r(m):
        if m.group(0) in ("e_of", "e_int", "e_truth"): return m.group(0)
        return names.setdefault(m.group(0), "e_%d" % len(names))
    t = re.sub(r"(?<![A-Za-z0-9])e_\w+", r, text.replace("z_e_", "z_ e_"))
    t = re.sub(r"\b((sp_)?hodu_cpu_\w+|\w+_worker)\b", "FN", t)
    t = re.sub(r"\bv_f(32|64)_\w+", lambda m: names.setdefault(m.group(0), "v_%d" % len(names)), t)
    return t

CAL = {"get_strided_index": "I", "is_contiguous": "B", "get_optimal_threads": "I"}
SH = "0 <= num_dims@, 0 <= dims_off@, dims_off@ + num_dims@ <= dims@.len(), 0 <= strides_off@, strides_off@ + num_dims@ <= strides@.len()"
def helpers(cfile):
    """get_strided_index and is_contiguous (static inline, utils.h), get_optimal_threads (trusted: any positive count)"""
    a = T(cfile, "get_strided_index", callees=CAL).run()
    A = "dims@, dims_off@, num_dims@, old_idx@, num_dims@ - d@"
    f1 = Fun(a, requires=[SH, "idx@ >= 0", "pos(dims@, dims_off@, dims_off@ + num_dims@)"],
             ensures=["r@ == strided(dims@, dims_off@, strides@, strides_off@, num_dims@, idx@)"],
             anns={0: Ann(inv=["0 <= d@ <= num_dims@", "idx@ >= 0", "idx@ == rest(%s)" % A, "strided_i@ == dots(dims@, dims_off@, strides@, strides_off@, num_dims@, old_idx@, num_dims@ - d@)"],
                          head="lemma_rest_bound(dims@, dims_off@, num_dims@, old_idx@, num_dims@ - d@); lemma_div_pos_is_pos(idx@, dims@[dims_off@ + num_dims@ - 1 - d@]);")})
    f1.pre = ""
    b = T(cfile, "is_contiguous", callees=CAL).run()
    f2 = Fun(b, requires=[SH, "nonneg(dims@, dims_off@, dims_off@ + num_dims@)"],
             ensures=["r ==> contig(dims@, dims_off@, strides@, strides_off@, num_dims@, 0)",
                      "r ==> forall|k: int| 0 <= k < prd(dims@, dims_off@, dims_off@ + num_dims@) ==> #[trigger] strided(dims@, dims_off@, strides@, strides_off@, num_dims@, k) == k"],
             anns={0: Ann(inv=["0 <= d@ <= num_dims@", "acc@ == prd(dims@, dims_off@ + num_dims@ - d@, dims_off@ + num_dims@)", "contig(dims@, dims_off@, strides@, strides_off@, num_dims@, num_dims@ - d@)"],
                          head="lemma_mul_is_commutative(acc@, dims@[dims_off@ + num_dims@ - 1 - d@]); assert(dims@[dims_off@ + num_dims@ - 1 - d@] >= 0);",
                          tail="assert forall|e: int| num_dims@ - d@ - 1 <= e < num_dims@ implies dims@[dims_off@ + e] <= 1 || #[trigger] strides@[strides_off@ + e] == prd(dims@, dims_off@ + e + 1, dims_off@ + num_dims@) by { if e == num_dims@ - 1 - d@ { } }",
                          after="lemma_contig_all(dims@, dims_off@, strides@, strides_off@, num_dims@);")})
    return [f1, f2]
TRUSTED_HELPERS = """
#[verifier::external_body] pub fn get_optimal_threads(a: I, b: I) -> (r: I) ensures r@ >= 1 { unimplemented!() }
"""

# ------------------------------------------------------------------ the driver
def build_chunk(job):
    """in a worker process: (cfile, [(builder module, builder, fn, args, members)]) -> [record]"""
    import importlib
    cfile, items = job; out = []
    try: c2v.load_asts(cfile, [i[2] for i in items])
    except Exception as e: pass
    for mod, bld, fn, args, members in items:
        rec = dict(fn=fn, cfile=cfile, members=members)
        try:
            m = importlib.import_module(mod)
            funs = getattr(m, bld)(cfile, fn, *args)
            ops, vops = {}, {}
            for f in funs: ops.update(f.t.eops); vops.update(f.t.vops)
            import fam_elem
            vd = fam_elem.vop_decls(vops, ops)
            rec["decls"] = eop_decls(ops) + vd + getattr(m, "LOCAL", {}).get(bld, "")
            rec["funs"] = [(f.name, f.text(), f.text(assumed=True), f.probe()) for f in funs]
            rec["lemmas"] = getattr(m, "LEMMAS", ""); rec["mod"] = mod
        except (Lost, Unsupported, vx.LostAnchor) as e: rec["lost"] = str(e)
        except Exception as e: rec["lost"] = "translation: %r" % e
        out.append(rec)
    return out

def kernel_jobs(spec):
    """spec: [(cfile, regex of kernel names, module, builder, args)] -> chunks for build_chunk, grouped by text"""
    by = {}
    for cfile, rx, mod, bld, args in spec:
        try: gs = c2v.groups(cfile)
        except Unsupported as e: gs = []
        for g in gs:
            g = [f for f in g if re.search(rx, f)]
            if g: by.setdefault(cfile, []).append((mod, bld, g[0], args, g))
    return [(c, its[i:i + 12]) for c, its in by.items() for i in range(0, len(its), 12)]

def drive(spec, tag, rlimit=40, per_batch=6, procs=7, keep=None, helper_file="ops_binary.c"):
    t0 = time.time()
    jobs = kernel_jobs(spec); recs = []
    with concurrent.futures.ProcessPoolExecutor(max_workers=procs) as ex:
        for r in ex.map(build_chunk, jobs): recs += r
    t1 = time.time()
    res = dict(obligations=0, discharged=0, functions=[], bounded=[], undecided=[], failed=[], backend="Verus/z3 over c2v translation of C", solver_s=0.0, notes=[])
    classes = {}
    for r in recs:
        if "lost" in r: res["bounded"] += [dict(fn=f, why=r["lost"]) for f in r["members"]]; continue
        key = hashlib.sha1(normal("".join(f[1] for f in r["funs"]) + re.sub(r"pub uninterp.*?\n#.*?\n", "", r["decls"])).encode()).hexdigest()
        classes.setdefault((r["mod"], key), []).append(r)
    reps = [v for v in classes.values()]
    reps.sort(key=lambda v: -sum(len(f[1]) for f in v[0]["funs"]))
    nb = max(1, min(len(reps), max(procs, (len(reps) + per_batch - 1) // per_batch)))
    batches = [[] for _ in range(nb)]
    for i, v in enumerate(reps): batches[i % nb].append(v)
    def one(bi):
        return run_batch(batches[bi], "%s%d" % (tag, bi), rlimit, helper_file, bi == 0, keep)
    with concurrent.futures.ThreadPoolExecutor(max_workers=procs) as ex:
        for r in ex.map(one, range(nb)):
            for k in ("obligations", "discharged", "solver_s"): res[k] += r[k]
            for k in ("functions", "bounded", "undecided", "failed", "notes"): res[k] += r[k]
    res["notes"].append("%s: %d kernels in %d text classes, %d after renaming uninterpreted operations; translation %.0f s, verification %.0f s" % (tag, sum(len(r["members"]) for r in recs), len(recs), len(reps), t1 - t0, time.time() - t1))
    return res

def run_batch(batch, tag, rlimit, helper_file, with_helpers, keep=None):
    res = dict(obligations=0, discharged=0, functions=[], bounded=[], undecided=[], failed=[], solver_s=0.0, notes=[])
    assumed = {}   # function -> why
    gone = {}      # kernel whose own definitions are outside the subset -> why
    def build(probes=False):
        t = PRE + TRUSTED_HELPERS
        for h in helpers(helper_file): t += h.text(assumed=not with_helpers)
        for l in sorted({v[0]["lemmas"] for v in batch}): t += l
        for i, v in enumerate(batch):
            if i in gone: continue
            r = v[0]; t += "\nmod k%d { use super::*;\n" % i + r["decls"]
            for nm, tx, ax, pb in r["funs"]:
                t += ax if nm in assumed else tx
                if probes and nm not in assumed: t += pb
            t += "}\n"
        return t + vx.END
    owner = {f[0]: v for v in batch for f in v[0]["funs"]}
    try:
        for attempt in range(8):
            text = build(); r = vx.run_verus(text, tag, rlimit, keep=keep and keep + tag + ".rs")
            js = r["json"].get("verification-results"); errs = [e for e in vx.parse_errors(r["err"], text) if e[0] == "error" and not e[1].startswith("aborting")]
            if js is None or js.get("encountered-vir-error") or js.get("verified", 0) == 0:
                bad = {fn for (_, m, ln, fn) in errs if fn in owner and fn not in assumed}
                if not bad:
                    ls = text.split("\n"); mods = {}
                    for (_, m, ln, fn) in errs:
                        q = [re.match(r"mod k(\d+) \{", x) for x in ls[:ln]]; q = [x for x in q if x]
                        if q: mods.setdefault(int(q[-1].group(1)), m)
                    if not mods or all(x in gone for x in mods): raise Lost("batch does not compile: " + r["err"][:600])
                    gone.update(mods)
                for b in bad: assumed[b] = "outside the verifier's subset: " + "; ".join(m for (_, m, ln, fn) in errs if fn == b)[:300]
                continue
            break
        else: raise Lost("no verifiable subset found")
    except Lost as e:
        for v in batch:
            for q in v: res["bounded"] += [dict(fn=f, why=str(e)) for f in q["members"]]
        return res
    res["solver_s"] = float(r["json"].get("times-ms", {}).get("smt", {}).get("smt-run", 0) or 0) / 1000.0
    lines = text.split("\n"); badfns = set()
    for (_, m, ln, fn) in errs:
        item = dict(fn=fn, message=m, at=lines[ln - 1].strip()[:300])
        badfns.add(fn)
        if fn in owner: item["kernels"] = [x for q in owner[fn] for x in q["members"]][:40]
        if "esource limit" in m or fn not in owner: res["undecided"].append(item)
        else: item["verifier_output"] = vx.brief(r, text)[-3000:]; res["failed"].append(item)
    res["discharged"] = js["verified"]; res["obligations"] = js["verified"] + len(badfns)
    for i, v in enumerate(batch):
        if i in gone:
            for q in v: res["bounded"] += [dict(fn=f, why="its definitions do not compile: " + gone[i][:300]) for f in q["members"]]
            continue
        lost = [f[0] for f in v[0]["funs"] if f[0] in assumed]
        for q in v:
            if lost: res["bounded"] += [dict(fn=f, why=assumed[lost[0]]) for f in q["members"]]
            else: res["functions"] += [f for f in q["members"]]
    # vacuity probes
    pt = build(True); pr = vx.run_verus(pt, tag + "p", rlimit)
    hit = {fn for (k, m, ln, fn) in vx.parse_errors(pr["err"], pt) if k == "error" and fn and fn.startswith("vxprobe_")}
    want = set(re.findall(r"\bfn\s+(vxprobe_\w+)", pt))
    if want - hit: res["undecided"] += [dict(fn=w, message="contradictory precondition (vacuous)") for w in sorted(want - hit)]
    res["notes"].append("%s: %d vacuity probes, %d refuted" % (tag, len(want), len(want & hit)))
    return res

def report(spec, tag):
    import collections; t = time.time()
    r = drive([s for s in spec if len(sys.argv) < 2 or re.search(sys.argv[1], s[0] + s[1])], tag, keep="/tmp/kk_")
    print(len(r["functions"]), "functions", r["discharged"], "/", r["obligations"], "solver", r["solver_s"], time.time() - t)
    print(collections.Counter((b["why"][:160]) for b in r["bounded"]).most_common(30)); print(r["notes"][-1])
    for b in r["bounded"][:20]: print("  ", b)
    for f in r["failed"][:20]: print({k: v for k, v in f.items() if k != "verifier_output"}); print(f["verifier_output"][:500])
    print(r["undecided"][:5])
