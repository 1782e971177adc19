"""CBMC over the C sources themselves: contracts as assertions over fully symbolic arguments.

kvk/c/<unit>.c includes the source under contract and states one harness function per contract.
A harness is complete when its loops are bounded by operand width; the unwinding assertions must
then pass too, else it is undecided.  A counterexample is compiled and replayed on the same source."""
import os, re, json, time, shutil, subprocess, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = os.path.join(V, "kvk", "c")
TRUST = ["CBMC 6.11 and MiniSat (bit-precise C semantics, IEEE float arithmetic included)",
  "ldexpf(x, e) is x * 2^e (assumed contract of libm)"]
def inc(): return ["-I", os.path.join(os.environ.get("HODU_REPO", "/repo"), "crates/hodu_cpu_kernels/kernels"), "-I", C]
def cbmc(goto, fn, timeout, extra=()):
    t0 = time.time()
    try:
        r = subprocess.run(["cbmc", goto, "--function", fn, "--no-standard-checks", "--unwinding-assertions", "--json-ui", "--trace", *extra], capture_output=True, text=True, timeout=timeout)
        js = json.loads(r.stdout)
    except subprocess.TimeoutExpired: return fn, None, "no result in %d s" % timeout, time.time() - t0
    except ValueError: return fn, None, (r.stdout + r.stderr)[-300:], time.time() - t0
    res = next((x["result"] for x in js if "result" in x), None)
    if res is None: return fn, None, "; ".join(x.get("messageText", "") for x in js if x.get("messageType") == "ERROR")[:300], time.time() - t0
    return fn, res, "", time.time() - t0
def replay(src, fn, trace, flags):
    """run the counterexample on the compiled source: (input, outcome) or None"""
    ins = [s["values"][0] for s in trace if s.get("stepType") == "input" and s.get("inputID") == "kc"]
    d = tempfile.mkdtemp(prefix="hodu-cbmc-")
    try:
        m = os.path.join(d, "m.c")
        open(m, "w").write('#include "%s"\nint main(int c, char **v) { for (int i = 1; i < c && i < 16; i++) kc_args[i - 1] = v[i]; %s(); return kc_bad; }\n' % (src, fn))
        r = subprocess.run(["gcc", "-w", "-O0", *[f for f in flags if not f.startswith("-D__CPROVER")], *inc(), m, "-o", d + "/m", "-lm", "-lpthread"], capture_output=True, text=True, timeout=120)
        if r.returncode: return None
        r = subprocess.run([d + "/m", *[i["binary"] for i in ins]], capture_output=True, text=True, timeout=20)
        say = " ".join("%s" % (i.get("data") or i["binary"]) for i in ins)
        if r.returncode == 1: return "arguments: " + say, r.stdout.strip()[:300]
        if r.returncode < 0: return "arguments: " + say, "the process died with signal %d" % -r.returncode
    except (subprocess.SubprocessError, OSError): pass
    finally: shutil.rmtree(d, ignore_errors=True)
    return None
def drive(src, fns, rec, jobs=6, timeout=150, flags=(), label=None):
    """fns: [(harness, cbmc options)]"""
    d = tempfile.mkdtemp(prefix="hodu-cbmc-")
    try:
        g = os.path.join(d, "u.goto")
        r = subprocess.run(["goto-cc", "-D__CPROVER=1", *flags, *inc(), src, "-o", g], capture_output=True, text=True, timeout=200)
        if r.returncode:
            rec["bounded"].append(dict(fn="contracts of " + os.path.basename(src), why="they do not build against the current tree: " + r.stderr[-500:])); return rec
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex: out = list(ex.map(lambda f: cbmc(g, f[0], timeout, f[1]), fns))
        for fn, res, why, s in out:
            rec["solver_s"] += s; rec["obligations"] += 1
            if res is None: rec["undecided"].append(dict(fn=fn, message=why)); continue
            bad = [x for x in res if x["status"] != "SUCCESS"]
            if not bad: rec["discharged"] += 1; rec["functions"].append("cbmc " + fn); continue
            hard = [x for x in bad if "unwind" not in x["property"] and x["status"] == "FAILURE"]
            if not hard or len(hard) < len(bad): rec["undecided"].append(dict(fn=fn, message="; ".join(x["description"] for x in bad)[:300])); continue
            q = None
            for x in hard:
                q = q or replay(src, fn, x.get("trace", []), flags)
            # signed overflow is only an alarm if it stops the program
            if not q and all(".overflow." in x["property"] for x in hard): rec["undecided"].append(dict(fn=fn, message="; ".join(x["description"] for x in hard)[:300])); continue
            rec["failed"].append(dict(fn="cbmc " + fn, message="; ".join(x["description"] for x in hard)[:400]))
            if q: rec["fails"].append(dict(contract="cbmc " + fn, input=q[0], message=q[1]))
    finally: shutil.rmtree(d, ignore_errors=True)
    return rec
def new(): return dict(obligations=0, discharged=0, functions=[], bounded=[], undecided=[], failed=[], backend="CBMC", solver_s=0.0, notes=[], trusted=TRUST, fails=[])
T13 = [("%s_%s" % (c, t), ["--unwind", "30"]) for t in ("f8e4m3", "f8e5m2", "f16", "bf16") for c in ("cmp", "narrow", "widen", "again", "sign", "pick")]
def run(prop, u):
    rec = new()
    if u["file"] == "t13.c": drive(os.path.join(C, "t13.c"), T13, rec)
    if u["file"] == "t07":
        import t07
        src, fns = t07.build(); d = tempfile.mkdtemp(prefix="hodu-cbmc-")
        try:
            f = os.path.join(d, "t07.c"); open(f, "w").write(src)
            opt = lambda k: ["--unwind", "70" if k.startswith("pow") else "4"] + (["--z3"] if k in ("smt", "div", "pow") else []) + (["--div-by-zero-check", "--signed-overflow-check"] if k.startswith("div") else [])
            drive(f, [(n, opt(k)) for n, k in fns], rec)
        finally: shutil.rmtree(d, ignore_errors=True)
        rec["trusted"] = ["CBMC 6.11, MiniSat and z3 (bit-precise C semantics)", "multiplication modulo 2^w is the exact product when that is representable (used in place of a 128-bit product)", "kernels are run on one element: that every element of every path gets the same operation is what T06 proves"]
    rec["solver_s"] = round(rec["solver_s"], 2)
    return rec
if __name__ == "__main__":
    import sys; print(json.dumps(run("", dict(file=sys.argv[1])), indent=1)[:6000])
