#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]

1. proves the property's obligations: contracts on the real functions, extracted or compiled
   from /repo's current tree, discharged by Verus (Rust) / the kernel VC generator and z3 (C);
2. evaluates the same contracts natively on the real code (harness/): gives the failing input
   for a violated obligation, and stands in, bounded, for functions outside the verifiers' reach.
"""
import sys, os, json, time, subprocess, re, shutil, tempfile, importlib, concurrent.futures
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HODU_REPO", "/repo")
os.environ["HODU_REPO"] = REPO
sys.path.insert(0, os.path.join(V, "vx")); sys.path.insert(0, os.path.join(V, "kvc")); sys.path.insert(0, os.path.join(V, "kvk"))
from props import PROPS

def known(prop):
    out = []
    p = os.path.join(V, "KNOWN_FINDINGS")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) contract=(\S+) input=/(.*?)/ what: (.*)", l.strip())
        if m and m.group(1) == prop:
            out.append(dict(contract=m.group(2), input=m.group(3), what=m.group(4)))
    return out

def harness_env():
    e = dict(os.environ)
    e.update(HOME="/root", LANG="C.UTF-8", LC_ALL="C.UTF-8", PATH="/root/.cargo/bin:" + e.get("PATH", ""),
             RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", HODU_DISABLE_NATIVE="1", CC=os.path.join(V, "tools", "cc-quick"), AR=os.path.join(V, "tools", "ar-quick"), CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             OPENBLAS_NUM_THREADS="1", HODU_CC_OPT="-O1" if os.environ.get("HODU_TIER") == "thorough" else "-O0",
             CARGO_TARGET_DIR=os.environ.get("HODU_HARNESS_TARGET", os.path.join(V, ".build", "harness")))
    return e

def build_harness(prop):
    t0 = time.time()
    jobs = tempfile.mkdtemp(prefix="hodu-cc-")
    r = subprocess.run(["cargo", "build", "--offline", "--no-default-features", "--features", prop.lower()],
                       cwd=os.path.join(V, "harness"), env=dict(harness_env(), HODU_CC_JOBS=jobs), capture_output=True, text=True)
    shutil.rmtree(jobs, ignore_errors=True)
    return r.returncode, r.stderr[-6000:], time.time() - t0

def run_harness(prop, seed, tier, budget, only=None, timeout=800):
    b = os.path.join(harness_env()["CARGO_TARGET_DIR"], "debug", "hodu_contracts")
    cmd = [b, prop, "--seed", str(seed), "--tier", tier, "--budget", str(budget)] + (["--only", only] if only else [])
    t0 = time.time()
    try:
        r = subprocess.run(cmd, capture_output=True, env=harness_env(), timeout=timeout)
        out, rc = r.stdout.decode("utf8", "replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = (e.stdout or b"").decode("utf8", "replace"), -999
    res = None
    for l in out.splitlines():
        if l.startswith("RESULT "): res = json.loads(l[7:])
    fails = list(res["failures"]) if res else []
    for l in out.splitlines():
        m = re.match(r"CRASH (\S+) (.*?) \| (.*)", l)
        if m:
            fails.append(dict(contract=m.group(2), input=m.group(3), message="the process died with " + m.group(1)))
    if res is None and not fails and rc in (-11, -7, -6, -8, -4):      # died where the handler could not report (an exhausted stack)
        fails.append(dict(contract="process", input="the case running when the process died", message="the process died with signal %d" % -rc))
    if res is None and not fails:
        raise RuntimeError("harness gave no result (rc %s): %s" % (rc, out[-2000:]))
    return res or dict(evaluations=0, distinct=0, per={}, samples=[], failures=[]), fails, time.time() - t0, " ".join(cmd)

def run_units(prop):
    """all proof units of the property, in parallel"""
    P = PROPS[prop]
    jobs = []
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        for u in P.get("units", ()):
            mod = importlib.import_module(u["module"])
            jobs.append((u, ex.submit(mod.run, prop, u)))
        return [(u, j.result()) for u, j in jobs]

def main():
    prop = sys.argv[1]
    arg = lambda k, d: sys.argv[sys.argv.index(k) + 1] if k in sys.argv else d
    tier = arg("--tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.environ["HODU_TIER"] = tier
    only = None
    if "--replay" in sys.argv:
        rp = json.load(open(arg("--replay", "")))
        seed, tier, only = rp.get("seed", seed), rp.get("tier", tier), rp.get("contract")
    P = PROPS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True); os.makedirs(os.path.join(V, "replay"), exist_ok=True)
    budget = P.get("budget", 45) if tier == "quick" else P.get("budget_thorough", 300)
    with concurrent.futures.ThreadPoolExecutor(max_workers=2) as ex:
        fb = ex.submit(build_harness, prop)
        fu = ex.submit(run_units, prop) if not only else None
        rc, err, build_s = fb.result()
        if rc != 0:
            print("cannot build the harness against the current tree:\n" + err); sys.exit(2)
        res, fails, run_s, cmd = run_harness(prop, seed, tier, budget, only)
        units = fu.result() if fu else []
        for _, r in units: fails += r.get("fails", [])
    kn = known(prop)
    new, seen_known = [], set()
    for f in fails:
        for i, k in enumerate(kn):
            if f["contract"] == k["contract"] and re.search(k["input"], f["input"]):
                seen_known.add(i); break
        else:
            new.append(f)
    for i, k in enumerate(kn):
        print("KNOWN-FINDING: property=%s %s [%s]%s" % (prop, k["what"], k["contract"], "" if i in seen_known else " (not exercised in this run)"))
    # ---- proof obligations
    obligations = discharged = 0; solver_s = 0.0
    bounded, undecided, failed, functions, trusted, notes, backends = [], [], [], [], set(P.get("assumptions", ())), [], {}
    for u, r in units:
        obligations += r["obligations"]; discharged += r["discharged"]; solver_s += r.get("solver_s", 0)
        functions += r["functions"]; bounded += r["bounded"]; undecided += r["undecided"]; failed += r["failed"]
        trusted |= set(r.get("trusted", ())); notes += r.get("notes", [])
        backends[r["backend"]] = backends.get(r["backend"], 0) + r["discharged"]
    status = 0
    nviol = 0
    def viol(obj, tail=""):
        nonlocal status, nviol
        n = os.path.join(V, "replay", "%s-%d.json" % (prop, nviol)); nviol += 1
        json.dump(obj, open(n, "w"), indent=1)
        if status == 0 or tail == "":
            print("VIOLATION property=%s replay=%s%s" % (prop, n, tail))
        status = 1
    for f in new[:5]:
        viol(dict(property=prop, seed=seed, tier=tier, contract=f["contract"], input=f["input"], message=f["message"],
                  failed_obligations=failed[:10], rerun="python3 check.py %s --replay <this file>" % prop, command=cmd))
        print("  contract %s fails on %s: %s" % (f["contract"], f["input"][:400], f["message"][:400]))
    if failed and not new:
        viol(dict(property=prop, seed=seed, tier=tier, failed_obligations=failed,
                  note="the verifier rejects these obligations and gives no counterexample; the native run of the same contracts found no failing input"),
             " no-failing-input-found")
        for f in failed[:6]:
            print("  obligation %s: %s" % (f.get("fn"), str(f.get("message"))[:300]))
    wall = time.time() - t0
    cov = dict(obligations=obligations, discharged=discharged,
               checker_cmd=P.get("checker_cmd", "python3 check.py %s" % prop),
               trusted_base=sorted(trusted) or ["native execution"],
               functions_under_contract=functions, back_ends=backends, solver_seconds=round(solver_s, 2),
               bounded_stand_in=bounded, undecided=undecided, failed_obligations=failed, notes=notes,
               evaluations=res["evaluations"], distinct_nontrivial=res["distinct"],
               rule="native evaluation of the same contracts on the compiled code: " + P.get("rule", "small cases exhaustively, then random cases by VERIF_SEED; a case is counted once per distinct contract and input"),
               samples=res["samples"][:12], evaluations_per_contract=res["per"],
               seconds=dict(build=round(build_s, 1), native=round(run_s, 1)))
    json.dump(dict(property=prop, tier=tier, seed=seed, level=P["level"], coverage=cov,
                   assumptions=sorted(trusted), wall_s=round(wall, 1), violations=nviol),
              open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d/%d obligations discharged, %d native evaluations, %d bounded stand-ins, %.0f s -> %s" %
          (prop, discharged, obligations, res["evaluations"], len(bounded), wall, "VIOLATION" if status else "held"))
    sys.exit(status)
main()
