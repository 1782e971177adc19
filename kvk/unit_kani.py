"""Kani harnesses over the compiled crates: full-domain symbolic arguments, contracts as assertions.

Loop-free harnesses are complete; where the code under contract loops, the unwinding assertions
(bounded by operand width) must pass too, else the harness is undecided."""
import os, re, json, time, shutil, subprocess, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ["Kani 0.68 / CBMC 6.11 / CaDiCaL and Kani's translation of MIR (float casts included)",
  "half::f16 conversions use their documented-equivalent const versions in the proofs (the f16c instruction is not modelled)",
  "termination is not part of what Kani shows beyond the unwinding assertions"]
def env():
    e = dict(os.environ)
    e.update(HOME="/root", PATH="/root/.cargo/bin:" + e.get("PATH", ""), CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", HODU_DISABLE_NATIVE="1",
             CC=os.path.join(V, "tools", "cc-quick"), AR=os.path.join(V, "tools", "ar-quick"), HODU_CC_OPT="-O0")
    e.pop("RUSTUP_TOOLCHAIN", None); return e
def kani(args, cwd, target, timeout):
    r = subprocess.run(["cargo", "kani", "--target-dir", target, "--output-format", "terse", "-Z", "stubbing", "-Z", "unstable-options", *args], cwd=cwd, env=env(), capture_output=True, text=True, timeout=timeout)
    return r
def why(c): return "%s at %s:%s" % (c.get("description"), (c.get("location") or {}).get("file", "?"), (c.get("location") or {}).get("line", "?"))
def soft(c):
    s = json.dumps(c).lower()
    return "unwind" in s or "unsupported" in s or "not currently supported" in s or "undefined function" in s
def replay(h, target):
    """run the verifier's counterexample on the real code: (input, outcome) or None"""
    d = tempfile.mkdtemp(prefix="hodu-kani-")
    try:
        w = os.path.join(d, "k"); shutil.copytree(os.path.join(V, "kani"), w, ignore=shutil.ignore_patterns("target"))
        r = kani(["-Z", "concrete-playback", "--concrete-playback=print", "--harness", h, "--exact", "--harness-timeout", "200"], w, target, 300)
        t = "".join(re.findall(r"#\[test\]\nfn kani_concrete_playback_\w+\(\) \{.*?\n\}\n", r.stdout, re.S)[:2])
        names = re.findall(r"fn (kani_concrete_playback_\w+)\(\)", t)
        f = os.path.join(w, "src", h.split("::")[0] + ".rs"); open(f, "a").write("\n" + t)
        for n in names:
            vals = re.search(r"fn %s\(\).*?concrete_vals[^=]*= vec!\[(.*?)\n\s*\];" % n, t, re.S)
            inp = "arguments: " + re.sub(r"\s+", " ", vals.group(1)).strip() if vals else n
            p = subprocess.run(["cargo", "kani", "playback", "-Z", "concrete-playback", "--", n], cwd=w, env=dict(env(), CARGO_TARGET_DIR=target + "-playback"), capture_output=True, text=True, timeout=300)
            m = re.search(r"panicked at ([^\n]*)\n([^\n]*)", p.stdout + p.stderr)
            if m and "test result: FAILED" in p.stdout: return inp or n, "%s (%s)" % (m.group(2).strip(), m.group(1).strip())
    except (subprocess.SubprocessError, OSError): pass
    finally: shutil.rmtree(d, ignore_errors=True)
    return None
def run(prop, u):
    t0 = time.time(); target = os.path.join(V, ".build", "kani"); out = tempfile.mktemp(prefix="hodu-kani-", suffix=".json")
    rec = dict(obligations=0, discharged=0, functions=[], bounded=[], undecided=[], failed=[], backend="Kani/CBMC", solver_s=0.0, notes=[], trusted=TRUST, fails=[])
    args = []
    for m in u["mods"]: args += ["--harness", m + "::"]
    try:
        r = kani(args + ["-j", str(u.get("jobs", 6)), "--harness-timeout", str(u.get("timeout", 150)), "--export-json", out], os.path.join(V, "kani"), target, u.get("wall", 600))
        js = json.load(open(out)) if os.path.exists(out) else None
        if js is None:
            rec["bounded"].append(dict(fn="kani harnesses " + " ".join(u["mods"]), why="they do not build against the current tree: " + "\n".join(l for l in r.stderr.split("\n") if l.startswith("error"))[:600])); return rec
    except subprocess.SubprocessError as e:
        rec["bounded"].append(dict(fn="kani harnesses " + " ".join(u["mods"]), why=repr(e)[:300])); return rec
    finally:
        if os.path.exists(out): os.remove(out)
    for c in js.get("cbmc", []): rec["solver_s"] += c.get("cbmc_stats", {}).get("runtime_decision_procedure_s", 0) or 0
    rec["solver_s"] = round(rec["solver_s"], 2)
    n = 0
    for h in js["verification_results"]["results"]:
        name = h["harness_id"]; n += 1
        bad = [c for c in h.get("checks", []) if c.get("status") in ("Failure", "FAILURE")]
        rec["obligations"] += 1
        if h["status"] == "Success": rec["discharged"] += 1; rec["functions"].append("kani " + name); continue
        hard = [c for c in bad if not soft(c)]
        if not hard or any(soft(c) for c in bad): rec["undecided"].append(dict(fn=name, message="; ".join(why(c) for c in bad)[:400] or "no result within the time limit")); continue
        item = dict(fn="kani " + name, message="; ".join(why(c) for c in hard)[:600])
        rec["failed"].append(item)
        if len(rec["fails"]) < 2:
            q = replay(name, target)
            if q: rec["fails"].append(dict(contract="kani " + name, input=q[0], message=q[1]))
    rec["notes"].append("%d Kani harnesses" % n)
    return rec
if __name__ == "__main__":
    import sys; print(json.dumps(run("", dict(mods=sys.argv[1:])), indent=1)[:6000])
