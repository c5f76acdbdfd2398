import os, sys, json, subprocess, threading, time, importlib

ENV_NPY = "AVX2 FMA3 AVX512F AVX512CD AVX512_SKX AVX512_CLX AVX512_CNL AVX512_ICL AVX512_SPR"
PY = "/opt/vp/venv/bin/python"

# property -> generators of bounded stand-in cases (module, function)
BOUNDED = {
 "P01": [("gens1","index_cases")], "P02": [("gens1","view_cases"),("gens4","p02")], "P03": [("meta","meta_cases"),("gens4","p03")],
 "P04": [("gens1","bcast_cases")], "P05": [("gens1","promo_cases")], "P06": [("gens2","intarith_cases"),("gens4","p06")],
 "P07": [("gens2","floatarith_cases"),("gens4","p07")], "P08": [("gens2","cast_cases"),("gens4","p08")], "P09": [("gens2","reduce_cases"),("gens4","p09")],
 "P10": [("gens2","scan_cases"),("gens4","p10")], "P11": [("gens3","sort_cases"),("gens4","p11")], "P12": [("gens3","join_cases"),("gens4","p12")],
 "P13": [("gens3","select_cases"),("gens4","p13")], "P14": [("gens3","product_cases")], "P15": [("gens3","date_cases")],
 "P16": [("gens3","random_cases")], "P17": [("gens3","io_cases"),("gens4","p17")], "P18": [("gens3","mutate_cases")],
}

def sh(cmd, timeout=800, env=None, cwd=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.Popen(cmd, shell=isinstance(cmd, str), executable="/bin/bash" if isinstance(cmd, str) else None,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(p.pid, signal.SIGKILL); p.communicate()
        return None, "timeout"

def build():
    return sh(". /opt/vp/env.sh; cd /repo && build_ext", timeout=700)

def bounded(V, pid, tier, seed):
    rc, out = build()
    if rc != 0: return {"error": "build of /repo failed:\n" + out[-3000:]}
    job = {"mods": BOUNDED[pid], "tier": tier, "seed": seed}
    env = {"NPY_DISABLE_CPU_FEATURES": ENV_NPY, "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "OMP_NUM_THREADS": "1"}
    w = os.path.join(V, "work"); os.makedirs(w, exist_ok=True)
    outf = os.path.join(w, "bounded-%s.json" % pid)
    if os.path.exists(outf): os.unlink(outf)
    rc, out = sh([PY, os.path.join(V, "py", "runner.py"), json.dumps(job), outf], timeout=800 if tier == "quick" else 3600, env=env)
    if not os.path.exists(outf): return {"error": "bounded runner gave no result (rc=%r)\n%s" % (rc, out[-3000:])}
    r = json.load(open(outf))
    return r

def run_all(V, pid, tier, seed):
    R = {}
    def go(name, f):
        try: R[name] = f()
        except Exception as e:
            import traceback
            R[name] = {"error": traceback.format_exc()}
    ths = [threading.Thread(target=go, args=("bounded", lambda: bounded(V, pid, tier, seed)))]
    for nm in ("verus_layer", "kani_layer"):
        def f(nm=nm):
            try: m = importlib.import_module(nm)
            except ModuleNotFoundError: return {"summary": "-"}
            return m.run(V, pid, tier, seed)
        ths.append(threading.Thread(target=go, args=(nm.split("_")[0], f)))
    for t in ths: t.start()
    for t in ths: t.join()
    return R

def known_findings(V, pid):
    out = []
    p = os.path.join(V, "known-findings.txt")
    for l in open(p):
        l = l.rstrip("\n")
        if l.startswith("known: property=%s " % pid):
            rest = l.split(" ", 2)[2]
            m, _, what = rest.partition(" :: ")
            out.append({"match": m.encode().decode("unicode_escape"), "what": what, "hit": False})
    return out

def write_replay(path, V, pid, case, msg, n, proof_failed):
    open(path, "w").write('''#!/opt/vp/venv/bin/python
# Property %s: failing input (one of %d).  Run: %s %s
# (build /repo first: bash /opt/vp/build.sh)
# observed: %s
%simport os, sys
os.environ.setdefault("NPY_DISABLE_CPU_FEATURES", %r)
sys.path.insert(0, %r)
import core, lay, meta
core.load("/repo/target/vp/pymod")
case = %r
m = core.check(case)
print(case["code"]); print("->", m or "holds")
sys.exit(1 if m else 0)
''' % (pid, n, PY, path, msg[:500].replace("\n", "\n#   "),
       "".join("# also failed: %s (%s)\n" % (x["obligation"], x["backend"]) for x in proof_failed),
       ENV_NPY, os.path.join(V, "py"), case))

def evidence(V, pid, tier, seed, R, nviol, wall):
    b, v, k = R["bounded"], R["verus"], R["kani"]
    props = json.load(open(os.path.join(V, "lib", "levels.json")))
    lv = props.get(pid, {"level": "other"})
    cov = {"bounded_standin": {"label": "bounded, never counted as proved", "evaluations": b.get("n", 0),
                               "distinct_nontrivial": b.get("distinct", 0), "rule": b.get("rule", ""),
                               "samples": b.get("samples", []), "failing": len(b.get("failures", []))}}
    ob = v.get("obligations", 0) + k.get("obligations", 0)
    di = v.get("discharged", 0) + k.get("discharged", 0)
    cov["obligations"], cov["discharged"] = ob, di
    cov["checker_cmd"] = "; ".join(x for x in (v.get("cmd"), k.get("cmd")) if x) or "none"
    cov["trusted_base"] = v.get("trusted", []) + k.get("trusted", [])
    for nm, r in (("verus", v), ("kani", k)):
        cov[nm] = {x: y for x, y in r.items() if x not in ("failed", "trusted", "assumptions", "cmd")}
        cov[nm]["failed"] = [x["obligation"] for x in r.get("failed", [])]
    cov["evaluations"] = b.get("n", 0)
    cov["distinct_nontrivial"] = b.get("distinct", 0)
    cov["rule"] = b.get("rule", "")
    cov["samples"] = b.get("samples", [])
    if lv["level"] == "other" : cov["explanation"] = lv.get("note", "")
    return {"property": pid, "tier": tier, "seed": seed, "level": lv["level"], "coverage": cov,
            "assumptions": v.get("assumptions", []) + k.get("assumptions", []) + [
                "bounded stand-in: NumPy in /opt/vp/venv is the oracle for the enumerated inputs"],
            "wall_s": round(wall, 2), "violations": nviol}
