"""No contract is vacuous: for every function under contract, (a) `assert(false)` at the start of the body (after the preconditions)
and (b) a postcondition `false` must both be REJECTED by the verifier.   usage: vacuity.py [unit ...]"""
import sys, os, copy, subprocess, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + "/lib")
import verus_layer as v
us = v.load_units(V); names = sys.argv[1:] or list(us); work = V + "/work/vac"; os.makedirs(work, exist_ok=True)
v.extract(V, v.build_extractor(V), [us[n] for n in names], work)
jobs = []
for n in names:
    u = us[n]
    for it in u["items"]:
        if it["kind"] != "fn" or it.get("imported") or it["trust"]: continue
        old = it["secs"]
        for kind in ("start", "post"):
            s = dict(old)
            if kind == "start": s[("start", "")] = list(s.get(("start", ""), [])) + ["proof { assert(false); }"]
            else: s[("ens", "")] = ["false,"] + list(s.get(("ens", ""), []))
            it["secs"] = s; t, o, l = v.assemble(V, u, {}); it["secs"] = old
            nm = it["as"] or it["name"]
            f = "%s/%s_%s_%s.rs" % (work, n, nm.replace("::", "__"), kind); open(f, "w").write(t); jobs.append((n, nm, kind, f, bool(l)))
def run(j):
    n, nm, kind, f, lost = j
    ms = ["--verify-function", nm]
    p = subprocess.run(["verus", f, "--crate-type=lib", "--triggers-mode", "silent", "--rlimit", "30", "--verify-root"] + ms, capture_output=True, text=True, cwd=work, timeout=600)
    o = p.stdout + p.stderr
    os.remove(f)
    return j, ("verification results" in o, "assertion failed" in o if kind == "start" else "postcondition not satisfied" in o, "rlimit" in o.lower() or "resource limit" in o.lower(), o[-300:])
bad = 0
with cf.ThreadPoolExecutor(7) as ex:
    for j, (ran, rej, rl, o) in ex.map(run, jobs):
        if not rej:
            bad += 1; print("NOT REJECTED" if ran and not rl else "UNDECIDED", j[0], j[1], j[2], "" if ran else o)
print("%d checks, %d not rejected" % (len(jobs), bad))
