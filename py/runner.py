"""runs the bounded stand-in cases of one property; argv: job-json out-file"""
import sys, json, random, importlib, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
job = json.loads(sys.argv[1])
import core, lay
cases = []
for mod, fn in job["mods"]:
    m = importlib.import_module(mod)
    cases += getattr(m, fn)(job["tier"], random.Random(job["seed"]))
cases = [c for c in cases if c]
seen, uniq = set(), []
for c in cases:
    k = (c["code"], c.get("mode"))
    if k not in seen: seen.add(k); uniq.append(c)
fails, n = core.run_cases("/repo/target/vp/pymod", uniq)
rng = random.Random(job["seed"])
json.dump({"n": n, "distinct": len(uniq), "failures": [({"code": c["code"], "mode": c.get("mode", "exact")}, m) for c, m in fails[:2000]],
           "rule": "one snippet per case, run on the built module and on the oracle and compared (dtype, shape, every element); distinct snippets are counted, all of them non-trivial in that they build arrays and evaluate an operation",
           "samples": [c["code"] for c in rng.sample(uniq, min(4, len(uniq)))]}, open(sys.argv[2], "w"))
