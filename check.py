#!/usr/bin/env python3
"""check.py <property> : decides one property on /repo's current working tree.

Layers (run in parallel, all must agree):
  verus    deductive proof, unbounded: functions extracted from /repo on this run, contracts in /verif/verus
  kani     full-domain proof of loop-free functions, compiled from /repo's own source files
  bounded  stand-ins on the built extension module (labelled bounded, never counted as proved)
Exit 0: held on everything; 1: VIOLATION line printed; 2: the check could not run.
"""
import sys, os, json, time, subprocess, threading, hashlib, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "lib"))
import layers

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2: tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    R = layers.run_all(V, pid, tier, seed)
    viol = []
    known = layers.known_findings(V, pid)
    rd = os.path.join(V, "replay"); os.makedirs(rd, exist_ok=True)
    b = R["bounded"]
    if b.get("error"):
        print("check error (bounded layer): " + b["error"]); return 2
    # concrete failing inputs
    fails = []
    for case, msg in b["failures"]:
        k = next((k for k in known if k["match"] and k["match"] in case["code"]), None)
        if k: k["hit"] = True
        else: fails.append((case, msg))
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for x in R["kani"].get("failed", []) + R["verus"].get("failed", []):
        x["layer"] = x.get("layer") or "proof"
    proof_failed = R["verus"].get("failed", []) + R["kani"].get("failed", [])
    if fails:
        case, msg = min(fails, key=lambda f: len(f[0]["code"]))
        path = os.path.join(rd, "%s.py" % pid)
        layers.write_replay(path, V, pid, case, msg, len(fails), proof_failed)
        viol.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("failing input (1 of %d):\n%s\n  -> %s" % (len(fails), case["code"], msg[:600]))
    elif proof_failed:
        path = os.path.join(rd, "%s.txt" % pid)
        with open(path, "w") as f:
            for x in proof_failed:
                f.write("failed obligation: %s\nback end: %s\n%s\n\n" % (x["obligation"], x["backend"], x.get("output", "")[:20000]))
        for x in proof_failed: print("failed obligation: %s (%s)" % (x["obligation"], x["backend"]))
        cex = [x for x in proof_failed if x.get("counterexample")]
        if cex:
            print("counterexample: " + cex[0]["counterexample"])
            viol.append("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            viol.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
    ev = layers.evidence(V, pid, tier, seed, R, len(viol), time.time() - t0)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: bounded %d cases, %d failing; verus %s; kani %s; %.1fs" % (
        pid, b["n"], len(fails), R["verus"].get("summary", "-"), R["kani"].get("summary", "-"), time.time() - t0))
    for x in viol: print(x)
    return 1 if viol else 0

if __name__ == "__main__":
    try: rc = main()
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
