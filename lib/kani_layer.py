"""Kani layer: loop-free element functions compiled from /repo's own source files, each checked against its
contract for every value of its inputs (no unwinding bound is involved: the functions have no loops)."""
import os, re, json, time
import layers

FEATURES = {"P05": "p05", "P06": "p06", "P07": "p07", "P08": "p08", "P09": "p09", "P10": "p09", "P11": "p11", "P13": "p13", "P15": "p15"}
ONLY = {"P10": ["sum", "prod"]}     # the accumulation steps scans share with reductions
COMMON = ["-Z", "stubbing", "-Z", "unstable-options", "--ignore-global-asm", "--no-overflow-checks", "--no-assertion-reach-checks"]
ASSUME = ["64-bit target; integer overflow wraps (the release build's semantics), so CBMC's own overflow and NaN checks are off",
          "half's portable f16 conversions stand for the hardware ones (CPU feature detection answers 'none')",
          "std's elementary functions (exp, sin, pow, ...) are uninterpreted: the contract is that the kernel applies that function",
          "the harness crate includes /repo/src/array/dtype and /repo/src/ops/{kernels,loops} by path; half, num-complex, num-traits are the pinned versions"]

def harness_names(V, feat):
    p = os.path.join(V, "kani", "harnesses.json")
    return json.load(open(p)).get(feat, []) if os.path.exists(p) else []

def parse(out):
    """per-thread terse output -> {harness: (status, text, seconds)}"""
    cur = {}; res = {}; tid = "0"
    for ln in out.split("\n"):
        m = re.match(r"Thread (\d+): ?(.*)$", ln)
        if m: tid, ln = m.group(1), m.group(2)
        m = re.match(r"\s*Checking harness (\S+?)\.\.\.", ln)
        if m: cur[tid] = m.group(1); res.setdefault(cur[tid], ["?", [], 0.0]); continue
        h = cur.get(tid)
        if h is None: continue
        r = res[h]
        if ln.strip(): r[1].append(ln)
        if "VERIFICATION:- SUCCESSFUL" in ln: r[0] = "ok"
        elif "VERIFICATION:- FAILED" in ln: r[0] = "fail"
        m = re.match(r"\s*Verification Time: ([\d.]+)", ln)
        if m: r[2] = float(m.group(1))
    return {h: (s, "\n".join(t), dt) for h, (s, t, dt) in res.items()}

def genuine(text):
    """a failed obligation, as opposed to a construct or limit of the tool"""
    fc = [l.split("Failed Checks:", 1)[1].strip() for l in text.split("\n") if "Failed Checks:" in l]
    real = [c for c in fc if not re.search(r"unwinding assertion|not currently supported|unsupported|foreign function|inline assembly|caller_location|reachable: ", c)]
    return real if fc and len(real) == len(fc) else []

def playback(V, feat, h, crate, env):
    """counterexample -> concrete run of the real code, natively.  -> (text, reproduced or None)"""
    rc, out = layers.sh(["timeout", "150", "cargo", "kani", "--features", feat] + COMMON + ["--output-format=terse", "--harness", h, "--exact",
                        "-Z", "concrete-playback", "--concrete-playback=print", "--cbmc-args", "--fpa"], timeout=180, env=env, cwd=crate)
    m = re.search(r"```\n(.*?)```", out or "", re.S)
    if not m: return None, None
    t = m.group(1)
    vals = re.search(r"vec!\[(.*?)\n    \];", t, re.S)
    t2 = re.sub(r"kani::concrete_playback_run\(concrete_vals, .*?\)", "kani::concrete_playback_run(concrete_vals, crate::%s)" % h, t)
    lib = os.path.join(crate, "src", "lib.rs"); src = open(lib).read()
    import tempfile, shutil
    d = tempfile.mkdtemp(dir=os.path.join(V, "work"))
    try:
        for f in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(crate, f), d)
        shutil.copytree(os.path.join(crate, "src"), os.path.join(d, "src"))
        open(os.path.join(d, "src", "lib.rs"), "w").write(src + "\n#[cfg(test)] mod playback {\n" + t2 + "\n}\n")
        rc, o = layers.sh(["timeout", "200", "cargo", "kani", "playback", "-Z", "concrete-playback", "--features", feat, "--", "kani_concrete"], timeout=240, env=env, cwd=d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    hit = None
    if o and re.search(r"test .*kani_concrete\S* \.\.\. FAILED", o): hit = True
    elif o and re.search(r"test .*kani_concrete\S* \.\.\. ok", o): hit = False
    return t.strip() + "\n" + "\n".join(l for l in (o or "").split("\n") if "panicked" in l or "assertion" in l or l.startswith("test "))[:2000], hit

def run(V, pid, tier, seed):
    feat = FEATURES.get(pid)
    if not feat: return {"summary": "no element function for this property"}
    crate = os.path.join(V, "kani")
    names = harness_names(V, feat)
    if not names: return {"summary": "no element function for this property"}
    if pid in ONLY: names = [n for n in names if any(k in n for k in ONLY[pid])]
    env = {"CARGO_NET_OFFLINE": "true"}
    os.makedirs(os.path.join(V, "work"), exist_ok=True)
    ht = 240 if tier == "quick" else 900
    cmd = ["cargo", "kani", "--features", feat] + COMMON + ["-j", "8", "--output-format=terse", "--harness-timeout", "%ds" % ht]
    if pid in ONLY:
        for n in names: cmd += ["--harness", n]
        cmd += ["--exact"]
    cmd += ["--cbmc-args", "--fpa"]
    t0 = time.time()
    rc, out = layers.sh(cmd, timeout=600 if tier == "quick" else 2400, env=env, cwd=crate)
    base = {"cmd": " ".join(cmd), "backend": "Kani 0.68 / CBMC 6.11 with cvc5, z3 or CaDiCaL per harness", "assumptions": ASSUME, "trusted": []}
    if rc is None or "Checking harness" not in out:
        why = "timeout" if rc is None else "the harness crate does not compile against this tree: " + " ".join(re.findall(r"^error.*$", out, re.M)[:3])
        return dict(base, obligations=len(names), discharged=0, failed=[], inconclusive=[why], functions_under_contract=[],
                    summary="0/%d harnesses (%s)" % (len(names), why[:200]), wall=time.time() - t0)
    res = parse(out)
    ok = []; inc = []; bad = []
    for n in names:
        s, t, dt = res.get(n, ("?", "", 0.0))
        if s == "ok": ok.append(n)
        elif s == "fail" and genuine(t): bad.append((n, t))
        else: inc.append("%s: %s" % (n, " ".join(l for l in t.split("\n") if "Failed" in l or "timed out" in l or "CBMC" in l)[:200] or "no result"))
    failed = []; replayed = 0
    for n, t in bad:
        f = {"obligation": "harness %s: %s" % (n, "; ".join(genuine(t))[:400]), "backend": "Kani/CBMC", "output": t}
        if replayed < 2 and time.time() - t0 < 450:
            replayed += 1
            try: txt, hit = playback(V, feat, n, crate, env)
            except Exception as e: txt, hit = str(e), None
            if txt:
                f["output"] += "\n--- counterexample (bytes of each symbolic input, in order) and its native run against the real code ---\n" + txt
                if hit: f["counterexample"] = " ".join(re.findall(r"//\s*(\S+)\n\s*vec!", txt)[:8]) + " (replayed natively: the assertion fails)"
        failed.append(f)
    return dict(base, obligations=len(names), discharged=len(ok), failed=failed, inconclusive=inc,
                functions_under_contract=ok, solver_ms=int(1000 * sum(r[2] for r in res.values())), wall=time.time() - t0,
                summary="%d/%d harnesses proved, %d inconclusive, %d failed, %.0fs" % (len(ok), len(names), len(inc), len(bad), time.time() - t0))

if __name__ == "__main__":      # list the harnesses into kani/harnesses.json
    import sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    p = os.path.join(V, "kani", "harnesses.json"); R = json.load(open(p)) if os.path.exists(p) else {}
    for feat in sys.argv[1:] or sorted(set(FEATURES.values())):
        if 'feature = "%s"' % feat not in open(os.path.join(V, "kani", "src", "lib.rs")).read(): continue
        rc, out = layers.sh(["cargo", "kani", "--features", feat] + COMMON + ["-j", "8", "--output-format=terse", "--harness-timeout", "240s", "--cbmc-args", "--fpa"], timeout=900, env={"CARGO_NET_OFFLINE": "true"}, cwd=os.path.join(V, "kani"))
        r = parse(out); R[feat] = sorted(r); print(feat, len(r), [h for h in r if r[h][0] != "ok"], out[-300:] if not r else "")
    json.dump(R, open(os.path.join(V, "kani", "harnesses.json"), "w"), indent=0)
