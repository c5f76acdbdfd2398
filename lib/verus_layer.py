"""Verus layer: extract the functions named in /verif/verus/*.vspec from /repo's working tree, merge the
contracts into the extracted text, run the verifier, and classify what it says.

vspec format (directives start a line with @):
  @unit NAME
  @raw ... @endraw                 verbatim Verus text (spec functions, lemmas)
  @struct FILE NAME
  @fn FILE [Type::]name [opts]     a function under contract; opts: mem=..., memself, flags=..., rename=a:b
    @as NAME                       name used in the verified text (default: the function's own)
    @props P01 P02                 properties this function's obligations belong to
    @ret r                         name of the result
    @req / @ens / @dec             clauses
    @attr                          attributes before the fn
    @start / @tail                 proof text at the start / after the result is computed
    @inv N                         loop clauses of loop N
    @before N / @body N / @end N / @after N   proof text around loop N
    @at /regex/                    proof text before the single emitted line matching regex
    @sub /regex/ => text           (rare) textual substitution, listed in the evidence
"""
import os, re, json, subprocess, time, threading, hashlib
import layers

def parse_spec(path):
    unit = {"name": os.path.basename(path)[:-6], "items": [], "uses": [], "opts": {}, "imports": []}
    cur = None; sec = None
    for ln in open(path):
        s = ln.strip()
        if cur and cur.get("kind") == "raw":
            if s == "@endraw": cur = None
            else: cur["text"].append(ln)
            continue
        if s.startswith("@raw"):
            cur = {"kind": "raw", "text": []}; unit["items"].append(cur); sec = None; continue
        if s.startswith("@unit"): continue
        if s.startswith("@use "): unit["uses"] += s.split()[1:]; continue
        if s.startswith("@opt "): k, _, v = s[5:].partition("="); unit["opts"][k.strip()] = v.strip(); continue
        if s.startswith("@include "):
            unit["items"].append({"kind": "raw", "text": open(os.path.join(os.path.dirname(path), s.split()[1])).read().split("\n")}); cur = None; continue
        if s.startswith("@import "):
            p = s.split(); unit["imports"].append((p[1], p[2:])); cur = None
            unit["items"].append({"kind": "import", "unit": p[1], "names": p[2:]}); continue
        if s.startswith("@struct "):
            _, f, n = s.split()[:3]; unit["items"].append({"kind": "struct", "file": f, "name": n}); cur = None; continue
        if s.startswith("@fn "):
            p = s.split()
            cur = {"kind": "fn", "file": p[1], "name": p[2], "opts": p[3:], "secs": {}, "props": [], "ret": None, "as": None, "at": [], "sub": [], "trust": False}
            unit["items"].append(cur); sec = None; continue
        if s.startswith("@"):
            d = s.split(None, 1); key = d[0][1:]; arg = d[1] if len(d) > 1 else ""
            if key == "props": cur["props"] = arg.split(); sec = None
            elif key == "ret": cur["ret"] = arg.strip(); sec = None
            elif key == "as": cur["as"] = arg.strip(); sec = None
            elif key == "trust": cur["trust"] = True; sec = None
            elif key == "at":
                m = re.match(r"/(.*)/\s*$", arg); sec = []; cur["at"].append((m.group(1), sec))
            elif key == "sub":
                m = re.match(r"/(.*)/ => (.*)$", arg); cur["sub"].append((m.group(1), m.group(2))); sec = None
            else:
                sec = cur["secs"].setdefault((key, arg.strip()), [])
            continue
        if sec is not None: sec.append(ln)
    return unit

def load_units(V):
    """all units; @import items are replaced by copies of the imported functions (contract only: their
    bodies are proved in their own unit)"""
    us = {}
    for f in sorted(os.listdir(os.path.join(V, "verus"))):
        if f.endswith(".vspec"):
            u = parse_spec(os.path.join(V, "verus", f)); us[u["name"]] = u
    for u in us.values():
        items = []
        for it in u["items"]:
            if it["kind"] != "import": items.append(it); continue
            src = [x for x in us[it["unit"]]["items"] if x["kind"] == "fn" and not x.get("imported")]
            names = it["names"]
            for n in names if names != ["*"] else [x["as"] or x["name"] for x in src]:
                c = [x for x in src if n in (x["as"], x["name"]) or x["name"].split("::")[-1] == n]
                if not c: raise RuntimeError("import %s: %s not in unit %s" % (u["name"], n, it["unit"]))
                items.append(dict(c[0], imported=it["unit"], props=[]))
        u["items"] = items
    return us

def build_extractor(V):
    rc, out = layers.sh("cd %s/extract && CARGO_NET_OFFLINE=true cargo build --release --offline -q" % V, timeout=300)
    exe = os.path.join(V, "extract", "target", "release", "extract")
    if rc != 0 or not os.path.exists(exe): raise RuntimeError("extractor build failed:\n" + out[-2000:])
    return exe

def extract(V, exe, units, work):
    job = os.path.join(work, "job.txt")
    with open(job, "w") as f:
        f.write("root\t%s\n" % os.environ.get("VERIF_REPO", "/repo"))
        for u in units:
            for it in u["items"]:
                if it["kind"] == "fn": f.write("\t".join(["fn", it["file"], it["name"]] + it["opts"]) + "\n")
                elif it["kind"] == "struct": f.write("struct\t%s\t%s\n" % (it["file"], it["name"]))
    rc, out = layers.sh([exe, job], timeout=60)
    res = []; cur = None
    for ln in out.split("\n"):
        if ln.startswith("%%fn\t") or ln.startswith("%%struct\t"):
            p = ln.split("\t")
            cur = {"ok": p[3] == "ok", "why": p[4] if len(p) > 4 else "", "sig": [], "body": [], "where": "sig", "name": p[2]}
            res.append(cur)
        elif ln.startswith("%%body"): cur["where"] = "body"
        elif ln.startswith("%%end"): cur["where"] = "done"
        elif cur and cur["where"] in ("sig", "body"): cur[cur["where"]].append(ln.replace("&&&", "&& &"))
    i = 0
    for u in units:
        for it in u["items"]:
            if it["kind"] != "raw": it["x"] = res[i]; i += 1
    if i != len(res): raise RuntimeError("extractor output does not match the job")

def fn_title(it): return "%s (%s)" % (it["name"], it["file"])

def render_fn(it, lost=None):
    """-> (lines, lost_reason).  The contract is kept even when the body is out of reach."""
    x = it["x"]; secs = it["secs"]
    if not x["ok"] and lost is None: lost = x["why"]
    nloops = int(x["why"]) if x["ok"] else 0
    if x["ok"] and lost is None and not it.get("imported"):
        for (k, a) in secs:
            if k in ("inv", "before", "body", "end", "after") and int(a) >= nloops:
                lost = "loop %s is no longer there (%d loops found)" % (a, nloops)
        want = secs.get(("loops", ""))
        have = len([1 for (k, a) in secs if k == "inv"])
        if lost is None and have != nloops: lost = "%d loops found, %d specified" % (nloops, have)
    sig = " ".join(" ".join(x["sig"]).split()) if x["ok"] else it.get("sigfallback", "")
    if not x["ok"]:
        return None, lost
    ret = it["ret"] or "r"
    m = re.match(r"^(.*\))\s*->\s*(.*)$", sig)
    # split at the last '->' after the closing parameter parenthesis
    depth = 0; end = None
    for i, ch in enumerate(sig):
        if ch == "(": depth += 1
        elif ch == ")":
            depth -= 1
            if depth == 0: end = i; break
    head, rest = sig[:end + 1], sig[end + 1:].strip()
    where = ""
    if " where " in " " + rest:
        j = rest.find("where "); where = rest[j:]; rest = rest[:j].strip()
    if rest.startswith("->"): rest = " -> (%s: %s)" % (ret, rest[2:].strip())
    nm = it["name"].split("::")[-1]
    if it["as"]: head = re.sub(r"\bfn\s+%s\b" % re.escape(nm), "fn " + it["as"], head, 1)
    L = []
    for l in secs.get(("attr", ""), []): L.append(l.rstrip("\n"))
    imp = it.get("imported")
    if lost is not None or it["trust"] or imp: L.append("#[verifier::external_body]" + (" // proved in unit " + imp if imp else ""))
    L.append("pub " + head + rest + " " + where)
    for key, kw in (("req", "requires"), ("ens", "ensures"), ("dec", "decreases")):
        c = secs.get((key, ""))
        if c and any(l.strip() for l in c):
            L.append("    " + kw)
            L += ["        " + l.rstrip("\n") for l in c]
    if lost is not None or it["trust"] or imp:
        L.append("{ unimplemented!() }")
        return L, lost
    body = list(x["body"])
    for pat, rep in it["sub"]:
        n = 0; nb = []
        txt = "\n".join(body); txt, n = re.subn(pat, rep, txt)
        if n == 0: return render_fn(it, lost="pattern %r not found" % pat)
        body = txt.split("\n")
    L.append("{")
    for l in secs.get(("start", ""), []): L.append(l.rstrip("\n"))
    tail = secs.get(("tail", ""))
    if tail: L.append("let %s = {" % ret)
    ats = {}
    for pat, text in it["at"]:
        hits = [i for i, l in enumerate(body) if re.search(pat, l)]
        if len(hits) != 1: return render_fn(it, lost="anchor line /%s/ matches %d times" % (pat, len(hits)))
        ats.setdefault(hits[0], []).extend(text)
    pend = None
    for i, l in enumerate(body):
        for t in ats.get(i, []): L.append(t.rstrip("\n"))
        m = re.match(r"\s*@@(before|loop|end|after) (\d+)@@", l)
        if m:
            k, n = m.group(1), m.group(2)
            if k == "loop":
                for t in secs.get(("inv", n), []): L.append(t.rstrip("\n"))
                pend = n
            else:
                for t in secs.get((k, n), []): L.append(t.rstrip("\n"))
            continue
        L.append(l)
        if pend is not None and l.strip().startswith("{"):
            for t in secs.get(("body", pend), []): L.append(t.rstrip("\n"))
            pend = None
    if tail:
        L.append("};")
        for l in tail: L.append(l.rstrip("\n"))
        L.append(ret)
    L.append("}")
    return L, None

def assemble(V, unit, lostmap):
    """-> text, map line->item, lost {title: reason}"""
    out = []; owner = {}; lost = {}
    out.append("use vstd::prelude::*; use vstd::arithmetic::mul::*; use vstd::arithmetic::div_mod::*;")
    out.append("pub mod vocab {")   # proved once per run, by the pseudo-unit 'vocab'
    for f in ["prelude.rs", "model.rs", "mem.rs"] + unit["uses"]:
        out += open(os.path.join(V, "verus", f)).read().split("\n")
    out.append("} use vocab::*;")
    unit["predlines"] = len(out)
    out.append("verus! {")
    for it in unit["items"]:
        st = len(out)
        if it["kind"] == "raw": out += [l.rstrip("\n") for l in it["text"]]
        elif it["kind"] == "struct":
            if not it["x"]["ok"]: raise RuntimeError("struct %s not found: %s" % (it["name"], it["x"]["why"]))
            t = "\n".join(it["x"]["sig"]).replace("pub(crate)", "pub")
            # private fields become public: the verified text is one module
            t = re.sub(r"([{,]\s*)(?!pub\b)([a-z_]+ :)", r"\1pub \2", t)
            if re.match(r"\s*pub enum", t) and "(" not in t: t = "#[derive(Clone, Copy, PartialEq, Eq, Structural)]\n" + t   # the repository's derive
            out += t.split("\n")
        else:
            L, why = render_fn(it, lostmap.get(id(it)))
            if why is not None: lost[id(it)] = why
            if L is None:
                fb = it["secs"].get(("fallback", ""))
                out += [l.rstrip("\n") for l in fb] if fb else []
            else:
                ty = it["name"].split("::")[0] if "::" in it["name"] else None
                if ty and ("self" in L[0] or True):
                    imp = it["secs"].get(("impl", ""))
                    out.append((imp[0].strip() if imp else "impl %s {" % ty)); out += L; out.append("}")
                else: out += L
        for i in range(st, len(out)): owner[i + 1] = it
    out.append("} // verus!"); out.append("fn main() {}")
    return "\n".join(out) + "\n", owner, lost

def verify_vocab(V, work, tier):
    text = assemble(V, {"uses": sorted({f for u in load_units(V).values() for f in u["uses"]}), "items": []}, {})[0]
    path = os.path.join(work, "unit_vocab.rs"); open(path, "w").write(text)
    rc, out, dt = run_verus(path, 600, 60, "--verify-only-module vocab".split())
    js, diags = parse_output(out); vr = (js or {}).get("verification-results", {})
    return {"verified": vr.get("verified", 0), "errors": [d.get("rendered", "") for d in diags if d.get("level") == "error"] if not vr.get("success") else [],
            "ms": (js or {}).get("times-ms", {}).get("smt", {}).get("total", 0) or 0}

def run_verus(path, timeout, rlimit, what=("--verify-root",)):
    t0 = time.time()
    rc, out = layers.sh(["verus", path, "--crate-type=lib", "--rlimit", str(rlimit), "--output-json", "--time", "--num-threads", "4"] + list(what) +
                        ["--multiple-errors", "6", "--", "--error-format=json"], timeout=timeout)
    return rc, out, time.time() - t0

def parse_output(out):
    """-> (summary json or None, [diag])"""
    diags = []; rest = []
    for ln in out.split("\n"):
        if ln.startswith('{"$message_type"') or (ln.startswith("{") and '"message"' in ln and '"spans"' in ln):
            try: diags.append(json.loads(ln)); continue
            except Exception: pass
        rest.append(ln)
    txt = "\n".join(rest); js = None
    i = txt.find("{")
    if i >= 0:
        try: js = json.JSONDecoder().raw_decode(txt[i:])[0]
        except Exception: js = None
    return js, diags

VERIF_MSGS = ("postcondition not satisfied", "precondition not satisfied", "invariant not satisfied", "assertion failed", "possible arithmetic underflow/overflow",
              "possible division by zero", "decreases not satisfied", "loop invariant", "recommendation not met", "possible bit shift", "unable to prove", "bit-vector",
              "forall", "assert", "constant", "overflow", "could not prove", "expression may")

def verify_unit(V, unit, work, tier):
    """Returns dict: functions -> status"""
    lostmap = {}
    hist = []
    t0 = time.time()
    for attempt in range(8):
        text, owner, lost = assemble(V, unit, lostmap)
        lostmap.update(lost)
        path = os.path.join(work, "unit_%s.rs" % unit["name"])
        open(path, "w").write(text)
        rl = unit["opts"].get("rlimit", "60")
        rc, out, dt = run_verus(path, 300 if tier == "quick" else 1500, rl)
        js, diags = parse_output(out)
        vr = (js or {}).get("verification-results", {})
        errs = [d for d in diags if d.get("level") == "error" and d.get("spans")]
        if js is None and rc is None: return {"error": "timeout", "wall": time.time() - t0, "unit": unit, "lost": lostmap, "errors": []}
        if vr.get("encountered-vir-error") or (js is None) or not vr or (vr.get("verified", 0) + vr.get("errors", 0) == 0):
            # front-end errors: the function no longer fits the dialect -> anchor lost; retry without its body
            hit = False
            for d in errs:
                for sp in d["spans"]:
                    it = owner.get(sp["line_start"])
                    if it is not None and it["kind"] == "fn" and id(it) not in lostmap and sp.get("is_primary"):
                        lostmap[id(it)] = "not expressible to the verifier: " + d["message"][:200]; hit = True
            if not hit:
                for d in errs:
                    for sp in d["spans"]:
                        it = owner.get(sp["line_start"])
                        if it is not None and it["kind"] == "fn" and id(it) not in lostmap:
                            lostmap[id(it)] = "not expressible to the verifier: " + d["message"][:200]; hit = True
            hist.append([d["message"] for d in errs][:5])
            if hit: continue
            return {"error": "front end: %s" % (hist[-1] or out[-1500:]), "wall": time.time() - t0, "unit": unit, "lost": lostmap, "errors": []}
        # real verification results
        failed = []
        for d in errs:
            it = None; primary = None; clause = ""
            for sp in d["spans"]:
                o = owner.get(sp["line_start"])
                if sp.get("is_primary"): primary = o
                t = " ".join(x["text"].strip() for x in sp.get("text", []))
                clause += " | %s: %s" % (sp.get("label") or ("at" if sp.get("is_primary") else "related"), t[:200])
            # the failing function is the one whose body holds the error location
            cands = [owner.get(sp["line_start"]) for sp in d["spans"]]
            fnc = [c for c in cands if c is not None and c["kind"] == "fn"]
            it = fnc_pick(d, owner)
            failed.append({"it": it, "msg": d["message"], "clause": clause, "rendered": d.get("rendered", ""), "span": [sp["line_start"] for sp in d["spans"]]})
        return {"error": None, "wall": time.time() - t0, "verus_s": dt, "unit": unit, "lost": lostmap, "errors": failed,
                "verified": vr.get("verified", 0), "nerr": vr.get("errors", 0), "js": js, "path": path, "text": text}
    return {"error": "gave up", "wall": time.time() - t0, "unit": unit, "lost": lostmap, "errors": []}

def fnc_pick(d, owner):
    msg = d["message"]
    prim = [sp for sp in d["spans"] if sp.get("is_primary")]
    sec = [sp for sp in d["spans"] if not sp.get("is_primary")]
    # precondition failures: primary span is the call site; postcondition: primary is the clause, secondary the body (same fn)
    for sp in prim + sec:
        o = owner.get(sp["line_start"])
        if o is not None and o["kind"] == "fn":
            if "precondition" in msg:
                # call site is where the label says so
                call = [s for s in d["spans"] if "requires" not in (s.get("text") or [{"text": ""}])[0]["text"] and s.get("is_primary")]
                c = owner.get(call[0]["line_start"]) if call else o
                return c if c is not None else o
            return o
    return owner.get(d["spans"][0]["line_start"]) if d["spans"] else None

SMT_INC = ("rlimit", "Resource limit", "timed out", "canceled")

def units_for(V, pid):
    return [u for u in load_units(V).values() if any(pid in it.get("props", []) for it in u["items"] if it["kind"] == "fn")]

def scan_trusted(text):
    out = []
    ls = text.split("\n")
    for i, l in enumerate(ls):
        if "// proved in unit" in l: continue
        if "external_body" in l or "assume(" in l or "admit()" in l or "assume_specification" in l:
            j = i
            while j < len(ls) and not re.search(r"\b(fn|struct|type)\s+\w+", ls[j]): j += 1
            m = re.search(r"\b(fn|struct|type)\s+(\w+)", ls[j]) if j < len(ls) else None
            out.append((m.group(1) + " " + m.group(2)) if m else l.strip())
    return sorted(set(out))

def run(V, pid, tier, seed):
    units = units_for(V, pid)
    if not units: return {"summary": "no contract for this property"}
    work = os.path.join(V, "work", "verus-" + pid); os.makedirs(work, exist_ok=True)
    exe = build_extractor(V)
    extract(V, exe, units, work)
    res = [None] * len(units)
    sem = threading.Semaphore(3)
    def go(i):
        with sem:
            try: res[i] = verify_unit(V, units[i], work, tier)
            except Exception as e:
                import traceback
                res[i] = {"error": traceback.format_exc(), "unit": units[i], "lost": {}, "errors": [], "wall": 0}
    ths = [threading.Thread(target=go, args=(i,)) for i in range(len(units))]
    for t in ths: t.start()
    voc = verify_vocab(V, work, tier)
    for t in ths: t.join()
    funcs = []; failed = []; inconc = []; lostl = []; trusted = set(); notes = []
    nob = ndis = 0; solver_ms = voc["ms"]
    if voc["errors"]: notes.append("vocabulary lemmas not proved: " + voc["errors"][0][:200])
    for r in res:
        u = r["unit"]
        if r["error"]:
            notes.append("unit %s not decided: %s" % (u["name"], str(r["error"])[:300]))
            for it in u["items"]:
                if it["kind"] == "fn" and pid in it["props"]: nob += 1
            continue
        bad = {}
        for e in r["errors"]:
            if e["it"] is not None: bad.setdefault(id(e["it"]), []).append(e)
        orphan = [e for e in r["errors"] if e["it"] is None or e["it"]["kind"] != "fn"]
        for e in orphan: notes.append("unit %s: lemma not proved: %s" % (u["name"], e["msg"]))
        trusted |= set(scan_trusted(r["text"]))
        solver_ms += (r["js"].get("times-ms", {}).get("smt", {}).get("total", 0) or 0)
        for it in u["items"]:
            if it["kind"] != "fn" or pid not in it["props"]: continue
            nob += 1
            if id(it) in r["lost"]:
                lostl.append("%s: %s" % (fn_title(it), r["lost"][id(it)])); continue
            if it["trust"]: inconc.append(fn_title(it) + ": trusted"); continue
            es = bad.get(id(it), [])
            if es and all(any(k in e["msg"] for k in SMT_INC) for e in es):
                inconc.append(fn_title(it)); continue
            es = [e for e in es if not any(k in e["msg"] for k in SMT_INC)]
            if es:
                for e in es:
                    failed.append({"obligation": "%s: %s%s" % (fn_title(it), e["msg"], e["clause"][:600]), "backend": "Verus/Z3",
                                   "output": e["rendered"]})
            else:
                ndis += 1; funcs.append(fn_title(it))
    lemmas = voc["verified"] + sum(r.get("verified", 0) for r in res)
    return {"obligations": nob, "discharged": ndis, "failed": failed,
            "summary": "%d/%d functions proved (%d verifier queries incl. lemmas), %d lost anchors, %d inconclusive, %d failed%s" % (ndis, nob, lemmas, len(lostl), len(inconc), len(failed), "; " + "; ".join(notes)[:300] if notes else ""),
            "functions_under_contract": funcs, "anchors_lost": lostl, "inconclusive": inconc, "verified_queries": lemmas, "notes": notes,
            "solver_ms": solver_ms, "units": [r["unit"]["name"] for r in res],
            "cmd": "verus work/verus-%s/unit_*.rs (generated by extract/ + verus/*.vspec)" % pid,
            "trusted": sorted("Verus assumed: " + t for t in trusted),
            "assumptions": ASSUME}

ASSUME = ["64-bit target (size_of usize == 8); machine arithmetic is checked for overflow, not treated as mathematical",
          "extraction desugarings R1-R9 (DESIGN.md section 2) preserve the meaning of the extracted text",
          "total element count times item size (zero axes counted as one) fits isize, the address-space precondition of the contracts"]

if __name__ == "__main__":
    import sys
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    allu = load_units(V)
    us = [allu[n] for n in (sys.argv[1:] or allu)]
    work = os.path.join(V, "work", "dev"); os.makedirs(work, exist_ok=True)
    extract(V, build_extractor(V), us, work)
    if not sys.argv[1:]: print("vocab", verify_vocab(V, work, "quick"))
    for u in us:
        r = verify_unit(V, u, work, "quick")
        print("==", u["name"], {k: r.get(k) for k in ("error", "wall", "verified", "nerr")})
        for it in u["items"]:
            if it["kind"] == "fn" and id(it) in r["lost"]: print("LOST", fn_title(it), r["lost"][id(it)])
        for e in r["errors"]: print(fn_title(e["it"]) if e["it"] and e["it"]["kind"] == "fn" else "-", "::", e["rendered"])
