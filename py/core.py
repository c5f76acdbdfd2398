"""Bounded stand-in engine: runs observable-behaviour cases against the freshly built
extension module and an oracle (NumPy, or a contract predicate evaluated on the result).

A case is a python snippet (`code`) that sets `out`; it is executed twice, once with
xp = rumpy and once with xp = numpy, and the two outcomes are compared.  A snippet may
instead set `ok` (a predicate on rumpy's result alone); then only xp = rumpy runs.
Everything here is *bounded*: it is never counted as proved.
"""
import os, sys, json, warnings, multiprocessing as mp, time, traceback
import numpy as np
warnings.simplefilter("ignore")
np.seterr(all="ignore")

rp = None
def load(path):
    global rp
    sys.path.insert(0, path)
    import rumpy
    rp = rumpy
    return rp

class Raised:
    def __init__(self, e): self.e = e
    def __repr__(self): return "raised %s: %s" % (type(self.e).__name__, str(self.e)[:200])

def mk(xp):
    if xp is np:
        return lambda a: a
    def conv(a):
        if isinstance(a, np.ndarray) and a.ndim == 0:
            return rp.asarray(a.reshape(1)).reshape(())
        return rp.asarray(a)
    return conv

def lay(a, kind):
    """the same values in a different memory layout (built from numpy, exact)"""
    return a

def run_one(code, which, env_extra=None):
    xp = rp if which == "rp" else np
    env = {"xp": xp, "np": np, "rp": rp, "A": mk(xp), "which": which}
    env.update(HELPERS)
    if env_extra: env.update(env_extra)
    try:
        exec(compile(code, "<case>", "exec"), env)
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:   # pyo3 PanicException derives from BaseException
        return Raised(e), env
    return env.get("out"), env

def is_panic(r):
    return isinstance(r, Raised) and type(r.e).__name__ == "PanicException"

def to_np(x):
    if rp is not None and isinstance(x, rp.ndarray):
        # order-true gather through the array interface, then an owned copy
        return np.array(np.asarray(x))
    return x

def bits_equal(a, b):
    if a.dtype.kind in "fc":
        eq = (a == b) | ((a != a) & (b != b))
        if a.dtype.kind == "f":
            eq &= (np.signbit(a) == np.signbit(b)) | (a != a)
        return bool(np.all(eq))
    if a.dtype.kind in "Mm":
        return bool(np.all(a.view("i8") == b.view("i8")))
    return bool(np.array_equal(a, b))

def cmp(r, n, mode="exact"):
    """None if equal, else a message"""
    if isinstance(n, Raised):
        if isinstance(r, Raised):
            return None
        return "reference raised (%r), got %r" % (n, to_np(r))
    if isinstance(r, Raised):
        return "got %r, expected %r" % (r, n)
    if isinstance(n, (tuple, list)) and not (isinstance(r, rp.ndarray)):
        if not isinstance(r, (tuple, list)) or len(r) != len(n):
            return "got %r expected %r" % (r, n)
        for i, (x, y) in enumerate(zip(r, n)):
            m = cmp(x, y, mode)
            if m: return "[%d] %s" % (i, m)
        return None
    if isinstance(n, (str, bytes, type(None))) or isinstance(n, np.dtype):
        return None if str(r) == str(n) else "got %r expected %r" % (r, n)
    scal_r = not isinstance(r, rp.ndarray) and not isinstance(r, np.ndarray)
    rn, nn = np.asarray(to_np(r)), np.asarray(n)
    scalar = scal_r or np.isscalar(n) or nn.ndim == 0
    flags = mode.split(",")
    if scalar:
        # python scalars carry no dtype; 0-d vs 1-element representation is not compared
        if rn.size != nn.size: return "got %r expected %r" % (rn, nn)
        rn, nn = rn.reshape(-1), nn.reshape(-1)
        if rn.dtype != nn.dtype:
            if not scal_r and "dtype" in flags:
                return "dtype %s expected %s" % (rn.dtype, nn.dtype)
            tol = {2: 4e-3, 4: 3e-6}.get(nn.dtype.itemsize if nn.dtype.kind == "f" else 8, 1e-9)
            ok = all(same_num(x, y, flags, tol) for x, y in zip(rn.tolist(), nn.tolist()))
            return None if ok else "got %r expected %r" % (rn, nn)
    else:
        if rn.shape != nn.shape: return "shape %r expected %r" % (rn.shape, nn.shape)
    if rn.dtype != nn.dtype:
        if "nodtype" in flags:
            try: rn = rn.astype(nn.dtype)
            except Exception as e: return "dtype %s expected %s" % (rn.dtype, nn.dtype)
        else:
            return "dtype %s expected %s (got %r expected %r)" % (rn.dtype, nn.dtype, rn, nn)
    if "close" in flags and nn.dtype.kind in "fc":
        tol = {2: 4e-3, 4: 3e-6, 8: 1e-12, 16: 1e-12}.get(nn.dtype.itemsize, 1e-12)
        if nn.dtype == np.complex64: tol = 3e-6
        with np.errstate(all="ignore"):
            if np.allclose(rn, nn, rtol=tol, atol=tol, equal_nan=True): return None
        return "got %r expected %r" % (rn, nn)
    if "nosz" in flags and nn.dtype.kind in "fc":
        if np.array_equal(rn, nn, equal_nan=True): return None
        return "got %r expected %r" % (rn, nn)
    if bits_equal(rn, nn): return None
    return "got %r expected %r" % (rn, nn)

def same_num(x, y, flags, tol=1e-9):
    if x == y: return True
    try:
        if x != x and y != y: return True
        if "close" in flags and abs(x - y) <= tol * max(1, abs(x), abs(y)): return True
    except Exception: pass
    return False

HELPERS = {}
def helper(f):
    HELPERS[f.__name__] = f
    return f

def check(case):
    """-> None or message"""
    code, mode = case["code"], case.get("mode", "exact")
    r, env = run_one(code, "rp")
    if "ok" in env:
        if isinstance(r, Raised): return repr(r)
        return None if env["ok"] is True else "contract predicate is false: %r" % (env.get("ok"),)
    if isinstance(r, Raised) and mode.startswith("pred"):
        return repr(r)
    if mode.startswith("pred"):
        return "case set no verdict"
    n, _ = run_one(code, "np")
    if is_panic(r) and not isinstance(n, Raised):
        return "crashed: %r, expected %r" % (r, n)
    if is_panic(r) and "nopanic" in mode:
        return "crashed (%r) where an error was expected" % (r,)
    return cmp(r, n, mode)

def _body(path, ch, cur, wr):
    load(path)
    dn = os.open(os.devnull, os.O_WRONLY); os.dup2(dn, 2)
    for k, (i, c) in enumerate(ch):
        cur.value = k
        try: m = check(c)
        except BaseException as e: m = "harness error " + repr(e)
        if m: wr.send((i, m))
    wr.send(None); wr.close()

def _drive(path, ch, fails, max_deaths=40):
    """runs one chunk; a process that dies (segfault, abort) or hangs is charged to its case"""
    ctx = mp.get_context("fork")
    deaths = 0
    while ch and deaths < max_deaths:
        cur = ctx.Value("q", 0, lock=False)
        rd, wr = ctx.Pipe(duplex=False)
        p = ctx.Process(target=_body, args=(path, ch, cur, wr))
        p.start(); wr.close()
        last, t0, done = -1, time.time(), False
        hung = False
        while True:
            try:
                if rd.poll(1.0):
                    m = rd.recv()
                    if m is None: done = True; break
                    fails.append(m)
                    continue
            except EOFError:
                break
            if cur.value != last: last, t0 = cur.value, time.time()
            elif time.time() - t0 > 60:
                hung = True; p.kill(); break
        p.join(); rd.close()
        if done: return
        k = cur.value
        deaths += 1
        fails.append((ch[k][0], "did not terminate within 60 s" if hung
                      else "process died (exit code %s: memory fault or abort)" % p.exitcode))
        ch = ch[k + 1:]

def run_cases(path, cases, nproc=8):
    import threading
    cases = [c if isinstance(c, dict) else {"code": c} for c in cases]
    n = len(cases)
    fails = []
    ths = []
    for k in range(nproc):
        ch = [(i, cases[i]) for i in range(k, n, nproc)]
        if ch:
            t = threading.Thread(target=_drive, args=(path, ch, fails)); t.start(); ths.append(t)
    for t in ths: t.join()
    fails.sort(key=lambda t: t[0])
    return [(cases[i], m) for i, m in fails], n

def summarize(fails, n, k=60, w=260):
    import re
    print(n, len(fails))
    seen = {}
    for c, m in fails:
        key = re.sub(r"[-0-9.]+", "#", m)[:38]
        seen.setdefault(key, []).append((c["code"], m))
    for key, v in sorted(seen.items(), key=lambda t: -len(t[1]))[:k]:
        v.sort(key=lambda t: len(t[0]))
        print(len(v), repr(v[0][0]), "::", v[0][1][:w])
