from core import *
import core

LAYOUTS = ["C", "T", "step", "rev", "rev0", "off", "revall"]

@helper
def L(a, kind):
    """array with the values of numpy array `a`; for rumpy, in memory layout `kind`"""
    import sys
    a = np.asarray(a)
    f = sys._getframe(1).f_globals
    which = f["which"]
    if which == "np":
        return a
    rp = core.rp
    if a.ndim == 0: return mk(rp)(a)
    if kind == "C": return rp.asarray(np.ascontiguousarray(a))
    if kind == "T":
        return rp.asarray(np.ascontiguousarray(a.T)).T
    if kind == "step":
        b = np.zeros(a.shape[:-1] + (a.shape[-1] * 2 + 1,), a.dtype)
        b[..., 1::2] = a
        return rp.asarray(b)[(slice(None),) * (a.ndim - 1) + (slice(1, None, 2),)]
    if kind == "rev":
        ix = (slice(None),) * (a.ndim - 1) + (slice(None, None, -1),)
        return rp.asarray(np.ascontiguousarray(a[ix]))[ix]
    if kind == "rev0":
        return rp.asarray(np.ascontiguousarray(a[::-1]))[::-1]
    if kind == "revall":
        ix = (slice(None, None, -1),) * a.ndim
        return rp.asarray(np.ascontiguousarray(a[ix]))[ix]
    if kind == "off":
        b = np.zeros((a.shape[0] + 2,) + a.shape[1:], a.dtype)
        b[1:-1] = a
        return rp.asarray(b)[1:-1]
    raise ValueError(kind)

@helper
def ar(shape, dt="i8", start=0):
    n = int(np.prod(shape)) if len(shape) else 1
    return (np.arange(n) + start).astype(dt).reshape(shape)
