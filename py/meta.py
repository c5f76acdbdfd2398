"""Metamorphic stand-in: an operation applied to a view of any memory layout gives the same
result as on a freshly packed copy of the same elements, and leaves its operands unchanged."""
from lay import *
import core

@helper
def same(f, arrs, kinds, tol=False):
    """f applied to rumpy arrays in layouts `kinds` vs packed copies; also checks the inputs stay put.
    True or a message"""
    rp = core.rp
    def go(xs):
        try: return f(*xs)
        except BaseException as e: return Raised(e)
    import sys
    # "b0"/"b1": stride 0 along the first/last axis, over a reversed or strided view
    bc = lambda a, k: np.broadcast_to(a[:1] if k == "b0" else a[..., :1], a.shape) if k in ("b0","b1") else a
    arrs = [bc(np.asarray(a), k) for a, k in zip(arrs, kinds)]
    V = [lay_rp(a, k) for a, k in zip(arrs, kinds)]
    P = [lay_rp(a, "C") for a in arrs]
    r, p = go(V), go(P)
    if isinstance(p, Raised):
        if isinstance(r, Raised): m = None
        else: m = "packed copy raised %r, view gave %r" % (p, to_np(r))
    else:
        m = cmp2(r, p, tol)
    if m: return m
    for a, x in zip(arrs, V):
        if not bits_equal(np.array(np.asarray(x)), np.asarray(a)):
            return "operand modified: now %r was %r" % (np.asarray(x), a)
    for a, x in zip(arrs, P):
        if not bits_equal(np.array(np.asarray(x)), np.asarray(a)):
            return "operand modified: now %r was %r" % (np.asarray(x), a)
    return True

def cmp2(r, p, tol):
    if isinstance(r, Raised): return "view raised %r, packed copy gave %r" % (r, to_np(p))
    if isinstance(p, (tuple, list)):
        if not isinstance(r, (tuple, list)) or len(r) != len(p): return "view %r copy %r" % (r, p)
        for x, y in zip(r, p):
            m = cmp2(x, y, tol)
            if m: return m
        return None
    if isinstance(p, (str, bytes, type(None), dict)): return None if r == p else "view %r copy %r" % (r, p)
    a, b = np.asarray(to_np(r)), np.asarray(to_np(p))
    if a.shape != b.shape or a.dtype != b.dtype: return "view %s%r copy %s%r" % (a.dtype, a.shape, b.dtype, b.shape)
    if tol and a.dtype.kind in "fc":
        t = {"e": 2e-2, "f": 1e-5, "F": 1e-5}.get(a.dtype.char, 1e-9)
        if np.allclose(a, b, rtol=t, atol=t, equal_nan=True): return None
    elif a.dtype.kind == "O": return None if a.tolist() == b.tolist() else "view %r copy %r" % (a, b)
    elif a.dtype.kind in "fc":
        if np.array_equal(a, b, equal_nan=True): return None
    elif bits_equal(a, b): return None
    return "view %r copy %r" % (a, b)

def lay_rp(a, kind):
    if kind == "b0": return core.rp.broadcast_to(_L(np.ascontiguousarray(a[0]), "rev"), a.shape) if a.ndim > 1 else core.rp.broadcast_to(core.rp.asarray(np.ascontiguousarray(a[:1])), a.shape)
    if kind == "b1": return core.rp.broadcast_to(_L(np.ascontiguousarray(a[..., :1]), "rev0"), a.shape)
    return _L(a, kind)
MLAY = LAYOUTS[1:] + ["b0", "b1"]

def _L(a, kind):
    which = "rp"
    return eval("L(a,kind)", {"L": HELPERS["L"], "a": a, "kind": kind, "which": "rp"})

# operations on one array; t: result is float-tolerant (summation order)
UN1 = """abs absolute negative positive square sign sqrt exp log sin cos tan floor ceil trunc rint cbrt
exp2 expm1 log2 log10 log1p sinh cosh tanh arcsin arccos arctan arcsinh arccosh arctanh reciprocal
isnan isinf isfinite isneginf isposinf signbit isreal iscomplex conj real imag angle deg2rad rad2deg degrees radians
fix sinc i0 spacing nan_to_num logical_not invert argsort sort unique ravel flatten cumsum cumprod
nancumsum nancumprod nonzero flatnonzero argwhere count_nonzero transpose copy squeeze diff ediff1d
fliplr flipud flip rot90 diag diagflat diagonal tril triu trim_zeros atleast_1d atleast_2d atleast_3d
argmax argmin nanargmax nanargmin max min amax amin ptp all any zeros_like ones_like unwrap gradient
lexsort_ bincount_ modf frexp packbits_ ascontiguousarray asfortranarray matrix_transpose""".split()
UN1 = [u for u in UN1 if not u.endswith("_")]
UNT = "sum prod mean std var median nansum nanprod nanmean nanstd nanvar nanmedian nanmax nanmin average trapezoid trace cov corrcoef".split()
AX = "sum prod mean std var median max min argmax argmin cumsum cumprod sort argsort all any nansum nanmean nanmax nanmin nanstd nanvar nanprod nanmedian ptp flip diff count_nonzero average gradient".split()
EXTRA = """xp.clip(X,2,7)|xp.round(X,1)|xp.roll(X,2)|xp.repeat(X,2)|xp.tile(X,2)|xp.take(X,rp.asarray(np.array([0,2,1])))|X.tolist()|X.tobytes()|X.reshape((-1,))|X.copy()
X.astype('float64')|X.astype('int32')|X.astype('complex128')|X.astype('float32')|X.astype('uint8')|X.astype('bool')|xp.concatenate([X,X])|xp.stack([X,X])|xp.vstack([X,X])|xp.hstack([X,X])|xp.dstack([X,X])|xp.column_stack([X,X])
xp.pad(X,1)|xp.pad(X,((1)),mode='edge')|xp.where(X>3,X,X*2)|X[X>3]|xp.compress(X.ravel()>3,X.ravel())|xp.extract(X>3,X)|xp.insert(X,1,9)|xp.delete(X,1)|xp.append(X,X)|xp.expand_dims(X,0)|xp.outer(X,X)
xp.percentile(X,30)|xp.quantile(X,0.3)|xp.nanpercentile(X,30)|xp.searchsorted(xp.sort(X.ravel()),X)|xp.digitize(X,rp.asarray(np.array([1.,3.,5.])))|xp.histogram(X,5)|xp.isin(X,rp.asarray(np.array([1,3,5])))|xp.in1d(X,rp.asarray(np.array([1,3,5])))|xp.partition(X,2)|xp.array_split(X,2)|xp.unique_counts(X)|xp.unique_inverse(X)|xp.interp(X,rp.asarray(np.array([0.,5.,9.])),rp.asarray(np.array([1.,2.,0.])))|xp.convolve(X.ravel(),X.ravel())|xp.correlate(X.ravel(),X.ravel())|xp.meshgrid(X.ravel(),X.ravel())|xp.broadcast_to(X,(2,)+tuple(X.shape))|xp.moveaxis(X,0,-1)|xp.swapaxes(X,0,0)|xp.fft.fft(X)|xp.vdot(X.ravel(),X.ravel())|xp.polyval(X.ravel(),2.0)|xp.piecewise(X,[X<3,X>=3],[1.,2.])|xp.select([X<3,X>5],[X,X*2],0)|xp.choose(rp.asarray(np.array([0,1,0])),[X.ravel()[:3],X.ravel()[1:4]])
repr(X)|str(X)|X.item(0)|X.nonzero()|xp.ravel(X)|xp.array_equal(X,X)|X.max()|X.min()|X.sum()|X.prod()|X.mean()|X.argmax()|X.argmin()|X.argsort()|X.cumsum()|X.any()|X.all()|X.round(1)|X.clip(1,3)|list(X.flat)|xp.resize(X,(5,))|[x for x in X]|xp.array(X)|xp.asarray(X)|np.array(X)|X.take(rp.asarray(np.array([0,1])))|X.repeat(3)|X.flatten()|X.std()|X.var()|X.ptp()|xp.nan_to_num(X)""".replace("\n","|").split("|")
BIN = "add subtract multiply divide floor_divide remainder fmod power maximum minimum fmax fmin equal not_equal less less_equal greater greater_equal logical_and logical_or logical_xor arctan2 hypot copysign nextafter logaddexp logaddexp2 bitwise_and bitwise_or bitwise_xor left_shift right_shift gcd lcm ldexp heaviside isclose allclose array_equal union1d intersect1d setdiff1d setxor1d isin in1d dot inner outer kron vdot matmul tensordot1 cross convolve1 correlate1 where3 concatenate2 searchsorted2 append append0 take_along put_ float_power".split()
BINX = {"tensordot1":"xp.tensordot(X,Y,1)","convolve1":"xp.convolve(X.ravel(),Y.ravel())","correlate1":"xp.correlate(X.ravel(),Y.ravel(),'full')","where3":"xp.where(X>Y,X,Y)","concatenate2":"xp.concatenate([X,Y])","searchsorted2":"xp.searchsorted(X.ravel(),Y.ravel())","append0":"xp.append(X,Y,axis=0)","take_along":"xp.take_along_axis(X,xp.argsort(Y,axis=-1),axis=-1)","put_":"xp.array_equal(X,Y)"}
TOLB = {"dot","inner","matmul","tensordot1","convolve1","correlate1","vdot","kron","cross"}
SH = [(6,),(3,4),(2,3,4),(4,4)]

def data(shape, dt, seed=0):
    rng = np.random.default_rng(seed)
    a = rng.integers(0, 9, size=shape)
    if dt == "?": return (a > 4)
    if dt[0] == "i": a = a - 3
    a = a.astype(dt)
    if dt[0] == "f": a = (a - 2) / np.dtype(dt).type(4) if True else a; a = a.astype(dt)
    if dt[0] == "c": a = (a - 2) + 1j * rng.integers(-3, 4, size=shape); a = a.astype(dt)
    return a

def cases(dts=("f8","f4","f2","i8","i4","i2","i1","u8","u4","u2","u1","?","c16","c8"), layouts=MLAY, shapes=SH, twok=("T","step","rev","rev0","off","revall","b0","b1")):
    C = []
    for sh in shapes:
        nd = len(sh)
        for dt in dts:
            a = "data(%r,%r)" % (sh, dt)
            for k in layouts:
                if k == "T" and nd == 1: continue
                def add(expr, tol=False):
                    C.append({"code": "xp=rp\nok=same(lambda X:%s,[%s],[%r],%r)" % (expr, a, k, tol), "mode": "pred", "op": expr})
                for u in UN1: add("xp.%s(X)" % u)
                for u in UNT: add("xp.%s(X)" % u, True)
                for ax in range(nd):
                    for u in AX: add("xp.%s(X,axis=%d)" % (u, ax), True)
                for e in EXTRA: add(e, True)
            b = "data(%r,%r,1)" % (sh, dt)
            for k1, k2 in [(k, "C") for k in layouts] + [("C", k) for k in layouts] + [(k, k) for k in layouts] + [("T","rev"),("step","T")]:
                if nd == 1 and "T" in (k1, k2): continue
                for u in BIN:
                    ex = BINX.get(u, "xp.%s(X,Y)" % u)
                    if u == "matmul" and nd == 2 and sh[0] != sh[1]: ex = "xp.matmul(X,Y.T)"
                    C.append({"code": "xp=rp\nok=same(lambda X,Y:%s,[%s,%s],[%r,%r],%r)" % (ex, a, b, k1, k2, True), "mode": "pred", "op": ex})
    return C
HELPERS["data"] = data

# further functions, on the data each of them accepts
MORE1 = """acos acosh asin asinh atan atanh bitwise_not conjugate fabs cumulative_sum cumulative_prod unique_values unique_all
iscomplexobj isrealobj empty_like full_like1 unstack real_if_close permute_dims ndim""".split()
MOREX = """[xp.full_like(X,3),xp.zeros_like(X),xp.ones_like(X)]|xp.divmod(X,3)|xp.mod(X,3)|xp.pow(X,2)|xp.true_divide(X,4)|xp.argpartition(X,2)|xp.apply_along_axis(lambda v:v[::-1],0,X)
xp.apply_over_axes(xp.sum,X,[0])|xp.concat([X,X])|xp.row_stack([X,X])|xp.block([X,X])|xp.dsplit(X,1)|xp.hsplit(X,1)|xp.vsplit(X,1)|xp.nanquantile(X,0.3)|xp.histogram_bin_edges(X,4)|xp.broadcast_arrays(X,X[:1])
xp.ravel_multi_index((xp.asarray(np.array([0,1])),xp.asarray(np.array([1,0]))),X.shape)|[tuple(t) for t in xp.ndenumerate(X)]|[v for v in X.flat]|xp.packbits(X)|xp.polyder(X.ravel())|xp.polyint(X.ravel())|xp.linalg.norm(X)|xp.norm(X)
xp.kaiser(5,2.0)*X.ravel()[0]|xp.vectorize(lambda t:t)(X)|xp.frompyfunc(lambda t:t,1,1)(X)|xp.require(X)|xp.rollaxis(X,-1)|xp.isdtype(X.dtype,'numeric')|xp.result_type(X,X)|xp.tril_indices_from(X)|xp.triu_indices_from(X)|xp.diag_indices_from(X)
X.skew()|X.kurtosis()|X.moment(2)|X.nbytes|X.argpartition(2)|X.T.copy()|X.swapaxes(0,0)|xp.array(X.tolist())|xp.unpackbits(X)|xp.bincount(X.ravel())|xp.trim_zeros(X.ravel())|xp.roots(X.ravel())|xp.put_along_axis(X.copy(),xp.argmax(X,axis=0,keepdims=True),7,0)
xp.histogramdd(X,3)|xp.emath.sqrt(X)|xp.emath.log(X)|xp.emath.power(X,2)|xp.ix_(X.ravel()>1)|xp.rot90(X,3)|xp.rot90(X,2)|xp.tril(X,-1)|xp.triu(X,1)|xp.trace(X)|xp.diagonal(X)|xp.einsum('...->...',X)|xp.squeeze(xp.expand_dims(X,1))
(lambda Z:[xp.fill_diagonal(Z,3),Z][1])(xp.array(X).copy())|(lambda Z:[xp.copyto(Z,X),Z][1])(xp.zeros(X.shape,dtype=X.dtype))|(lambda Z:[xp.put(Z,xp.asarray(np.array([0,2])),X.ravel()[:2]),Z][1])(xp.zeros(X.shape,dtype=X.dtype))
(lambda Z:[xp.putmask(Z,X>2,X),Z][1])(xp.zeros(X.shape,dtype=X.dtype))|(lambda Z:[xp.place(Z,X>2,X),Z][1])(xp.zeros(X.shape,dtype=X.dtype))|(lambda Z:[Z.fill(2),Z][1])(X.copy())|(lambda Z:[Z.__setitem__(slice(None),X),Z][1])(xp.zeros(X.shape,dtype=X.dtype))""".replace("\n","|").split("|")
FFT = """fft.fft fft.ifft fft.rfft fft.irfft fft.hfft fft.ihfft fft.fftn fft.ifftn fft.rfftn fft.irfftn fft.fft2 fft.ifft2 fft.rfft2 fft.irfft2 fft.fftshift fft.ifftshift""".split()
LIN1 = """inv det slogdet cholesky qr svdvals eigvalsh matrix_rank pinv cond norm eigh eigvals matrix_norm vector_norm""".split()
CHR = """upper() lower() strip() lstrip() rstrip() strip('a') str_len() isalpha() isdigit() isalnum() isupper() islower() isspace() isdecimal() isnumeric() istitle() capitalize() title()
swapcase() expandtabs() find('b') rfind('b') count('b') partition('b') rpartition('b') startswith('b') endswith('b') multiply(2) replace('b','XY') center(9) ljust(9) rjust(9) zfill(9) index('') rindex('')""".split()
CHR2 = "add equal not_equal less less_equal greater greater_equal".split()
STRV = "np.array([[' ab\\t','Bcb d','','12'],['-7b','aBC Def','  ','\\xe9'],['b','bb','Title Case','x9']],%r)"
DTV = "np.array([[11017,-1,0,364],[19787,-719162,59,400],[-365,31,60,-2**63]],'i8').view(%r)"
def more(tier="quick", rng=None):
    C = []
    def add(expr, arrs, ks, tol=False):
        C.append({"code": "xp=rp\nok=same(lambda %s:%s,[%s],%r,%r)" % ("X,Y"[:2*len(ks)-1], expr, ",".join(arrs), list(ks), tol), "mode": "pred", "op": expr})
    for k in MLAY:
        for sh in SH:
            if k == "T" and len(sh) == 1: continue
            for dt in ("f8","f4","i8","i2","u1","?","c16"):
                a = "data(%r,%r)" % (sh, dt)
                for u in MORE1:
                    if u == "empty_like": add("xp.empty_like(X).shape", [a], [k])
                    else: add("xp.%s(X)" % u, [a], [k])
                for e in MOREX: add(e, [a], [k], True)
                for e in FFT: add("xp.%s(X)" % e, [a], [k], True)
                for ax in range(len(sh)):
                    for e in FFT[:6]: add("xp.%s(X,axis=%d)" % (e,ax), [a], [k], True)
                    for e in ("argpartition(X,1,axis=%d)","cumulative_sum(X,axis=%d)","nanquantile(X,0.3,axis=%d)","trapezoid(X,axis=%d)","partition(X,1,axis=%d)","repeat(X,2,axis=%d)","delete(X,0,axis=%d)","insert(X,1,5,axis=%d)","append(X,X,axis=%d)","roll(X,1,axis=%d)","stack([X,X],axis=%d)","concatenate([X,X],axis=%d)","split(X,1,axis=%d)","unstack(X,axis=%d)","expand_dims(X,axis=%d)","lexsort((X,),axis=%d)","linalg.norm(X,axis=%d)","quantile(X,0.4,axis=%d)","percentile(X,[10,60],axis=%d)"):
                        add("xp."+e % ax, [a], [k], True)
        if k == "T":
            pass
        for n in (1,3,5):
            for dt in ("f8","f4","c16"):
                m = "(data((%d,%d),%r)+np.eye(%d,dtype=%r)*20).astype(%r)" % (n,n,dt,n,dt,dt)
                sy = "(lambda m:(m+m.T.conj()).astype(%r))(%s)" % (dt,m)
                for u in LIN1: add("xp.linalg.%s(X)" % u, [sy if u in ("cholesky","eigvalsh","eigh") else m], [k], True)
                add("xp.linalg.matrix_power(X,3)", [m], [k], True); add("xp.linalg.multi_dot([X,X,X])", [m], [k], True)
                for k2 in ("C",k,"T"):
                    add("xp.linalg.solve(X,Y)", [m,"data((%d,%d),%r,1)" % (n,n,dt)], [k,k2], True)
                    add("xp.linalg.lstsq(X,Y)[0]", [m,"data((%d,%d),%r,1)" % (n,n,dt)], [k,k2], True)
                    if k2 != "T": add("xp.linalg.solve(X,Y)", [m,"data((%d,),%r,1)" % (n,dt)], [k,k2], True)
        for dt in ("<U10","<U16"):
            v = STRV % dt
            for e in CHR: add("xp.char.%s(X%s" % (e.split("(")[0], (","+e.split("(",1)[1]) if not e.endswith("()") else ")"), [v], [k])
            for e in CHR2:
                for k1,k2 in ((k,"C"),("C",k),(k,k)): add("xp.char.%s(X,Y)" % e, [v, v+"[::-1]"], [k1,k2])
        for dt in ("<U10","<U16","S0","M8[D]","M8[ns]","m8[s]","m8[Y]"):
            v = DTV % dt if dt[0] in "Mm" else STRV % dt if dt[0] != "S" else "np.array([[b'a',b'bcd'],[b'',b'xy']])"
            for e in ("X.copy()","X.tolist()","X.reshape((-1,))","xp.concatenate([X,X])","xp.stack([X,X],axis=1)","xp.repeat(X,2)","xp.tile(X,2)","xp.roll(X,1)","X.T.copy()","xp.flip(X,0).copy()","X[1:].copy()","xp.take(X,rp.asarray(np.array([1,0])),axis=0)","X[rp.asarray(np.array([1,0,1]))]","np.array(X)","repr(X)","X.tobytes()","xp.delete(X,0,axis=0)","xp.array_split(X,2)","xp.ravel(X)"): add(e, [v], [k])
            if dt[0] in "Mm":
                for e in ("xp.sort(X)","xp.argsort(X)","xp.isnat(X)","xp.diff(X)","X.max()","X.min()","xp.unique(X)","X==X[::-1]","X<X[::-1]","X-X[::-1]","X.astype('int64')","xp.where(xp.isnat(X),X[::-1],X)","xp.searchsorted(xp.sort(X.ravel()),X.ravel())","X.argmax()","xp.argmin(X,axis=0)","xp.maximum(X,X[::-1])"): add(e, [v], [k])
            if dt == "M8[D]":
                for e in ("xp.is_busday(X)","xp.busday_count(X,X[::-1])","xp.busday_offset(X,3,roll='forward')","X.astype('datetime64[M]')","X.astype('datetime64[h]')","xp.datetime_as_string(X)"): add(e, [v], [k])
    return C

def meta_cases(tier, rng):
    return cases() + more()
