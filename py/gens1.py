"""Bounded stand-ins, part 1: indexing, views, layout, broadcasting, promotion."""
from lay import *
import itertools, random
INT = ["i1","i2","i4","i8","u1","u2","u4","u8"]
FLT = ["f2","f4","f8"]
CPX = ["c8","c16"]
NUM = ["?"] + INT + FLT + CPX
LAY1 = ["C","step","rev","off"]

def sl(a,b,c):
    f = lambda v: "" if v is None else str(v)
    return "%s:%s" % (f(a), f(b)) + ("" if c is None else ":%s" % c)

def c(code, mode="exact"): return {"code": code, "mode": mode}

# ---------------------------------------------------------------- basic indexing
def index_cases(tier, rng):
    C = []
    big = tier == "thorough"
    for n in range(0, 6):
        st = [None] + list(range(-n-2, n+3))
        for kind in LAY1:
            for a in st:
                for b in st:
                    for s in (None,1,2,3,-1,-2,-3,5,-5):
                        if kind != "C" and s in (1,5,-5): continue
                        C.append(c("x=L(ar((%d,)),%r)\nout=x[%s]" % (n,kind,sl(a,b,s)), "exact,nopanic"))
        for kind in LAY1:
            for i in range(-n-2, n+2):
                C.append(c("x=L(ar((%d,)),%r)\nout=x[%d]" % (n,kind,i), "exact,nopanic"))
    # huge bounds and steps
    M = [2**62, -2**62, 2**63-1, -2**63, 2**63-2, -2**63+1, 10**9]
    for n in (1,4,7):
        for a in [None,1]+M:
            for b in [None,2]+M:
                for s in [None,2,-1]+M:
                    for kind in ("C","rev"):
                        C.append(c("x=L(ar((%d,)),%r)\nout=x[%s]" % (n,kind,sl(a,b,s)), "exact,nopanic"))
        for i in M: C.append(c("x=L(ar((%d,)),'C')\nout=x[%d]" % (n,i), "exact,nopanic"))
    # the same bounds inside a tuple, beyond the machine integers too
    M2 = [2**63-1, -2**63, 2**63-2, -2**63+1, 2**63, 2**70, -2**70]
    for a in [None,0]+M2:
        for b in [None,1]+M2:
            for s in [None,2,-1]+M2:
                for f in ("%s,:","...,%s","None,:,%s"):
                    C.append(c("x=L(ar((3,4)),'C')\nout=x[%s]" % (f % sl(a,b,s)), "exact,nopanic"))
        C.append(c("x=L(ar((3,4)),'C')\nout=x[:,%s]" % sl(a,None,0), "exact,nopanic"))
    # flat iteration and flat indexing
    for sh in ((5,),(2,3),(2,2,3),(0,),(1,1)):
        n = int(np.prod(sh))
        for kind in (LAYOUTS if n else ("C",)):
            for dt in ("f8","i4","u1"):
                C.append(c("x=L(ar(%r).astype(%r),%r)\nout=np.array([float(v) for v in x.flat])" % (sh,dt,kind)))
                C.append(c("x=L(ar(%r).astype(%r),%r)\nout=np.array([float(x.flat[i]) for i in range(-%d,%d)])" % (sh,dt,kind,n,n)))
            for i in (-n-1,n,n+3): C.append(c("x=L(ar(%r),%r)\nout=float(x.flat[%d])" % (sh,kind,i), "exact,nopanic"))
    # multi-dimensional, chained, every dtype
    shapes = [(3,4),(2,3,4),(1,5),(4,1,3),(2,2,2,3),(0,3),(3,0,2)]
    def rkey(sh):
        k, used = [], 0
        ell = False
        for d in sh:
            r = rng.random()
            if r < .08 and not ell: k.append("..."); ell = True; break
            if r < .16: k.append("None")
            r = rng.random()
            if r < .3: k.append(str(rng.randint(-d-1, d) if rng.random()<.1 else (rng.randint(-d, d-1) if d else 0)))
            else:
                f = lambda: rng.choice([None]+list(range(-d-1,d+2)))
                k.append(sl(f(), f(), rng.choice([None,None,1,2,-1,-2,3,-3])))
        if rng.random() < .25 and len(k) > 1 and not ell: k = k[:rng.randint(1,len(k))]
        if rng.random() < .05 and not ell: k = k[-1:]; k.insert(0, "...")
        if rng.random() < .05: k.append("None")
        return ",".join(k)
    N = 60000 if big else 14000
    for _ in range(N):
        sh = rng.choice(shapes); kind = rng.choice(LAYOUTS); dt = rng.choice(NUM)
        k1 = rkey(sh)
        code = "x=L(ar(%r,%r),%r)\ny=x[%s]" % (sh,dt,kind,k1)
        if rng.random() < .4:
            code += "\nout=y[%s]" % rng.choice(["::-1","1:","...,::2","0","-1","::-2",":2","...,0","...,None,::-1","1::2"])
        else: code += "\nout=y"
        C.append(c(code, "exact,nopanic"))
    # iteration, len, element reads through every path
    for dt in NUM:
        for sh in [(5,),(3,4),(2,3,2)]:
            for kind in LAYOUTS:
                C.append(c("x=L(ar(%r,%r),%r)\nout=[r for r in x]" % (sh,dt,kind)))
                for i in itertools.product(*[(0,-1,d//2) for d in sh]):
                    C.append(c("x=L(ar(%r,%r),%r)\nout=x[%s]" % (sh,dt,kind,",".join(map(str,i))), "exact,nopanic"))
    return C

# ---------------------------------------------------------------- shape views
def _factorisations(n, k):
    if k == 1: return [(n,)]
    out = []
    for d in (range(1, n+1) if n else range(0, 3)):
        if n == 0 or n % d == 0:
            for r in _factorisations(n//d if d else 0, k-1) if d else [(1,)*(k-1)]:
                out.append((d,)+r)
    return out

def view_cases(tier, rng):
    C = []
    shapes = [(12,),(3,4),(2,3,2),(1,6),(6,1),(2,1,3),(1,1,1),(2,2,3,1),(0,),(2,0),(0,3),()]
    for sh in shapes:
        n = int(np.prod(sh)) if sh else 1
        kinds = LAYOUTS if sh else ["C"]
        targets = set()
        for k in (1,2,3,4): targets |= set(_factorisations(n,k))
        if n == 1: targets.add(())
        for kind in kinds:
            for t in sorted(targets):
                C.append(c("x=L(ar(%r),%r)\nout=x.reshape(%r)" % (sh,kind,t)))
                if len(t) and 0 not in t:
                    for j in range(len(t)):
                        u = list(t); u[j] = -1
                        C.append(c("x=L(ar(%r),%r)\nout=x.reshape(%r)" % (sh,kind,tuple(u))))
            for t in [(n+1,),(5,7),(-1,7),(-1,-1),(2,-1,5)]:
                C.append(c("x=L(ar(%r),%r)\nout=x.reshape(%r)" % (sh,kind,t),"exact,nopanic"))
            nd = len(sh)
            for p in itertools.permutations(range(nd)):
                C.append(c("x=L(ar(%r),%r)\nout=xp.transpose(x,%r)" % (sh,kind,list(p))))
                C.append(c("x=L(ar(%r),%r)\nout=xp.transpose(x,%r)[...,None].reshape((-1,))" % (sh,kind,list(p))))
            for e in ["x.T","x.ravel()","x.flatten()","xp.squeeze(x)","xp.ravel(x)","x.copy()","xp.atleast_1d(x)","xp.atleast_2d(x)","xp.atleast_3d(x)","x.tolist()","list(x.shape)","x.size","x.ndim","x.nbytes","x.itemsize"]:
                if sh == () and e in ("x.tolist()",): continue
                C.append(c("x=L(ar(%r),%r)\nout=%s" % (sh,kind,e)))
            if nd:
                C.append(c("x=L(ar(%r),%r)\nout=xp.flip(x)" % (sh,kind)))
            for ax in range(-nd-1, nd+1):
                C.append(c("x=L(ar(%r),%r)\nout=xp.expand_dims(x,%d)" % (sh,kind,ax)))
                if -nd <= ax < nd:
                    C.append(c("x=L(ar(%r),%r)\nout=xp.flip(x,%d)" % (sh,kind,ax)))
                    pass
            for a in range(nd):
                for b in range(nd):
                    C.append(c("x=L(ar(%r),%r)\nout=xp.swapaxes(x,%d,%d)" % (sh,kind,a,b)))
                    for s1 in (0,-nd):
                        C.append(c("x=L(ar(%r),%r)\nout=xp.moveaxis(x,%d,%d)" % (sh,kind,a+s1,b-nd-s1)))
                    C.append(c("x=L(ar(%r),%r)\nout=xp.rollaxis(x,%d,%d)" % (sh,kind,a,b)))
            if nd >= 2:
                for k in range(-3,5):
                    C.append(c("x=L(ar(%r),%r)\nout=xp.rot90(x,%d)" % (sh,kind,k)))
                C.append(c("x=L(ar(%r),%r)\nout=xp.fliplr(x)" % (sh,kind)))
            if nd >= 1: C.append(c("x=L(ar(%r),%r)\nout=xp.flipud(x)" % (sh,kind)))
    for dt in NUM:
        for kind in LAYOUTS:
            for e in ["x.reshape((4,3))","x.T.reshape((2,6))","x.T.ravel()","xp.flip(x).reshape((-1,))","x[::-1].reshape((12,))","x[:,::2].ravel()","x.T[::2].flatten()"]:
                C.append(c("x=L(ar((3,4),%r),%r)\nout=%s" % (dt,kind,e)))
    # views of views, random programs
    steps = ["x[::-1]","x[1:]","x[...,::2]","x.T","x[...,None]","x[None]","xp.flip(x)","x.reshape((-1,))","xp.expand_dims(x,0)","x[...,::-1]","x[:,0]","x[0]","xp.squeeze(x)","x.reshape((2,-1))","xp.moveaxis(x,0,-1) if x.ndim else x","xp.rot90(x)","x[-2:]","x.reshape((x.size//2,2)) if x.size%2==0 else x","xp.swapaxes(x,0,x.ndim-1)","x[::-2]"]
    N = 40000 if tier == "thorough" else 8000
    for _ in range(N):
        sh = rng.choice([(12,),(4,6),(2,3,4),(2,2,2,2)])
        code = "x=L(ar(%r,%r),%r)" % (sh, rng.choice(["i8","u1","f4","c16"]), rng.choice(LAYOUTS))
        for _ in range(rng.randint(1,6)): code += "\nx=" + rng.choice(steps)
        C.append(c(code + "\nout=x", "exact,nopanic"))
    return C

# ---------------------------------------------------------------- broadcasting
def bcast_cases(tier, rng):
    C = []
    dims = [(),(1,),(3,),(2,),(0,),(1,3),(2,1),(2,3),(3,1),(1,1),(0,1),(1,0),(2,1,3),(1,2,1),(3,2,1),(4,2,3),(2,2,3),(1,1,1,2),(2,3,0)]
    for a in dims:
        for b in dims:
            C.append(c("out=A(ar(%r))+A(ar(%r,'i8',5))" % (a,b), "exact,nopanic"))
            C.append(c("out=A(ar(%r,'f8'))*A(ar(%r,'f4',5))" % (a,b), "exact,nopanic"))
            C.append(c("out=A(ar(%r))<A(ar(%r,'i8',2))" % (a,b), "exact,nopanic"))
            C.append(c("out=xp.maximum(A(ar(%r,'f8')),A(ar(%r,'f8',3)))" % (a,b), "exact,nopanic"))
            C.append(c("out=A(ar(%r))&A(ar(%r,'i8',5))" % (a,b), "exact,nopanic"))
            C.append(c("out=xp.where(A(ar(%r)%%2==0),A(ar(%r)),A(ar(%r,'i8',50)))" % (a,b,b), "exact,nopanic"))
            C.append(c("out=xp.where(A(ar(%r)%%2==0),A(ar((3,))),A(ar(%r,'i8',50)))" % (a,b), "exact,nopanic"))
            C.append(c("out=xp.logical_and(A(ar(%r)),A(ar(%r,'i8',0)))" % (a,b), "exact,nopanic"))
            C.append(c("out=xp.arctan2(A(ar(%r,'f8')),A(ar(%r,'f8',1)))" % (a,b), "close,nopanic"))
            if 0 in a and b != () : pass
            C.append(c("out=xp.broadcast_to(A(ar(%r)),%r)" % (a,b), "exact,nopanic"))
            C.append(c("out=xp.broadcast_shapes(%r,%r)" % (a,b), "exact,nopanic"))
            C.append(c("l=[A(ar(%r)),A(ar(%r,'i8',5))]\nout=list(xp.broadcast_arrays(*l) if which=='np' else xp.broadcast_arrays(l))" % (a,b), "exact,nopanic"))
            for la in ("T","rev","step"):
                for lb in ("T","rev","step"):
                    if a and b: C.append(c("out=L(ar(%r),%r)-L(ar(%r,'i8',5),%r)" % (a,la,b,lb), "exact,nopanic"))
    for dt in NUM:
        for a,b in [((3,1),(1,4)),((4,),(3,4)),((2,1,3),(4,1)),((1,),(5,)),((),(3,)),((3,4),(4,))]:
            for op in ["+","*","==","<="]:
                if dt in CPX and op == "<=": continue
                C.append(c("out=A(ar(%r,%r))%sA(ar(%r,%r,1))" % (a,dt,op,b,dt)))
            for e in ["xp.broadcast_to(A(ar(%r,%r)),(5,)+np.broadcast_shapes(%r,%r))" % (a,dt,a,b),]:
                C.append(c("out="+e)); C.append(c("out=xp.sum(%s,axis=0)" % e, "nodtype,close")); C.append(c("out=(%s).reshape((-1,))" % e)); C.append(c("out=(%s).copy()[...,::-1]" % e)); C.append(c("out=(%s)[1:,...]" % e))
    # several operands and larger sizes (vector paths, remainders)
    for n in (1,7,8,9,15,16,17,31,32,33,63,64,65,100,255,257,1000,1025):
        for dt in ("i4","f4","f8","i8","u1","f2","c16"):
            for e in ["A(ar((%d,),%r))+A(ar((1,),%r,1))" % (n,dt,dt), "A(ar((1,),%r,1))*A(ar((%d,),%r))" % (dt,n,dt), "A(ar((2,%d),%r))-A(ar((%d,),%r))" % (n,dt,n,dt), "A(ar((%d,1),%r))+A(ar((3,),%r))" % (n,dt,dt), "A(ar((%d,),%r))+A(ar((%d,),%r,3))" % (n,dt,n,dt),"A(ar((%d,),%r))==A(ar((1,),%r,3))" % (n,dt,dt)]:
                C.append(c("out="+e))
    for _ in range(30000 if tier=="thorough" else 3000):
        sh = [rng.randint(1,4) for _ in range(rng.randint(1,4))]
        def sub():
            s = [d if rng.random()<.6 else 1 for d in sh]
            s = s[rng.randint(0,len(s)-1) if rng.random()<.5 else 0:]
            if rng.random()<.07: s[rng.randrange(len(s))] += 1
            return tuple(s)
        a,b = sub(),sub()
        k1,k2 = rng.choice(LAYOUTS),rng.choice(LAYOUTS)
        op = rng.choice(["x+y","x*y","x-y","x<y","x==y","xp.maximum(x,y)","xp.minimum(x,y)","xp.where(x>y,x,y)","x|y"])
        C.append(c("x=L(ar(%r),%r)\ny=L(ar(%r,'i8',3),%r)\nout=%s" % (a,k1,b,k2,op), "exact,nopanic"))
    return C

# ---------------------------------------------------------------- promotion
def promo_cases(tier, rng):
    C = []
    for a in NUM:
        for b in NUM:
            C.append(c("out=np.dtype(str(xp.promote_types(%r,%r)))" % (np.dtype(a).name,np.dtype(b).name)))
            C.append(c("out=np.dtype(str(xp.result_type(A(ar((3,),%r)),A(ar((3,),%r)))))" % (a,b)))
            for op in ("+","*","-"):
                if op == "-" and a == b == "?": continue
                C.append(c("out=A(ar((3,),%r))%sA(ar((3,),%r,1))" % (a,op,b)))
            C.append(c("out=xp.concatenate([A(ar((3,),%r)),A(ar((2,),%r,1))])" % (a,b)))
            C.append(c("out=xp.where(A(np.array([True,False,True])),A(ar((3,),%r)),A(ar((3,),%r,1)))" % (a,b)))
            C.append(c("out=A(ar((3,),%r))==A(ar((3,),%r,1))" % (a,b)))
            if a not in CPX and b not in CPX:
                C.append(c("out=xp.maximum(A(ar((3,),%r)),A(ar((3,),%r,1)))" % (a,b)))
            for f in ("vstack","hstack","stack"):
                C.append(c("out=xp.%s([A(ar((3,),%r)),A(ar((3,),%r,1))])" % (f,a,b)))
            C.append(c("out=xp.append(A(ar((3,),%r)),A(ar((3,),%r,1)))" % (a,b)))
            if a in INT+["?"] and b in INT+["?"]:
                for op in "&|^": C.append(c("out=A(ar((3,),%r))%sA(ar((3,),%r,1))" % (a,op,b)))
    return C
