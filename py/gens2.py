"""Bounded stand-ins, part 2: arithmetic, casting, reductions, scans."""
from gens1 import *

def edges(dt):
    """a value set with every boundary of dtype dt, as python source for a numpy array"""
    d = np.dtype(dt)
    if d.kind == "b": return "np.array([0,1,1,0,1],'?')"
    if d.kind in "iu":
        w = d.itemsize * 8
        lo, hi = (0, 2**w-1) if d.kind == "u" else (-2**(w-1), 2**(w-1)-1)
        v = {0,1,2,3,5,7,w-1,w,w+1,hi,hi-1,lo,lo+1,hi//2,hi//2+1,hi//3,10,100}
        if d.kind == "i": v |= {-1,-2,-3,-5,-7,lo//2,-10,-w}
        v = sorted(x for x in v if lo <= x <= hi)
        return "np.array(%r,%r)" % (v, dt)
    f = ["0.0","-0.0","1.0","-1.0","0.5","-0.5","1.5","-1.5","2.5","2.0","-2.0","3.0","0.1","-0.1","7.25","1e-3","100.0","-100.0","inf","-inf","nan",
         repr(float(np.finfo(d if d.kind=='f' else 'f4' if d==np.complex64 else 'f8').max)), repr(float(np.finfo(d if d.kind=='f' else 'f4' if d==np.complex64 else 'f8').tiny)), "%r" % float(np.finfo(d if d.kind=='f' else 'f4' if d==np.complex64 else 'f8').eps), "3e-5", "5e-7"]
    if d.kind == "f": return "np.array([float(s) for s in %r.split()],%r)" % (" ".join(f), dt)
    return "np.array([complex(float(s),float(t)) for s,t in zip(%r.split(),%r.split())],%r)" % (" ".join(["0.0","1.0","-1.0","2.5","0.5","-3.0","0.1"]), " ".join(["1.0","0.0","2.0","-0.5","0.25","-2.0","0.0"]), dt)

SIZES = (1,2,3,4,5,7,8,9,15,16,17,31,32,33,63,64,65,127,128,129,257,1000)

# ---------------------------------------------------------------- integer arithmetic
def intarith_cases(tier, rng):
    C = []
    for dt in INT:
        v = edges(dt)
        for op in ["x+y","x-y","x*y","x//y","x&y","x|y","x^y","x<<y","x>>y","x<y","x<=y","x==y","x!=y","x>y","x>=y",
                   "xp.maximum(x,y)","xp.minimum(x,y)","xp.fmax(x,y)","xp.fmin(x,y)","xp.add(x,y)","xp.subtract(x,y)","xp.multiply(x,y)","xp.floor_divide(x,y)",
                   "xp.bitwise_and(x,y)","xp.bitwise_or(x,y)","xp.bitwise_xor(x,y)","xp.left_shift(x,y)","xp.right_shift(x,y)",
                   "xp.logical_and(x,y)","xp.logical_or(x,y)","xp.logical_xor(x,y)","xp.equal(x,y)","xp.less(x,y)","xp.greater_equal(x,y)"]:
            for k1,k2 in (("C","C"),("step","rev"),("rev","C")):
                C.append(c("v=%s\nx=L(np.repeat(v,len(v)),%r)\ny=L(np.tile(v,len(v)),%r)\nout=%s" % (v,k1,k2,op)))
            C.append(c("v=%s\nx=A(v[:,None])\ny=A(v[None,:])\nout=%s" % (v,op)))
            for n in SIZES:
                C.append(c("v=np.resize(%s,%d)\nw=np.resize(%s[::-1],%d)\nx=A(v)\ny=A(w)\nout=%s" % (v,n,v,n,op)))
        # remainder: C-style sign of the dividend, |x| = |q|*|y| + |r|  (documented deviation from NumPy's floor remainder)
        C.append(c("v=%s\na=np.repeat(v,len(v));b=np.tile(v,len(v))\nr=np.asarray(A(a)%%A(b))\n"
                   "e=np.array([0 if q==0 else (abs(p)%%abs(q))*(-1 if p<0 else 1) for p,q in zip(a.tolist(),b.tolist())],a.dtype)\nok=bool((r==e).all() and r.dtype==a.dtype) or repr((a[r!=e],b[r!=e],r[r!=e]))" % v, "pred"))
        for op in ["-x","~x","xp.abs(x)","xp.negative(x)","xp.square(x)","xp.sign(x)","xp.invert(x)","xp.logical_not(x)","xp.absolute(x)","xp.positive(x)"]:
            for k in ("C","step","rev"): C.append(c("x=L(%s,%r)\nout=%s" % (v,k,op)))
            for n in SIZES: C.append(c("x=A(np.resize(%s,%d))\nout=%s" % (v,n,op)))
        for s in (1,2,3,5,7):
            for op in ["x+%d","x*%d","x-%d","%d+x","%d*x","x//%d","x<%d","x==%d","x>%d"]:
                C.append(c("v=%s\nx=A(v[abs(v.astype('O'))<2**52])\nout=%s" % (v,op%s)))
            for op in ["x<<%d","x>>%d","x&%d","x|%d","x^%d"]:
                
                if dt != "u8": C.append(c("x=A(%s)\nout=%s" % (v,op%s),"nodtype"))
        for ip in ["x+=y","x-=y","x*=y","x&=y","x|=y","x^=y"]:
            C.append(c("v=%s\nx=A(np.repeat(v,len(v)))\ny=A(np.tile(v,len(v)))\n%s\nout=x" % (v,ip)))
        w = np.dtype(dt).itemsize*8
        for e in range(0,6):
            C.append(c("x=A(%s)\nout=x**A(np.array([%d],%r))" % (v,e,dt)))
        C.append(c("v=%s;w=v[v>=0]\nx=A(np.repeat(v,len(w)))\ny=A(np.tile(w,len(v)))\nout=x**y" % v))
        C.append(c("v=%s;w=v[v>=0]\nx=L(np.repeat(v,len(w)),'step')\ny=L(np.tile(w,len(v)),'rev')\nout=xp.power(x,y)" % v))
        if w == 64:
            for e in (2**32-1,2**32,2**32+1,2**33+5,2**40+3,2**62+7):
                C.append(c("x=A(%s)\nout=x**A(np.array([%d],%r))" % (v,e,dt)))
        if w <= 16:   # exhaustive 8-bit pairs, all 16-bit unary
            if w == 8:
                for op in ["x+y","x-y","x*y","x//y","x&y","x|y","x^y","x<y","x<=y","x==y","xp.maximum(x,y)","xp.minimum(x,y)","x>>y","x<<y"]:
                    C.append(c("v=np.arange(256).astype('u1').view(%r)\nx=A(np.repeat(v,256))\ny=A(np.tile(v,256))\nout=%s" % (dt,op)))
            for op in ["-x","~x","xp.abs(x)","xp.square(x)","xp.sign(x)"]:
                C.append(c("x=A(np.arange(2**%d).astype('u%d').view(%r))\nout=%s" % (w,w//8,dt,op)))
        for _ in range(60 if tier=="quick" else 1000):
            s = rng.randrange(2**31); n = rng.choice(SIZES)
            op = rng.choice(["x+y","x-y","x*y","x//y","x&y","x^y","x<y","xp.maximum(x,y)"])
            C.append(c("g=np.random.RandomState(%d)\nf=lambda:np.frombuffer(g.bytes(%d*%d),%r)\nx=A(f());y=A(f())\nout=%s" % (s,n,w//8,dt,op)))
    for a in INT:
        for b in INT:
            if {a,b} & {"u8"} and (np.dtype(a).kind != np.dtype(b).kind): continue
            for op in ["x+y","x-y","x*y","x//y","x<y","x==y","x&y","x^y","xp.maximum(x,y)"]:
                C.append(c("v=%s;w=%s\nx=A(np.repeat(v,len(w)))\ny=A(np.tile(w,len(v)))\nout=%s" % (edges(a),edges(b),op)))
    v = "np.array([0,1],'?')"
    for op in ["x&y","x|y","x^y","~x","x==y","x!=y","x<y","x<=y","x+y","x*y","xp.logical_and(x,y)","xp.logical_or(x,y)","xp.logical_xor(x,y)","xp.logical_not(x)","xp.maximum(x,y)","xp.minimum(x,y)"]:
        for n in SIZES: C.append(c("g=np.random.RandomState(%d)\nx=A(g.rand(%d)<.5);y=A(g.rand(%d)<.5)\nout=%s" % (n,n,n,op)))
    return C

# ---------------------------------------------------------------- float elementwise
def floatarith_cases(tier, rng):
    C = []
    for dt in FLT:
        v = edges(dt)
        B = ["x+y","x-y","x*y","x/y","x<y","x<=y","x==y","x!=y","x>y","x>=y","xp.maximum(x,y)","xp.minimum(x,y)","xp.fmax(x,y)","xp.fmin(x,y)","xp.copysign(x,y)",
             "xp.logical_and(x,y)","xp.logical_or(x,y)","xp.logical_xor(x,y)","xp.equal(x,y)","xp.not_equal(x,y)","xp.add(x,y)","xp.multiply(x,y)","xp.divide(x,y)"]
        nosz = ("xp.maximum","xp.minimum","xp.fmax","xp.fmin")
        for op in B:
            mode = "nosz" if op.startswith(nosz) else "exact"
            for k1,k2 in (("C","C"),("step","rev"),("rev","C")):
                C.append(c("v=%s\nx=L(np.repeat(v,len(v)),%r)\ny=L(np.tile(v,len(v)),%r)\nout=%s" % (v,k1,k2,op),mode))
            for n in SIZES:
                C.append(c("v=np.resize(%s,%d)\nw=np.resize(%s[::-1],%d)\nx=A(v)\ny=A(w)\nout=%s" % (v,n,v,n,op),mode))
        if dt != "f2":
            C.append(c("v=%s\nx=A(np.repeat(v,len(v)))\ny=A(np.tile(v,len(v)))\nout=xp.nextafter(x,y)" % v))
        U = ["-x","xp.abs(x)","xp.negative(x)","xp.square(x)","xp.sign(x)","xp.floor(x)","xp.ceil(x)","xp.trunc(x)","xp.sqrt(x)","xp.isnan(x)","xp.isinf(x)","xp.isfinite(x)","xp.signbit(x)","xp.isneginf(x)","xp.isposinf(x)","xp.logical_not(x)","xp.reciprocal(x)","xp.fix(x)"]
        for op in U:
            for k in ("C","step","rev"): C.append(c("x=L(%s,%r)\nout=%s" % (v,k,op),"nosz"))
            for n in SIZES: C.append(c("x=A(np.resize(%s,%d))\nout=%s" % (v,n,op),"nosz"))
        for op in ["xp.exp(x)","xp.log(x)","xp.sin(x)","xp.cos(x)","xp.tan(x)","xp.arctan(x)","xp.sinh(x)","xp.cosh(x)","xp.tanh(x)","xp.exp2(x)","xp.expm1(x)","xp.log2(x)","xp.log10(x)","xp.log1p(x)","xp.cbrt(x)","xp.arcsin(x)","xp.arccos(x)","xp.arcsinh(x)","xp.arctanh(x)","xp.arccosh(x)"] + (["xp.deg2rad(x)","xp.rad2deg(x)"] if dt=="f8" else []):
            for n in (7,16,33,100): C.append(c("v=np.resize(%s,%d)\nv=v[~(abs(v)>80)]\nx=A(v)\nout=%s" % (v,n,op),"close"))
        for op in ["xp.arctan2(x,y)","xp.hypot(x,y)","xp.logaddexp(x,y)"]:
            C.append(c("v=%s\nv=v[abs(v)<80]\nx=A(np.repeat(v,len(v)))\ny=A(np.tile(v,len(v)))\nout=%s" % (v,op),"close"))
        for ip in ["x+=y","x-=y","x*=y","x/=y"]:
            C.append(c("v=%s\nx=A(np.repeat(v,len(v)))\ny=A(np.tile(v,len(v)))\n%s\nout=x" % (v,ip)))
        for lo,hi in ((-1.0,2.0),(0.0,0.5),(-0.5,7.0)):
            C.append(c("x=A(%s)\nout=xp.clip(x,%r,%r)" % (v,lo,hi),"nosz"))
        C.append(c("x=A(np.arange(65536).astype('u2').view('f2'))\nout=xp.isnan(x)") if dt=="f2" else c("out=0"))
        if dt == "f2":
            for op in ["xp.isnan(x)","xp.isinf(x)","xp.isfinite(x)","xp.signbit(x)","-x","xp.abs(x)","xp.floor(x)","xp.ceil(x)","xp.trunc(x)","xp.sqrt(x)","x.astype('f4')","x.astype('f8')","x==x","x+x","x*x"]:
                C.append(c("x=A(np.arange(65536).astype('u2').view('f2'))\nout=%s" % op,"nosz"))
        for s in ("2","0.5","-3.0","0"):
            for op in ["x+%s","x*%s","x-%s","%s-x","x<%s","x>=%s","x==%s"]:
                C.append(c("x=A(%s)\nout=%s" % (v,op%s)))
        for _ in range(60 if tier=="quick" else 1500):
            s = rng.randrange(2**31); n = rng.choice(SIZES)
            op = rng.choice(["x+y","x-y","x*y","x/y","x<y","xp.maximum(x,y)","xp.minimum(x,y)","xp.fmin(x,y)","x==y","x>=y"])
            C.append(c("g=np.random.RandomState(%d)\nf=lambda:np.frombuffer(g.bytes(%d*%d),%r)\nx=A(f());y=A(f())\nout=%s" % (s,n,np.dtype(dt).itemsize,dt,op),"nosz"))
    for dt in CPX:
        v = edges(dt)
        for op in ["x+y","x-y","x==y","x!=y","x*y","x/y","-x","xp.conj(x)","xp.real(x)","xp.imag(x)","xp.add(x,y)","xp.square(x)","x<y","x<=y","x>y","x>=y","xp.less(x,y)"]:
            C.append(c("v=%s\nv=v[v!=0]\nx=A(np.repeat(v,len(v)))\ny=A(np.tile(v,len(v)))\nout=%s" % (v,op),"close" if op in ("x*y","x/y","xp.square(x)") else "nosz"))
            for k in ("step","rev","T"):
                C.append(c("v=%s\nv=v[v!=0]\nx=L(np.repeat(v,len(v)),%r)\ny=L(np.tile(v,len(v)),%r)\nout=%s" % (v,k,k,op),"close" if op in ("x*y","x/y","xp.square(x)") else "nosz"))
        for d_ in (0,1,2):
            for k in ("C","step","rev"): C.append(c("v=(np.arange(12)*1.3702+1j*(np.arange(12)*.7101-3)).astype(%r)\nx=L(v,%r)\nout=xp.round(x,%d)" % (dt,k,d_),"close"))
    # Python scalars through the same functions: the same answer as the array form
    for f in ["sqrt","exp","log","sin","cos","tan","floor","ceil","arcsin","arccos","arctan","log10","log2","sinh","cosh","tanh","sign","isnan","isinf","isfinite","isneginf","isposinf","abs","square","positive","negative","reciprocal","exp2","expm1","log1p","cbrt","trunc","rint","arcsinh","arccosh","arctanh","signbit","deg2rad","rad2deg"]:
        for v in ["0.0","-0.0","1.0","-1.0","0.5","-2.5","3.7","-0.3","1e-5","40.25","float('inf')","float('-inf')","float('nan')","1e300"]:
            if f == "rint" and v == "0.5" or f == "rint" and v == "-2.5" or f in ("sin","cos","tan") and v == "1e300": continue
            C.append(c("out=float(xp.%s(%s))+0.0" % (f, v), "nodtype,close"))
    return C

# ---------------------------------------------------------------- casting and element store
def cast_cases(tier, rng):
    C = []
    def fit(a, b):
        """keep values of a that convert to b with a defined result"""
        B = np.dtype(b)
        if np.dtype(a).kind in "fc" and B.kind in "iu":
            i = np.iinfo(B); lo, hi = float(i.min), float(2.0**(B.itemsize*8-(B.kind=='i')))
            return "v=v[(v.real>%r-1)&(v.real<%r)&((v.real>=%r)|(v.real>-1))&np.isfinite(v.real)]" % (lo, hi, lo)
        return ""
    for a in NUM:
        for b in NUM:
            for k in ("C","step","rev","off"):
                C.append(c("v=%s\n%s\nx=L(v,%r)\nout=x.astype(%r)" % (edges(a),fit(a,b),k,np.dtype(b).name),"nosz"))
            C.append(c("v=np.resize(%s,(6,4))\n%s\nv=np.resize(v,(6,4)) if v.size else v\nx=L(v,'T')\nout=x.astype(%r)" % (edges(a),"v=v.ravel();"+fit(a,b),np.dtype(b).name),"nosz"))
            # converting store into an array
            C.append(c("v=%s\n%s\nx=A(np.zeros(len(v),%r))\nx[:]=A(v)\nout=x" % (edges(a),fit(a,b),b),"nosz"))
            C.append(c("v=%s\n%s\nx=A(np.zeros((2,len(v)*2),%r))\nx[1,::-2]=A(v)\nout=x" % (edges(a),fit(a,b),b),"nosz"))
            for n in SIZES[::3]:
                C.append(c("v=np.resize(%s,%d)\n%s\nout=A(v).astype(%r)" % (edges(a),n,fit(a,b),np.dtype(b).name),"nosz"))
        # full round trip through Python objects and numpy
        C.append(c("v=%s\nout=[A(v)[i] for i in range(len(v))]" % edges(a),"nodtype"))
        C.append(c("v=%s\nout=np.asarray(A(v))" % edges(a)))
        if a not in CPX and a != "u8": C.append(c("v=%s\nout=A(v).tolist()" % edges(a),"nodtype"))
        C.append(c("v=%s\nx=A(np.zeros(len(v),%r))\nfor i in range(len(v)): x[i]=v[i].item()\nout=x" % (edges(a),a)))
        C.append(c("v=%s\nx=A(np.zeros((len(v),2),%r))\nfor i in range(len(v)): x[i,-1]=v[i].item()\nout=x" % (edges(a),a)))
        C.append(c("v=%s\nx=A(np.zeros(2*len(v),%r))[::-2]\nfor i in range(len(v)): x[i]=v[i].item()\nout=x" % (edges(a),a)))
        for k in LAYOUTS:
            C.append(c("x=L(np.resize(%s,(3,4)),%r)\nout=x.copy()" % (edges(a),k)))
            C.append(c("x=L(np.resize(%s,(3,4)),%r)\nout=np.frombuffer(x.tobytes(),x.copy().reshape((-1,)).dtype.name if which=='np' else %r)" % (edges(a),k,a)))
    for a,b in (("i1","u1"),("u2","i2"),("i2","f4"),("u1","f2"),("i1","f2"),("u2","f8"),("i2","i1"),("u2","u1"),("i2","u8"),("u2","?"),("f2","f8"),("f2","f4")):
        w = np.dtype(a).itemsize
        C.append(c("x=A(np.arange(2**%d).astype('u%d').view(%r))\nout=x.astype(%r)" % (8*w,w,a,np.dtype(b).name),"nosz"))
    # importing numpy arrays: dtype override, byte order, alignment, strides
    for a in NUM:
        w = np.dtype(a).itemsize
        srcs = ["w=v", "w=v[::-2]", "w=v.astype(v.dtype.newbyteorder('>'))", "w=v.astype(v.dtype.newbyteorder('>'))[::-1]",
                "w=np.zeros(v.nbytes+1,'u1')[1:].view(v.dtype); w[:]=v",
                "w=np.zeros(len(v),[('p','i1'),('q',v.dtype)])['q']; w[:]=v",
                "w=np.resize(v,(3,len(v))).T", "w=np.broadcast_to(v,(2,len(v)))", "w=np.asfortranarray(np.resize(v,(3,2,2)))[:,::-1,1]"]
        for src in srcs:
            C.append(c("v=%s\n%s\nout=np.asarray(A(w)).astype(%r)" % (edges(a),src,a)))
            C.append(c("v=%s\n%s\nout=xp.array(w).astype(%r)" % (edges(a),src,np.dtype(a).name)))
            for b in NUM:
                if a == b and w == 1: continue
                C.append(c("v=%s\n%s\n%s\nout=xp.asarray(w,dtype=%r)" % (edges(a),fit(a,b),src,np.dtype(b).name),"nosz"))
    for s_ in ("'<U3'","'>U3'","'S5'"):
        C.append(c("v=np.array([['a','bcd'],['','xy']],%s)\nout=np.asarray(A(v)).tolist()" % s_))
    for u in ("D","s","ns"):
        for o in "<>":
            C.append(c("v=np.array(['2001-02-03','1969-12-31','NaT'],'%sM8[%s]')\nout=np.asarray(A(v)).astype('M8[%s]')" % (o,u,u)))
            C.append(c("v=np.array([5,-7,0],'%sm8[%s]')\nout=np.asarray(A(v)).astype('m8[%s]')" % (o,u,u)))
    # nested lists: the dtype holds every element, ragged lists are refused
    for l in ("[1,2.5]","[True,2]","[True,2,3.5]","[2.5,True,3]","[0,True]","[[1,2],[2.5,3]]","[[True],[2]]","[[[True,False]],[[False,2]]]",
              "[2**62+1,True]","[False,-2**63]","[[2**60+1],[True]]","[[],[]]","[True,False]","[-1,0.5]","[1e300,1]","[0,float('nan')]","[float('inf'),-3]"):
        C.append(c("out=xp.array(%s)" % l)); C.append(c("out=xp.asarray(%s)" % l))
    for l in ("[['a'],['abc']]","['','abc','ab']","[['ab','c'],['d','efgh']]","[b'a',b'abc']","[[b'xyz'],[b'a']]"):
        C.append(c("out=np.asarray(xp.array(%s)).tolist()" % l))
    for l in ("[[1,2],[3]]","[[1],[2,3]]","[1,[2]]","[[1],2]","[[[1,2]],[[3]]]","[[1,2],3,4]","[['a'],['b','c']]","[[1,2],[[3],[4]]]"):
        C.append(c("out=xp.array(%s)" % l))
    for _ in range(400 if tier=="quick" else 6000):
        a,b = rng.choice(INT+FLT),rng.choice(INT+FLT); s = rng.randrange(2**31); n = rng.choice(SIZES)
        if np.dtype(a).kind=="f" and np.dtype(b).kind in "iu": continue
        C.append(c("g=np.random.RandomState(%d)\nx=np.frombuffer(g.bytes(%d*%d),%r)\nout=A(x).astype(%r)" % (s,n,np.dtype(a).itemsize,a,np.dtype(b).name),"nosz"))
    return C

# ---------------------------------------------------------------- reductions
def reduce_cases(tier, rng):
    C = []
    shapes = [(1,),(5,),(3,4),(4,3),(2,3,4),(1,4),(4,1),(2,2,2,2),(9,2),(2,17)]
    R = ["sum","prod","max","min","argmax","argmin","all","any","count_nonzero"]
    for dt in INT+["?"]:
        for sh in shapes:
            for kind in LAYOUTS:
                for r in R:
                    nm = "nodtype"
                    if dt == "?" and r in ("argmax","argmin"): pass
                    base = "x=L(((ar(%r)*37+11)%%23).astype(%r),%r)\n" % (sh,dt,kind)
                    C.append(c(base+"out=xp.%s(x)" % r, nm))
                    for ax in range(-len(sh),len(sh)):
                        if r != "count_nonzero": C.append(c(base+"out=xp.%s(x,axis=%d)" % (r,ax), "exact"))
                for m in ("sum","prod","max","min","argmax","argmin","all","any"):
                    C.append(c(base+"out=x.%s()" % m, nm)); C.append(c(base+"out=x.%s(axis=0)" % m))
        v = edges(dt)
        for r in ("sum","prod","max","min","argmax","argmin"):
            for k in ("C","step","rev"):
                C.append(c("x=L(np.resize(%s,(7,5)),%r)\nout=xp.%s(x,axis=0)" % (v,k,r)))
                C.append(c("x=L(np.resize(%s,(7,5)),%r)\nout=xp.%s(x,axis=1)" % (v,k,r)))
        for n in SIZES:
            for r in R:
                C.append(c("x=A(((np.arange(%d)*37+11)%%23).astype(%r))\nout=xp.%s(x)" % (n,dt,r),"nodtype"))
                if r == "count_nonzero": continue
                C.append(c("x=A(((np.arange(%d*3)*37+11)%%23).astype(%r).reshape((%d,3)))\nout=xp.%s(x,axis=0)" % (n,dt,n,r),"nodtype"))
                C.append(c("x=A(((np.arange(%d*3)*37+11)%%23).astype(%r).reshape((3,%d)))\nout=xp.%s(x,axis=1)" % (n,dt,n,r),"nodtype"))
                C.append(c("x=L(((np.arange(%d*3)*37+11)%%23).astype(%r).reshape((3,%d)),'T')\nout=xp.%s(x,axis=1)" % (n,dt,n,r),"nodtype"))
        # position of each extreme value
        for n in (1,4,8,9,16,17,33,64,70):
            for p in sorted({0,1,n//2,n-2,n-1}):
                if not 0 <= p < n: continue
                for r,val in (("max",9),("argmax",9),("min",0),("argmin",0),("any",0),("all",0)):
                    C.append(c("v=np.full(%d,5).astype(%r);v[%d]=%d\nout=xp.%s(A(v))" % (n,dt,p,val,r),"nodtype"))
                    C.append(c("v=np.full(%d,5).astype(%r);v[%d]=%d\nout=xp.%s(L(v,'step'))" % (n,dt,p,val,r),"nodtype"))
                    C.append(c("v=np.zeros(%d,%r);v[%d]=1\nout=xp.%s(A(v))" % (n,dt,p,r),"nodtype"))
                    C.append(c("v=np.full((%d,2),5).astype(%r);v[%d,1]=%d\nout=xp.%s(A(v),axis=0)" % (n,dt,p,val,r),"nodtype"))
                    C.append(c("v=np.full((2,%d),5).astype(%r);v[1,%d]=%d\nout=xp.%s(A(v),axis=1)" % (n,dt,p,val,r),"nodtype"))
    for dt in FLT:
        v = edges(dt)
        for sh in shapes:
            for kind in LAYOUTS:
                base = "x=L(((ar(%r)*37+11)%%23-9.5).astype(%r),%r)\n" % (sh,dt,kind)
                for r in ["max","min","argmax","argmin","all","any","count_nonzero"]:
                    C.append(c(base+"out=xp.%s(x)" % r,"nodtype"))
                    if r == "count_nonzero": continue
                    for ax in range(-len(sh),len(sh)): C.append(c(base+"out=xp.%s(x,axis=%d)" % (r,ax),"nodtype"))
                for r in ["sum","mean","var","std","median","nansum","nanmean"]+(["prod"] if dt=="f8" else []):
                    C.append(c(base+"out=xp.%s(x)" % r,"nodtype,close"))
                    for ax in range(-len(sh),len(sh)): C.append(c(base+"out=xp.%s(x,axis=%d)" % (r,ax),"nodtype,close"))
        for n in sorted(set(SIZES)|set(range(1,20))):
            for e in ("xp.linalg.norm(x)","xp.linalg.norm(L(x0,'step'))","xp.linalg.norm(L(x0,'rev'))"): C.append(c("x0=((np.arange(%d)*37+11)%%23-9).astype(%r);x=A(x0)\nout=%s" % (n,dt,e),"nodtype,close"))
            if n < 60: C.append(c("x=A(((np.arange(%d*3)*37+11)%%23-9).astype(%r).reshape((3,%d)))\nout=xp.linalg.norm(x)" % (n,dt,n),"nodtype,close"))
        for n in SIZES:
            for r in ["max","min","argmax","argmin","sum","mean"]:
                C.append(c("x=A(((np.arange(%d)*37+11)%%23-9).astype(%r))\nout=xp.%s(x)" % (n,dt,r),"nodtype,close"))
            for p in sorted({0,n//2,n-1}):
                for r in ("max","min","sum","nanmax","nanmin","nansum"):
                    C.append(c("v=((np.arange(%d)*37+11)%%23-9).astype(%r);v[%d]=np.nan\nif %r[:3]=='nan' and len(v)==1: v[0]=3\nout=xp.%s(A(v))" % (n,dt,p,r,r),"nodtype,close"))
                    C.append(c("v=((np.arange(%d*2)*37+11)%%23-9).astype(%r).reshape((%d,2));v[%d,1]=np.nan\nif %r[:3]=='nan' and len(v)==1: v[0]=3\nout=xp.%s(A(v),axis=0)" % (n,dt,n,p,r,r),"nodtype,close"))
                    C.append(c("v=((np.arange(%d*2)*37+11)%%23-9).astype(%r).reshape((2,%d));v[1,%d]=np.nan\nif %r[:3]=='nan' and v.shape[1]==1: v[1]=3\nout=xp.%s(A(v),axis=1)" % (n,dt,n,p,r,r),"nodtype,close"))
                for r in ("max","argmax"):
                    C.append(c("v=np.full(%d,-5).astype(%r);v[%d]=-1\nout=xp.%s(A(v))" % (n,dt,p,r),"nodtype"))
    # moments, skewness and excess kurtosis by their definitions (methods without a NumPy counterpart)
    MOM = ("def mo(v,k,ax): return ((v-v.mean(axis=ax,keepdims=True))**k).mean(axis=ax)\n"
           "def sk(v,ax): return mo(v,3,ax)/mo(v,2,ax)**1.5\n"
           "def ku(v,ax): return mo(v,4,ax)/mo(v,2,ax)**2-3\n")
    for v in ("np.array([-1.,1.]*4)","np.array([-1.,1.,1.,1.,-1.,-1.,1.,-1.,1.,1.])","np.array([1.,2.,2.,3.,3.,3.,10.])","(np.arange(17)*37+11)%23-9.5","np.array([0.]*9+[-3.,3.])*2","np.array([-3.,0.,0.,1.])/4"):
        for k in ("C","step","rev"):
            for m,e in [("moment(%d)" % q,"mo(v,%d,None)" % q) for q in (1,2,3,4,5)]+[("skew()","sk(v,None)"),("kurtosis()","ku(v,None)")]:
                C.append(c(MOM+"v=%s\nx=L(v,%r)\nout=float(%s if which=='np' else x.%s)" % (v,k,e,m),"nodtype,close"))
    for sh in ((3,5),(5,3),(9,4),(2,7)):
        for k in ("C","T","rev","step"):
            for ax in (0,1,-1):
                for m,e in [("moment(%d,axis=%d)" % (q,ax),"mo(v,%d,%d)" % (q,ax)) for q in (1,2,3,4)]+[("skew(axis=%d)" % ax,"sk(v,%d)" % ax),("kurtosis(axis=%d)" % ax,"ku(v,%d)" % ax)]:
                    C.append(c(MOM+"v=((ar(%r)*37+11)%%23-9.5)**2/8+ar(%r)\nx=L(v,%r)\nout=%s if which=='np' else x.%s" % (sh,sh,k,e,m),"nodtype,close"))
    for dt in CPX:
        for sh in shapes[:6]:
            for kind in LAYOUTS:
                base = "x=L((ar(%r)*37%%11-3+1j*(ar(%r)%%5)).astype(%r),%r)\n" % (sh,sh,dt,kind)
                for r in ["sum","prod","mean","all","any"]:
                    for ax in range(len(sh)): C.append(c(base+"out=xp.%s(x,axis=%d)" % (r,ax),"nodtype,close"))
                for r in ["sum","prod","mean","max","min","argmax","argmin","var","std"]:
                    C.append(c(base+"out=xp.%s(x)" % r,"nodtype,close"))
                    C.append(c(base+"out=x.%s()" % r,"nodtype,close"))
                    if r in ("var","std","max","min","argmax","argmin"):
                        for ax in range(len(sh)): C.append(c(base+"out=xp.%s(x,axis=%d)" % (r,ax),"nodtype,close"))
    # kept dimensions, several axes at once, NaN at every position, NaN-skipping forms of integers, times
    for dt in INT+["?"]+FLT+CPX:
        for kind in ("C","T","step","revall"):
            for sh in ((3,4),(2,3,4)):
                base = "x=L(((ar(%r)*37+11)%%23*4).astype(%r),%r)\n" % (sh,dt,kind)
                rs = ["sum","prod","max","min","mean","all","any","var","std"]
                for r in rs:
                    if dt == "f2" and r in ("prod","var","std"): continue
                    if dt == "?" and r in ("var","std"): continue
                    C.append(c(base+"out=x.%s(keepdims=True)" % r,"dtype,close" if dt not in ("f2","?") else "nodtype,close"))
                    for ax in (0,1,-1): C.append(c(base+"out=x.%s(axis=%d,keepdims=True)" % (r,ax),"nodtype,close"))
                for r in rs+(["median","ptp","nanvar","nanstd","nanmedian","nansum","nanmax"] if dt not in CPX and dt!="?" else []):
                    if dt == "f2" and r in ("prod","var","std","nanvar","nanstd","ptp"): continue
                    if dt == "?" and r in ("var","std"): continue
                    for ax in ((0,1),(1,0),(0,-1))+(((0,2),(2,1),(0,1,2)) if len(sh)==3 else ()):
                        if len(ax)==len(sh) and (dt,r) not in (('f4','nanvar'),('f4','nanstd')): C.append(c(base+"r=xp.%s(x,axis=%r)\nout=np.asarray(r).reshape(-1)[0].item()" % (r,ax),"nodtype,close"))
                        elif len(ax)!=len(sh): C.append(c(base+"out=xp.%s(x,axis=%r)" % (r,ax),"nodtype,close"))
        if dt in INT:
            v = edges(dt)
            for r in ("nansum","nanprod","nanmax","nanmin"):
                for k in ("C","step"):
                    C.append(c("x=L(np.resize(%s,(7,5)),%r)\nout=xp.%s(x,axis=0)" % (v,k,r))); C.append(c("x=L(np.resize(%s,(7,5)),%r)\nout=xp.%s(x,axis=1)" % (v,k,r)))
                C.append(c("x=A(np.array([100,27,100],%r))\nout=xp.%s(x)" % (dt,r),"nodtype"))
    for dt in FLT+CPX:
        for n in (1,4,9,17,33):
            for p in sorted({0,n//2,n-1}):
                for r in ("argmax","argmin","max","min"):
                    if dt in CPX and r[:3]!="arg": continue
                    for k in ("C","step","rev"):
                        C.append(c("v=((np.arange(%d)*37+11)%%23-9).astype(%r);v[%d]=np.nan\nout=xp.%s(L(v,%r))" % (n,dt,p,r,k),"nodtype"))
                        C.append(c("v=((np.arange(%d*2)*37+11)%%23-9).astype(%r).reshape((%d,2));v[%d,1]=np.nan\nout=xp.%s(L(v,%r),axis=0)" % (n,dt,n,p,r,k),"nodtype"))
                        C.append(c("v=((np.arange(%d*2)*37+11)%%23-9).astype(%r).reshape((2,%d));v[1,%d]=np.nan\nout=xp.%s(L(v,%r),axis=1)" % (n,dt,n,p,r,k),"nodtype"))
                if dt not in CPX:
                    for ax in ("","axis=0"):
                        C.append(c("v=((np.arange(%d)*37+11)%%23-9).astype(%r);v[%d]=np.nan\nout=xp.median(A(v)%s)" % (n,dt,p,","+ax if ax else ""),"nodtype"))
                        C.append(c("v=((np.arange(%d*2)*37+11)%%23-9).astype(%r).reshape((%d,2));v[%d,1]=np.nan\nout=xp.median(A(v)%s)" % (n,dt,n,p,","+ax if ax else ""),"nodtype"))
    for t in ("M8[ns]","M8[s]","m8[us]"):
        v = "np.array([2**60+1,2**60+3,2**60+2,2**60,-5,2**60+3,-5],'i8').view(%r)" % t
        for r in ("argmax","argmin"):
            for k in ("C","step","rev"):
                C.append(c("out=xp.%s(L(%s,%r))" % (r,v,k),"nodtype")); C.append(c("out=xp.%s(L(np.resize(%s,(5,6)),%r),axis=0)" % (r,v,k),"nodtype")); C.append(c("out=xp.%s(L(np.resize(%s,(5,6)),%r),axis=1)" % (r,v,k),"nodtype"))
    # identities on empty input
    for dt in ("i8","u1","f8"):
        for r in ("sum","prod","any"):
            C.append(c("out=xp.%s(A(np.zeros((0,),%r)))" % (r,dt),"nodtype"))
            if r != "any":
                C.append(c("out=xp.%s(A(np.zeros((0,3),%r)),axis=0)" % (r,dt),"nodtype")); C.append(c("out=xp.%s(A(np.zeros((0,3),%r)),axis=1)" % (r,dt),"nodtype"))
    return C

# ---------------------------------------------------------------- cumulative and differences
def scan_cases(tier, rng):
    C = []
    shapes = [(1,),(6,),(3,4),(4,3),(2,3,4),(1,5),(5,1),(0,),(0,3),(3,0)]
    for dt in INT+["f4","f8"]:
        for sh in shapes:
            for kind in LAYOUTS:
                base = "x=L(((ar(%r)*37+11)%%23).astype(%r),%r)\n" % (sh,dt,kind)
                md = "exact" if dt in INT else "close"
                for f in ("cumsum","cumprod"):
                    if dt in ("f4",) and f=="cumprod": continue
                    C.append(c(base+"out=xp.%s(x)" % f,md))
                    for ax in range(-len(sh),len(sh)): C.append(c(base+"out=xp.%s(x,axis=%d)" % (f,ax),md))
                if len(sh):
                    for ax in range(-len(sh),len(sh)):
                        for n in (1,2,3):
                            C.append(c(base+"out=xp.diff(x,n=%d,axis=%d)" % (n,ax),"exact" if dt in INT else "close"))
                if len(sh) and np.prod(sh): C.append(c(base+"out=xp.ediff1d(x)",md))
        v = edges(dt)
        for k in ("C","step","rev"):
            for f in ("cumsum","cumprod","diff"):
                if dt in INT: C.append(c("x=L(%s,%r)\nout=xp.%s(x)" % (v,k,f)))
                if dt in INT: C.append(c("x=L(np.resize(%s,(5,6)),%r)\nout=xp.%s(x,axis=0)" % (v,k,f)))
                if dt in INT: C.append(c("x=L(np.resize(%s,(5,6)),%r)\nout=xp.%s(x,axis=1)" % (v,k,f)))
            if dt in INT: C.append(c("x=L(%s,%r)\nout=xp.ediff1d(x)" % (v,k)))
        for n in SIZES:
            for f in ("cumsum","diff","ediff1d"):
                C.append(c("x=A(((np.arange(%d)*37+11)%%23).astype(%r))\nout=xp.%s(x)" % (n,dt,f),"exact" if dt in INT else "close"))
    for dt in CPX:
        for sh in [(7,),(3,4),(2,3,4)]:
            for kind in LAYOUTS:
                base = "v=((ar(%r)*37+11)%%23)\nv=(v+1j*((v*5)%%7)).astype(%r)\nx=L(v,%r)\n" % (sh,dt,kind)
                C.append(c(base+"out=xp.ediff1d(x)"))
                for ax in range(len(sh)): C.append(c(base+"out=xp.diff(x,axis=%d)" % ax))
    for dt in INT+["f4","f8"]+CPX:
        for bt in ("i1","f8","i8","u2","f4"):
            if np.can_cast(bt,dt,"same_kind"):
                C.append(c("x=A(((np.arange(6)*37+11)%%23).astype(%r))\nb=A(np.array([3,1,2],%r)[::2])\nout=[xp.ediff1d(x,to_begin=b),xp.ediff1d(x,to_end=b),xp.ediff1d(x,to_begin=b,to_end=b)]" % (dt,bt)))
    for u in ("D","s","ns"):
        for n in (1,2):
            C.append(c("x=A(np.array([0,40,7,-3,100],'M8[%s]'))\nout=xp.diff(x,n=%d)" % (u,n))); C.append(c("x=A(np.array([[0,40,7],[-3,100,2]],'M8[%s]'))\nout=xp.diff(x,n=1,axis=0)" % u))
    for f in ("cumsum","cumprod"): C.append(c("x=A(np.array([True,False,True,True]))\nout=xp.%s(x)" % f))
    for dt in ("f4","f8"):
        for sh in [(7,),(3,4),(2,3,4)]:
            for kind in LAYOUTS:
                C.append(c("v=((ar(%r)*37+11)%%23).astype(%r);v.flat[2]=np.nan\nx=L(v,%r)\nout=xp.nancumsum(x)" % (sh,dt,kind),"close"))
    return C
