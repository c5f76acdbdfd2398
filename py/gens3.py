"""Bounded stand-ins, part 3: sorting, joining, selection, products, datetime, random, files, mutation."""
from gens2 import *

# ---------------------------------------------------------------- sorting and searching
def sort_cases(tier, rng):
    C = []
    vals = {}
    for dt in INT + FLT + ["?"]:
        vals[dt] = edges(dt)
    pred = """
def okp(x,r,k,ax):
    x,r=np.asarray(x),np.asarray(r)
    s=np.sort(x,axis=ax)
    if s.shape!=r.shape or s.dtype!=r.dtype: return 'shape/dtype %r %r'%(r.shape,r.dtype)
    m=np.moveaxis(r,ax,-1); t=np.moveaxis(s,ax,-1)
    q=np.sort(m,axis=-1)
    if not np.array_equal(q,t,equal_nan=q.dtype.kind=='f'): return 'not a permutation: %r of %r'%(r,x)
    piv=m[...,k:k+1]
    if not np.array_equal(m[...,k],t[...,k],equal_nan=q.dtype.kind=='f'): return 'kth wrong: %r of %r'%(r,x)
    le=(m[...,:k]<=piv)|(piv!=piv); ge=(m[...,k:]>=piv)|(m[...,k:]!=m[...,k:])
    return bool(le.all() and ge.all()) or 'not partitioned: %r of %r'%(r,x)
"""
    for dt in INT + FLT + ["?"]:
        v = vals[dt]
        fs = ["xp.sort(x)","xp.argsort(x)","xp.unique(x)","xp.lexsort((x,))"]
        for k in ("C","step","rev","off"):
            for p in range(6):
                base = "v=%s\ng=np.random.RandomState(%d)\nv=np.concatenate([v,v[::2]]);v=v[g.permutation(len(v))]\nx=L(v,%r)\n" % (v,p,k)
                for f in fs:
                    if f.startswith("xp.argsort"):
                        C.append(c(base+"out=xp.argsort(x) if which=='rp' else np.argsort(x,kind='stable')"))
                    else: C.append(c(base+"out="+f,"nosz"))
                C.append(c(base+"out=xp.searchsorted(xp.sort(x),x)")); C.append(c(base+"out=xp.searchsorted(xp.sort(x),x,side='right')"))
                for kk in (0,3,7,len(eval(v)) ):
                    C.append(c(base+pred+"ok=okp(x,xp.partition(x,%d),%d,-1)" % (kk,kk),"pred"))
                    C.append(c(base+pred+"i=np.asarray(xp.argpartition(x,%d))\nok=(sorted(i.tolist())==list(range(len(v))) or 'not a permutation') and okp(v,v[i],%d,-1)" % (kk,kk),"pred"))
                C.append(c(base+"u=xp.unique_counts(x)\nout=(u.values,u.counts)","nosz"))
                C.append(c(base+"v=v[v==v]\nx=L(v,%r)\nu=xp.unique_inverse(x)\nout=(u.values,u.inverse_indices)" % k,"nosz"))
                C.append(c(base+"v=v[v==v]\nx=L(v,%r)\nu=xp.unique_all(x)\nout=(u.values,u.indices,u.inverse_indices,u.counts)" % k,"nosz"))
                for f in ("union1d","intersect1d","setdiff1d","setxor1d"):
                    C.append(c(base+"w=%s\nw=w[w==w]\nz=v[v==v]\nout=xp.%s(L(z[:len(z)//2],%r),L(np.concatenate([w[1::2],w[:3]]),%r))" % (v,f,k,k),"nosz"))
                for f in ("isin","in1d"):
                    C.append(c(base+"w=%s\nout=xp.isin(x,A(w[1::3]))" % v))
        for sh in [(3,4),(4,3),(2,3,4),(5,1),(1,5),(2,17)]:
            for k in LAYOUTS:
                base = "x=L(((ar(%r)*37+11)%%13).astype(%r),%r)\n" % (sh,dt,k)
                for ax in range(-len(sh),len(sh)):
                    C.append(c(base+"out=xp.sort(x,axis=%d)" % ax))
                    C.append(c(base+"out=xp.argsort(x,axis=%d) if which=='rp' else np.argsort(x,axis=%d,kind='stable')" % (ax,ax)))
                    for kk in sorted({0,sh[ax]//2,sh[ax]-1}):
                        C.append(c(base+pred+"ok=okp(x,xp.partition(x,%d,axis=%d),%d,%d)" % (kk,ax,kk,ax),"pred"))
                C.append(c(base+"out=xp.unique(x)"))
        for n in (0,)+SIZES:
            base = "x=A(((np.arange(%d)*7919+11)%%101).astype(%r))\n" % (n,dt)
            C.append(c(base+"out=xp.sort(x)")); C.append(c(base+"out=xp.unique(x)"))
            if n: C.append(c(base+"out=xp.argsort(x) if which=='rp' else np.argsort(x,kind='stable')"))
            C.append(c(base+"out=xp.searchsorted(xp.sort(x),x)"))
            C.append(c(base+"out=xp.union1d(x,x[::2])")); C.append(c(base+"out=xp.intersect1d(x,x[::3])")); C.append(c(base+"out=xp.setdiff1d(x,x[::2])")); C.append(c(base+"out=xp.setxor1d(x[::3],x[::2])")); C.append(c(base+"out=xp.isin(x,x[::4])"))
        for a in INT[:4]:
            C.append(c("x=A(%s);y=A(%s)\nout=xp.isin(x,y)" % (v,edges(a)))) if dt in INT[:4] else None
            C.append(c("x=A(%s);y=A(%s)\nout=xp.union1d(x,y)" % (v,edges(a)))) if dt in INT[:4] else None
    for dt in CPX:
        v = edges(dt)
        for p in range(8):
            base = "v=%s\ng=np.random.RandomState(%d)\nv=np.concatenate([v,v.conj(),v[::2]]);v=v[g.permutation(len(v))]\nx=A(v)\n" % (v,p)
            C.append(c(base+"out=xp.sort(x)","nosz")); C.append(c(base+"out=xp.unique(x)","nosz"))
            C.append(c(base+"out=xp.argsort(x) if which=='rp' else np.argsort(x,kind='stable')"))
    # several keys
    for p in range(300 if tier=="quick" else 3000):
        n = rng.choice([1,2,5,9,17,40]); m = rng.randint(1,4)
        dts = [rng.choice(INT+FLT) for _ in range(m)]
        C.append(c("g=np.random.RandomState(%d)\nk=tuple(L(g.randint(0,3,%d).astype(d),l) for d,l in zip(%r,%r))\nout=xp.lexsort(k)" % (p,n,dts,[rng.choice(["C","rev","step"]) for _ in range(m)])) if False else
                 c("g=np.random.RandomState(%d)\n%s\nout=xp.lexsort((%s,))" % (p,"\n".join("k%d=L(g.randint(0,3,%d).astype(%r),%r)" % (i,n,d,rng.choice(["C","rev","step"])) for i,d in enumerate(dts)),",".join("k%d"%i for i in range(m)))))
    # digitize on increasing and decreasing bins
    for right in (False,True):
        for b in ("[0.,1.,2.5,4.]","[4.,2.5,1.,0.]","[1.]","[0.,0.,1.,1.]"):
            for k in ("C","step","rev"):
                C.append(c("x=L(np.array([-1.,0.,.5,1.,2.5,3.,4.,5.]),%r)\nout=xp.digitize(x,L(np.array(%s),%r),right=%s)" % (k,b,k,right)))
        # bins and values of every type, in full precision, NaN and infinities included
        for dt in INT+["f4","f8"]:
            v = edges(dt)
            for d2 in ((dt,) if dt != "u8" else ("u8",)):
                for k in ("C","rev","step"):
                    C.append(c("v=%s\nx=L(v,%r)\nout=xp.digitize(x,L(np.sort(v),%r),right=%s)" % (v,k,k,right)))
                    C.append(c("v=%s\nv=v[v==v];w=np.sort(v)[::-1].copy()\nx=L(v,%r)\nout=xp.digitize(x,L(w,%r),right=%s)" % (v,k,k,right)))
                C.append(c("v=%s\nx=L(np.resize(v,(3,5)),'T')\nout=xp.digitize(x,A(np.unique(v)[1::2]),right=%s)" % (v,right)))
    for s in range(200 if tier=="quick" else 3000):
        dt = rng.choice(["i8","f8","u1","f4","i4","i2"]); n = rng.choice([21,33,64,100,300])
        C.append(c("g=np.random.RandomState(%d)\nv=g.randint(0,%d,%d).astype(%r)\nif v.dtype.kind=='f': v[g.rand(%d)<.3]=np.nan\nx=A(v)\nout=[xp.sort(x),xp.unique(x),xp.argsort(x) if which=='rp' else np.argsort(x,kind='stable')]" % (s,rng.choice([2,5,100]),n,dt,n)))
    return C

# ---------------------------------------------------------------- joining and rearranging
def join_cases(tier, rng):
    C = []
    shapes = [(1,),(5,),(3,4),(2,3,4),(1,4),(4,1),(0,),(0,3),(2,0,3)]
    for dt in NUM:
        for sh in shapes:
            for k in LAYOUTS if dt in ("i8","u1","c16") else ("C","T","rev"):
                base = "x=L(ar(%r,%r),%r)\n" % (sh,dt,k)
                nd = len(sh)
                for ax in range(-nd,nd):
                    if ax>=0: C.append(c(base+"out=xp.concatenate([x,x[::-1],x],axis=%d)" % ax))
                    if ax>=0: C.append(c(base+"out=xp.stack([x,x[::-1]],axis=%d)" % ax))
                    for r in (0,1,2,3):
                        C.append(c(base+"out=xp.repeat(x,%d,axis=%d)" % (r,ax)))
                    if ax >= 0:
                        for s in (-7,-1,0,1,2,9): C.append(c(base+"out=xp.roll(x,%d,axis=%d)" % (s,ax)))
                    if sh[ax]:
                        for i in sorted({0,sh[ax]-1,-1,-sh[ax]}): C.append(c(base+"out=xp.delete(x,%d,axis=%d)" % (i,ax)))
                        if ax>=0:
                            for n in (1,2,3): C.append(c(base+"out=list(xp.array_split(x,%d,axis=%d))" % (n,ax)))
                for r in (0,1,2,3): C.append(c(base+"out=xp.repeat(x,%d)" % r))
                for t in ("1","2","(2,)","(2,3)","(1,2,2)","(0,2)","(3,1)","(1,1)","(1,1,1)","(1,)","()"): C.append(c(base+"out=xp.tile(x,%s)" % t))
                for s in (-7,-1,0,1,2,9): C.append(c(base+"out=xp.roll(x,%d)" % s))
                for p in ("0","1","2"): C.append(c(base+"out=xp.pad(x,%s)" % p))
                if 0 not in sh: C.append(c(base+"out=xp.pad(x,1,mode='edge')"))
                C.append(c(base+"out=xp.append(x,x)"))
                for f in ("hstack","vstack","dstack","column_stack"): C.append(c(base+"out=xp.%s([x,x])" % f))
                if np.prod(sh) and nd==1:
                    for i in (0,1,-1): C.append(c(base+"out=xp.insert(x,%d,3)" % i)); C.append(c(base+"out=xp.delete(x,%d)" % (0 if sh[0]==1 else i)))
                C.append(c(base+"out=xp.resize(x,(7,))") if np.prod(sh) else c("out=0"))
                C.append(c(base+"out=xp.ravel(x)"))
    # different inputs
    for _ in range(20000 if tier=="thorough" else 4000):
        nd = rng.randint(1,3); sh = [rng.randint(0,4) if rng.random()<.15 else rng.randint(1,4) for _ in range(nd)]
        ax = rng.randrange(nd); m = rng.randint(1,4); dt = [rng.choice(NUM) for _ in range(m)] if m<=2 else [rng.choice(NUM)]*m
        parts = []
        for i in range(m):
            s = list(sh); s[ax] = rng.randint(0,4) if rng.random()<.2 else rng.randint(1,4)
            if rng.random()<.03: s[-1] += 1
            parts.append("L(ar(%r,%r,%d),%r)" % (tuple(s),dt[i],10*i,rng.choice(LAYOUTS)))
        C.append(c("%s\nout=xp.concatenate([%s],axis=%d)" % ("\n".join("p%d=%s"%(i,p) for i,p in enumerate(parts)),",".join("p%d"%i for i in range(m)),ax),"exact,nopanic"))
    for n in range(0,9):
        for k in ("C","step","rev"):
            base = "x=L(ar((%d,)),%r)\n" % (n,k)
            for m in range(1,6): C.append(c(base+"out=list(xp.array_split(x,%d))" % m)); C.append(c(base+"out=list(xp.split(x,%d))" % m,"exact,nopanic"))
            for s in range(-n-3,n+4): C.append(c(base+"out=xp.roll(x,%d)" % s))
            for i in range(-n,n+1): C.append(c(base+"out=xp.insert(x,%d,77)" % i,"exact,nopanic"))
            for i in range(-n,n): C.append(c(base+"out=xp.delete(x,%d)" % i,"exact,nopanic"))
            for m in (0,1,2,5): C.append(c(base+"out=xp.tile(x,%d)" % m)); C.append(c(base+"out=xp.repeat(x,%d)" % m))
            if n:
                for m in (1,3,n,n+1,2*n+1,17): C.append(c(base+"out=xp.resize(x,(%d,))" % m))
    for n in SIZES:
        for dt in ("u1","i2","f4","i8","c16"):
            base = "x=A(ar((%d,),%r))\n" % (n,dt)
            for f in ("xp.concatenate([x,x,x])","xp.repeat(x,3)","xp.tile(x,3)","xp.roll(x,5)","xp.pad(x,3)","xp.flip(x)","xp.stack([x,x],axis=1)","xp.concatenate([x[::2],x[::-1]])","xp.insert(x,1,5)","xp.delete(x,0)","xp.append(x,x)"):
                C.append(c(base+"out="+f))
    return C

# ---------------------------------------------------------------- selection by index or mask
def select_cases(tier, rng):
    C = []
    shapes = [(5,),(3,4),(2,3,4),(1,4),(4,1)]
    for dt in NUM:
        for sh in shapes:
            for k in LAYOUTS if dt in ("i8","u1","c16") else ("C","T","rev"):
                base = "v=ar(%r,%r)\nx=L(v,%r)\n" % (sh,dt,k)
                nd = len(sh); n = int(np.prod(sh))
                for ix in ([0],[n-1,0,0],[-1,-n],list(range(n)),[0,n//2,-1,1%n],[]):
                    C.append(c(base+"out=xp.take(x,A(np.array(%r,'i8')))" % ix))
                for ax in range(-nd,nd):
                    d = sh[ax]
                    for ix in ([0],[d-1,0],[-1,-d,0],list(range(d))*2):
                        if ax>=0: C.append(c(base+"out=xp.take(x,A(np.array(%r,'i8')),axis=%d)" % (ix,ax)))
                    if ax>=0: C.append(c(base+"i=(ar(%r)*7+3)%%%d\nout=xp.take_along_axis(x,A(i),%d)" % (sh,d,ax)))
                d = sh[0]
                for ix in ([0],[d-1,0,0],[-1,-d],list(range(d))*2): C.append(c(base+"out=x[A(np.array(%r,'i8'))]" % ix))
                C.append(c(base+"out=x[A(np.array([[0,%d],[-1,0]],'i8'))]" % (d-1)))
                for m in range(6):
                    mk_ = "m=np.random.RandomState(%d).rand(*%r)<%s\n" % (m,sh,[0,.3,.5,.7,1.1,.1][m])
                    C.append(c(base+mk_+"out=x[L(m,%r)]" % k))
                    C.append(c(base+mk_+"out=xp.where(L(m,%r),x,A(v.ravel()[::-1].reshape(v.shape).copy()))" % k))
                    C.append(c(base+mk_+"out=xp.extract(L(m,%r),x)" % k))
                    C.append(c(base+mk_+"out=list(xp.nonzero(L(m.astype(%r),%r)))" % (dt,k)))
                    C.append(c(base+mk_+"out=xp.argwhere(L(m.astype(%r),%r))" % (dt,k)))
                    C.append(c(base+mk_+"out=xp.flatnonzero(L(m.astype(%r),%r))" % (dt,k)))
                    C.append(c(base+mk_+"out=xp.count_nonzero(L(m.astype(%r),%r))" % (dt,k)))
                    if dt not in CPX:
                        C.append(c(base+mk_+"y=x.copy()\nxp.putmask(y,A(m),A(v[::-1].copy()))\nout=y"))
                        C.append(c(base+mk_+"y=x.copy()\nif m.any(): xp.place(y,A(m),A(v.ravel()[:3].copy()))\nout=y"))
                    for ct in ("?","f8","i2","c16"):
                        C.append(c(base+mk_+"m=(m*256).astype(%r)\nmb=m!=0\nout=xp.where(L(m,%r),x,A(v.ravel()[::-1].reshape(v.shape).copy()))" % (ct,k)))
                        C.append(c(base+mk_+"m=(m*256).astype(%r)\nout=xp.extract(L(m,%r),x)" % (ct,k)))
                        if nd==1: C.append(c(base+mk_+"m=(m*256).astype(%r)\nout=xp.compress(L(m,%r),x)" % (ct,k)))
                        if dt!="?": C.append(c(base+mk_+"m=(m*256).astype(%r)\nq=A if xp is not np else (lambda t:np.asarray(t)!=0)\nout=xp.select([q(m),q(m[...,:1])],[x,x*x])" % (ct,),"nodtype"))
                if dt not in CPX:
                    for ix in ([0],[n-1,0],[-1,1%n,-n]):
                        C.append(c(base+"y=x.copy()\nxp.put(y,A(np.array(%r)),A(v.ravel()[::-1][:len(%r)].copy()))\nout=y" % (ix,ix)))
                if nd == 1: C.append(c(base+"out=xp.compress(A(np.array([True,False,True,True,False])[:%d]),x)" % sh[0]))
                if nd <= 2:
                    for o in range(-3,4):
                        if o==0: C.append(c(base+"out=xp.diag(x)"))
                        if nd==2 and o==0: C.append(c(base+"out=xp.diagonal(x)"))
                        if nd==2: C.append(c(base+"out=xp.tril(x,%d)" % o)); C.append(c(base+"out=xp.triu(x,%d)" % o))
                # out-of-range requests must be refused, not read
                for bad in (n,-n-1,n+5): C.append(c(base+"out=xp.take(x,A(np.array([0,%d])))" % bad,"exact,nopanic"))
                for bad in (d,-d-1): C.append(c(base+"out=x[A(np.array([0,%d]))]" % bad,"exact,nopanic"))
                C.append(c(base+"out=xp.choose(A((ar(%r)%%2)),[x,A(v[::-1].copy())])" % (sh,)) if dt not in CPX else c("out=0"))
    for a in NUM:
        for b in NUM:
            C.append(c("m=np.array([True,False,False]);n_=np.array([[True],[False]])\nout=xp.select([A(m),A(n_)],[A(ar((2,3),%r,1)),A(ar((3,),%r))])" % (a,b),"nodtype"))
    for it in ("i1","i2","i4","u1","u2","u4","u8","i8"):
        C.append(c("out=xp.take(A(ar((5,),'f4')),A(np.array([4,0,2],%r)))" % it)); C.append(c("out=A(ar((5,3)))[A(np.array([4,0,2],%r))]" % it))
    # ravel / unravel are inverse
    C += [c("out=list(xp.unravel_index(0,()))"),c("out=list(xp.unravel_index(0,(),order='F'))"),c("out=xp.unravel_index(1,())")]
    for dims in [(1,),(7,),(3,4),(2,3,4),(4,1,3),(2,2,2,2),(5,1)]:
        n = int(np.prod(dims))
        C.append(c("out=list(xp.unravel_index(A(np.arange(%d)),%r))" % (n,dims)))
        C.append(c("i=[np.asarray(t) for t in xp.unravel_index(A(np.arange(%d)),%r)]\nf=np.zeros(%d,'i8')\nfor t,d in zip(i,%r): f=f*d+t\nok=bool((f==np.arange(%d)).all()) or repr(i)" % (n,dims,n,dims,n),"pred"))
    for n in SIZES:
        for dt in ("u1","f4","i8","c16","f2"):
            base = "v=ar((%d,),%r)\nx=A(v)\ni=(np.arange(%d)*7919+3)%%%d\nm=i%%3==0\n" % (n,dt,n,n)
            for e in ("xp.take(x,A(i))","x[A(i)]","x[A(m)]","xp.where(A(m),x,A(v[::-1].copy()))"): C.append(c(base+"out="+e))
    for nm in ("indices","tri","triu_indices","tril_indices","diag_indices","ix_"):
        for a in ("(3,)","(4,)","(5,)") if nm in ("triu_indices","tril_indices","diag_indices","tri") else ():
            C.append(c("out=xp.%s%s" % (nm,a),"nodtype"))
    return C

# ---------------------------------------------------------------- products
def product_cases(tier, rng):
    C = []
    dts = INT + ["f4","f8","c16","c8"]
    def I(sh,dt,s=0): return "((ar(%r)*(7+%d)+%d)%%5-%d).astype(%r)" % (sh,s,s,0 if np.dtype(dt).kind=="u" else 2,dt)
    for dt in dts:
        for a,b in [((3,),(3,)),((2,3),(3,)),((3,),(3,2)),((2,3),(3,4)),((1,3),(3,1)),((4,2,3),(3,2)),((4,2,3),(4,3,2)),((2,3),(4,3,2)),((2,1,2,3),(3,3,2)),((3,0),(0,2)),((5,5),(5,5)),((17,9),(9,33)),((3,),(4,3,2)),((4,2,3),(3,))]:
            for k1,k2 in (("C","C"),("T","C"),("C","T"),("rev","step"),("rev0","revall"),("off","T")):
                C.append(c("x=L(%s,%r)\ny=L(%s,%r)\nout=xp.matmul(x,y)" % (I(a,dt),k1,I(b,dt,1),k2),"nosz,nodtype" if dt not in INT else "exact"))
                C.append(c("x=L(%s,%r)\ny=L(%s,%r)\nout=x@y" % (I(a,dt),k1,I(b,dt,1),k2),"nosz,nodtype" if dt not in INT else "exact"))
                if len(a)<=2 and len(b)<=2: C.append(c("x=L(%s,%r)\ny=L(%s,%r)\nout=xp.dot(x,y)" % (I(a,dt),k1,I(b,dt,1),k2),"nosz,nodtype"))
        for k1,k2 in (("C","C"),("step","rev")):
            C.append(c("x=L(%s,%r)\ny=L(%s,%r)\nout=xp.outer(x,y)" % (I((4,),dt),k1,I((3,),dt,1),k2),"nosz,nodtype"))
            C.append(c("x=L(%s,%r)\ny=L(%s,%r)\nout=xp.inner(x,y)" % (I((5,),dt),k1,I((5,),dt,1),k2),"nosz,nodtype"))
        for a,b in [((2,5),(5,)),((5,),(2,5)),((2,5),(3,5)),((2,5),(2,5)),((2,3,5),(4,5)),((4,5),(2,3,5)),((1,5),(3,5)),((2,0),(3,0))]:
            for k1,k2 in (("C","C"),("T","rev"),("step","C")):
                C.append(c("x=L(%s,%r)\ny=L(%s,%r)\nout=xp.inner(x,y)" % (I(a,dt),k1,I(b,dt,1),k2),"nosz,nodtype"))
        for n in SIZES[:18]:
            C.append(c("x=A(%s)\ny=A(%s)\nout=xp.dot(x,y)" % (I((n,),dt),I((n,),dt,1)),"nosz,nodtype"))
            C.append(c("x=A(%s)\ny=A(%s)\nout=xp.matmul(x,y)" % (I((2,n),dt),I((n,3),dt,1)),"nosz,nodtype"))
            C.append(c("x=A(%s)\ny=A(%s)\nout=xp.matmul(x,y)" % (I((n,2),dt),I((2,n),dt,1)),"nosz,nodtype"))
    E1 = ["ij->ji","ij->i","ij->j","ij->","ij->ij","ii->i","ii->","ijk->kji","ijk->ik"]
    E2 = ["ij,jk->ik","ij,jk->ki","ij,kj->ik","ji,jk->ik","ij,ij->ij","ij,ij->","ij,ij->i","i,j->ij","i,i->","i,i->i","i,ij->j","ij,j->i","bij,bjk->bik","bij,jk->bik","bij,bjk->ikb","ijk,kl->ijl","ij,jk","ij,ji->","ij,k->ijk","bij,bkj->bik","ijk,ijk->k","i,j->ji","ij,jk->"]
    D = {"i":3,"j":4,"k":2,"l":5,"b":2}
    for dt in ("i8","i4","f8","f4","i2"):
        for e in E1+E2:
            ins = e.split("->")[0].split(",")
            shs = [tuple(D[ch] for ch in t) if t!="ii" else (3,3) for t in ins]
            for ks in (("C","C"),("T","C"),("C","T"),("rev","step"),("revall","off")):
                code = "\n".join("p%d=L(%s,%r)" % (i,I(s,dt,i),ks[i]) for i,s in enumerate(shs))
                C.append(c(code+"\nout=xp.einsum(%r,%s)" % (e,",".join("p%d"%i for i in range(len(shs)))),"nosz,nodtype"))
        C.append(c("a=A(%s);b=A(%s);d=A(%s)\nout=xp.einsum('ij,jk,kl->il',a,b,d)" % (I((3,4),dt),I((4,2),dt,1),I((2,5),dt,2)),"nosz,nodtype"))
    for _ in range(20000 if tier=="thorough" else 4000):
        n = rng.randint(1,3); L_ = "ijkl"
        ins = ["".join(rng.sample(L_,rng.randint(1,3))) if rng.random()<.7 else "".join(rng.choice(L_) for _ in range(rng.randint(1,3))) for _ in range(n)]
        free = sorted(set("".join(ins))); outp = "".join(rng.sample(free,rng.randint(0,len(free))))
        dims = {ch: rng.randint(1,4) if rng.random()<.95 else 0 for ch in L_}
        dt = rng.choice(["i8","f8","i4"])
        code = "\n".join("p%d=L(%s,%r)" % (i,I(tuple(dims[ch] for ch in t),dt,i),rng.choice(LAYOUTS)) for i,t in enumerate(ins))
        C.append(c(code+"\nout=xp.einsum(%r,%s)" % (",".join(ins)+"->"+outp,",".join("p%d"%i for i in range(n))),"nosz,nodtype"))
    for dt in INT:   # wrap-around products
        C.append(c("v=%s[:9]\nx=A(v.reshape(3,3));y=A(v[::-1].reshape(3,3).copy())\nout=xp.matmul(x,y)" % edges(dt)))
        C.append(c("v=%s[-9:]\nx=A(v.reshape(3,3));y=A(v[::-1].reshape(3,3).copy())\nout=xp.matmul(x,y)" % edges(dt)))
    return C

# ---------------------------------------------------------------- datetime
def date_cases(tier, rng):
    C = []
    U = ['Y','M','W','D','h','m','s','ms','us','ns']
    per = {'Y':366*86400*10**9,'M':31*86400*10**9,'W':7*86400*10**9,'D':86400*10**9,'h':3600*10**9,'m':60*10**9,'s':10**9,'ms':10**6,'us':10**3,'ns':1}
    NAT = -2**63
    lim = 280*365*86400*10**9
    def vals(u, w):
        q = per[u]; L0 = lim // q if w in ('ns',) else min(lim*1000 // q, 3*10**6*366*86400*10**9 // q, 2**62)
        if w in ('us','ms','s','m','h') and u in ('Y','M','W','D'): L0 = min(L0, lim*10//q)
        s = {0,1,-1,2,-2,7,-7,11,12,13,-11,-12,-13,23,24,25,-24,-25,59,60,61,-59,-60,-61,364,365,366,-365,-366,-364,999,1000,1001,-999,-1000,-1001,3599,3600,-3600,-3601,86399,86400,86401,-86399,-86400,-86401,10**6,-10**6-1,10**9,-10**9-1,L0,-L0,L0-1,-L0+1}
        s |= {10957,11016,11017,-719528,-25567,-141428,47540,58,59,60,789,790}
        for _ in range(40 if tier=="quick" else 400): s.add(rng.randint(-L0,L0))
        return sorted(v for v in s if -L0 <= v <= L0) + [NAT]
    nm = lambda u: "datetime64[%s]" % u
    for u in U:
        for w in U:
            vs = vals(u,w)
            for k in ("C","rev","step"):
                C.append(c("v=np.array(%r,'i8').view('M8[%s]')\nx=L(v,%r)\nout=np.asarray(x.astype(%r))" % (vs,u,k,nm(w))))
        vs = [v for v in vals(u,u) if v == NAT or abs(v)*per[u] < 200*10**12*10**9*100]
        small = [v for v in vs if v != NAT and abs(v)*per[u] <= 1969*365*86400*10**9]
        C.append(c("v=np.array(%r,'i8').view('M8[%s]')\nout=[str(s) for s in (np.datetime_as_string(v) if which=='np' else rp.datetime_as_string(A(v)))]" % (small+[NAT],u)))
        C.append(c("v=np.array(%r,'i8').view('M8[%s]')\ns=[str(t) for t in np.datetime_as_string(v)]\nx=rp.array(s,dtype=%r)\ng=np.asarray(x)\nok=bool((g.view('i8')==v.view('i8')).all() and g.dtype==v.dtype) or repr([(a,b) for a,b in zip(s,g.tolist())])[:300]" % (small,u,nm(u)),"pred"))
        C.append(c("v=np.array(%r,'i8').view('M8[%s]')\nout=xp.isnat(A(v))" % (vs,u)))
        C.append(c("v=np.array(%r,'i8').view('M8[%s]')\nout=xp.isnat(L(v,'rev'))" % (vs,u)))
        for w in U:
            if w=='W': continue
            sm = [v for v in small if abs(v)*per[u] < lim]
            C.append(c("v=np.array(%r,'i8').view('M8[%s]')\nout=[str(s) for s in (np.datetime_as_string(v,unit=%r,casting='unsafe') if which=='np' else rp.datetime_as_string(A(v),unit=%r))]" % (sm,u,w,w)))
    # every day of 800 years round trips and is the right calendar day
    for lo in range(-146097,146097,20000):
        C.append(c("v=np.arange(%d,%d).astype('M8[D]')\nout=[str(s) for s in (np.datetime_as_string(v) if which=='np' else rp.datetime_as_string(A(v)))]" % (lo,lo+20000)))
        C.append(c("v=np.arange(%d,%d).astype('M8[D]')\nout=np.asarray(A(v).astype('datetime64[M]'))" % (lo,lo+20000)))
        C.append(c("v=np.arange(%d,%d).astype('M8[D]')\nout=np.asarray(A(v).astype('datetime64[Y]'))" % (lo,lo+20000)))
    C.append(c("v=np.arange(-9600,9600).astype('M8[M]')\nout=np.asarray(A(v).astype('datetime64[D]'))")); C.append(c("v=np.arange(-1900,1900).astype('M8[Y]')\nout=np.asarray(A(v).astype('datetime64[D]'))"))
    # wide calendar range: every year of 120000, every month of 16000 years, days spread over +-200000 years
    C.append(c("v=np.arange(-62000,58000).astype('M8[Y]')\nout=np.asarray(A(v).astype('datetime64[D]'))"))
    for lo in range(-96000-23640,96000-23640,48000):
        C.append(c("v=np.arange(%d,%d).astype('M8[M]')\nout=np.asarray(A(v).astype('datetime64[D]'))" % (lo,lo+48000)))
    for w in ("Y","M","W"):
        for o,st in ((0,1009),(31,1461),(58,146097),(59,36524),(-1,146097),(60,1460)):
            C.append(c("v=np.arange(-73000000,73000000,%d)[:100000]+%d\nv=v.astype('M8[D]')\nout=np.asarray(A(v).astype('datetime64[%s]'))" % (st,o,w)))
    for q in (100,400):   # turns of centuries and eras, on either side
        C.append(c("y=np.arange(-20000//%d*%d,20000,%d)-1970\nd=y.astype('M8[Y]').astype('M8[D]').astype('i8')\nv=(d[:,None]+np.arange(-70,430)).ravel().astype('M8[D]')\nm=np.asarray(A(v).astype('datetime64[M]'))\nout=np.stack([m.astype('i8'),np.asarray(A(v).astype('datetime64[Y]')).astype('i8'),np.asarray(A(m).astype('datetime64[D]')).astype('i8')])" % (q,q,q)))
    # business days
    masks = [None,"1111100","1111110","1010101","0000011","1111111","Mon Wed Sun"]
    for m in masks:
        for hol in ([],["2020-01-01","2019-12-25"],["1969-12-31","1970-01-01","1970-01-02"]):
            cal = "rp.busdaycalendar(%r,%r)" % (m or "1111100",hol); ncal = "np.busdaycalendar(%r,%r)" % (m or "1111100",hol)
            C.append(c("d=[str(t) for t in np.arange('1969-11-20','1970-03-01',dtype='M8[D]')]+[str(t) for t in np.arange('2019-12-15','2020-01-20',dtype='M8[D]')]\nout=np.is_busday(np.array(d,'M8[D]'),busdaycal=%s) if which=='np' else rp.is_busday(d,busdaycal=%s)" % (ncal,cal)))
            C.append(c("d=[t for t in np.arange('1969-11-20','1970-03-01',dtype='M8[D]')]\nv=np.array(d,'M8[D]')\nout=np.is_busday(v,busdaycal=%s) if which=='np' else rp.is_busday(A(v),busdaycal=%s)" % (ncal,cal)))
            C.append(c("b=['1969-12-20']*40\ne=[str(t) for t in np.datetime64('1969-12-20')+np.arange(40)]\nout=np.busday_count(np.array(b,'M8[D]'),np.array(e,'M8[D]'),busdaycal=%s) if which=='np' else rp.busday_count(b,e,busdaycal=%s)" % (ncal,cal),"nodtype"))
            C.append(c("c0=%s\nd=[t for t in np.arange('1969-12-10','1970-01-25',dtype='M8[D]') if np.is_busday(t,busdaycal=c0)]\nL0=[(str(t),o) for t in d for o in (-15,-3,-1,0,1,2,10)]\na=[t for t,o in L0];o=[o for t,o in L0]\nout=np.busday_offset(np.array(a,'M8[D]'),o,busdaycal=c0) if which=='np' else np.asarray(rp.busday_offset(a,o,busdaycal=%s))" % (ncal,cal)))
    return C

# ---------------------------------------------------------------- random
INF = "np.inf"
DIST = [("uniform(2.5,7.25)",2.5,7.25),("uniform(-9.0,-8.5)",-9.0,-8.5),("normal(3.0,2.0)","-"+INF,INF),("standard_normal()","-"+INF,INF),
        ("exponential(2.0)",0,INF),("standard_exponential()",0,INF),("beta(2.0,3.0)",0,1),("beta(.5,.5)",0,1),("gamma(2.0,3.0)",0,INF),("gamma(.5,3.0)",0,INF),
        ("poisson(3.0)",0,INF),("poisson(30.0)",0,INF),("binomial(10,.3)",0,10),("binomial(100,.5)",0,100),("binomial(10,.8)",0,10),("chisquare(3.0)",0,INF),
        ("lognormal(1.0,.5)",0,INF),("laplace(1.0,2.0)","-"+INF,INF),("logistic(1.0,2.0)","-"+INF,INF),("rayleigh(2.0)",0,INF),("weibull(2.0)",0,INF),
        ("geometric(.2)",0,INF),("geometric(.5)",0,INF),("negative_binomial(5,.5)",0,INF),("hypergeometric(10,5,4)",0,4),("zipf(2.0)",1,INF),
        ("triangular(-1.0,1.0,4.0)",-1,4),("vonmises(1.0,2.0)","-3.1415926535897936","3.1415926535897936"),("pareto(3.0)",0,INF),("wald(1.0,2.0)",0,INF),
        ("standard_t(4.0)","-"+INF,INF),("standard_cauchy()","-"+INF,INF),("standard_gamma(2.0)",0,INF)]
def random_cases(tier, rng):
    C = []
    P = lambda code: C.append(c(code,"pred"))
    N = 60 if tier=="quick" else 600
    B = [(0,1),(0,2),(0,3),(0,10),(-5,5),(0,2**31),(0,2**32),(0,2**32+1),(0,2**63-1),(-2**63,2**63-1),(2**62,2**62+3),(-2**62-7,-2**62),(2**63-5,2**63-1),(-1,2**62),(0,3*2**61)]
    for s in range(N):
        for lo,hi in B:
            P("g=rp.random.default_rng(%d)\nx=np.asarray(g.integers(%d,%d,size=(40,3)))\nok=bool(x.shape==(40,3) and x.dtype==np.int64 and (x>=%d).all() and (x<%d).all()) or repr(x)" % (s,lo,hi,lo,hi))
        P("g=rp.random.default_rng(%d)\nx=[g.integers(7) for _ in range(50)]\nok=(set(x)<=set(range(7)) and len(set(x))>3) or repr(x)" % s)
        for e in ["g.random((50,))","g.random(7)","g.uniform(size=20)"]:
            P("g=rp.random.default_rng(%d)\nx=np.asarray(%s)\nok=bool((x>=0).all() and (x<1).all()) or repr(x)" % (s,e))
        P("g=rp.random.default_rng(%d)\nx=np.asarray(g.uniform(-3.0,5.0,size=(4,5)))\nok=bool((x>=-3).all() and (x<5).all() and x.shape==(4,5)) or repr(x)" % s)
        # same seed, same stream; call pattern does not matter for scalars vs arrays
        for e in ["g.random(9)","g.integers(0,100,size=9)","g.normal(size=9)","g.standard_normal(9)","g.exponential(size=9)","g.permutation(9)","g.choice(9,size=5)","g.gamma(2.0,size=5)","g.poisson(3.0,size=5)","g.beta(2.0,3.0,size=5)","g.binomial(10,.3,size=5)"]:
            P("a=rp.random.default_rng(%d);b=rp.random.default_rng(%d)\nf=lambda g:np.asarray(%s)\nx,y=f(a),f(b)\nx2,y2=f(a),f(b)\nok=bool(np.array_equal(x,y) and np.array_equal(x2,y2)) or repr((x,y))" % (s,s,e))
        P("a=rp.random.default_rng(%d);b=rp.random.default_rng(%d)\nx=np.asarray(a.random(20));y=np.array([b.random() for _ in range(20)])\nok=bool(np.array_equal(x,y)) or repr((x,y))" % (s,s))
        P("a=rp.random.default_rng(%d);b=rp.random.default_rng(%d)\nx=np.asarray(a.integers(5,1000,size=20)).tolist();y=[b.integers(5,1000) for _ in range(20)]\nok=x==y or repr((x,y))" % (s,s))
        # every distribution: drawing one at a time or as an array gives the same reproducible stream, inside its support
        for e,lo,hi in DIST:
            f=e[:-1]+("" if e[-2]=="(" else ", ")+"size=12)"
            P("a=rp.random.default_rng(%d);b=rp.random.default_rng(%d);d=rp.random.default_rng(%d)\nx=np.array([a.%s for _ in range(12)]);y=np.asarray(b.%s);z=np.asarray(d.%s)\nok=bool(np.array_equal(x,y) and np.array_equal(y,z) and y.shape==(12,) and (y>=%s).all() and (y<=%s).all()) or repr((x,y))" % (s,s,s,e,f,f,lo,hi))
        for f in ("uniform(2.5,7.25,size=12)","uniform(-3.0,-1.0,size=(3,4))","logistic(1.0,2.0,size=9)","triangular(0.0,1.0,4.0,size=9)","binomial(100,.5,size=9)","poisson(3.0,size=9)"):
            P("b=np.random.PCG64DXSM(%d);t=b.state['state'];g=rp.random.Generator.from_numpy_state(t['state'],t['inc'])\nx=np.asarray(g.%s);y=np.random.Generator(b).%s\nok=bool(x.shape==y.shape and np.allclose(x,y,rtol=1e-14,atol=0)) or repr((x,y))" % (s,f,f))
        P("a=rp.random.default_rng(%d);b=rp.random.default_rng(%d)\nx=np.asarray(a.multinomial(20,[.2,.3,.5],size=6));y=np.asarray(b.multinomial(20,[.2,.3,.5],size=6))\nok=bool(np.array_equal(x,y) and x.shape==(6,3) and (x>=0).all() and (x.sum(1)==20).all()) or repr(x)" % (s,s))
        P("a=rp.random.default_rng(%d);b=rp.random.default_rng(%d)\nx=np.asarray(a.dirichlet([1.,2.,3.],size=6));y=np.asarray(b.dirichlet([1.,2.,3.],size=6))\nok=bool(np.array_equal(x,y) and x.shape==(6,3) and (x>=0).all() and np.allclose(x.sum(1),1)) or repr(x)" % (s,s))
        P("g=rp.random.default_rng(%d)\nv=[3,2**60+1,-7]\nx=[g.choice(v) for _ in range(60)]\nok=set(x)==set(v) or repr(x)" % s)
        # permutation / shuffle / choice keep the multiset
        for n in (0,1,2,3,10,64):
            P("g=rp.random.default_rng(%d)\nx=np.asarray(g.permutation(%d))\nok=sorted(x.tolist())==list(range(%d)) or repr(x)" % (s,n,n))
        for dt in NUM:
            for sh in ((1,),(2,),(9,),(5,3),(4,2,3)):
                if s % 4: continue
                for k in ("C","T","rev","step"):
                    P("v=ar(%r,%r)\nx=L(v,%r)\ng=rp.random.default_rng(%d)\ng.shuffle(x)\ny=np.asarray(x)\nk=lambda z:sorted(r.tobytes() for r in np.ascontiguousarray(z))\nok=bool(y.shape==v.shape and y.dtype==v.dtype and k(y)==k(v)) or repr(y)" % (sh,dt,k,s))
                    P("v=ar(%r,%r)\nx=L(v,%r)\ng=rp.random.default_rng(%d)\ny=np.asarray(g.permutation(x))\nk=lambda z:sorted(r.tobytes() for r in np.ascontiguousarray(z))\nok=bool(y.shape==v.shape and y.dtype==v.dtype and k(y)==k(v) and np.array_equal(np.asarray(x),v)) or repr(y)" % (sh,dt,k,s))
        for n,m in ((1,1),(5,5),(10,4),(100,50)):
            P("g=rp.random.default_rng(%d)\nx=np.asarray(g.choice(%d,size=%d,replace=False))\nok=(len(set(x.tolist()))==%d and set(x.tolist())<=set(range(%d))) or repr(x)" % (s,n,m,m,n))
            P("v=np.arange(%d)*3+2**55+1\ng=rp.random.default_rng(%d)\nx=np.asarray(g.choice(A(v),size=(%d,2)))\nok=bool(np.isin(x,v).all() and x.shape==(%d,2)) or repr(x)" % (n,s,m,m))
        # numpy's own PCG64DXSM stream from an exported state
        P("b=np.random.PCG64DXSM(%d);t=b.state['state'];g=rp.random.Generator.from_numpy_state(t['state'],t['inc'])\nx=[g.random_raw() for _ in range(20)];y=[int(v) for v in b.random_raw(20)]\nok=x==y or repr((x,y))" % s)
        P("b=np.random.PCG64DXSM(%d);t=b.state['state'];g=rp.random.Generator.from_numpy_state(t['state'],t['inc'])\nx=np.asarray(g.random(20));y=np.random.Generator(b).random(20)\nok=bool((x==y).all()) or repr((x,y))" % s)
        for lo,hi in ((0,2**40),(-2**50,2**55),(0,2**63-1),(-2**63,2**63-1),(5,2**33+6)):
            P("b=np.random.PCG64DXSM(%d);t=b.state['state'];g=rp.random.Generator.from_numpy_state(t['state'],t['inc'])\nx=np.asarray(g.integers(%d,%d,size=20));y=np.random.Generator(b).integers(%d,%d,size=20)\nok=bool((x==y).all()) or repr((x,y))" % (s,lo,hi,lo,hi))
    for lo,hi in ((0,0),(5,5),(5,4),(0,-1),(2**62,-2**62)):
        P("g=rp.random.default_rng(1)\ntry:\n    g.integers(%d,%d,size=3); ok='accepted'\nexcept ValueError: ok=True" % (lo,hi))
    # every value of a small range is reachable
    P("g=rp.random.default_rng(1)\nx=np.asarray(g.integers(-3,4,size=4000))\nok=sorted(set(x.tolist()))==list(range(-3,4)) or repr(set(x.tolist()))")
    P("g=rp.random.default_rng(2)\nx={tuple(np.asarray(g.permutation(4)).tolist()) for _ in range(2000)}\nok=len(x)==24 or len(x)")
    return C

# ---------------------------------------------------------------- files
def io_cases(tier, rng):
    C = []
    P = lambda code: C.append(c("import tempfile,os\nD=tempfile.mkdtemp(prefix='vrf')\ntry:\n" + "\n".join("    "+l for l in code.split("\n")) + "\nfinally:\n    import shutil; shutil.rmtree(D)","pred"))
    EQ = "eq=lambda a,b: a.shape==b.shape and a.dtype==b.dtype and np.ascontiguousarray(a).tobytes()==np.ascontiguousarray(b).tobytes()\n"
    for dt in NUM:
        for v in (edges(dt), "ar((3,4),%r)" % dt, "ar((2,3,4),%r)" % dt, "np.zeros((0,),%r)" % dt, "np.zeros((0,3),%r)" % dt, "np.zeros((3,0),%r)"%dt, "np.array(3).astype(%r)" % dt, "ar((1,),%r)" % dt, "ar((1000,),%r)" % dt, "ar((1,1,1,1,5),%r)" % dt,"ar((100,37),%r)"%dt):
            ks = LAYOUTS if v.startswith("ar((3") or v.startswith("ar((2") else (["C","rev","step"] if "np.array(3)" not in v else ["C"])
            for k in ks:
                if "zeros" in v and k!="C": continue
                P(EQ+"v=%s\nx=L(v,%r)\nf=D+'/a.npy'\nrp.save(f,x)\ny=np.asarray(rp.load(f));z=np.load(f)\nok=bool(eq(y,v) and eq(z,v)) or repr((y.dtype,y.shape,y,z.dtype,z.shape,z))[:400]" % (v,k))
            P(EQ+"v=%s\nf=D+'/a.npy'\nnp.save(f,v)\ny=np.asarray(rp.load(f))\nok=bool(eq(y,v)) or repr((y,v))[:400]" % v)
            if "(3,4)" in v or "(2,3,4)" in v:
                P(EQ+"v=np.asfortranarray(%s)\nf=D+'/a.npy'\nnp.save(f,v)\ny=np.asarray(rp.load(f))\nok=bool(eq(y,v)) or repr((y,v))[:400]" % v)
            for fn in ("savez","savez_compressed"):
                P(EQ+"v=%s\nw=ar((2,2),'i4')\nf=D+'/a.npz'\nrp.%s(f,a=A(v),b=A(w))\ny=rp.load(f);z=np.load(f)\nok=bool(eq(np.asarray(y['a']),v) and eq(np.asarray(y['b']),w) and eq(z['a'],v) and eq(z['b'],w)) or repr((y,v))[:400]" % (v,fn))
            P(EQ+"v=%s\nf=D+'/a.npz'\nnp.savez(f,a=v,b=v[...,None])\ny=rp.load(f)\nok=bool(eq(np.asarray(y['a']),v) and eq(np.asarray(y['b']),v[...,None])) or repr((y,v))[:400]" % v)
            P(EQ+"v=%s\nf=D+'/a.npz'\nrp.savez(f,A(v),A(v.reshape(-1)))\ny=np.load(f)\nok=bool(eq(y['arr_0'],v) and eq(y['arr_1'],v.reshape(-1))) or repr((y,v))[:400]" % v)
            if "array(3)" not in v and "zeros" not in v:
                P(EQ+"v=%s\ny=np.asarray(rp.frombuffer(v.tobytes(),dtype=%r))\nok=bool(eq(y,v.ravel())) or repr((y,v))[:400]" % (v,np.dtype(dt).name))
                P(EQ+"v=%s\nf=D+'/b.bin'\nv.tofile(f)\ny=np.asarray(rp.fromfile(f,dtype=%r))\nok=bool(eq(y,v.ravel())) or repr((y,v))[:400]" % (v,np.dtype(dt).name))
                P(EQ+"v=%s\ny=L(v,'rev').tobytes()\nok=y==v.tobytes() or repr((y,v))[:400]" % v)
    for u in ("D","s","ns","Y"):
        P(EQ+"v=np.array([0,1,-5,10**6,-2**63],'i8').view('M8[%s]')\nf=D+'/a.npy'\nrp.save(f,A(v))\ny=np.asarray(rp.load(f));z=np.load(f)\nok=bool(eq(y,v) and eq(z,v)) or repr((y,z,v))" % u)
        P(EQ+"v=np.array([0,1,-5,10**6,-2**63],'i8').view('m8[%s]')\nf=D+'/a.npy'\nrp.save(f,A(v))\ny=np.asarray(rp.load(f));z=np.load(f)\nok=bool(eq(y,v) and eq(z,v)) or repr((y,z,v))" % u)
    # damaged or truncated files are refused, never read past the end
    for cut in (0,5,6,9,10,20,64,100,127,128,129,135):
        P("f=D+'/a.npy'\nnp.save(f,np.arange(6))\nb=open(f,'rb').read()\nopen(f,'wb').write(b[:%d])\ntry:\n    y=rp.load(f); ok='accepted '+repr(np.asarray(y))\nexcept Exception as e: ok=True" % cut)
    P("f=D+'/a.npy'\nopen(f,'wb').write(b'\\x93NUMPX\\x01\\x00v\\x00'+b' '*118)\ntry:\n    rp.load(f); ok='accepted'\nexcept Exception: ok=True")
    for hdr in ("{'descr': '>i8', 'fortran_order': False, 'shape': (3,), }","{'descr': '<i8', 'fortran_order': False, 'shape': (3,5), }","{'descr': '<i8', 'fortran_order': False, 'shape': (4611686018427387904,4), }","{'descr': '|O', 'fortran_order': False, 'shape': (3,), }"):
        P("import struct\nh=(%r).ljust(117)+'\\n'\nf=D+'/a.npy'\nopen(f,'wb').write(b'\\x93NUMPY\\x01\\x00'+struct.pack('<H',len(h))+h.encode()+struct.pack('<3q',1,2,3))\ntry:\n    y=np.asarray(rp.load(f)); ok=True if y.tolist()==np.load(f).tolist() else 'read '+repr(y)\nexcept Exception as e: ok=True" % hdr)
    # text
    for dl in (",",";"," "):
        for v in ("ar((3,4),'f8')*.25-1","ar((5,),'f8')","ar((1,3),'f8')","np.array([[1e-300,1e300],[0.1,-1/3]])"):
            P("v=%s\nf=D+'/a.txt'\nrp.savetxt(f,A(v),delimiter=%r)\ny=np.asarray(rp.loadtxt(f,delimiter=%r));z=np.loadtxt(f,delimiter=%r)\nok=bool(np.allclose(y.reshape(v.shape),v,rtol=1e-15) and np.array_equal(y.reshape(v.shape),z.reshape(v.shape))) or repr((y,z))" % (v,dl,dl,dl))
    return C

# ---------------------------------------------------------------- mutation, sharing
def store_fn_cases():
    """copyto, put, put_along_axis, fill, fill_diagonal: exact values, every layout, overlapping operands"""
    C = []
    E = lambda dt: edges(dt)
    for dt in NUM:
        for k in LAYOUTS:
            z = "v=np.resize(%s,(4,5))\nx=L(np.zeros((4,5),%r),%r)\n" % (E(dt), dt, k)
            C.append(c(z+"xp.copyto(x,A(v))\nout=x"))
            for k2 in ("T","rev","step","revall"):
                C.append(c(z+"xp.copyto(x,L(v,%r))\nout=x" % k2))
            C.append(c(z+"xp.copyto(x,A(v[1]))\nout=x")); C.append(c(z+"xp.copyto(x[1:,::2],A(v[:1,:3]))\nout=x"))
            C.append(c(z+"xp.copyto(x,A(v),where=A(np.resize([True,False,False,True,True,False,True],(4,5))))\nout=x"))
            C.append(c(z+"xp.copyto(x,A(v),where=A(np.resize([True,False,True],(5,))))\nout=x"))
            C.append(c(z+"xp.put(x,[0,-1,7,3],A(v.ravel()[:4].copy()))\nout=x"))
            C.append(c(z+"xp.put(x,A(np.array([0,-1,7,3,3])),L(v.ravel()[:2].copy(),'rev'))\nout=x"))
            C.append(c(z+"x[:]=A(v)\nxp.put_along_axis(x,A(np.array([[1],[-1],[0],[4]])),L(v[:,2:3],'T'),1)\nout=x"))
            C.append(c(z+"x[:]=A(v)\nxp.put_along_axis(x,A(np.array([[3,0,-1,2,1],[0,1,2,3,0]])),L(v[2:,:],'rev'),0)\nout=x"))
            if k != "T": C.append(c("v=%s\nx=L(np.zeros((4,5),%r),%r)\nxp.fill_diagonal(x,L(v[:3].copy(),'step'))\nout=x" % (E(dt),dt,k)))
            C.append(c("v=%s\nx=L(np.zeros((7,2),%r),%r)\nxp.fill_diagonal(x,A(v[1:2].copy()),wrap=True)\nout=x" % (E(dt),dt,k)))
            C.append(c("v=%s\nx=L(np.zeros((3,3,3),%r),%r)\nxp.fill_diagonal(x,L(v[:3].copy(),'rev'))\nout=x" % (E(dt),dt,k)))
            for j in range(5):
                w = "v=np.resize(%s,(5,))\nx=L(np.zeros((4,5),%r),%r)\nw=v[%d].item()\n" % (E(dt),dt,k,j)
                C.append(c(w+"x.fill(w)\nout=x")); C.append(c(w+"x[1:,::2].fill(w)\nout=x")); C.append(c(w+"x.T[::-1].fill(w)\nout=x"))
                C.append(c(w+"xp.put(x,[1,-2],w)\nout=x")); C.append(c(w+"xp.fill_diagonal(x,w)\nout=x"))
        for a,b in (("1:",":-1"),(":-1","1:"),("::-1",":"),("2:",":-2"),("1:5","3:7"),("::2","1::2")):
            C.append(c("x=A(ar((8,),%r))\nxp.copyto(x[%s],x[%s])\nout=x" % (dt,a,b)))
        C.append(c("x=A(ar((4,4),%r))\nxp.copyto(x,x.T)\nout=x" % dt)); C.append(c("x=A(ar((4,4),%r))\nxp.fill_diagonal(x,x[0])\nout=x" % dt if dt!="?" else "out=1")) 
        C.append(c("x=A(ar((4,4),%r))\nxp.put(x,[0,1,2,3],x[:,0])\nout=x" % dt)); C.append(c("x=A(ar((4,4),%r))\nxp.put_along_axis(x,A(np.array([[0,1,2,3]])),x[2:3],0)\nout=x" % dt))
        if dt in ("i2","i4","i8","u1","u4"): C.append(c("x=A(np.array([3,2,1,0,5,4],%r))\nxp.put_along_axis(x,x[::-1],A(np.arange(6).astype(%r)),0)\nout=x" % (dt,dt)))
        C.append(c("x=A(ar((6,),%r))\ntry: xp.put_along_axis(x,A(np.array([1,9,2])),A(np.ones(3,%r)),0)\nexcept Exception: pass\nout=x" % (dt,dt)))
        C.append(c("x=A(ar((2,3),%r))\nxp.put(x,[0,6],A(np.ones(2,%r)))\nout=x" % (dt,dt))); C.append(c("x=A(ar((2,3),%r))\nxp.put(x,[-7],A(np.ones(1,%r)))\nout=x" % (dt,dt)))
    return C

def mutate_cases(tier, rng):
    C = []
    keys1 = [":","1:","::2","::-1","-2:",":0","3","-1","1:4:2","::-3","2:2"]
    for dt in NUM:
        for k in ("C","step","rev","off"):
            for key in keys1:
                C.append(c("x=L(ar((7,),%r),%r)\nx[%s]=1\nout=x" % (dt,k,key)))
                C.append(c("x=L(ar((7,),%r),%r)\ny=x[%s]\ntry: x[%s]=A((np.asarray(y)*0+1).astype(%r))\nexcept IndexError: pass\nout=x" % (dt,k,key,key,dt))) if key not in ("3","-1") else None
    keys2 = ["0","-1","1:","::2","0,1","-1,-1",":,1","1,:","::2,::-1","1:,:2",":,-1","0,::2","::-1,0","1:3,1:3",":,:","2:1,:"]
    for dt in ("u1","i8","f4","c16","?","f2","i2"):
        for k in LAYOUTS:
            for key in keys2:
                C.append(c("x=L(ar((3,4),%r),%r)\nx[%s]=1\nout=x" % (dt,k,key)))
                C.append(c("x=L(ar((3,4),%r),%r)\nx[%s]=A(np.array([1],%r))\nout=x" % (dt,k,key,dt)))
                # the view taken before sees the store, a copy taken before does not
                C.append(c("x=L(ar((3,4),%r),%r)\nv=x[::-1]\nw=x.T\nq=x.copy()\nx[%s]=1\nout=[x,v,w,q]" % (dt,k,key)))
                C.append(c("x=L(ar((3,4),%r),%r)\nv=x[%s]\nif v.ndim if hasattr(v,'ndim') else 0: v[...,]=1 if False else None\nout=x" % (dt,k,key)) if False else c("x=L(ar((4,6),%r),%r)\nv=x[1:,::2]\nv[%s]=1\nout=[x,v]" % (dt,k,key)))
    # overlapping self-assignment behaves as if the source were copied first
    for dt in ("u1","i8","f8","c16"):
        for a,b in (("1:",":-1"),(":-1","1:"),("::-1",":"),(":","::-1"),("2:",":-2"),("1:5","3:7"),("::2","1::2"),("4:0:-1","0:4")):
            for k in ("C","step","rev","off"):
                C.append(c("x=L(ar((8,),%r),%r)\nx[%s]=x[%s]\nout=x" % (dt,k,a,b)))
        C.append(c("x=A(ar((4,4),%r))\nx[:,:]=x.T\nout=x" % dt)); C.append(c("x=A(ar((4,4),%r))\nx[1:]=x[:-1]\nout=x" % dt)); C.append(c("x=A(ar((4,4),%r))\nx[:,1:]=x[:,:-1]\nout=x" % dt)); C.append(c("x=A(ar((3,4),%r))\nx[:]=x[0]\nout=x" % dt)); C.append(c("x=A(ar((4,4),%r))\nx[:]=x[:,0:1]\nout=x" % dt))
    # chains of operations on large temporaries: buffers reused for results are never observable
    for n in (100,5000,33000,70000):
        for e in ("(x+y)*z","((x+y)*z-x)/2.0","-(x+y)","xp.sqrt(xp.abs(x-y)+z)","(x+y)+(x+y)","(x*2.0)*(x*2.0)","(x+y)[::-1]+x","(x+1.0)[1:]-(x+1.0)[:-1]","xp.abs(-(x*y))","(x-y).T*z","x*(y+z)","1.0-(x+y)","(x+y)*x+(x+y)*y"):
            C.append(c("x=A(ar((%d,),'f8'));y=A(ar((%d,),'f8',3));z=A(ar((%d,),'f8',7))\nw=x+y\nu=w\nout=[%s,x,y,z,w,u]" % (n,n,n,e)))
            C.append(c("x=A(ar((%d,),'f8'));y=A(ar((%d,),'f8',3));z=A(ar((%d,),'f8',7))\nw=x+y\nv=w[::2]\na=(w+z)*z\nb=[w*z,w]\nd=w[1:]*2.0\nout=[a,b,d,w,v,x,y,z,%s]" % (n,n,n,e)))
        C.append(c("x=A(ar((%d,),'f8'))\nf=lambda t:(t*2.0)\ng=lambda t:t+t\nout=[g(f(x)),f(g(x)),x]" % n)); C.append(c("x=A(ar((%d,),'f8'))\nl=[x+1.0]\na=l[0]*2.0\nout=[l[0],a,x]" % n)); C.append(c("x=A(ar((%d,),'f8'))\nd={'k':x+1.0}\na=d['k']*2.0\nb=-d['k']\nout=[d['k'],a,b,x]" % n)); C.append(c("x=A(ar((%d,),'f8'))\nt=(x+1.0,)\na=t[0]-x\nb=xp.sqrt(t[0])\nout=[t[0],a,b,x]" % n)); C.append(c("x=A(ar((%d,),'f8'))\nn_=np.asarray(x+1.0)\nm=n_.copy()\na=A(n_)*2.0\nout=[n_,a,np.asarray(m)]" % n))
    # numpy shares memory with the exported view, in both directions
    for dt in NUM:
        P = lambda code: C.append(c(code,"pred"))
        for k in LAYOUTS:
            P("v=ar((3,4),%r)\nx=L(v,%r)\nn=np.asarray(x)\nok=bool(np.array_equal(n,v)) or repr(n)\nif ok is True:\n    x[1,2]=1\n    ok=bool(n[1,2]==1) or 'not shared'" % (dt,k))
    C += store_fn_cases()
    # functions leave their operands alone (spot list; the layout property sweeps all of them)
    for f in ("xp.sort(x)","xp.unique(x)","xp.clip(x,1,3)","xp.cumsum(x)","xp.flip(x).copy()","xp.where(x>2,x,x)","xp.roll(x,1)","x.astype('float32')","x.flatten()","xp.partition(x,2)","xp.insert(x,1,9)","xp.delete(x,1)","xp.repeat(x,2)","xp.put(x.copy(),A(np.array([0])),A(np.array([5])))","xp.nan_to_num(x)","xp.round(x.astype('float64'),1)","xp.maximum(x,x)","x.copy()","xp.pad(x,1)","xp.append(x,x)","xp.take(x,A(np.array([0,1])))","xp.fill_diagonal(x.reshape((2,3)).copy(),9)"):
        for dt in ("i8","f8","u1"):
            for k in ("C","rev","step"):
                C.append(c("v=np.array([3,1,2,5,4,0],%r)\nx=L(v,%r)\nr=%s\nout=x" % (dt,k,f)))
                C.append(c("v=np.array([3,1,2,5,4,0],%r)\nx=L(v,%r)\nr=%s\nif r is not None: r[...,] if False else None\nif hasattr(r,'shape') and len(r.shape)==1 and %r!='xp.flip(x)': r[0:1]=1\nout=x" % (dt,k,f,f)))
    return C
