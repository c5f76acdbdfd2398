"""Bounded stand-ins, part 4: every optional parameter of the functions the properties cover,
on every layout."""
from lay import *
import itertools, random
from gens1 import INT, FLT, CPX, NUM, c
from gens2 import edges
SH4 = [(6,),(3,4),(4,3),(2,3,4),(1,5),(3,1),(2,1,3,2)]

def p02(tier, rng):
    C = []
    for sh in [(3,4),(2,3,4),(1,5),(2,2,2,3)]:
        nd = len(sh)
        for kind in LAYOUTS:
            base = "x=L(ar(%r),%r)\n" % (sh,kind)
            for k in list(range(-10,11)) + [101,-101,2**40+3,-2**40-1]:
                C.append(c(base+"out=xp.rot90(x,%d)" % k))
            for a in range(nd):
                for b in range(nd):
                    if a == b: continue
                    for k in (-5,-2,-1,0,1,2,3,6):
                        C.append(c(base+"out=xp.rot90(x,%d,axes=(%d,%d))" % (k,a,b)))
            for p in itertools.permutations(range(nd)):
                C.append(c(base+"out=xp.transpose(x,%r)" % (p,)))
    return C

def p10(tier, rng):
    C = []
    for dt in INT+["f4","f8","f2","?"]+CPX:
        for sh in SH4:
            for kind in LAYOUTS:
                base = "x=L(((ar(%r)*37+11)%%5).astype(%r),%r)\n" % (sh,dt,kind)
                md = "exact" if dt in INT else "close"
                for ax in range(-len(sh),len(sh)):
                    for f in ("cumulative_sum","cumulative_prod"):
                        for ii in (True,False):
                            C.append(c(base+"out=xp.%s(x,axis=%d,include_initial=%s)" % (f,ax,ii),md))
                    for f in ("nancumsum","nancumprod"):
                        if dt in FLT: C.append(c("v=((ar(%r)*37+11)%%5).astype(%r);v[v==3]=np.nan\nx=L(v,%r)\nout=xp.%s(x,axis=%d)" % (sh,dt,kind,f,ax),"close"))
                    if dt in INT+["f8"] and ax >= 0:
                        C.append(c(base+"out=x.cumsum(axis=%d)" % ax,md)); C.append(c(base+"out=x.cumprod(axis=%d)" % ax,md))
        if dt in INT:
            for ax in (0,1): C.append(c("x=L(np.resize(%s,(4,7)),'T')\nout=xp.cumulative_sum(x,axis=%d,include_initial=True)" % (edges(dt),ax)))
    return C

def p09(tier, rng):
    C = []
    for dt in ["f4","f8"]:
        for sh in SH4:
            for kind in LAYOUTS:
                v = "v=((ar(%r)*37+11)%%13).astype(%r);v[(v==3)|(v==8)]=np.nan\n" % (sh,dt)
                for ax in range(len(sh)):
                    for f in ("nanargmin","nanargmax","nanmin","nanmax","nansum","nanprod","nanmean"):
                        if f in ("nanargmin","nanargmax","nanmin","nanmax","nanmean"): w = v + "v=np.where(np.isnan(v).all(axis=%d,keepdims=True),5,v).astype(%r)\n" % (ax,dt)
                        else: w = v
                        C.append(c(w+"x=L(v,%r)\nout=xp.%s(x,axis=%d)" % (kind,f,ax),"nodtype,close"))
    for dt in INT+["f4","f8","?"]:
        for sh in SH4:
            for kind in LAYOUTS:
                base = "x=L(((ar(%r)*37+11)%%13).astype(%r),%r)\n" % (sh,dt,kind)
                for ax in range(-len(sh),len(sh)):
                    for f in ("amax","amin","max","min"): C.append(c(base+"out=xp.%s(x,axis=%d)" % (f,ax)))
                    for f in ("max","min","sum","prod","mean","all","any","argmax","argmin","std","var"):
                        if dt == "?" and f in ("mean","std","var","sum","prod"): continue
                        C.append(c(base+"out=x.%s(axis=%d)" % (f,ax),"nodtype,close"))
                        if f not in ("argmax","argmin") and len(sh) > 1: C.append(c(base+"out=x.%s(axis=%d,keepdims=True)" % (f,ax),"nodtype,close"))
                if dt == "f8": C.append(c(base+"out=xp.average(x,weights=L(ar(%r,'f8',1),'rev'))" % (sh,),"nodtype,close"))
                for axs in itertools.permutations(range(len(sh)),2):
                    for f in ("sum","max","min","all","any","mean","prod"):
                        if dt == "?" and f in ("mean","sum","prod"): continue
                        C.append(c(base+"out=xp.%s(x,axis=%r)" % (f,axs),"nodtype,close"))
    return C

def p11(tier, rng):
    C = []
    for dt in INT+["f4","f8"]:
        for d2 in (dt,"i4","f8","u1","i8"):
            for k in ("C","step","rev"):
                for k2 in ("C","step","rev"):
                    for inv in (False,True):
                        if dt == d2:
                            C.append(c("x=L(%s,%r);y=L(%s[::2],%r)\nout=xp.isin(x,y,invert=%s)" % (edges(dt),k,edges(d2),k2,inv)))
        for d2 in ("i2","i4","f4","f8"):
            for k in ("C","step","rev","off","s3"):
                m = "xp.searchsorted(%s,L(np.array([-1.5,0,3,3.5,7,100.5]).astype(%r),%r),side=%r)"
                for side in ("left","right"):
                    a = "L(ar((40,),%r)[:40],'C')[::3]" % dt if k == "s3" else "L(ar((13,),%r),%r)" % (dt,k)
                    C.append(c("out="+m % (a,d2 if dt[0]!='u' or d2[0]=='f' else "f8","rev",side)))
        for k in LAYOUTS[:1]+["step","rev"]:
            if dt[0] == "i" and dt != "i1" or dt == "u1":
                for ml in (0,3,20): C.append(c("x=L(np.array([1,5,5,0,7]).astype(%r),%r)\nout=xp.bincount(x,minlength=%d)" % (dt,k,ml)))
    for k in ("C","step","rev"):
        for lo,hi in ((0,5),(-2,3),(2,2.5)):
            for b in (1,3,10):
                C.append(c("v=np.array([0,1,2,2.5,3,4.99,5,-1])\nx=L(v,%r)\nout=list(xp.histogram(x,%d,range=(%r,%r)))" % (k,b,float(lo),float(hi)),"nodtype,close"))
    return C

def p12(tier, rng):
    C = []
    for dt in ("i8","u1","f4","c16","?"):
        for sh in [(5,),(3,4),(2,3,2)]:
            for kind in LAYOUTS:
                base = "x=L(ar(%r,%r),%r)\n" % (sh,dt,kind)
                for w in (0,1,2,(1,2),(0,3)):
                    if dt != "c16": C.append(c(base+"out=xp.pad(x,%r,mode='constant',constant_values=1.0)" % (w,)))
                    C.append(c(base+"out=xp.pad(x,%r)" % (w,)))
                    C.append(c(base+"out=xp.pad(x,%r,mode='edge')" % (w,)))
                for ax in range(len(sh)):
                    C.append(c(base+"out=xp.concat([x,x],axis=%d)" % ax)); C.append(c(base+"out=xp.concatenate([x,x[::-1]],axis=%d)" % ax))
                    for n in (-7,-1,0,1,3,11): C.append(c(base+"out=xp.roll(x,%d,axis=%d)" % (n,ax)))
    for trim in ("fb","f","b","F","B"):
        for v in ([0,0,1,2,0],[0,0],[1],[0,1,0,2,0,0],[]):
            for kind in ("C","rev","step"):
                if not v and kind != "C": continue
                C.append(c("x=L(np.array(%r,'f8'),%r)\nout=xp.trim_zeros(x,%r)" % (v,kind,trim)))
    return C

def p13(tier, rng):
    C = []
    for n in range(0,6):
        for k in range(-6,7):
            for m in [None]+list(range(0,6)):
                if m is not None:
                    C.append(c("out=list(xp.tril_indices(%d,k=%d,m=%d))" % (n,k,m))); C.append(c("out=list(xp.triu_indices(%d,k=%d,m=%d))" % (n,k,m)))
                    for dt in ("f8","i4","?"): C.append(c("out=xp.tri(%d,%d,k=%d,dtype=%r)" % (n,m,k,np.dtype(dt).name)))
            C.append(c("out=list(xp.tril_indices(%d,k=%d))" % (n,k))); C.append(c("out=xp.tri(%d,k=%d)" % (n,k)))
        for d in (1,2,3): C.append(c("out=list(xp.diag_indices(%d,%d))" % (n,d)))
    for dt in ("i8","f4","u1","c16","?"):
        for sh in [(1,),(4,),(2,3),(2,2,2)]:
            for kind in LAYOUTS:
                for k in range(-3,4): C.append(c("x=L(ar(%r,%r),%r)\nout=xp.diagflat(x,k=%d)" % (sh,dt,kind,k)))
        for sh in [(3,4),(4,3),(2,3,4),(5,)]:
            for kind in LAYOUTS:
                base = "x=L(ar(%r,%r),%r)\n" % (sh,dt,kind)
                for k in range(-6,7):
                    if len(sh) == 2 and sh: C.append(c(base+"out=list(xp.tril_indices_from(x,%d))+list(xp.triu_indices_from(x,%d))" % (k,k)))
                    if len(sh) == 2: C.append(c(base+"out=xp.tril(x,%d)" % k)); C.append(c(base+"out=xp.triu(x,%d)" % k))
                for ax in range(len(sh)):
                    for _ in range(3):
                        m = [rng.random()<.5 for _ in range(sh[ax])]
                        C.append(c(base+"out=xp.compress(A(np.array(%r)),x,axis=%d)" % (m,ax)))
                        C.append(c(base+"out=x.compress(A(np.array(%r)),axis=%d)" % (m,ax)))
                    m = [True,False][:sh[ax]]
                    C.append(c(base+"out=xp.compress(A(np.array(%r)),x,axis=%d)" % (m,ax)))
                C.append(c(base+"out=xp.compress(A(np.array([True,False,True])),x)"))
    for sh in [(7,),(3,4),(2,3,4),(5,1,2)]:
        n = int(np.prod(sh))
        for o in "CF":
            for kind in ("C","rev","step"):
                C.append(c("x=L((np.arange(%d)*5)%%%d,%r)\nout=list(xp.unravel_index(x,%r,order=%r))" % (n,n,kind,sh,o)))
                C.append(c("v=np.unravel_index((np.arange(%d)*5)%%%d,%r)\nout=xp.ravel_multi_index(L(np.array(v),%r) if which=='rp' else v,%r,order=%r)" % (n,n,sh,kind,sh,o)))
            for md in ("wrap","clip","raise"):
                for off in (-9,-1,0,3,20):
                    C.append(c("v=tuple((np.arange(6)*3+%d)%%11-3 for _ in %r)\nout=xp.ravel_multi_index([t.tolist() for t in v],%r,mode=%r,order=%r)" % (off,sh,sh,md,o)))
        C.append(c("out=[tuple(t) for t in xp.ndindex(*%r)]" % (sh,)))
    return C

def p06(tier, rng):
    C = []
    for dt in ("u1","?"):
        for sh in [(1,),(7,),(8,),(9,),(16,),(3,5),(2,3,9),(10,3)]:
            for kind in LAYOUTS:
                v = "v=((ar(%r)*7+3)%%5%%2).astype(%r)\nx=L(v,%r)\n" % (sh,dt,kind)
                for bo in ("big","little"):
                    C.append(c(v+"out=xp.packbits(x,bitorder=%r)" % bo))
                    for ax in range(-len(sh),len(sh)): C.append(c(v+"out=xp.packbits(x,axis=%d,bitorder=%r)" % (ax,bo)))
                    if dt == "u1":
                        w = "v=((ar(%r)*37+11)).astype('u1')\nx=L(v,%r)\n" % (sh,kind)
                        C.append(c(w+"out=xp.unpackbits(x,bitorder=%r)" % bo))
                        for cnt in (0,3,8): 
                            C.append(c(w+"out=xp.unpackbits(x,count=%d,bitorder=%r)" % (cnt,bo)))
                        for ax in range(-len(sh),len(sh)): C.append(c(w+"out=xp.unpackbits(x,axis=%d,bitorder=%r)" % (ax,bo)))
    return C

def p07(tier, rng):
    C = []
    for dt in FLT:
        v = edges(dt)
        for k in ("C","step","rev"):
            C.append(c("x=L(%s,%r)\nout=xp.nan_to_num(x,nan=3.5,posinf=7.0,neginf=-7.0)" % (v,k))); C.append(c("x=L(%s,%r)\nout=xp.nan_to_num(x)" % (v,k)))
            for a in ("rtol=1e-2","atol=0.5","equal_nan=True","rtol=0.0,atol=0.0","rtol=0.1,atol=1.0,equal_nan=True"):
                if dt == "f2": continue
                C.append(c("v=%s\nx=L(v,%r);y=L(np.roll(v,1),%r)\nout=xp.isclose(x,y,%s)" % (v,k,k,a)))
                C.append(c("v=%s\nx=L(v,%r);y=L(v+np.array(0.25,%r),%r)\nout=xp.isclose(x,y,%s)" % (v,k,dt,k,a)))
                C.append(c("v=%s\nx=L(v,%r);y=L(v,%r)\nout=bool(xp.allclose(x,y,%s))" % (v,k,k,a)))
    return C

def p08(tier, rng):
    C = []
    for dt in NUM:
        nm = np.dtype(dt).name
        for val in ("0","1","3","True","2.5","-1"):
            if val == "-1" and dt[0] == "u": continue
            if val == "2.5" and dt in INT+["?"]: pass
            C.append(c("out=xp.full((2,3),%s,dtype=%r)" % (val,nm)))
            C.append(c("out=xp.full_like(A(ar((2,3),'i4')),%s,dtype=%r)" % (val,nm)))
        for f in ("zeros","ones"):
            C.append(c("out=xp.%s((2,3),dtype=%r)" % (f,nm))); C.append(c("out=xp.%s_like(L(ar((2,3),'f4'),'T'),dtype=%r)" % (f,nm)))
        C.append(c("out=xp.identity(3,dtype=%r)" % nm)); C.append(c("out=xp.empty((2,3),dtype=%r).shape" % nm))
        for d2 in NUM:
            if d2 in CPX and dt not in CPX: continue
            for k in LAYOUTS:
                for f in ("asarray","ascontiguousarray","asfortranarray"):
                    C.append(c("x=L(ar((3,4),%r),%r)\nout=xp.%s(x,dtype=%r)" % (d2,k,f,nm)))
        C.append(c("out=xp.arange(0,6,dtype=%r)" % nm)) if dt not in CPX+["?"] else None
    return C

def p17(tier, rng):
    C = []
    from gens3 import io_cases
    P = lambda code: C.append(c("import tempfile,os\nD=tempfile.mkdtemp(prefix='vrf')\ntry:\n" + "\n".join("    "+l for l in code.split("\n")) + "\nfinally:\n    import shutil; shutil.rmtree(D)","pred"))
    EQ = "eq=lambda a,b: a.shape==b.shape and a.dtype==b.dtype and np.ascontiguousarray(a).tobytes()==np.ascontiguousarray(b).tobytes()\n"
    for dt in ("i8","u1","f4","c16","?","f2"):
        d = np.dtype(dt); z = d.itemsize
        for sh in [(6,),(2,3),(),(0,),(2,0,3)]:
            for ver in (1,2,3):
                for pad in ((10,117,60000,65535) if ver == 1 else (10,117,65535,65536,70000,200000)):
                    for fo in (False,True):
                        if tier != "thorough" and fo and pad > 117: continue
                        P(EQ+"v=ar(%r,%r)\nh=%r\nh=h+' '*max(0,%d-len(h)-1)+'\\n'\nf=D+'/a.npy'\nopen(f,'wb').write(b'\\x93NUMPY'+bytes([%d,0])+len(h).to_bytes(%d,'little')+h.encode()+v.tobytes(%r))\ny=np.asarray(rp.load(f))\nok=bool(eq(y,v)) or repr((y,v))[:300]" % (sh,dt,"{'descr': %r, 'fortran_order': %r, 'shape': %r, }" % (d.str,fo,sh),pad,ver,2 if ver==1 else 4,"F" if fo else "C"))
        for n in (0,1,5):
            for off in (0,1,2,3):
                for cnt in (-1,0,1,2,5):
                    if cnt > n - 0: continue
                    C.append(c("b=b'\\x01\\x02\\x03\\x00'[:%d]+ar((%d,),%r).tobytes()\nout=xp.frombuffer(b,dtype=%r,count=%d,offset=%d)" % (off,n,dt,d.name,cnt,off))) if n and dt != "?" else None
            for cnt in (-1,1,3,n):
                for off in (0,z,2*z,1):
                    C.append(c("import tempfile,os\nD=tempfile.mkdtemp(prefix='vrf')\ntry:\n    f=D+'/r'\n    ar((6,),%r).tofile(f)\n    out=xp.fromfile(f,dtype=%r,count=%d,offset=%d)\nfinally:\n    import shutil; shutil.rmtree(D)" % (dt,d.name,cnt,off)))
    for dt in ("i8","f8","i4"):
        for k in LAYOUTS:
            P("v=ar((3,4),%r)\nv.tofile(D+'/u',sep=' ')\ny=np.asarray(rp.fromfile(D+'/u',dtype=%r,sep=' '))\nok=bool(np.array_equal(y,v.ravel())) or repr(y)" % (dt,np.dtype(dt).name))
    return C

P3X = [e.strip() for e in """xp.trapezoid(X,dx=0.5)|xp.trapezoid(X,x=X[::-1],axis=-1)|xp.unwrap(X*2)|xp.unwrap(X*2,axis=0)|xp.unwrap(X*2,discont=4.0)|xp.unwrap(X*2,period=3.0)|xp.angle(X,deg=True)
xp.interp(X.ravel(),xp.sort(X.ravel()),X.ravel(),left=-5.0,right=7.0)|xp.average(X,weights=X*X+1)|xp.histogram(X,4,range=(0.0,3.0))|xp.histogram_bin_edges(X,4,range=(0.0,3.0))|xp.histogram2d(X.ravel(),X.ravel()[::-1],3)
xp.polyfit(xp.arange(X.size),X.ravel(),2)|xp.cov(X)|xp.nan_to_num(X,nan=2.0)|xp.isclose(X,X+1,rtol=0.5,atol=0.1)|xp.diagflat(X,k=1)|xp.diagflat(X,k=-2)|xp.isin(X,X[:1],invert=True)|xp.pad(X,2,constant_values=3.0)|xp.pad(X,(1,2),mode='edge')
xp.tri(3,4,k=1)|xp.polyder(X.ravel(),m=2)|xp.polyint(X.ravel(),m=2)|xp.convolve(X.ravel(),X.ravel()[:3],mode='same')|xp.convolve(X.ravel(),X.ravel()[:3],mode='valid')|xp.correlate(X.ravel(),X.ravel()[:3],mode='same')|xp.gradient(X)|xp.gradient(X,axis=0)|xp.gradient(X,0.5)
xp.emath.logn(3,X)|xp.trim_zeros(X.ravel(),trim='f')|xp.select([X>2,X<1],[X,X*2],default=7.0)|xp.require(X,requirements='C')|xp.require(X,dtype='float64')|xp.nanpercentile(X,30,axis=0)|xp.common_type(X,X)|xp.cumulative_sum(X,axis=0,include_initial=True)|xp.cumulative_prod(X,axis=-1,include_initial=True)
xp.average(X,axis=0)|X.moment(2,axis=0)|X.skew(axis=0)|X.kurtosis(axis=-1)|xp.shape(X)|xp.size(X)|xp.ndim(X)|xp.atleast_2d(X)|xp.atleast_3d(X)|xp.std(X)|xp.round(X,1)|X.round(1)|X.clip(1,3)|xp.clip(X,a_min=1,a_max=3)|xp.clip(X,2)|xp.divmod(X,X+2)|xp.mod(X,X+2)|xp.pow(X,2)
xp.linalg.norm(X,ord=1)|xp.linalg.vector_norm(X,ord=1)|xp.linalg.vector_norm(X,ord=3)|xp.fft.fftn(X,axes=(0,))|xp.packbits(X!=0)|xp.packbits(X!=0,axis=0,bitorder='little')|xp.compress([True,False,True],X,axis=0)|xp.unravel_index(xp.argsort(X.ravel()),(X.size,),order='F')|xp.indices(X.shape)
xp.linalg.svd(X)[1]|xp.roots(X.ravel()[:3])|xp.einsum_path('i,i->',X.ravel(),X.ravel())|X.view('uint8')|X.tobytes()|xp.vander(X.ravel())|xp.count_nonzero(X)|X.nonzero()""".replace("\n","|").split("|")]
def p03(tier, rng):
    from meta import MLAY
    C = []
    for sh in [(6,),(3,4),(2,3,4)]:
        for dt in ("f8","f4","i8","i4","u1","?","c16"):
            a = "data(%r,%r)" % (sh,dt)
            for k in MLAY:
                if k == "T" and len(sh) == 1: continue
                for e in P3X:
                    if ".view(" in e: continue
                    C.append({"code": "xp=rp\nok=same(lambda X:%s,[%s],[%r],True)" % (e,a,k), "mode": "pred", "op": e})
                for a0 in range(len(sh)):
                    for e in ("cumulative_sum(X,axis=%d,include_initial=True)","cumulative_prod(X,axis=%d,include_initial=True)","nancumsum(X,axis=%d)","nanargmax(X,axis=%d)","nanargmin(X,axis=%d)","amax(X,axis=%d)","amin(X,axis=%d)","unwrap(X,axis=%d)","trapezoid(X,dx=2.0,axis=%d)","concat([X,X],axis=%d)","average(X,axis=%d)","gradient(X,axis=%d)","fft.fftn(X,axes=(%d,))","compress(rp.asarray(np.array([True,False])),X,axis=%d)","packbits(X!=0,axis=%d)","cumsum(X,axis=%d)","ptp(X,axis=%d)"):
                        C.append({"code": "xp=rp\nok=same(lambda X:%s,[%s],[%r],True)" % ("xp."+e % a0,a,k), "mode": "pred", "op": e})
    return C
