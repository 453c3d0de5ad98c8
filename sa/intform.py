"""Integer normal form of terms: unsigned values as polynomials over Z in opaque values and floor(P/2^l)
atoms.  Decides the wide-product lemma (multiplication assembled from 32-bit pieces and carries)."""
import terms as t
from terms import T, mask
class NF:
    """one normaliser; polynomials are dicts  monomial(tuple of atom ids, sorted) -> int"""
    def __init__(s): s.atoms={}; s.hi={}; s.memo={}; s.n=0; s.ub={}
    def atom(s,key,hi=None):
        a=s.atoms.get(key)
        if a is None: a=s.atoms[key]=len(s.atoms); s.hi[a]=hi
        return {(a,):1}
    @staticmethod
    def add(*ps):
        r={}
        for p,k in ps:
            for m,c in p.items():
                v=r.get(m,0)+c*k
                if v: r[m]=v
                else: r.pop(m,None)
        return r
    @staticmethod
    def mul(p,q):
        r={}
        for m,c in p.items():
            for n,d in q.items():
                mn=tuple(sorted(m+n)); v=r.get(mn,0)+c*d
                if v: r[mn]=v
                else: r.pop(mn,None)
        return r
    @staticmethod
    def key(p): return tuple(sorted(p.items()))
    def floor(s,p,l):
        """floor(p/2^l)"""
        if l==0: return p
        u=s.bound(p)
        if u is not None and u<1<<l: return {}
        q={}; r={}
        for m,c in p.items():
            lo=c&mask(l); hi=(c-lo)>>l
            if hi: q[m]=hi
            if lo: r[m]=lo
        if not r: return q
        j=l
        for c in r.values(): j=min(j,(c&-c).bit_length()-1)
        if j: r={m:c>>j for m,c in r.items()}; l-=j
        # nested floors: floor(floor(P/2^a)/2^l)=floor(P/2^(a+l))
        if len(r)==1:
            (m,c),=r.items()
            if c==1 and len(m)==1:
                k=s.rev(m[0])
                if k and k[0]=='F': return s.add((q,1),(s.floor(dict(k[1]),l+k[2]),1))
        u=s.bound(r)
        if u is not None and u<1<<l: return q
        kk=('F',s.key(r),l)
        return s.add((q,1),(s.atom(kk,None if u is None else u>>l),1))
    def rev(s,a):
        if len(s.ub)!=len(s.atoms): s.ub={v:k for k,v in s.atoms.items()}
        return s.ub[a]
    def bound(s,p):
        """upper bound of a polynomial known to be >=0: recorded bound or sum over non-negative monomials"""
        k=s.key(p); b=s.memo.get(('B',k))
        tot=0
        for m,c in p.items():
            if c<0: return b
            v=c
            for a in m:
                h=s.hi[a]
                if h is None: return b
                v*=h
            tot+=v
        return tot if b is None else min(b,tot)
    def note(s,p,hi):
        k=('B',s.key(p)); o=s.memo.get(k)
        s.memo[k]=hi if o is None else min(o,hi)
    def val(s,x):
        r=s.memo.get(x)
        if r is None:
            r=s._val(x); s.memo[x]=r; s.note(r,t.rng(x)[1])
        return r
    def cut(s,x):
        """use the two halves of x as its basis"""
        h=x.w//2
        s.memo[x]=s.add((s.atom(('lo',x.id),mask(h)),1),(s.atom(('hi',x.id),mask(h)),1<<h))
    def wrap(s,p,w):
        b=s.bound(p)
        if b is not None and b<1<<w: return p
        return s.wrap_(p,w)
    def wrap_(s,p,w): return s.add((p,1),(s.floor(p,w),-(1<<w)))
    def _val(s,x):
        w=x.w; k=x.k
        if k=='c': return {():x.a[0]} if x.a[0] else {}
        if k=='lin':
            p={():x.a[1]} if x.a[1] else {}
            hi=x.a[1]
            for y,c in x.a[0]: p=s.add((p,1),(s.val(y),c)); hi+=c*t.rng(y)[1]
            s.note(p,hi)
            return s.wrap(p,w)
        if k=='mul':
            return s.wrap(s.mul(s.val(x.a[0]),s.val(x.a[1])),w)
        if k=='cmp' and x.a[0]=='ult':
            return s.add((s.floor(s.add((s.val(x.a[1]),1),(s.val(x.a[2]),-1)),x.a[1].w),-1))
        if k=='bits':
            p={}; pos=0
            for n,ss,c in x.a:
                if not ss: seg={():c} if c else {}
                elif len(ss)==1 and c in(0,mask(n)):
                    (y,l),=ss
                    v=s.val(y)
                    seg=s.add((s.floor(v,l),1),(s.floor(v,l+n),-(1<<n)))
                    if c: seg=s.add(({():c},1),(seg,-1))
                else: seg=s.atom(('X',n,frozenset((y.id,l) for y,l in ss),c),mask(n))
                p=s.add((p,1),(seg,1<<pos)); pos+=n
            return p
        if k=='ite' and t.isc(x.a[1]) and t.isc(x.a[2]):
            c=s.val(x.a[0]); return s.add((c,x.a[1].a[0]-x.a[2].a[0]),({():1},x.a[2].a[0]))
        return s.atom(('T',x.id),t.rng(x)[1])
def same_mod(nf,p,q,w):
    d=nf.add((p,1),(q,-1))
    return all(c&mask(w)==0 for c in d.values())

# --------------------------------------------------------------- the wide-product lemma
CORNER=[0,1,2,3,0xffffffff,0x100000000,0xfffffffe,0x80000000,0x7fffffff,0xffffffff00000000,0xffffffffffffffff,0x8000000000000000,
        0x7fffffffffffffff,0xfffffffffffffffe,0x00000001ffffffff,0xffffffff00000001,0x100000001,0xfffffffeffffffff,0x5555555555555555,0xaaaaaaaaaaaaaaaa]
def analyse(m,f):
    """f:(i64,i64,ptr)->i64.  returns ('proven',None)|('wrong',witness)|('unknown',why)"""
    import interp
    I=interp.Interp(m)
    a,b=t.var('lem:a',64),t.var('lem:b',64)
    out=interp.Obj('lem:out','out',8,align=8)
    old=interp.Interp.LEMMAS; interp.Interp.LEMMAS=None
    try:
        r=I.callf(f,m,[a,b,interp.Ptr(out,t.const(0,I.W))],interp.State())
        if r is None: return ('unknown','no return')
        ev=[e for e in I.events if e.kind not in('R','W') or e.obj.kind=='extern']
        wr=[e for e in I.events if e.kind=='W' and e.obj is out]
        if ev or not wr: return ('unknown','effects')
        l=r[1]; h=I.rawload(r[2],out,t.const(0,I.W),8,64)
    except interp.Imprecise as e: return ('unknown',str(e))
    finally: interp.Interp.LEMMAS=old
    wl,wh=t.mulfull(a,b)
    if l is wl and h is wh: return ('same',None)
    nf=NF(); nf.cut(a); nf.cut(b)
    tot=nf.add((nf.val(l),1),(nf.val(h),1<<64))
    if same_mod(nf,tot,nf.mul(nf.val(a),nf.val(b)),128): return ('proven',None)
    import spec
    bad=None; good=0
    for i,x in enumerate(CORNER+[t.h64('lem',k)&mask(64) for k in range(40)]):
        for y in spec.P64+CORNER:
            E=t.Eval(1,fixed={a:x,b:y})
            gl,gh=E.ev(l),E.ev(h)
            if gl|gh<<64!=x*y: bad=bad or (x,y,gl,gh)
            elif x>1 and y>1: good+=1
    if bad: return ('wrong' if good>20 else 'other',bad)
    return ('unknown','normal form differs, no witness')
LOG={}   # (config, function) -> verdict
def lemmas(I,f,m):
    if not hasattr(f,'_lem'):
        f._lem=None
        tys=[ty for _,ty in f.args]
        if len(tys)==3 and tys[0]==('int',64)==tys[1] and tys[2][0]=='ptr' and len(f.blocks)<=40:
            v=analyse(m,f); LOG[(getattr(m,'cfg','?'),m.tu if hasattr(m,'tu') else '?',f.name)]=v
            if v[0]=='proven': f._lem=summary
    return f._lem
def summary(I,i,st,args):
    lo,hi=t.mulfull(args[0],args[1])
    I.store(st,args[2],8,hi,i,8 if I.W==64 else 4)
    return lo
