"""Value-number domain: hash-consed terms with canonical forms.

A term denotes an unsigned w-bit value.  Kinds
  c    constant
  v    variable (name, lo, hi): unknown value in [lo,hi]
  b    one byte of an abstract memory object: (object, offset term)
  lin  sum of coef*term mod 2^w
  bits GF(2)-linear bit vector: segments (n, frozenset of (term, lo) slices, constant)
  and  conjunction of non-constant terms
  mul  product of two non-constant terms
  ite, cmp('eq','ult','slt'), uf(name, args)
  fold value of one component of a recurrence after N steps
  bx/bk bound variables of a recurrence
Equal ids = proven equal.  Different ids = not proven equal.
"""
import sys
sys.setrecursionlimit(200000)

class T:
    __slots__=('k','w','a','id','_zm','_rng','_fv')
    def __repr__(self): return show(self,3)

_tab={}
_cnt=[0]
def _mk(k,w,a):
    key=(k,w,a)
    t=_tab.get(key)
    if t is None:
        t=T(); t.k=k; t.w=w; t.a=a; t.id=_cnt[0]; _cnt[0]+=1; t._zm=None; t._rng=None; t._fv=None
        _tab[key]=t
    return t
def reset():
    _tab.clear(); _memo_zext.clear(); _memo_tr.clear()
    for f in RESETS: f()
RESETS=[]

def mask(w): return (1<<w)-1
def const(v,w): return _mk('c',w,(v&mask(w),))
def var(name,w,lo=0,hi=None): return _mk('v',w,(name,lo,mask(w) if hi is None else hi))
def byte(obj,off): return _mk('b',8,(obj,off))
TRUE=None
def isc(t): return t.k=='c'
def cv(t): return t.a[0]

# ---------------------------------------------------------------- ranges
def rng(t):
    """(lo,hi) sound unsigned bounds"""
    r=t._rng
    if r is None:
        r=_rng(t); t._rng=r
    return r
def _rng(t):
    k=t.k; m=mask(t.w)
    if k=='c': return (t.a[0],t.a[0])
    if k=='v': return (t.a[1],t.a[2])
    if k=='bk': return (0,kmax(t.w))
    if k=='lin':
        r=affine_rng(t)
        if r and r[0]>=0 and r[1]<=m: return r
        return (0,m)
    if k=='bits':
        lo=hi=0; pos=0
        for n,s,c in t.a:
            if not s: lo|=c<<pos; hi|=c<<pos
            else:
                h=mask(n)
                if len(s)==1 and c==0:
                    (x,l),=s
                    rl,rh=rng(x)
                    if rh>>l<=h and l==0: 
                        lo|=(rl&mask(n) if rh<=h else 0)<<pos; h=min(h,rh)
                    elif (rh>>l)<=h: lo|=(rl>>l)<<pos; h=rh>>l
                hi|=h<<pos
            pos+=n
        return (lo,hi)
    if k=='ite':
        a=rng(t.a[1]); b=rng(t.a[2]); return (min(a[0],b[0]),max(a[1],b[1]))
    if k=='and':
        return (0,min(rng(x)[1] for x in t.a))
    if k=='mul':
        a=rng(t.a[0]); b=rng(t.a[1])
        if a[1]*b[1]<=m: return (a[0]*b[0],a[1]*b[1])
    return (0,m)
def sgn(c,w): return c-(1<<w) if c>>(w-1) else c
def affine(t):
    """integer affine view: ({term:int coef}, const) of t read with signed coefficients"""
    if t.k=='c': return {},sgn(t.a[0],t.w)
    if t.k=='lin': return {x:sgn(c,t.w) for x,c in t.a[0]},sgn(t.a[1],t.w)
    if t.k=='bits':
        # concatenation of whole values and constants
        m={}; c=0; pos=0
        for n,ss,k in t.a:
            if not ss: c+=k<<pos
            else:
                if len(ss)!=1 or k: return {t:1},0
                (x,l),=ss
                if l or rng(x)[1]>mask(n): return {t:1},0
                m[x]=m.get(x,0)+(1<<pos)
            pos+=n
        return m,c
    return {t:1},0
def affine_rng(t):
    m,c=affine(t)
    lo=hi=c
    for x,k in m.items():
        if x is t: return None
        a,b=rng(x)
        if k>0: lo+=k*a; hi+=k*b
        else: lo+=k*b; hi+=k*a
    return lo,hi

def uexact(t):
    """exact integer view of the unsigned value"""
    if t.k=='c': return {},t.a[0]
    r=affine_rng(t)
    if r and r[0]>=0 and r[1]<=mask(t.w): return affine(t)
    return {t:1},0
def sexact(t):
    """exact integer view of the signed value, or None"""
    h=1<<(t.w-1)
    if t.k=='c': return {},sgn(t.a[0],t.w)
    r=affine_rng(t)
    if r and r[0]>=-h and r[1]<h: return affine(t)
    if rng(t)[1]<h: return {t:1},0
    return None
def diff_rng(p,q):
    dd=dict(p[0]); lo=hi=p[1]-q[1]
    for z,k in q[0].items(): dd[z]=dd.get(z,0)-k
    for z,k in dd.items():
        if k:
            a,b=rng(z)
            if k>0: lo+=k*a; hi+=k*b
            else: lo+=k*b; hi+=k*a
    return lo,hi
# ---------------------------------------------------------------- known-zero
def zm(t):
    z=t._zm
    if z is None: z=_zmf(t); t._zm=z
    return z
def _zmf(t):
    m=mask(t.w); k=t.k
    if k=='c': return ~t.a[0]&m
    if k=='bits':
        z=0; pos=0
        for n,s,c in t.a:
            zz=~c&mask(n)
            for x,l in s: zz&=(zm(x)>>l)&mask(n)
            # only bits where constant is 0 and all atoms zero
            z|=zz<<pos; pos+=n
        return z
    z=0
    if k=='lin':
        tz=99999
        for x,c in t.a[0]:
            zx=zm(x); n=0
            while n<t.w and (zx>>n)&1: n+=1
            tz=min(tz,n+((c&-c).bit_length()-1))
        c=t.a[1]
        if c: tz=min(tz,(c&-c).bit_length()-1)
        z|=mask(min(tz,t.w))
    elif k=='and':
        for x in t.a: z|=zm(x)
    elif k=='ite': z=zm(t.a[1])&zm(t.a[2])
    hi=rng(t)[1]
    z|=m&~mask(hi.bit_length())
    return z

# ---------------------------------------------------------------- bits
def segs(t):
    if t.k=='bits': return t.a
    if t.k=='c': return ((t.w,frozenset(),t.a[0]),)
    return ((t.w,frozenset(((t,0),)),0),)

def slice_segs(t,lo,n):
    """segments of t[lo:lo+n], with normalised atoms"""
    if t.k=='c': return [(n,frozenset(),(t.a[0]>>lo)&mask(n))]
    if t.k=='bits':
        out=[]; pos=0
        for sn,s,c in t.a:
            a=max(lo,pos); b=min(lo+n,pos+sn)
            if a<b:
                if a==pos and b==pos+sn: out.append((sn,s,c))
                else:
                    out.extend(norm_seg(b-a,[(x,l+a-pos) for x,l in s],(c>>(a-pos))&mask(b-a)))
            pos+=sn
        return out
    return norm_seg(n,[(t,lo)],0)

def norm_seg(n,atoms,c):
    """normalise a segment whose atoms may need pushing; returns list of segs"""
    res=[(n,frozenset(),c)]
    simple=set(); rest=[]
    for x,l in atoms:
        if x.k in('bits','c'): rest.append(slice_segs(x,l,n)); continue
        if n==x.w:
            y=x
        else:
            z=(zm(x)>>l)&mask(n)
            if z==mask(n): continue
            if z>>(n-1)&1 or z&1:
                # split off known-zero ends
                lo0=0
                while (z>>lo0)&1: lo0+=1
                hi0=n
                while (z>>(hi0-1))&1: hi0-=1
                sg=[]
                if lo0: sg.append((lo0,frozenset(),0))
                sg.extend(_push(x,l+lo0,hi0-lo0))
                if hi0<n: sg.append((n-hi0,frozenset(),0))
                rest.append(sg); continue
            p=_push(x,l,n)
            if len(p)==1 and p[0][2]==0 and len(p[0][1])==1:
                (y,l2),=p[0][1]
                e=(y,l2)
                if e in simple: simple.remove(e)
                else: simple.add(e)
            else: rest.append(p)
            continue
        e=(y,l)
        if n==y.w and (zm(y)&mask(n)) and not (y.k=='ite'):
            z=zm(y)
            if z>>(n-1)&1 or z&1:
                lo0=0
                while (z>>lo0)&1: lo0+=1
                hi0=n
                while (z>>(hi0-1))&1: hi0-=1
                if lo0==0 and False: pass
                sg=[]
                if lo0: sg.append((lo0,frozenset(),0))
                sg.extend(_push(y,lo0,hi0-lo0))
                if hi0<n: sg.append((n-hi0,frozenset(),0))
                if not(len(sg)==1):
                    rest.append(sg); continue
        if e in simple: simple.remove(e)
        else: simple.add(e)
    base=[(n,frozenset(simple),c)]
    for r in rest: base=xor_segs(base,r)
    return base
def _push(x,l,n):
    """slice of a non-bits atom, n<x.w"""
    if n==x.w and l==0: return [(n,frozenset(((x,0),)),0)]
    k=x.k
    if k in('lin','mul') and l+n<x.w:
        y=trunc(x,l+n)
        if l==0:
            if y.k not in('bits','c'): return [(n,frozenset(((y,0),)),0)]
            return list(segs(y))
        return slice_segs(y,l,n)
    if k=='lin' and l:
        tz=0
        for _,c in x.a[0]: tz|=c&-c
        s=min((tz&-tz).bit_length()-1,l)
        if s:
            y=lin_add([(trunc(z,x.w-s),c>>s) for z,c in x.a[0]],x.a[1]>>s,x.w-s)
            return slice_segs(y,l-s,n)
    if k=='ite':
        a=extract(x.a[1],l,n); b=extract(x.a[2],l,n)
        y=ite(x.a[0],a,b)
        if y.k in('bits','c'): return list(segs(y))
        return [(n,frozenset(((y,0),)),0)]
    if k=='and':
        y=None
        for z in x.a:
            e=extract(z,l,n); y=e if y is None else and_(y,e)
        if y.k in('bits','c'): return list(segs(y))
        return [(n,frozenset(((y,0),)),0)]
    return [(n,frozenset(((x,l),)),0)]

def _cut(s,n):
    """split segment s at n"""
    m,a,c=s
    return norm_seg(n,list(a),c&mask(n)), norm_seg(m-n,[(x,l+n) for x,l in a],c>>n)

def xor_segs(A,B):
    A=list(A); B=list(B); out=[]; i=j=0
    A.reverse(); B.reverse()
    while A:
        a=A.pop(); b=B.pop()
        if a[0]!=b[0]:
            if a[0]>b[0]:
                x,y=_cut(a,b[0])
                A.extend(reversed(y)); A.extend(reversed(x)); B.append(b); 
            else:
                x,y=_cut(b,a[0])
                B.extend(reversed(y)); B.extend(reversed(x)); A.append(a)
            continue
        out.append((a[0],a[1]^b[1],a[2]^b[2]))
    return out

def mk_bits(sg,w):
    """canonical term from segments"""
    # merge
    out=[]
    for s in sg:
        while out:
            p=out[-1]
            m=_merge(p,s)
            if m is None: break
            out.pop(); s=m
        out.append(s)
    if len(out)==1:
        n,a,c=out[0]
        if not a: return const(c,n)
        if len(a)==1:
            (x,l),=a
            if l==0 and x.w==n:
                if c==0: return x
                if x.k=='lin' and c==mask(n): return lin({y:-k for y,k in x.a[0]},-x.a[1]-1,n)
                if x.k=='lin' and c==1<<(n-1): return lin(dict(x.a[0]),x.a[1]+c,n)
    elif len(out)<=3:
        y=None; pos=0; z=0
        for n,a,c in out:
            if c: y=None; break
            if a:
                if len(a)!=1 or y is not None: y=None; break
                (x,l),=a
                if l!=pos or x.w!=w: y=None; break
                y=x
            else: z|=mask(n)<<pos
            pos+=n
        if y is not None and pos==w and z&~zm(y)==0: return y
    return _mk('bits',w,tuple(out))
def _merge(p,s):
    pn,pa,pc=p; n,a,c=s
    if not pa and not a: return (pn+n,pa,pc|c<<pn)
    if len(pa)!=len(a) or not a: return None
    q=[]
    for x,l in a:
        if l<pn: return None
        q.append((x,l-pn))
    fs=frozenset(q)
    if fs==pa: ok=True
    else:
        ok=False
        # atoms may have been pushed (truncated) in the low part
        low=norm_seg(pn,q,0)
        if len(low)==1 and low[0][1]==pa and low[0][2]==0: ok=True
    if not ok: return None
    m=norm_seg(pn+n,q,pc|c<<pn)
    if len(m)==1: return m[0]
    return None

def extract(t,lo,n):
    if lo==0 and n==t.w: return t
    if lo==0: return trunc(t,n)
    return mk_bits(slice_segs(t,lo,n),n)
_memo_tr={}
def trunc(t,n):
    if n==t.w: return t
    key=(t,n)
    r=_memo_tr.get(key)
    if r is None:
        k=t.k
        if k=='c': r=const(t.a[0],n)
        elif k=='lin':
            r=lin_add([(trunc(x,n),c) for x,c in t.a[0]],t.a[1],n)
        elif k=='mul': r=mul(trunc(t.a[0],n),trunc(t.a[1],n))
        else: r=mk_bits(slice_segs(t,0,n),n)
        _memo_tr[key]=r
    return r
_memo_zext={}
def zext(t,w):
    if w==t.w: return t
    key=(t,w)
    r=_memo_zext.get(key)
    if r is None:
        if t.k=='c': r=const(t.a[0],w)
        else:
            if t.k=='v' : pass
            r=None
            if t.k=='lin':
                # no-wrap affine over variables that were themselves truncations of wide ones
                ar=affine_rng(t)
                if ar and ar[0]>=0 and ar[1]<=mask(t.w):
                    m,c=affine(t)
                    ok=True; parts=[]
                    for x,k in m.items():
                        zx=zext(x,w)
                        parts.append((zx,k))
                    r=lin_add(parts,c,w)
            if r is None:
                sg=[s for s in segs(t)]
                if len(sg)==1 and len(sg[0][1])==1 and sg[0][2]==0:
                    (x,l),=sg[0][1]; sg=norm_seg(t.w,[(x,l)],0)
                r=mk_bits(xnorm(list(sg)+[(w-t.w,frozenset(),0)]),w)
        _memo_zext[key]=r
    return r
def xnorm(sg): return sg
def unzext(t): 
    return t
def sext(t,w):
    if t.k=='c': return const(sgn(t.a[0],t.w),w)
    if zm(t)>>(t.w-1)&1: return zext(t,w)
    if t.k=='lin':
        ar=affine_rng(t)
        if ar and ar[0]>=-(1<<(t.w-1)) and ar[1]<(1<<(t.w-1)):
            m,c=affine(t)
            return lin_add([(zext(x,w),k) for x,k in m.items()],c,w)
    if t.w==1: return neg(zext(t,w))
    # x ^ signbit - signbit
    s=1<<(t.w-1)
    return add(zext(xor(t,const(s,t.w)),w),const(-s,w))

def xor(x,y):
    if x is y: return const(0,x.w)
    if isc(x) and isc(y): return const(x.a[0]^y.a[0],x.w)
    if isc(x) and x.a[0]==0: return y
    if isc(y) and y.a[0]==0: return x
    return mk_bits(xor_segs(segs(x),segs(y)),x.w)
def not_(x): return xor(x,const(mask(x.w),x.w))
def and_(x,y):
    if x is y: return x
    if isc(y): x,y=y,x
    if isc(x):
        m=x.a[0]
        if isc(y): return const(m&y.a[0],x.w)
        if m==mask(x.w) or (~m&mask(x.w)&~zm(y))==0: return y
        sg=[]; pos=0; w=x.w
        while pos<w:
            b=(m>>pos)&1; e=pos
            while e<w and (m>>e)&1==b: e+=1
            if b: sg.extend(slice_segs(y,pos,e-pos))
            else: sg.append((e-pos,frozenset(),0))
            pos=e
        return mk_bits(sg,w)
    if zm(x)|zm(y)==mask(x.w): return const(0,x.w)
    A=list(segs(x)); B=list(segs(y))
    if len(A)==1 and len(B)==1:
        if x.w==1:
            # boolean absorption
            if not_(x) is y: return const(0,1)
        fl=[]
        for z in (x,y):
            if z.k=='and': fl.extend(z.a)
            else: fl.append(z)
        fl=sorted(set(fl),key=lambda z:z.id)
        if x.w==1:
            st=set(fl)
            for z in fl:
                if not_(z) in st: return const(0,1)
        if len(fl)==1: return fl[0]
        return _mk('and',x.w,tuple(fl))
    out=[]; pos=0; cuts={0}
    for S in (A,B):
        p=0
        for s in S: p+=s[0]; cuts.add(p)
    cuts=sorted(cuts)
    for a,b in zip(cuts,cuts[1:]):
        out.extend(segs(and_(extract(x,a,b-a),extract(y,a,b-a))))
    return mk_bits(out,x.w)
def or_(x,y):
    if x is y: return x
    if zm(x)|zm(y)==mask(x.w): return xor(x,y)
    if isc(x): x,y=y,x
    if isc(y):
        # set bits
        m=y.a[0]
        if m==mask(x.w): return y
        return xor(and_(x,const(~m,x.w)),y)
    if x.w==1: return not_(and_(not_(x),not_(y)))
    return xor(xor(x,y),and_(x,y))
def shl(x,k):
    if k==0: return x
    if k>=x.w: return const(0,x.w)
    if x.k=='lin': return lin({y:c<<k for y,c in x.a[0]},x.a[1]<<k,x.w)
    return mk_bits([(k,frozenset(),0)]+slice_segs(x,0,x.w-k),x.w)
def lshr(x,k):
    if k==0: return x
    if k>=x.w: return const(0,x.w)
    return mk_bits(slice_segs(x,k,x.w-k)+[(k,frozenset(),0)],x.w)
def rotr(x,k):
    k%=x.w
    if k==0: return x
    return mk_bits(slice_segs(x,k,x.w-k)+slice_segs(x,0,k),x.w)
def concat(parts):
    """LSB-first list of terms"""
    sg=[]
    for p in parts: sg.extend(segs(p))
    return mk_bits(sg,sum(p.w for p in parts))
def bswap(x):
    n=x.w//8
    return concat([extract(x,8*(n-1-i),8) for i in range(n)])

# ---------------------------------------------------------------- lin
def lin_parts(t):
    """(list of (atom,coef)), const"""
    if t.k=='lin': return t.a[0],t.a[1]
    if t.k=='c': return (),t.a[0]
    if t.k=='bits':
        s=t.a
        if len(s)==1 and len(s[0][1])==1 and s[0][2]==mask(t.w):
            (x,l),=s[0][1]
            if l==0 and x.w==t.w: return ((x,-1),),-1
        w=t.w; pos=0; c=0; parts=[]
        for n,ss,k in s:
            if not ss: c|=k<<pos
            else:
                if len(ss)!=1 or k: parts=None; break
                (x,l),=ss
                if l or x.w!=w or not (pos+n==w or rng(x)[1]<=mask(n)): parts=None; break
                parts.append((x,1<<pos))
            pos+=n
        if parts: return tuple(parts),c
        if len(s)==2 and not s[0][1] and s[0][2]==0 and len(s[1][1])==1 and s[1][2]==0:
            (x,l),=s[1][1]
            if l==0 and x.w==s[1][0]:
                # (x zero-extended) << k : represent by the zero-extended atom when possible
                y=zext(x,t.w)
                return ((y,1<<s[0][0]),) if y.k!='lin' else tuple((z,c<<s[0][0]) for z,c in y.a[0]),(0 if y.k!='lin' else y.a[1]<<s[0][0])
            if l==0 and x.w==t.w: return ((x,1<<s[0][0]),),0
    return ((t,1),),0
def lin_add(parts,c,w):
    d={}
    for t,k in parts:
        p,pc=lin_parts(t)
        c+=pc*k
        for x,kk in p: d[x]=d.get(x,0)+kk*k
    return lin(d,c,w)
def lin(d,c,w):
    m=mask(w); c&=m
    it=[]
    for x,k in d.items():
        k&=m
        if k: it.append((x,k))
    if not it: return const(c,w)
    if len(it)==1:
        x,k=it[0]
        if k==1 and c==0: return x
        if k==m and c==m: return mk_bits([(w,frozenset(((x,0),)),m)],w) if x.k!='bits' else xor(x,const(m,w))
        if c==0 and k&(k-1)==0:
            return mk_bits([(k.bit_length()-1,frozenset(),0)]+slice_segs(x,0,w-k.bit_length()+1),w)
        if k==1 and c and ((zm(x)&c)==c or c==1<<(w-1) and x.k!='lin'): return xor(x,const(c,w))
    if len(it)>1 or c:
        # disjoint sum -> bit concatenation
        tot=0; ok=True
        for x,k in it:
            if k&(k-1): ok=False; break
            s=k.bit_length()-1
            nz=((~zm(x)&m)<<s)&m
            if nz&tot: ok=False; break
            tot|=nz
        if ok and not(c&tot):
            r=const(c,w)
            for x,k in it:
                s=k.bit_length()-1
                r=xor(r,x if s==0 else mk_bits([(s,frozenset(),0)]+slice_segs(x,0,w-s),w))
            return r
    it.sort(key=lambda e:e[0].id)
    return _mk('lin',w,(tuple(it),c))
def add(x,y): return lin_add([(x,1),(y,1)],0,x.w)
def sub(x,y):
    if x is y: return const(0,x.w)
    return lin_add([(x,1),(y,-1)],0,x.w)
def neg(x): return lin_add([(x,-1)],0,x.w)
def addc(x,c): return lin_add([(x,1)],c,x.w)
def scale(x,k): return lin_add([(x,k)],0,x.w)
def mul(x,y):
    if isc(x): return scale(y,x.a[0])
    if isc(y): return scale(x,y.a[0])
    # factor integer multiples
    a,b=sorted((x,y),key=lambda z:z.id)
    return _mk('mul',x.w,(a,b))
def mulfull(x,y):
    """(low, high) of the 2w-bit product"""
    w=x.w
    p=mul(zext(x,2*w),zext(y,2*w))
    return trunc(p,w),extract(p,w,w)

# ---------------------------------------------------------------- boolean / compare
def cmp(pred,x,y):
    """eq, ne, ult, ule, ugt, uge, slt, sle, sgt, sge"""
    if pred=='ne': return not_(cmp('eq',x,y))
    if pred=='ugt': return cmp('ult',y,x)
    if pred=='sgt': return cmp('slt',y,x)
    if pred=='uge': return not_(cmp('ult',x,y))
    if pred=='ule': return not_(cmp('ult',y,x))
    if pred=='sge': return not_(cmp('slt',x,y))
    if pred=='sle': return not_(cmp('slt',y,x))
    w=x.w
    if pred=='eq':
        if x is y: return const(1,1)
        if isc(x) and isc(y): return const(int(x.a[0]==y.a[0]),1)
        d=sub(x,y)
        if isc(d): return const(int(d.a[0]==0),1)
        r=affine_rng(d)
        if r and (r[0]>0 or r[1]<0) and r[0]>-(1<<w) and r[1]<(1<<w): return const(0,1)
        a,b=rng(x),rng(y)
        if a[1]<b[0] or b[1]<a[0]: return const(0,1)
        if w==1: return not_(xor(x,y))
        if isc(x): x,y=y,x
        if isc(y):
            c=y.a[0]
            if zm(x)&c: return const(0,1)
            if x.k=='ite' and isc(x.a[1]) and isc(x.a[2]):
                p=x.a[1].a[0]==c; q=x.a[2].a[0]==c
                return const(1,1) if p and q else const(0,1) if not p and not q else (x.a[0] if p else not_(x.a[0]))
            if x.k=='bits':
                # strip known-zero / constant segments
                z=~zm(x)&mask(w)
                if z and z&(z-1)==0:
                    b=extract(x,z.bit_length()-1,1)
                    return b if c else not_(b)
                if not x.a[-1][1] and len(x.a)==2:
                    n=x.a[0][0]
                    if c>>n==x.a[-1][2]: return cmp('eq',trunc(x,n),const(c,n))
                    return const(0,1)
        else:
            if x.id>y.id: x,y=y,x
        return _mk('cmp',1,('eq',x,y))
    if x is y: return const(0,1)
    if pred=='ult':
        a,b=rng(x),rng(y)
        if a[1]<b[0]: return const(1,1)
        if a[0]>=b[1]: return const(0,1)
        lo,hi=diff_rng(uexact(x),uexact(y))
        if hi<0: return const(1,1)
        if lo>=0: return const(0,1)
        if isc(y) and y.a[0]==1: return cmp('eq',x,const(0,w))
        if isc(x) and x.a[0]==0: return not_(cmp('eq',y,x))
        return _mk('cmp',1,('ult',x,y))
    if pred=='slt':
        xe,ye=sexact(x),sexact(y)
        if xe and ye:
            lo,hi=diff_rng(xe,ye)
            if hi<0: return const(1,1)
            if lo>=0: return const(0,1)
        if isc(x) and isc(y): return const(int(sgn(x.a[0],w)<sgn(y.a[0],w)),1)
        return _mk('cmp',1,('slt',x,y))
    raise ValueError(pred)
def ite(c,x,y):
    if x is y: return x
    if isc(c): return x if c.a[0] else y
    if x.w==1:
        return xor(and_(c,x),and_(not_(c),y))
    # canonical polarity: complemented conditions are flipped
    if c.k=='bits' and len(c.a)==1 and c.a[0][2]==1: c,x,y=not_(c),y,x
    if x.k=='ite' and x.a[0] is c: x=x.a[1]
    if y.k=='ite' and y.a[0] is c: y=y.a[2]
    if x is y: return x
    if isc(x) and isc(y):
        if x.a[0]==1 and y.a[0]==0: return zext(c,x.w)
        if x.a[0]==0 and y.a[0]==1: return zext(not_(c),x.w)
    return _mk('ite',x.w,(c,x,y))
def uf(name,w,*args): return _mk('uf',w,(name,)+args)

# ---------------------------------------------------------------- AES (exact, for constants and evaluation)
def _aes_tables():
    p=q=1; sb=[0]*256
    while True:
        p=p^((p<<1)&255)^(0x1b if p&128 else 0)
        q^=(q<<1)&255; q^=(q<<2)&255; q^=(q<<4)&255
        if q&128: q^=9
        r=lambda x,n:((x<<n)|(x>>(8-n)))&255
        sb[p]=q^r(q,1)^r(q,2)^r(q,3)^r(q,4)^0x63
        if p==1: break
    sb[0]=0x63
    inv=[0]*256
    for i,v in enumerate(sb): inv[v]=i
    return sb,inv
SB,ISB=_aes_tables()
def _xt(a): return ((a<<1)^(0x1b if a&128 else 0))&255
def _gm(a,b):
    r=0
    while b:
        if b&1: r^=a
        a=_xt(a); b>>=1
    return r
def aesenc_i(s,k):
    b=[(s>>(8*i))&255 for i in range(16)]
    t=[SB[b[(i+4*(i%4))%16]] for i in range(16)]
    o=0
    for c in range(4):
        a=t[4*c:4*c+4]
        for r in range(4):
            v=_xt(a[r])^(_xt(a[(r+1)%4])^a[(r+1)%4])^a[(r+2)%4]^a[(r+3)%4]
            o|=v<<(8*(4*c+r))
    return o^k
def aesdec_i(s,k):
    b=[(s>>(8*i))&255 for i in range(16)]
    t=[ISB[b[(i-4*(i%4))%16]] for i in range(16)]
    o=0
    for c in range(4):
        a=t[4*c:4*c+4]
        for r in range(4):
            v=_gm(a[r],14)^_gm(a[(r+1)%4],11)^_gm(a[(r+2)%4],13)^_gm(a[(r+3)%4],9)
            o|=v<<(8*(4*c+r))
    return o^k
def aesenc(s,k):
    if isc(s) and isc(k): return const(aesenc_i(s.a[0],k.a[0]),128)
    return xor(uf('aesenc0',128,s),k)
def aesdec(s,k):
    if isc(s) and isc(k): return const(aesdec_i(s.a[0],k.a[0]),128)
    return xor(uf('aesdec0',128,s),k)

# ---------------------------------------------------------------- recurrences
def bx(i,w): return _mk('bx',w,(i,))
MOD=[32]   # stride of the loops being analysed: bounds iteration counters
def kmax(W): return (1<<(W-1))//MOD[0]-1
def bk(w): return _mk('bk',w,())

def make_folds(comps,K,N):
    """comps: list of (X symbol, init term, step term over X symbols and K).
    Returns list of fold terms: value of each component after N steps."""
    n=len(comps)
    if n==0: return []
    Xs=[c[0] for c in comps]
    idx={x:i for i,x in enumerate(Xs)}
    col=[('i',c[1].id,c[1].w) for c in comps]
    # colour refinement with renumbering
    def classes(col):
        d={}; out=[]
        for c in col: out.append(d.setdefault(c,len(d)))
        return out,len(d)
    # canonical colours: use representative order by sorted colour keys, colours are ints
    keys=sorted(set(col)); cm={k:i for i,k in enumerate(keys)}
    cur=[cm[c] for c in col]; ncl=len(keys)
    kk=bk(K.w)
    while True:
        mp={x:bx(('col',cur[idx[x]]),x.w) for x in Xs}; mp[K]=kk
        sig=[(cur[i],subst(comps[i][2],mp).id) for i in range(n)]
        keys=sorted(set(sig)); cm={k:i for i,k in enumerate(keys)}
        new=[cm[s] for s in sig]
        if len(keys)==ncl: break
        cur=new; ncl=len(keys)
    # dependency closure on classes
    rep={}
    for i in range(n): rep.setdefault(cur[i],i)
    dep={}
    for c,i in rep.items():
        fv=free(comps[i][2]); dep[c]={cur[idx[x]] for x in fv if x in idx}
    res={}
    for c in rep:
        reach={c}; st=[c]
        while st:
            y=st.pop()
            for z in dep[y]:
                if z not in reach: reach.add(z); st.append(z)
        order=sorted(reach)          # colours are canonical: independent of naming
        # order canonical w.r.t. root: relabel by signature (init id, then colour)
        pos={z:j for j,z in enumerate(order)}
        mp={x:bx(pos[cur[idx[x]]],x.w) for x in Xs if cur[idx[x]] in pos}; mp[K]=kk
        sysm=tuple((comps[rep[z]][1],subst(comps[rep[z]][2],mp)) for z in order)
        r=comps[rep[c]]
        res[c]=fold_term(pos[c],sysm,N,r[1].w)
    return [res[cur[i]] for i in range(n)]
def fold_term(i,sysm,N,w):
    if isc(N) and N.a[0]==0: return sysm[i][0]
    # canonical order of the system: by (init id, step shape) can differ between two
    # runs with different unreachable parts, so sort by an order-free key
    perm=_canon_perm(i,sysm)
    if perm is not None:
        inv={old:new for new,old in enumerate(perm)}
        mp={bx(o,sysm[o][0].w):bx(inv[o],sysm[o][0].w) for o in range(len(sysm))}
        sysm=tuple((sysm[o][0],subst(sysm[o][1],mp)) for o in perm)
        i=inv[i]
    return _mk('fold',w,(i,sysm,N))
_rooted={}; RESETS.append(_rooted.clear)
def rooted(sysm,j):
    """(index, system) of component j alone, as make_folds would have named it"""
    r=_rooted.get((sysm,j))
    if r is None:
        reach={j}; st=[j]
        while st:
            for x in free(sysm[st.pop()][1]):
                if x.k=='bx' and x.a[0] not in reach: reach.add(x.a[0]); st.append(x.a[0])
        order=sorted(reach); pos={z:k for k,z in enumerate(order)}
        mp={bx(z,sysm[z][0].w):bx(pos[z],sysm[z][0].w) for z in order}
        sub=tuple((sysm[z][0],subst(sysm[z][1],mp)) for z in order)
        f=fold_term(pos[j],sub,var('N:',64,1,1<<40),sysm[j][0].w)
        r=_rooted[(sysm,j)]=(f.a[0],f.a[1])
    return r
def _canon_perm(root,sysm):
    n=len(sysm)
    if n==1: return None
    col=[(s[0].id,j==root) for j,s in enumerate(sysm)]
    keys=sorted(set(col)); cur=[keys.index(c) for c in col]; ncl=len(keys)
    while True:
        mp={bx(j,sysm[j][0].w):bx(('col',cur[j]),sysm[j][0].w) for j in range(n)}
        sig=[(cur[j],subst(sysm[j][1],mp).id) for j in range(n)]
        keys=sorted(set(sig)); cur=[keys.index(s) for s in sig]
        if len(keys)==ncl: break
        ncl=len(keys)
    perm=sorted(range(n),key=lambda j:(cur[j],j))
    return perm

# ---------------------------------------------------------------- traversal
def kids(t):
    k=t.k
    if k in('c','v','bx','bk'): return ()
    if k=='b': return (t.a[1],)
    if k=='lin': return [x for x,_ in t.a[0]]
    if k=='bits': return [x for s in t.a for x,_ in s[1]]
    if k in('and','mul','ite'): return t.a
    if k=='cmp': return t.a[1:]
    if k=='uf': return [x for x in t.a[1:] if isinstance(x,T)]
    if k=='fold': return [x for p in t.a[1] for x in p]+[t.a[2]]
    raise ValueError(k)
def free(t):
    """set of leaf terms (v, b, bx, bk) in t, cached"""
    r=t._fv
    if r is None:
        st=[t]; 
        while st:
            x=st[-1]
            if x._fv is not None: st.pop(); continue
            ks=kids(x)
            nd=[y for y in ks if y._fv is None]
            if nd: st.extend(nd); continue
            st.pop()
            if x.k in('v','bx','bk'): x._fv=frozenset((x,))
            else:
                s=set()
                if x.k=='b': s.add(x)
                for y in ks: s|=y._fv
                x._fv=frozenset(s)
        r=t._fv
    return r
def subst(t,mp,memo=None):
    if memo is None: memo={}
    keys=set(mp)
    def go(t):
        r=mp.get(t)
        if r is not None: return r
        r=memo.get(t)
        if r is not None: return r
        fv=free(t)
        if fv.isdisjoint(keys) and not any(k.k not in('v','b','bx','bk') for k in keys):
            memo[t]=t; return t
        k=t.k
        if k in('c','v','bx','bk'): r=t
        elif k=='b': r=byte(t.a[0],go(t.a[1]))
        elif k=='lin': r=lin_add([(go(x),c) for x,c in t.a[0]],t.a[1],t.w)
        elif k=='bits':
            sg=[]
            for n,s,c in t.a:
                b=[(n,frozenset(),c)]
                for x,l in s: b=xor_segs(b,slice_segs(go(x),l,n))
                sg.extend(b)
            r=mk_bits(sg,t.w)
        elif k=='and':
            r=None
            for x in t.a:
                y=go(x); r=y if r is None else and_(r,y)
        elif k=='mul': r=mul(go(t.a[0]),go(t.a[1]))
        elif k=='ite': r=ite(go(t.a[0]),go(t.a[1]),go(t.a[2]))
        elif k=='cmp': r=cmp(t.a[0],go(t.a[1]),go(t.a[2]))
        elif k=='uf':
            args=[go(x) if isinstance(x,T) else x for x in t.a[1:]]
            if t.a[0]=='aesenc0' and isc(args[0]): r=const(aesenc_i(args[0].a[0],0),128)
            elif t.a[0]=='aesdec0' and isc(args[0]): r=const(aesdec_i(args[0].a[0],0),128)
            elif t.a[0] in('cdiv',) and isc(args[0]): r=cdiv(args[0],t.a[2])
            else: r=uf(t.a[0],t.w,*args)
        elif k=='fold':
            # bound variables are shielded: systems are closed except for outer symbols
            sysm=tuple((go(p),_subst_step(q,mp)) for p,q in t.a[1])
            r=fold_term(t.a[0],sysm,go(t.a[2]),t.w)
        else: raise ValueError(k)
        memo[t]=r
        return r
    return go(t)
def _subst_step(q,mp):
    m2={k:v for k,v in mp.items() if k.k not in('bx','bk')}
    return subst(q,m2) if m2 else q
def cdiv(t,b):
    """ceil(signed t / b) clamped at 0, b positive int"""
    if isc(t): return const(max(0,-((-sgn(t.a[0],t.w))//b)),t.w)
    return uf('cdiv',t.w,t,b)

# ---------------------------------------------------------------- evaluation
class TooBig(Exception): pass
import hashlib
def h64(*a):
    return int.from_bytes(hashlib.blake2b(repr(a).encode(),digest_size=16).digest(),'little')
class Eval:
    """assigns pseudo-random values to the leaves of terms and evaluates them.
    fixed: dict leaf-> value.  bytes: keyed by (object, numeric offset)."""
    def __init__(self,seed,fixed=None,bytefn=None,uffn=None,maxfold=3000,hashfold=False):
        self.seed=seed; self.fixed=dict(fixed or {}); self.bytefn=bytefn; self.uffn=uffn; self.memo={}; self.maxfold=maxfold; self.hashfold=hashfold; self.anchors=()
        self.bytes={}; self.foldvals={}
    def leaf(self,t):
        if t.k=='v':
            v=self.fixed.get(t)
            if v is None: v=self.fixed.get(t.a[0])
            if v is None:
                lo,hi=t.a[1],t.a[2]
                v=lo+h64(self.seed,'v',t.a[0])%(hi-lo+1)
            return v&mask(t.w) if t.a[1]==0 and t.a[2]==mask(t.w) else v
        raise ValueError(t.k)
    def rdbyte(self,obj,off):
        if self.bytefn:
            r=self.bytefn(obj,off)
            if r is not None: return r
        return h64(self.seed,'b',obj,off)&255
    def ev(self,t,memo=None):
        memo=self.memo if memo is None else memo
        r=memo.get(t)
        if r is not None: return r
        # iterative post-order
        st=[t]
        while st:
            x=st[-1]
            if x in memo: st.pop(); continue
            k=x.k
            if k=='c': memo[x]=x.a[0]; st.pop(); continue
            if k=='v': memo[x]=self.leaf(x); st.pop(); continue
            if k=='fold':
                N=self.ev(x.a[2],memo)
                memo[x]=self.fold(x,N,memo); st.pop(); continue
            if k=='ite':
                if x.a[0] not in memo: st.append(x.a[0]); continue
                y=x.a[1] if memo[x.a[0]] else x.a[2]
                if y not in memo: st.append(y); continue
                memo[x]=memo[y]; st.pop(); continue
            ks=kids(x); nd=[y for y in ks if y not in memo]
            if nd: st.extend(nd); continue
            st.pop()
            m=mask(x.w)
            if k=='b':
                off=memo[x.a[1]]; off=sgn(off,x.a[1].w); r=self.rdbyte(x.a[0],off)
            elif k=='lin':
                r=x.a[1]
                for y,c in x.a[0]: r+=memo[y]*c
                r&=m
            elif k=='bits':
                r=0; pos=0
                for n,s,c in x.a:
                    v=c
                    for y,l in s: v^=(memo[y]>>l)
                    r|=(v&mask(n))<<pos; pos+=n
            elif k=='and':
                r=m
                for y in x.a: r&=memo[y]
            elif k=='mul': r=memo[x.a[0]]*memo[x.a[1]]&m
            elif k=='cmp':
                p,a,b=x.a; va,vb=memo[a],memo[b]
                r=int(va==vb) if p=='eq' else int(va<vb) if p=='ult' else int(sgn(va,a.w)<sgn(vb,b.w))
            elif k=='uf': r=self.uf(x,[memo[y] if isinstance(y,T) else y for y in x.a[1:]])&m
            else: raise ValueError('unbound '+k)
            memo[x]=r
        return memo[t]
    def uf(self,x,args):
        n=x.a[0]
        if n=='aesenc0': return aesenc_i(args[0],0)
        if n=='aesdec0': return aesdec_i(args[0],0)
        if n=='cdiv': return max(0,-((-sgn(args[0],x.a[1].w))//args[1]))
        if n in('shl','lshr','ashr','udiv','urem','sdiv','srem'):
            a,b=args; w=x.w
            if n=='shl': return (a<<b)&mask(w) if b<w else 0
            if n=='lshr': return a>>b if b<w else 0
            if n=='ashr': return (sgn(a,w)>>min(b,w-1))&mask(w)
            if n=='udiv': return a//b if b else 0
            if n=='urem': return a%b if b else 0
            sa,sb=sgn(a,w),sgn(b,w)
            if not sb: return 0
            q=abs(sa)//abs(sb); q=-q if (sa<0)!=(sb<0) else q
            return (q if n=='sdiv' else sa-q*sb)&mask(w)
        if n=='ctlz': return x.w-args[0].bit_length()
        if n=='cttz': return x.w if args[0]==0 else (args[0]&-args[0]).bit_length()-1
        if n=='ctpop': return bin(args[0]).count('1')
        if self.uffn:
            r=self.uffn(x,n,args)
            if r is not None: return r
        return h64(self.seed,'uf',n,x.w,tuple(args))
    def fold(self,t,N,memo):
        i,sysm,Nt=t.a; base=0
        if N>self.maxfold:
            if not self.hashfold: raise TooBig()
            # the first `base` iterations are one opaque function of body, initial values and count; the rest is computed
            base=max([x for x in self.anchors if x<=N and N-x<=64],default=N)
        key=(sysm,N)
        vals=self.foldvals.get(key)
        if vals is None:
            vals=[self.ev(p,memo) for p,q in sysm]
            if base:
                new=[]
                for j in range(len(sysm)):
                    k,sub=rooted(sysm,j)
                    new.append(h64(self.seed,'fold',tuple(q.id for p,q in sub),k,base,tuple(self.ev(p,memo) for p,q in sub))&mask(sub[k][1].w))
                vals=new
            kk=[x for q in sysm for x in free(q[1]) if x.k=='bk']
            kt=kk[0] if kk else None
            outer={}
            for K in range(base,N):
                m2={}
                for j,(p,q) in enumerate(sysm): m2[bx(j,p.w)]=vals[j]
                if kt is not None: m2[kt]=K
                vals=[self.ev(q,m2) for p,q in sysm]
            self.foldvals[key]=vals
        return vals[i]

def anchor(evs,tss):
    """common starting counts for the opaque part of long loops, so that counts a few apart stay comparable"""
    ns=set()
    for E,ts in zip(evs,tss):
        seen=set(); st=list(ts)
        while st:
            x=st.pop()
            if x in seen: continue
            seen.add(x); st.extend(kids(x))
            if x.k=='fold':
                try: ns.add(E.ev(x.a[2]))
                except TooBig: pass
    r=[]
    for n in sorted(ns):
        if not r or n-r[-1]>32: r.append(n)
    for E in evs: E.anchors=tuple(r)

def show(t,d=4):
    k=t.k
    if k=='c': return f"{t.a[0]:#x}"
    if k=='v': return t.a[0]
    if d<=0: return f"#{t.id}"
    s=lambda x:show(x,d-1)
    if k=='b': return f"{t.a[0]}[{s(t.a[1])}]"
    if k=='lin': return "("+"+".join((f"{sgn(c,t.w)}*" if c!=1 else "")+s(x) for x,c in t.a[0])+(f"+{sgn(t.a[1],t.w)}" if t.a[1] else "")+f"):{t.w}"
    if k=='bits': return "{"+"|".join(f"{n}:"+"^".join([f"{s(x)}[{l}]" for x,l in ss]+([f"{c:#x}"] if c or not ss else [])) for n,ss,c in t.a)+"}"
    if k in('and','mul'): return f"{k}("+",".join(map(s,t.a))+")"
    if k=='ite': return f"ite({s(t.a[0])},{s(t.a[1])},{s(t.a[2])})"
    if k=='cmp': return f"({s(t.a[1])} {t.a[0]} {s(t.a[2])})"
    if k=='uf': return f"{t.a[0]}("+",".join(s(x) if isinstance(x,T) else str(x) for x in t.a[1:])+")"
    if k=='fold': return f"fold{t.a[0]}#{t.id}(N={s(t.a[2])})"
    return f"{k}{t.a}"

def size(t,cap=400):
    seen=set(); st=[t]
    while st and len(seen)<cap:
        x=st.pop()
        if x in seen: continue
        seen.add(x); st.extend(kids(x))
    return len(seen)

def dumpdiff(a,b,depth=0,seen=None):
    """development aid: descend to the first structural differences"""
    seen=set() if seen is None else seen
    if a is b or (a.id,b.id) in seen: return
    seen.add((a.id,b.id))
    if isinstance(a,tuple): 
        for x,y in zip(a,b): dumpdiff(x,y,depth,seen)
        return
    if a.k!=b.k or a.w!=b.w: print(' '*depth,'KIND',a.k,a.w,show(a,3),'|||',b.k,b.w,show(b,3)); return
    if a.k=='fold':
        if a.a[0]!=b.a[0]: print(' '*depth,'fold index',a.a[0],b.a[0])
        if len(a.a[1])!=len(b.a[1]): print('fold size',len(a.a[1]),len(b.a[1])); return
        if a.a[2] is not b.a[2]: print(' '*depth,'N',a.a[2],b.a[2])
        for i,(p,q) in enumerate(zip(a.a[1],b.a[1])):
            if p[0] is not q[0]: print(' '*depth,'init',i); dumpdiff(p[0],q[0],depth+1,seen)
            if p[1] is not q[1]: print(' '*depth,'step',i); dumpdiff(p[1],q[1],depth+1,seen)
        return
    ka=[x for x in kids(a)]; kb=[x for x in kids(b)]
    da=[x for x in ka if x not in kb]; db=[x for x in kb if x not in ka]
    if len(da)!=len(db) or not da: print(' '*depth,'SHAPE',show(a,3),'|||',show(b,3)); return
    for x,y in zip(da,db): dumpdiff(x,y,depth+1,seen)
