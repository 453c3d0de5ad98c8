"""Vectorised evaluation of (small) path-condition and offset terms over arrays of sample assignments."""
import numpy as np, terms as t
U=np.uint64
def m64(w): return U((1<<w)-1) if w<64 else U(0xffffffffffffffff)
class Vec:
    def __init__(s,n,env,rng):
        """env: leaf term -> uint64 array (leaves not listed get random values)"""
        s.n=n; s.memo=dict(env); s.rng=rng
    def leaf(s,x):
        lo,hi=(x.a[1],x.a[2]) if x.k=='v' else (0,255)
        span=hi-lo
        r=s.rng.integers(0,1<<63,size=s.n,dtype=np.uint64)
        if span<(1<<63)-1: r=r%U(span+1)
        return r+U(lo)
    def ev(s,x):
        r=s.memo.get(x)
        if r is not None: return r
        k=x.k; w=x.w
        if w>64: raise OverflowError('width')
        M=m64(w)
        with np.errstate(over='ignore'):
            if k=='c': r=np.full(s.n,x.a[0],dtype=np.uint64)
            elif k=='v': r=s.leaf(x)
            elif k=='b':
                r=s.leaf(x)
            elif k=='lin':
                r=np.full(s.n,x.a[1],dtype=np.uint64)
                for y,c in x.a[0]: r=r+s.ev(y)*U(c)
                r&=M
            elif k=='bits':
                r=np.zeros(s.n,dtype=np.uint64); pos=0
                for n,ss,c in x.a:
                    v=np.full(s.n,c,dtype=np.uint64)
                    for y,l in ss: v=v^(s.ev(y)>>U(l))
                    r|=(v&m64(n))<<U(pos); pos+=n
            elif k=='and':
                r=np.full(s.n,M,dtype=np.uint64)
                for y in x.a: r=r&s.ev(y)
            elif k=='mul': r=(s.ev(x.a[0])*s.ev(x.a[1]))&M
            elif k=='ite': r=np.where(s.ev(x.a[0])!=0,s.ev(x.a[1]),s.ev(x.a[2]))
            elif k=='cmp':
                p,a,b=x.a; va,vb=s.ev(a),s.ev(b)
                if p=='eq': r=va==vb
                elif p=='ult': r=va<vb
                else:
                    h=U(1<<(a.w-1)); r=(va^h)<(vb^h)
                r=r.astype(np.uint64)
            elif k=='uf' and x.a[0]=='cdiv':
                v=s.ev(x.a[1]); sg=(v>>U(x.a[1].w-1))&U(1)
                r=np.where(sg!=0,U(0),(v+U(x.a[2]-1))//U(x.a[2]))
            elif k=='uf' and x.a[0] in('lshr','shl','udiv','urem'):
                a,b=s.ev(x.a[1]),s.ev(x.a[2])
                if x.a[0]=='lshr': r=np.where(b<U(w),a>>(b%U(64)),U(0))
                elif x.a[0]=='shl': r=np.where(b<U(w),(a<<(b%U(64)))&M,U(0))
                else:
                    b1=np.where(b==0,U(1),b); r=a//b1 if x.a[0]=='udiv' else a%b1
            else: raise OverflowError('kind '+k)
        s.memo[x]=r
        return r
    def pc(s,pc):
        r=np.ones(s.n,dtype=bool)
        for c,b in pc: r&=(s.ev(c)!=0)==bool(b)
        return r
