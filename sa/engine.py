"""Class-by-class analysis of the hash functions: builds the abstract call, runs the interpreter, compares the
result with the independent formulation, and evaluates the access/effect obligations of the recorded events."""
import os, sys, time, random
import numpy as np
import terms as t, build, interp, spec, intform, vec, direct
from interp import Interp, Obj, Ptr, State, Imprecise, NULL
from terms import T, mask
Interp.LEMMAS=staticmethod(intform.lemmas)
FUN={'t1ha2_atonce':('t1ha2',32,2),'t1ha2_atonce128':('t1ha2',32,2),'t1ha1_le':('t1ha1',32,2),'t1ha1_be':('t1ha1',32,2),
     't1ha0_32le':('t1ha0',16,2),'t1ha0_32be':('t1ha0',16,2),
     't1ha0_ia32aes_noavx':('noavx',128,1),'t1ha0_ia32aes_avx':('avx',128,1),'t1ha0_ia32aes_avx2':('avx2',128,1)}
AES=['t1ha0_ia32aes_noavx','t1ha0_ia32aes_avx','t1ha0_ia32aes_avx2']
SEED=int(os.environ.get('VERIF_SEED','1') or 1)
TIER=os.environ.get('VERIF_TIER','quick')
SPLIT=1<<16        # lengths below / at or above this are separate symbolic classes

class Anchor(Exception): pass
def classes(fn,W,full=True):
    """length classes: every concrete length below M*Q0, then M*q+r for every r, q split in two ranges"""
    tu,M,Q0=FUN[fn]
    top=t.kmax(W)-64
    r=[('n',n) for n in range(M*Q0)]
    r+=[('q',k,Q0,SPLIT//M-1) for k in range(M)]
    r+=[('q',k,SPLIT//M,top) for k in range(M)]
    return r
def mklen(cl,M,W):
    if cl[0]=='n': return spec.Len(W,n=cl[1])
    return spec.Len(W,M=cl[4] if len(cl)>4 else M,q=t.var('q',W,cl[2],cl[3]),r=cl[1])
def clsname(cl,M): return f"len={cl[1]}" if cl[0]=='n' else f"len={cl[4] if len(cl)>4 else M}*q+{cl[1]}, q in [{cl[2]},{cl[3]}]"
def isbigcl(cl,M): return cl[0]=='q' and (len(cl)>4 or cl[2]>=SPLIT//M)
def wraps(cl,M,W,more=()):
    """lengths whose low half is a constant: what a truncated length would be then.  Used where a class of long
    lengths is not settled as a whole"""
    r=cl[1]; out=[]
    if W==64:
        for x in (r,*more,M+r,(1<<31)+r,(1<<32)-M+r): out.append(('q',x,1,1<<20,1<<32))
    out+=[('q',x,1,1<<10,1<<16) for x in (r,M+r,(1<<15)+r)]
    return list(dict.fromkeys(out))

class Run:
    """one analysed call"""
    def __init__(s,cfg,fn,cl,secrets=(),M=None):
        s.cfg=cfg; s.fn=fn; s.cl=cl
        tu,M0,Q0=FUN[fn]; s.M=M or M0; t.MOD[0]=s.M
        m=build.module(cfg,tu); s.m=m; s.W=W=m.ptrbits
        s.L=mklen(cl,s.M,W)
        s.ip=ip=Interp(m,secrets=secrets)
        if fn not in m.funcs or m.funcs[fn].decl: raise Anchor(f"{cfg}: {fn} is not defined in {tu}")
        s.data=Obj('data','data',ro=True); s.seed=t.var('seed',64)
        s.out=None
        args=[Ptr(s.data,t.const(0,W)),s.L.term,s.seed]
        if fn.endswith('128'):
            s.out=Obj('out','out',8,align=4 if cfg.startswith('i386') else 8); args=[Ptr(s.out,t.const(0,W))]+args
        s.err=None; s.got=None
        try: r=ip.run(fn,args)
        except Imprecise as e: s.err=str(e); return
        if r is None: s.err='no return'; s.dead=True; return
        s.got=(r[1],)
        if s.out is not None: s.got=(r[1],ip.rawload(r[2],s.out,t.const(0,W),8,64))
    dead=False
    def want(s):
        d=spec.obj('data',s.W)
        if s.fn.endswith('128'): return spec.t1ha2_atonce128(s.L,d,s.seed)
        return (spec.HASH[s.fn](s.L,d,s.seed),)

# ---------------------------------------------------------------- comparing results
CORN=[0,0xff]
def bytemode(mode,seed):
    if mode==0: return None
    def f(obj,off):
        if obj!='data' and not obj.startswith('ctx'): return None
        h=t.h64(seed,'bm',obj,off)
        if mode==1: return 0xff if h%8 else h>>8&255
        if mode==2: return 0 if h%8 else h>>8&255
        return (0,0xff,0x80,0x7f)[h&3]
    return f
def samefolds(a,b):
    """the loops of both sides may be replaced by one hash of (body, count, initial values): same bodies and initial
    values (the counts may differ), or same bodies and counts (the initial values may differ)"""
    A,B=foldsys(a),foldsys(b)
    if A==B or foldsys(a,True)==foldsys(b,True): return True
    # one side absorbs a long run of bytes in a loop, the other looks at a fixed number of bytes only
    return not(A and B) and all(any(x.k=='b' for p,q in m for x in t.free(q)) for m in A|B)
def foldsys(ts,steps=False):
    seen=set(); r=set(); st=list(ts)
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k=='fold': r.add((tuple(q for p,q in x.a[1]),x.a[2]) if steps else x.a[1])
        st.extend(t.kids(x))
    return r
def sample_diff(got,want,L,seed0,n=10,big=False,hashok=False,extra=None,fix=None,qs=None):
    """assigns values to the leaves and evaluates both sides.  returns a witness dict or None"""
    for i in range(n):
        fixed=dict(fix(i) if fix else {})
        if L is not None and L.n is None:
            q=L.q; lo,hi=q.a[1],q.a[2]
            if qs: v=lo+qs[i]
            elif not big: v=lo+[0,1,2,3,5][i%5]
            else:
                c=[lo,lo+1,(1<<31)//L.M,(1<<32)//L.M,(1<<32)//L.M+1,(1<<33)//L.M+3,hi-1,hi//2+1,hi//3]
                c=[x for x in c if lo<=x<=hi]; v=c[i%len(c)]
            fixed[q]=min(v,hi)
        E=t.Eval((seed0,i),fixed=fixed,bytefn=bytemode(i%4,(seed0,i)),maxfold=2200 if not big else 600,hashfold=hashok)
        if hashok: t.anchor((E,),(list(got)+list(want),))
        try:
            a=[E.ev(x) for x in got]; b=[E.ev(x) for x in want]
        except t.TooBig: continue
        if a!=b:
            return witness(E,a,b,L,i)
    return None
def compare(got,want,L,small_proven=True,seed0=None,n=10):
    """'proven' | ('differ',witness) | 'agree'"""
    if len(got)==len(want) and all(a is b for a,b in zip(got,want)): return 'proven',None
    seed0=seed0 or SEED
    big=L is not None and L.n is None and L.q.a[1]>=SPLIT//L.M
    if big:
        w=sample_diff(got,want,L,seed0,n=1)         # smallest member, evaluated in full
        if w: return 'differ',w
        if small_proven and samefolds(got,want):
            w=sample_diff(got,want,L,seed0,n=9,big=True,hashok=True)
            if w: w['note']='loop counts differ'; return 'differ',w
        return 'agree',None
    w=sample_diff(got,want,L,seed0,n=n)
    if not w and (L is None or L.n is not None or L.r in (0,1,L.M-1)):
        w=directed(got,want,L,seed0)
        if not w and L is not None and L.n is None: w=sample_diff(got,want,L,seed0+77,n=len(WIDE),qs=WIDE)
    return ('differ',w) if w else ('agree',None)
WIDE=(7,14,15,30,31,62,63,126,127,253,254,255,510,511)
def directed(got,want,L,seed0):
    def mk(i):
        def make(asg):
            fixed={k:v for k,v in asg.items() if not isinstance(k,tuple)}
            if L is not None and L.n is None and L.q not in fixed: fixed[L.q]=L.q.a[1]+(0,1,2,3)[i%4]
            bm=bytemode(i%4 if i<4 else 0,(seed0,i))
            def bf(o,k):
                v=asg.get((o,k))
                return v if v is not None else bm(o,k) if bm else None
            return t.Eval((seed0,i),fixed=fixed,bytefn=bf,maxfold=300)
        return make
    r=direct.search(got,want,mk)
    if not r: return None
    s,a,b=r
    return witness(s.E,a,b,L,'directed')
def witness(E,a,b,L,i):
    w=dict(got=[hex(x) for x in a],expected=[hex(x) for x in b],sample=i)
    if L is not None:
        n_=L.n if L.n is not None else L.M*E.leaf(L.q)+L.r
        w['len']=n_
        if n_<=4096: w['data']=bytes(E.bytefn('data',k) if E.bytefn and E.bytefn('data',k) is not None else E.rdbyte('data',k) for k in range(n_)).hex()
    w['seed']=hex(E.leaf(t.var('seed',64)))
    return w

def wrong_products(cfg):
    return [(k[2],v[1]) for k,v in intform.LOG.items() if k[0]==cfg and v[0]=='wrong']

def wrapped(cfg,fn,cl):
    M=FUN[fn][1]; W=32 if build.is32(build.C[cfg]) else 64
    if not isbigcl(cl,M) or cl[1] not in (0,1,7,8,13,M-1): return None
    for c2 in wraps(cl,M,W):
        R=Run(cfg,fn,c2)
        if R.err is not None: continue
        k,w=compare(R.got,R.want(),R.L)
        if k=='differ': return (clsname(c2,M),w)
    return None
def value_task(a):
    """(cfg, fn, classes) -> summary of the value comparison against the algorithm"""
    cfg,fn,cls=a; t0=time.time(); t.reset()
    res=dict(cfg=cfg,fn=fn,total=0,proven=0,agree=[],unproven=[],viol=[],steps=0,folds=0,fns=set())
    M=FUN[fn][1]; smallok={}
    build_err(cfg,fn)
    for cl in cls:
        res['total']+=1
        if len(res['viol'])>=3: continue
        R=Run(cfg,fn,cl); res['steps']+=R.ip.steps; res['folds']+=R.ip.nfolds; res['fns']|=R.ip.fns
        if R.err is None:
            k,w=compare(R.got,R.want(),R.L,small_proven=cl[0]=='n' or cl[2]<SPLIT//M or smallok.get(cl[1],False))
            if k=='proven': 
                res['proven']+=1
                if cl[0]=='q': smallok[cl[1]]=True
            elif k=='differ': res['viol'].append((clsname(cl,M),w))
            else:
                wp=wrong_products(cfg)
                if wp: res['viol'].append((clsname(cl,M),dict(product=wp[0])))
                else:
                    w=wrapped(cfg,fn,cl)
                    if w: res['viol'].append(w)
                    else: res['agree'].append(clsname(cl,M))
        elif R.dead: res['viol'].append((clsname(cl,M),dict(note='no path returns')))
        else:
            # representatives of the class, one at a time
            ok=False
            w=wrapped(cfg,fn,cl)
            if w: res['viol'].append(w); continue
            if cl[0]=='q' and cl[2]<SPLIT//M:
                for dq in (0,1,3):
                    c2=('n',M*(cl[2]+dq)+cl[1]); R2=Run(cfg,fn,c2)
                    if R2.err is None:
                        ok=True
                        k,w=compare(R2.got,R2.want(),R2.L)
                        if k=='differ': res['viol'].append((clsname(c2,M),w)); break
            (res['agree'] if ok else res['unproven']).append((clsname(cl,M)+' ('+R.err+')'))
    res['lemmas']={k[2]:v[0] for k,v in intform.LOG.items() if k[0]==cfg and v[0] in('proven','same','wrong')}
    res['t']=time.time()-t0; res['fns']=sorted(res['fns'])
    return res
def build_err(cfg,fn):
    build.module(cfg,FUN[fn][0])
