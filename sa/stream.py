"""Streaming t1ha2: the inductive step of t1ha2_update from an arbitrary valid context, t1ha2_init and t1ha2_final,
and concrete histories of calls used to confirm a discrepancy."""
import terms as t, build, spec, engine, intform, direct
from engine import SPLIT, SEED, compare, samefolds, Anchor
from interp import Interp, Obj, Ptr, State, Imprecise, NULL
FN3=('t1ha2_init','t1ha2_update','t1ha2_final')
PROBE='''#include "t1ha.h"
#include <stddef.h>
typedef t1ha_context_t C;
const size_t vp_lay[9]={offsetof(C,state.n.a),offsetof(C,state.n.b),offsetof(C,state.n.c),offsetof(C,state.n.d),
 offsetof(C,buffer.bytes),offsetof(C,partial),offsetof(C,total),sizeof(C),_Alignof(C)};
'''
_lay={}
def layout(cfg):
    r=_lay.get(cfg)
    if r is None:
        m=build.module(cfg,build.probe('layout',PROBE)); b=m.globals['vp_lay'].bytes; n=m.ptrbits//8; v=[]
        for i in range(9):
            x=[b[i*n+k] for k in range(n)]
            v.append(int.from_bytes(bytes(x),'big' if m.be else 'little'))
        r=_lay[cfg]=dict(st=v[:4],buf=v[4],par=v[5],tot=v[6],size=v[7],align=v[8])
    return r
def mk(cl,W,name='q'):
    if cl[0]=='n': return spec.Len(W,n=cl[1])
    return spec.Len(W,M=cl[4] if len(cl)>4 else 32,q=t.var(name,W,cl[2],cl[3]),r=cl[1])
def wraps(p,cl,W): return engine.wraps(cl,32,W,[x for x in sorted({0,1,31-p,32-p,33-p}) if x>=0]) if engine.isbigcl(cl,32) else []
def name(cl): return f"{cl[1]}" if cl[0]=='n' else f"{cl[4] if len(cl)>4 else 32}*q+{cl[1]} (q in [{cl[2]},{cl[3]}])"
ZTOP=(1<<59)-1
class Call:
    """an abstract context and the calls made on it (one interpreter; events accumulate)"""
    def __init__(s,cfg,secrets=()):
        t.MOD[0]=32; s.cfg=cfg; s.m=m=build.module(cfg,'t1ha2'); s.W=m.ptrbits; s.lay=layout(cfg)
        for f in FN3:
            if f not in m.funcs or m.funcs[f].decl: raise Anchor(f"{cfg}: {f} is not defined")
        s.ip=Interp(m,secrets=secrets); s.ctx=Obj('ctx','ctx',s.lay['size'],align=s.lay['align'])
        s.data=Obj('data','data',ro=True); s.out=None; s.st=State(); s.L=spec.Len(s.W,n=0); s.got=None; s.err=None; s.dead=False
    def z(s,v=0): return t.const(v,s.W)
    def wr(s,off,w,v): s.ip.rawstore(s.st,s.ctx,s.z(off),w//8,v)
    def opaque(s,p,total=None):
        """an arbitrary context with p pending bytes"""
        l=s.lay
        s.sv=[t.var(f'st{i}',64) for i in range(4)]
        for o,v in zip(l['st'],s.sv): s.wr(o,64,v)
        s.wr(l['par'],s.W,s.z(p))
        s.total=total if total is not None else t.addc(t.scale(t.var('z',64,0,ZTOP),32),p)
        s.wr(l['tot'],64,s.total); s.p=p
        return s
    def pend0(s): return spec.Data(lambda off: t.byte('ctx',t.addc(off,s.lay['buf'])),s.W)
    def call(s,fn,args):
        try: r=s.ip.run(fn,args,s.st)
        except Imprecise as e: s.err=str(e); return None
        if r is None: s.err='no return'; s.dead=True; return None
        s.st=r[2]; return r
    def init(s,x,y): return s.call('t1ha2_init',[Ptr(s.ctx,s.z()),x,y])
    def update(s,L,off=None,null=False):
        s.L=L
        return s.call('t1ha2_update',[Ptr(s.ctx,s.z()),Ptr(NULL,s.z()) if null else Ptr(s.data,off if off is not None else s.z()),L.term])
    def final(s,extra):
        s.out=Obj('out','out',8,align=4 if s.cfg.startswith('i386') else 8) if extra else None
        r=s.call('t1ha2_final',[Ptr(s.ctx,s.z()),Ptr(s.out,s.z()) if extra else Ptr(NULL,s.z())])
        if r is None: return None
        s.got=(r[1],) if not extra else (r[1],s.ip.rawload(s.st,s.out,s.z(),8,64))
        return s.got
    def rd(s,off,w): return s.ip.rawload(s.st,s.ctx,s.z(off),w//8,w)
    def fields(s):
        l=s.lay
        return [s.rd(o,64) for o in l['st']],s.rd(l['par'],s.W),s.rd(l['tot'],64)
    def pending(s,n): return [s.rd(s.lay['buf']+i,8) for i in range(n)]
def step(cfg,p,cl,secrets=()):
    """one update of length class cl from an arbitrary context with p pending bytes.
    returns (call, got=(state,partial,total,pending), want)"""
    c=Call(cfg,secrets); c.opaque(p); L=mk(cl,c.W)
    c.update(L)
    if c.err: return c,None,None
    s2,p2,pb=spec.t2_update(tuple(c.sv),p,c.pend0(),L,spec.obj('data',c.W))
    st,par,tot=c.fields()
    return c,(st,par,tot,c.pending(p2)),(list(s2),c.z(p2),t.add(c.total,L.z64()),pb)
def fin(cfg,p,extra,secrets=()):
    c=Call(cfg,secrets); c.opaque(p)
    g=c.final(extra)
    if c.err: return c,None,None
    w=spec.t2_final(tuple(c.sv),p,c.pend0(),c.total,c.W,extra)
    return c,g,(w if extra else (w[0],))
def ini(cfg,secrets=()):
    c=Call(cfg,secrets); x,y=t.var('x',64),t.var('y',64)
    c.init(x,y)
    if c.err: return c,None,None
    st,par,tot=c.fields()
    return c,(st,par,tot,[]),(list(spec.t2_init(x,y)),c.z(0),t.const(0,64),[])
# ---------------------------------------------------------------- histories from t1ha2_init
def history(cfg,chunks,extra):
    """init, updates with the given lengths (consecutive parts of one buffer), final; returns (call, result)"""
    c=Call(cfg); c.init(t.var('x',64),t.var('y',64)); off=c.z()
    for L in chunks:
        if c.err: return c,None
        c.update(L,off); off=t.add(off,L.term)
    if c.err: return c,None
    return c,c.final(extra)
def hist_want(W,chunks,extra):
    s=spec.t2_init(t.var('x',64),t.var('y',64)); p=0; pend=spec.Data(None,W); off=t.const(0,W); tot=t.const(0,64)
    for L in chunks:
        o=off; d=spec.Data(lambda f,o=o: t.byte('data',t.add(o,f)),W)
        s,p,pb=spec.t2_update(s,p,pend,L,d)
        pend=spec.Data(lambda f,pb=pb: pb[f.a[0]],W); off=t.add(off,L.term); tot=t.add(tot,L.z64())
    r=spec.t2_final(s,p,pend,tot,W,extra)
    return r if extra else (r[0],)
def differ(got,want,chunks,n=6):
    """evaluates both sides for sampled lengths and contents; a witness or None"""
    if len(got)==len(want) and all(a is b for a,b in zip(got,want)): return None
    qs=[L.q for L in chunks if L.n is None]; big=[L.q for L in chunks if L.n is None and L.q.a[1]>=SPLIT//L.M]; wr={L.q for L in chunks if L.n is None and L.M!=32}
    hashok=bool(big) and samefolds(got,want)
    if big and not hashok: return None
    if big: n=9
    for i in range(n):
        fixed={}
        for q in qs:
            lo,hi=q.a[1],q.a[2]
            if q in wr: v=lo+(0,1,2,76)[i%4]
            elif q in big and hashok:
                c=[(1<<27)-1,1<<27,(1<<27)+77,(1<<26)-1,1<<26,lo,lo+1,hi-1,hi//2+1]; c=[x for x in c if lo<=x<=hi]; v=c[i%len(c)]
            else: v=lo+(0,1,2,3,5)[i%5]
            fixed[q]=min(v,hi)
        E=t.Eval((SEED,i),fixed=fixed,bytefn=engine.bytemode(i%4,(SEED,i)),maxfold=300 if hashok else 2300,hashfold=hashok)
        if hashok: t.anchor((E,),(list(got)+list(want),))
        try: a=[E.ev(x) for x in got]; b=[E.ev(x) for x in want]
        except t.TooBig: continue
        if a!=b:
            ln=[L.n if L.n is not None else L.M*fixed[L.q]+L.r for L in chunks]
            w=dict(chunks=ln,got=[hex(x) for x in a],expected=[hex(x) for x in b],seed_x=hex(E.leaf(t.var('x',64))),seed_y=hex(E.leaf(t.var('y',64))))
            if sum(ln)<4096: w['data']=bytes(engine_byte(E,k) for k in range(sum(ln))).hex()
            return w
    if len(got)!=len(want): return None
    def mk(i):
        def make(asg):
            fixed={q:q.a[1]+i for q in qs}; fixed.update((k,v) for k,v in asg.items() if not isinstance(k,tuple))
            E=t.Eval((SEED,'d',i),fixed=fixed,bytefn=lambda o,k: asg.get((o,k)),maxfold=300,hashfold=hashok)
            if hashok: t.anchor((E,),(list(got)+list(want),))
            return E
        return make
    r=direct.search(list(got),list(want),mk)
    if r:
        s,a,b=r; ln=[L.n if L.n is not None else L.M*s.E.leaf(L.q)+L.r for L in chunks]
        return dict(chunks=ln,got=[hex(x) for x in a],expected=[hex(x) for x in b],seed_x=hex(s.E.leaf(t.var('x',64))),seed_y=hex(s.E.leaf(t.var('y',64))),data=bytes(engine_byte(s.E,k) for k in range(sum(ln))).hex() if sum(ln)<4096 else '')
    return None
def engine_byte(E,k):
    v=E.bytefn('data',k) if E.bytefn else None
    return E.rdbyte('data',k) if v is None else v
def top(W): return t.kmax(W)-64
def prefixes(p,W,last=False):
    """chunks that bring a context to p pending bytes: short, after two blocks, after 4 GiB"""
    r=[]
    if p: r.append([('n',p)])
    else: r.append([])
    r.append([('n',64+p)])
    if last: r.append([('q',p,2,SPLIT//32-1)])
    r.append([('q',p,SPLIT//32,top(W))])
    return r
def mkchunks(cls,W): return [mk(c,W,f'q{i}') for i,c in enumerate(cls)]
def confirm_spec(cfg,p,cl):
    """searches a history through (p pending, update of class cl) whose digest differs from the algorithm"""
    W=build.module(cfg,'t1ha2').ptrbits; tried=0
    for pre in prefixes(p,W,cl is None):
        ch=mkchunks(pre+([cl] if cl else []),W)
        for extra in (0,1):
            c,g=history(cfg,ch,extra)
            if c.dead: return dict(chunks=[repr(x) for x in ch],note='does not return'),tried
            if g is None: continue
            tried+=1
            w=differ(g,hist_want(W,ch,extra),ch)
            if w: w['extra_result']=bool(extra); return w,tried
    for c2 in wraps(p,cl,W) if cl else ():
        ch=mkchunks(([('n',p)] if p else [])+[c2],W)
        c,g=history(cfg,ch,0)
        if g is None: continue
        tried+=1; w=differ(g,hist_want(W,ch,0),ch)
        if w: w['extra_result']=False; return w,tried
    return None,tried
def confirm_chunk(cfg,p,cl):
    """searches for two chunkings of the same bytes with different digests"""
    W=build.module(cfg,'t1ha2').ptrbits; tried=0
    for p0 in (p,64+p):
        L2=mk(cl,W)
        if cl[0]=='q' and cl[2]>=SPLIT//32: break
        one=spec.Len(W,n=p0+L2.n) if L2.n is not None else spec.Len(W,M=32,q=L2.q,r=L2.r+p0)
        ways=[[spec.Len(W,n=p0),L2]]
        if L2.n is not None: ways.append([spec.Len(W,n=p0),L2,spec.Len(W,n=0)])
        else: ways.append([spec.Len(W,n=p0),spec.Len(W,n=32-p%32),spec.Len(W,M=32,q=L2.q,r=L2.r-(32-p%32))]) if L2.r-(32-p%32)>=-32 else None
        for extra in (0,1):
            c1,g1=history(cfg,[one],extra)
            for ch in ways:
                c2,g2=history(cfg,ch,extra)
                if c1.dead or c2.dead: return dict(chunks=[repr(x) for x in ch],note='does not return'),tried
                if g1 is None or g2 is None: continue
                tried+=1
                w=differ(g2,g1,ch)
                if w: w['single_update']=w.pop('expected'); w['extra_result']=bool(extra); return w,tried
    for c2 in wraps(p,cl,W):
        L2=mk(c2,W); c1,g1=history(cfg,[spec.Len(W,M=c2[4],q=L2.q,r=c2[1]+p)],0)
        ch=[spec.Len(W,n=p),L2] if p else [L2,spec.Len(W,n=3)]
        if not p: c1,g1=history(cfg,[spec.Len(W,M=c2[4],q=L2.q,r=c2[1]+3)],0)
        c2_,g2=history(cfg,ch,0)
        if g1 is None or g2 is None: continue
        tried+=1; w=differ(g2,g1,ch)
        if w: w['single_update']=w.pop('expected'); w['extra_result']=False; return w,tried
    if cl[0]=='q' and cl[2]>=SPLIT//32:
        # a long first chunk, continued by a short second one
        for r in dict.fromkeys((cl[1],31)):
            for n2 in (1,5,40):
                ch=[mk(('q',r)+tuple(cl[2:]),W),spec.Len(W,n=n2)]; one=[spec.Len(W,M=32,q=ch[0].q,r=r+n2)]
                for extra in (0,1):
                    c1,g1=history(cfg,one,extra); c2,g2=history(cfg,ch,extra)
                    if g1 is None or g2 is None: continue
                    tried+=1; w=differ(g2,g1,ch)
                    if w: w['single_update']=w.pop('expected'); w['extra_result']=bool(extra); return w,tried
    return None,tried
# ---------------------------------------------------------------- plan of steps
def pset(tier,k=0):
    return list(range(32))
def steps(p,W,full):
    """length classes of an update from p pending bytes"""
    r=[]; left=32-p
    n=set(range(64)) if full else {0,1,2,left-1,left,left+1,left+7,left+8,left+31,left+32,left+33,left+63,left+64,7,8,31,32,33,63}
    r+=[('n',x) for x in sorted(n) if 0<=x<64+left]
    small=range(32) if full else sorted({0,1,left%32,(left-1)%32,(left+1)%32,31,(left+9)%32})
    big=range(32) if full else sorted({0,left%32,(left+5)%32})
    r+=[('q',x,2,SPLIT//32-1) for x in small]
    r+=[('q',x,SPLIT//32,top(W)) for x in big]
    return r
def variants():
    """[(representative, members)] of the configurations with the same streaming code"""
    build.preload([(c,'t1ha2') for c in build.C]); r={}
    for c in build.C:
        m=build.module(c,'t1ha2')
        k=tuple(build.fkey(m,f) for f in FN3)+(tuple(sorted((a,str(b)) for a,b in layout(c).items())),)
        r.setdefault(k,[]).append(c)
    return [(v[0],v) for v in r.values()]
FULL={'x64','mips'}
PQ=[0,1,2,5,7,8,9,15,16,17,23,24,25,29,31]
def tasks(pid,vs,tier,effects=False):
    out=[]
    for rep,mem in vs:
        full=tier=='thorough' or bool(FULL&set(mem)) and not effects
        ps=list(range(32)) if tier=='thorough' or not effects else PQ; k=8 if full else 2
        for i in range(k): out.append((pid,rep,ps[i::k],full,i==0))
    out.sort(key=lambda a:-len(a[2])*(6 if a[3] else 1))
    return out
