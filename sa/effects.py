"""Obligations over the recorded accesses and effects of an analysed call."""
import numpy as np
import terms as t, vec, engine, build
from engine import *
PAGE=4096
def subst_affine(m,c,K,rep):
    """affine (m,c) with K replaced by affine rep"""
    m=dict(m); k=m.pop(K,0); c+=k*rep[1]
    for z,kk in rep[0].items(): m[z]=m.get(z,0)+k*kk
    return m,c
def rng_aff(m,c):
    lo=hi=c
    for z,k in m.items():
        if not k: continue
        a,b=t.rng(z); lo+=min(k*a,k*b); hi+=max(k*a,k*b)
    return lo,hi
def inrange(off,size,loops,lo_t,hi_t):
    """proves lo_t <= off and off+size <= hi_t for all iterations (integers)"""
    ao=t.affine(off)
    def ext(which):
        m,c=dict(ao[0]),ao[1]
        for K,mx in loops:
            k=m.get(K,0)
            if not k: continue
            if mx is None: return None
            am=t.affine(mx) if mx.k in('c','lin','bits','v') else None
            if am is None or (mx in am[0] and mx.k!='v'): return None
            if rng_aff(*am)[0]<0: pass
            rep=({},0) if (k>0)==(which=='lo') else am
            m,c=subst_affine(m,c,K,rep)
        return m,c
    a=ext('lo'); b=ext('hi')
    if a is None or b is None: return False
    def le(x,y):   # x<=y
        m=dict(y[0]); c=y[1]-x[1]
        for z,k in x[0].items(): m[z]=m.get(z,0)-k
        return rng_aff(m,c)[0]>=0
    return le(lo_t,a) and le((b[0],b[1]+size),hi_t)

class Samples:
    """concrete assignments (address residue x block count x iteration) for one analysed call"""
    def __init__(s,R,residues=None,seed=0,qs=None):
        s.R=R; s.seed=seed
        s.res=np.arange(PAGE,dtype=np.uint64) if residues is None else np.array(residues,dtype=np.uint64)
        if R.L.n is None:
            q=R.L.q; lo,hi=q.a[1],q.a[2]
            s.qs=[x for x in (qs or [lo,lo+1,lo+3]) if x<=hi]
        else: s.qs=[None]
        s.cache={}
    def build(s,loops,kvals=None):
        R=s.R; key=tuple((id(K),id(mx)) for K,mx in loops)
        r=s.cache.get(key)
        if r is not None: return r
        cols={}; rows=[]
        A=R.ip.addrvars.get(R.data)
        base=0x12345000
        parts=[]
        for q in s.qs:
            env={}
            if q is not None: env[R.L.q]=q
            E=t.Eval(1,fixed=env,maxfold=0)
            dims=[]
            for K,mx in loops:
                if mx is None: dims=None; break         # unknown number of iterations
                try: T=t.sgn(E.ev(mx),mx.w)
                except Exception: dims=None; break
                if T<0: dims=None; break
                ks=sorted(set(list(range(min(T,9)+1))+[max(T-1,0),T]))
                dims.append(ks)
            if dims is None: continue
            combos=[()]
            for d in dims: combos=[c+(k,) for c in combos for k in d]
            for c in combos: parts.append((q,c))
        n=len(parts)*len(s.res)
        if n==0: s.cache[key]=(None,0); return None,0
        env={}
        res=np.tile(s.res,len(parts))
        if A is not None and A.k=='v': env[A]=res+np.uint64(base)
        if R.L.n is None: env[R.L.q]=np.repeat(np.array([p[0] for p in parts],dtype=np.uint64),len(s.res))
        for j,(K,mx) in enumerate(loops): env[K]=np.repeat(np.array([p[1][j] for p in parts],dtype=np.uint64),len(s.res))
        V=vec.Vec(n,env,np.random.default_rng(s.seed+17))
        V.base=base; V.res=res+np.uint64(base); V.q=env.get(R.L.q) if R.L.n is None else None
        s.cache[key]=(V,n)
        return V,n
    def select(s,e):
        """(vec, mask of samples in which the event happens) or None when it can not be evaluated"""
        V,n=s.build(e.loops)
        if V is None: return None
        try: m=V.pc(e.pc)
        except OverflowError: return None
        return V,m
    def off(s,V,e):
        o=V.ev(e.off); w=e.off.w
        if w<64:
            o=o.astype(np.int64); h=1<<(w-1)
            return np.where(o>=h,o-(1<<w),o)
        return o.astype(np.int64)
    def lens(s,V):
        R=s.R
        if R.L.n is not None: return np.full(V.n,R.L.n,dtype=np.int64)
        return (V.q*np.uint64(R.L.M)+np.uint64(R.L.r)).astype(np.int64)
def site(e): return f"{e.loc()} in {e.stack[-1] if e.stack else '?'}"
def witness(R,V,m,e,o):
    i=int(np.nonzero(m)[0][0]); n=R.L.n if R.L.n is not None else int(V.q[i])*R.L.M+R.L.r
    return dict(len=n,address=hex(int(V.res[i])),offset=int(o[i]),size=e.size,site=site(e))

# every rule returns (number of obligations, discharged, [(site, text, witness)], undecided list)
class Acc:
    def __init__(s): s.n=0; s.ok=0; s.viol=[]; s.und=[]; s.sites=set(); s.sel=set()
    def add(s,o): s.n+=o.n; s.ok+=o.ok; s.viol+=o.viol; s.und+=o.und; s.sites|=o.sites; s.sel|=o.sel
def len_aff(R):
    return ({},R.L.n) if R.L.n is not None else t.affine(R.L.term)
def reads(R): return [e for e in R.ip.events if e.kind=='R' and e.obj is R.data]
def exact_reads(R):
    """P08"""
    a=Acc(); S=None; done={}
    for e in reads(R):
        a.n+=1; a.sites.add(site(e))
        if inrange(e.off,e.size,e.loops,({},0),len_aff(R)): a.ok+=1; continue
        S=S or Samples(R,residues=list(range(0,64))+list(range(PAGE-64,PAGE)))
        x=S.select(e)
        if x is None: a.und.append(site(e)); continue
        V,m=x
        try: o=S.off(V,e)
        except OverflowError: a.und.append(site(e)); continue
        bad=m&((o<0)|(o+e.size>S.lens(V)))
        if bad.any(): a.viol.append((site(e),'reads outside the buffer',witness(R,V,bad,e,o)))
        elif R.L.n is not None: a.ok+=1      # no loops or sampled completely
        else: a.und.append(site(e))
    return a
def page_reads(R):
    """P09"""
    a=Acc(); S=None
    for e in reads(R):
        a.n+=1; a.sites.add(site(e))
        if inrange(e.off,e.size,e.loops,({},0),len_aff(R)): a.ok+=1; continue
        S=S or Samples(R)
        x=S.select(e)
        if x is None: a.und.append(site(e)); continue
        V,m=x
        try: o=S.off(V,e)
        except OverflowError: a.und.append(site(e)); continue
        n=S.lens(V); adr=V.res.astype(np.int64)
        first=(adr+o)>>12; last=(adr+o+e.size-1)>>12
        bad=m&((n==0)|(first<(adr>>12))|(last>((adr+n-1)>>12)))
        if bad.any(): a.viol.append((site(e),'may touch a page the buffer does not occupy' if not (n[bad]==0).any() else 'reads memory for an empty buffer',witness(R,V,bad,e,o))); continue
        bad=m&((o+e.size<=0)|(o>=n))
        if bad.any(): a.viol.append((site(e),'reads memory without touching the buffer',witness(R,V,bad,e,o))); continue
        if R.L.n is not None or shift_free(R,e): a.ok+=1
        else: a.und.append(site(e))
    return a
def shift_free(R,e):
    """the condition of the access depends on address and block count only through the address of the tail"""
    A=R.ip.addrvars.get(R.data)
    if A is None or any(K in t.free(e.off) for K,_ in e.loops): return False
    q=R.L.q; A2=t.var('A2:data',R.W,0,None)
    mp={A:t.sub(A2,t.scale(q,R.L.M))}
    for c,b in e.pc:
        if t.subst(c,mp).id is None or q in t.free(t.subst(c,mp)): return False
    d=t.sub(e.off,t.scale(q,R.L.M))
    return q not in t.free(d)
def alignment(R,objs=None):
    """P14: every access with a declared alignment above one is aligned for all addresses of the data"""
    a=Acc(); S=None; W=R.W
    for e in R.ip.events:
        if e.kind not in('R','W') or e.obj.kind not in('data','out','ctx') : continue
        need=e.align or 1
        a.n+=1
        if need<=1: a.ok+=1; continue
        a.sites.add(site(e))
        if e.obj.kind!='data':
            al=e.obj.align; m,c=t.affine(e.off)
            if all(k%need==0 for k in m.values()) and c%need==0 and al%need==0: a.ok+=1
            elif not m: a.viol.append((site(e),f'{need}-byte aligned access at offset {c} of an object aligned to {al}',dict(offset=c)))
            else: a.und.append(site(e))
            continue
        S=S or Samples(R,residues=range(0,64))
        x=S.select(e)
        if x is None: a.und.append(site(e)); continue
        V,m=x
        try: o=S.off(V,e)
        except OverflowError: a.und.append(site(e)); continue
        bad=m&(((V.res.astype(np.int64)+o)%need)!=0)
        if bad.any(): a.viol.append((site(e),f'access declared {need}-byte aligned may be misaligned',witness(R,V,bad,e,o))); continue
        am=t.affine(e.off)
        if all(k%need==0 for z,k in am[0].items()): a.ok+=1
        else: a.und.append(site(e))
    return a
def writes(R,allowed):
    """P10: allowed: {object: (lo,hi) byte range}"""
    a=Acc()
    for e in R.ip.events:
        if e.kind!='W' or e.obj.kind=='alloca': continue
        a.n+=1; a.sites.add(site(e))
        lim=allowed.get(e.obj)
        if lim is None:
            if live(R,e): a.viol.append((site(e),f'writes to {e.obj.name}',dict(object=e.obj.name)))
            else: a.und.append(site(e))
            continue
        if inrange(e.off,e.size,e.loops,({},lim[0]),({},lim[1])): a.ok+=1; continue
        if t.isc(e.off):
            a.viol.append((site(e),f'writes {e.size} bytes at offset {t.sgn(e.off.a[0],e.off.w)} of {e.obj.name} [{lim[0]},{lim[1]})',{})) if live(R,e) else a.und.append(site(e))
            continue
        S=Samples(R,residues=range(64)); x=S.select(e)
        if x is None: a.und.append(site(e)); continue
        V,m=x; 
        try: o=S.off(V,e)
        except OverflowError: a.und.append(site(e)); continue
        bad=m&((o<lim[0])|(o+e.size>lim[1]))
        if bad.any(): a.viol.append((site(e),f'writes outside {e.obj.name}',witness(R,V,bad,e,o)))
        else: a.und.append(site(e))
    return a
def live(R,e):
    """some sample satisfies the path condition"""
    S=Samples(R,residues=list(range(0,64))+list(range(PAGE-64,PAGE))); x=S.select(e)
    return x is not None and x[1].any()
def undefined(R):
    """P16"""
    a=Acc()
    for e in R.ip.events:
        if e.kind in('R','W'): continue
        if e.kind in('unreachable','abort','ub-shift','maybe-shift','division','null-memcpy','extcall'):
            if e.kind in('extcall',): continue
            a.n+=1; a.sites.add(site(e))
            if e.kind=='division':
                d=e.x[1]
                if t.isc(d) and d.a[0]: a.ok+=1; continue
            if e.kind in('maybe-shift',):
                S=Samples(R,residues=range(64)); x=S.select(e)
                if x is None: a.und.append(site(e)); continue
                V,m=x
                try: k=V.ev(e.x)
                except OverflowError: a.und.append(site(e)); continue
                w=e.x.w
                if (m&(k>=np.uint64(w))).any(): a.viol.append((site(e),'shift by the operand width or more',{}))
                else: a.und.append(site(e))
                continue
            if live(R,e): a.viol.append((site(e),{'unreachable':'reaches a point declared unreachable','abort':f'aborts ({e.x})','ub-shift':str(e.x),'division':'division by a possibly zero value','null-memcpy':f'passes a null {e.x} to memcpy'}[e.kind],dict(cls=str(R.L))))
            else: a.ok+=1
    a.n+=R.ip.nshift; a.ok+=R.ip.nshift
    a.n+=R.ip.nfolds; a.ok+=R.ip.nfolds
    return a
def leaks(R):
    """P23"""
    a=Acc(); a.n=R.ip.nbranch+len([e for e in R.ip.events if e.kind in('R','W')])
    for e in R.ip.events:
        if e.kind=='leak-select': a.sel.add((e.loc(),site(e)))     # a choice between two cheap values: see compiled_branches
        if e.kind in('leak-branch','leak-address'):
            a.sites.add(site(e)); a.viol.append((site(e),('control flow' if e.kind=='leak-branch' else 'memory access')+' depends on the hashed content or the seed',dict(cls=str(R.L))))
    a.ok=a.n-len(a.viol)
    return a
def compiled_branches(cfg,tu):
    """{file:line} of the conditional jumps that remain in the optimised code of a translation unit"""
    import re, os
    with open(build.compile_o2(cfg,build.SRC.get(tu,tu),build.AESFLAGS.get(tu,[]))) as f: tx=f.read()
    files=dict(re.findall(r'^(!\d+) = !DIFile\(filename: "([^"]*)"',tx,re.M)); sc={}
    for i,b in re.findall(r'^(!\d+) = (?:distinct )?!DI(?:Subprogram|LexicalBlock|LexicalBlockFile)\((.*)\)$',tx,re.M):
        m=re.search(r'file: (!\d+)',b)
        if m: sc[i]=os.path.basename(files.get(m.group(1),'?'))
    loc={i:f'{sc.get(s,"?")}:{l}' for i,l,s in re.findall(r'^(!\d+) = (?:distinct )?!DILocation\(line: (\d+),.*?scope: (!\d+)',tx,re.M)}
    return {loc.get(d,'?') for d in re.findall(r'^  (?:br i1|switch) .*?!dbg (!\d+)',tx,re.M)}
def junkflip(ts,legit,junkvars=(),fix=None,n=4,hashok=False):
    """a witness that the values ts change when only bytes outside `legit(obj,off)` or the variables in junkvars change"""
    for i in range(n):
        bf=engine.bytemode(i%4,('jf',i)); fixed=dict(fix(i) if fix else {})
        E=t.Eval(('jf',i),fixed=fixed,bytefn=bf,maxfold=300,hashfold=hashok)
        try: a=[E.ev(x) for x in ts]
        except t.TooBig: continue
        for j in range(6):
            def bf2(o,off):
                if legit(o,off,fixed): return E.rdbyte(o,off)
                return (t.h64('alt',i,j,o,off)&255) if j%2 else E.rdbyte(o,off)^(0xff if j else 1)
            fx=dict(fixed)
            for y in junkvars:
                if y in fixed: continue
                lo,hi=y.a[1],y.a[2]; v=E.leaf(y)
                # neighbours of the value as well as unrelated ones, so that alignment bits vary
                w=v+(1,-1,2,4,8,t.h64('alt',i,j,y.a[0])%(hi-lo+1))[j]
                fx[y]=min(hi,max(lo,w)) if not(y.a[1]==0 and y.a[2]==t.mask(y.w)) else w&t.mask(y.w)
            F=t.Eval(('jf',i),fixed=fx,bytefn=bf2,maxfold=300,hashfold=hashok)
            if hashok:
                E=t.Eval(('jf',i),fixed=fixed,bytefn=bf,maxfold=300,hashfold=True); t.anchor((E,F),(ts,ts))
                try: a=[E.ev(x) for x in ts]
                except t.TooBig: continue
            try: b=[F.ev(x) for x in ts]
            except t.TooBig: continue
            if a!=b: return dict(got=[hex(x) for x in a],other=[hex(x) for x in b],varied=[repr(y) for y in list(junkvars)[:4]],lengths={repr(k):v for k,v in fixed.items()})
    return None

def junkdirect(ts,legit,junkvars,fix=None,cap=24):
    """conditions that mention junk leaves are tried both ways by assignments found by inversion; a witness when the
    values change although only junk leaves differ"""
    import direct
    jv=set(junkvars); n=0
    for c in direct.conds(ts):
        fr=t.free(c)
        if not any(y in jv or y.k=='b' and not(t.isc(y.a[1]) and legit(y.a[0],t.sgn(y.a[1].a[0],y.a[1].w),dict(fix(0) if fix else {}))) for y in fr if y.k in('v','b')): continue
        n+=1
        if n>cap: break
        for i in range(2):
            base=dict(fix(i) if fix else {})
            def mk(asg):
                f=dict(base); f.update((k,v) for k,v in asg.items() if not isinstance(k,tuple))
                return t.Eval(('jd',i),fixed=f,bytefn=lambda o,k: asg.get((o,k)),maxfold=300)
            try:
                S=direct.Solver(mk); S.truth(c,not S.E.ev(c)); a=[S.E.ev(x) for x in ts]
                keep={k:v for k,v in S.asg.items() if (legit(k[0],k[1],base) if isinstance(k,tuple) else k not in jv)}
                F=mk(keep); b=[F.ev(x) for x in ts]
            except (direct.Fail,t.TooBig,RecursionError): continue
            if a!=b: return dict(got=[hex(x) for x in a],other=[hex(x) for x in b],junk={repr(k):hex(v) for k,v in S.asg.items() if k not in keep},lengths={repr(k):v for k,v in base.items()})
    return None
