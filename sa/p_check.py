"""P19 P20: the self-checks, abstractly interpreted with the hashes (P19) or the leaf self-checks (P20) opaque."""
import sys, os, itertools
import numpy as np
import terms as t, build, check, spec, vec, interp, disp
from interp import Interp, Obj, Ptr, FPtr, PIte, State, Imprecise, NULL
from disp import *
TIER=os.environ.get('VERIF_TIER','quick'); SEED=int(os.environ.get('VERIF_SEED','1') or 1)
LEAF={'t1ha2_atonce':'t1ha2_sc','t1ha2_atonce128':'t1ha2_sc','t1ha2_stream':'t1ha2_sc','t1ha1_le':'t1ha1_sc','t1ha1_be':'t1ha1_sc',
      't1ha0_32le':'t1ha0_sc','t1ha0_32be':'t1ha0_sc','t1ha0_ia32aes_noavx':'t1ha0_sc','t1ha0_ia32aes_avx':'t1ha0_sc','t1ha0_ia32aes_avx2':'t1ha0_sc'}
TABLES={'t1ha2_atonce':['t1ha_refval_2atonce'],'t1ha2_atonce128':['t1ha_refval_2atonce128'],'t1ha2_stream':['t1ha_refval_2stream','t1ha_refval_2stream128'],
 't1ha1_le':['t1ha_refval_64le'],'t1ha1_be':['t1ha_refval_64be'],'t1ha0_32le':['t1ha_refval_32le'],'t1ha0_32be':['t1ha_refval_32be'],
 't1ha0_ia32aes_noavx':['t1ha_refval_ia32aes_a'],'t1ha0_ia32aes_avx':['t1ha_refval_ia32aes_a'],'t1ha0_ia32aes_avx2':['t1ha_refval_ia32aes_b']}
def isx86(cfg): return build.C[cfg].target.split('-')[0] in('x86_64','i386')
# ---------------------------------------------------------------- P19
_truth={}
def truth(fn,data,seed,W,x=None):
    """the published algorithm on concrete input"""
    k=(fn,data,seed,W,x); r=_truth.get(k)
    if r is None:
        L=spec.Len(W,n=len(data)); d=spec.buf(data,W); s=t.const(seed,64)
        if fn=='stream':
            st=spec.t2_init(t.const(x[0],64),t.const(x[1],64)); st,p,pb=spec.t2_update(st,0,d,L,d)
            r=spec.t2_final(st,p,spec.Data(lambda o:pb[o.a[0]],W),t.const(len(data),64),W,x[2])[0]
        elif fn=='t1ha2_atonce128': r=spec.t1ha2_atonce128(L,d,s)[0]
        else: r=spec.HASH[fn](L,d,s)
        assert t.isc(r); r=r.a[0]; _truth[k]=r
    return r
class Leafcheck(Interp):
    """hash functions are opaque: every call yields a fresh variable, its inputs are recorded"""
    def __init__(s,mods):
        super().__init__(mods); s.calls={}; s.ctx={}; s.names=set()
        for n in spec.HASH: s.handlers[n]=s.hash(n)
        s.handlers['t1ha2_atonce128']=s.hash128
        s.handlers.update(t1ha2_init=s.init,t1ha2_update=s.update,t1ha2_final=s.final)
    def c(s,v):
        if isinstance(v,int): return t.const(v,s.W)
        if not t.isc(v): raise Imprecise('argument of a probe is not fixed')
        return v.a[0]
    def bytes(s,st,p,n):
        if n==0: return b''
        if isinstance(p,t.T): p=s.toptr(p)
        if not isinstance(p,Ptr) or p.obj is NULL: raise Imprecise('data of a probe')
        r=[]
        for k in range(n):
            v=s.rawload(st,p.obj,t.addc(p.off,k),1,8)
            r.append(s.c(v))
        return bytes(r)
    def out(s,key,st,cond=None):
        s.fresh+=1; v=t.var(f'H{s.fresh}',64); s.calls[v]=key+(st.pc,); return v
    def hash(s,n):
        def h(ip,fr,i,st,a):
            s.names.add(n); L=s.c(a[1]); return s.out((n,s.bytes(st,a[0],L),s.c(a[2]),None),st)
        return h
    def hash128(s,ip,fr,i,st,a):
        s.names.add('t1ha2_atonce128'); L=s.c(a[2]); v=s.out(('t1ha2_atonce128',s.bytes(st,a[1],L),s.c(a[3]),None),st)
        if not(isinstance(a[0],Ptr) and a[0].obj is not NULL): raise Imprecise('output of a probe')
        s.rawstore(st,a[0].obj,a[0].off,8,t.var(f'X{s.fresh}',64)); return v
    def init(s,ip,fr,i,st,a):
        s.names.add('t1ha2_init'); s.ctx[(a[0].obj,a[0].off)]=[(s.c(a[1]),s.c(a[2])),b'']; return None
    def update(s,ip,fr,i,st,a):
        s.names.add('t1ha2_update'); k=(a[0].obj,a[0].off)
        if k not in s.ctx: raise Imprecise('update of an unknown context')
        s.ctx[k][1]+=s.bytes(st,a[1],s.c(a[2])); return None
    def final(s,ip,fr,i,st,a):
        s.names.add('t1ha2_final'); k=(a[0].obj,a[0].off)
        if k not in s.ctx: raise Imprecise('final of an unknown context')
        (x,y),d=s.ctx.pop(k); ex=not(isinstance(a[1],Ptr) and a[1].obj is NULL)
        v=s.out(('stream',d,0,(x,y,ex)),st)
        if ex: s.rawstore(st,a[1].obj,a[1].off,8,t.var(f'X{s.fresh}',64))
        return v
def leaf(cfg,impl,V,st):
    fn='t1ha_selfcheck__'+impl; m=build.module(cfg,LEAF[impl]); mods=[m]+[build.module(cfg,x) for x in('sc','t1ha0_sc','t1ha1_sc','t1ha2_sc') if x!=LEAF[impl]]
    if fn not in m.funcs or m.funcs[fn].decl: raise check.Broken(f'{cfg}: {fn} is not defined')
    ip=Leafcheck(mods); W=ip.W
    try: r=ip.run(fn,[])
    except Imprecise as e: return f'{cfg}/{fn}: {e}'
    st['n']+=1; st['steps']+=ip.steps
    if r is None: V(f'{fn}',f'{fn} never returns'); return None
    r=r[1]
    want={'t1ha2_init','t1ha2_update','t1ha2_final'} if impl=='t1ha2_stream' else {impl}
    if ip.names-want: V(fn,f'{fn} runs {sorted(ip.names-want)} instead of {impl}'); return None
    hs=[v for v in t.free(r) if v in ip.calls]; hs.sort(key=lambda v:int(v.a[0][1:]))
    other=[v for v in t.free(r) if v not in ip.calls]
    # (a) every entry of the tables enters
    for tab in TABLES[impl]:
        g=None
        for mm in mods:
            if tab in mm.globals and not mm.globals[tab].decl: g=mm.globals[tab]
        if g is None: raise check.Broken(f'{cfg}: {tab} is not defined')
        rd=set()
        for e in ip.events:
            if e.kind=='R' and e.obj is not None and e.obj.name==tab and e.off is not None and t.isc(e.off): rd.update(range(e.off.a[0],e.off.a[0]+e.size))
        if len(rd)<g.size: V(fn,f'{fn} never looks at {(g.size-len(rd))//8} of the {g.size//8} entries of {tab} (first: {min(set(range(g.size))-rd)//8})')
    need=81*len(TABLES[impl])
    if len(hs)<need: V(fn,f'only {len(hs)} results of {impl} enter the verdict of {fn}, there are {need} reference values')
    # (b) all agree -> 0
    tv={v:truth(k[0],k[1],k[2],W,k[3]) for v,k in ip.calls.items()}
    E=t.Eval(('sc',SEED),fixed=tv)
    z=t.sgn(E.ev(r),r.w); st['points']+=1
    if z!=0:
        V(fn,f'{fn} returns {z} although {impl} computes the published algorithm on all {len(hs)} probes (a reference value or a probe is wrong)'); return None
    # (c) any mismatch -> -1: proof over the comparisons
    atoms={}; 
    def isatom(x):
        if x.k!='cmp' or x.a[0]!='eq': return None
        a,b=x.a[1],x.a[2]
        for p,q in((a,b),(b,a)):
            if p in ip.calls and t.isc(q): return p
        return None
    seen=set(); stk=[r]; ok=not other
    while stk:
        x=stk.pop()
        if x in seen: continue
        seen.add(x); p=isatom(x)
        if p is not None:
            if p in atoms and atoms[p] is not x: ok=False
            atoms[p]=x; continue
        if x in ip.calls: ok=False
        stk.extend(t.kids(x))
    st['comparisons']+=len(atoms)
    if ok and len(atoms)==len(hs):
        lost=None
        for v,x in atoms.items():
            q=t.subst(r,{x:t.const(0,1)})
            if not(t.isc(q) and q.a[0]==t.mask(r.w)): lost=v; break
        if lost is None:
            st['proved']+=1; st['cofactors']+=len(atoms); return None
    # (d) not in that form: look for a lost mismatch among single, double and multiple mismatches
    cols={}; rng=np.random.default_rng(SEED); nh=len(hs); rows=[]
    base=np.array([tv[v] for v in hs],dtype=np.uint64)
    diffs=[1<<b for b in range(64)]+[(1<<64)-1,1<<63|1,0xffffffff,0xffffffff00000000,0x0123456789abcdef]
    for k in range(nh):
        for d in diffs: rows.append(((k,d),))
        rows.append(((k,int(base[k])),) if base[k] else ((k,1),))      # the result is zero
    for k in range(nh):
        for j in range(k+1,nh):
            d=diffs[(k*7+j)%len(diffs)]; rows.append(((k,d),(j,d)))
            if TIER!='quick':
                for d in(1,1<<63): rows.append(((k,d),(j,d)))
    for _ in range(500):
        c=int(rng.integers(2,nh+1)); rows.append(tuple((int(k),int(rng.integers(1,1<<63))) for k in rng.choice(nh,c,replace=False)))
    rows.append(tuple((k,1) for k in range(nh))); rows.append(tuple((k,(1<<64)-1) for k in range(nh)))
    A=np.tile(base,(len(rows),1))
    for i,rw in enumerate(rows):
        for k,d in rw: A[i,k]^=np.uint64(d)
    # arithmetic opposites: + and - of the same difference
    B=[]
    for k in range(nh):
        j=(k+1)%nh; x=base.copy(); d=np.uint64(1+(k*2654435761)%(1<<40))
        with np.errstate(over='ignore'): x[k]+=d; x[j]-=d
        B.append(x)
    A=np.vstack([A,np.array(B,dtype=np.uint64)])
    env={v:np.ascontiguousarray(A[:,i]) for i,v in enumerate(hs)}
    try: z=vec.Vec(len(A),env,rng).ev(r)
    except Exception as e: return f'{cfg}/{fn}: verdict {type(e).__name__}: {e}'
    st['points']+=len(A)
    bad=np.nonzero(z!=np.uint64(t.mask(r.w)))[0]
    if len(bad):
        i=int(bad[0]); w=[k for k in range(nh) if A[i,k]!=base[k]]
        V(fn,f'{fn} returns {t.sgn(int(z[i]),r.w)} although {len(w)} of the {nh} probes differ: probe(s) {w[:6]}, '+', '.join(f'expected {int(base[k]):#x} got {int(A[i,k]):#x}' for k in w[:2])); return None
    st['agree']+=1; return None
# ---------------------------------------------------------------- P20
FAMILY={'T1HA2':['t1ha2_atonce','t1ha2_atonce128','t1ha2_stream'],'T1HA1':['t1ha1_le','t1ha1_be'],'T1HA0':['t1ha0_32le','t1ha0_32be','t1ha0_ia32aes_noavx','t1ha0_ia32aes_avx','t1ha0_ia32aes_avx2']}
def rollup(cfg,dis,V,st,extra=()):
    ex=tuple(extra)+tuple(f'-D{d}_DISABLED' for d in dis)
    tus=['sc','t1ha0_sc','t1ha1_sc','t1ha2_sc','sc_all','t1ha0']; mods=[build.module(cfg,x,ex) for x in tus]
    name=cfg+''.join(' '+x[2:] for x in ex); fams=[f for f in FAMILY if f not in dis]
    defd={n for m in mods for n,f in m.funcs.items() if not f.decl}
    leaves=[l for f in fams for l in FAMILY[f] if 't1ha_selfcheck__'+l in defd]
    if 'T1HA0' in fams and isx86(cfg) and '-DT1HA0_AESNI_AVAILABLE=0' not in ex and len([l for l in leaves if 'aes' in l])!=3: raise check.Broken(f'{name}: leaf self-checks are not all defined')
    needs={}; base=base_features(cfg)
    for l in leaves:
        if 'aes' in l:
            x,_=required([build.module(cfg,l[l.rindex('_')+1:])],l,base); needs[l]=x
        else: needs[l]=set()
    tops=[('t1ha_selfcheck__all_enabled',leaves)]+[('t1ha_selfcheck__'+f.lower(),[l for l in FAMILY[f] if l in leaves]) for f in fams]
    var={l:t.var('F:'+l,1) for l in FAMILY['T1HA0']+FAMILY['T1HA1']+FAMILY['T1HA2']}
    E=list(envs(False,(0,1) if mods[0].ptrbits==32 and 'windows' not in mods[0].triple else (1,)))
    und=[]
    cls={}
    for e in E: cls.setdefault(frozenset(e.has()),[]).append(e)
    for top,cover in tops:
        if not any(top in m.funcs and not m.funcs[top].decl for m in mods): V(top,f'{name}: {top} is not defined'); continue
        ip=Interp(mods); st['rollups']+=1
        def mk(l):
            def h(ip,fr,i,s,a):
                ip.ev('leaf',i,s,x=l); v=t.zext(var[l],32); return t.sub(t.const(0,32),v)
            return h
        for l in var: ip.handlers['t1ha_selfcheck__'+l]=mk(l)
        try: r=ip.run(top,[])
        except Imprecise as e: und.append(f'{name}/{top}: {e}'); continue
        if r is None: V(top,f'{name}: {top} never returns'); continue
        r=r[1]; ran=[e for e in ip.events if e.kind=='leaf']
        done=set()
        for has,el in cls.items():
            can=set(has)
            for k,im in IMPLIED.items():
                if k in has: can|=im
            good=[l for l in cover if needs[l]<=can]
            # which leaves may decide: run ones; verdicts of those outside the family are left passing, then failing
            for e in el:
                ev0=e.eval()
                for x in ran:
                    if needs.get(x.x,set())-can and on_path(x.pc,ev0) and ('run',x.x) not in done:
                        done.add(('run',x.x)); V(f'{top}/{x.x}',f'{name}: {top} ({x.loc()}) runs {x.x} on a machine without {sorted(needs[x.x]-can)}: {e}')
                pats=[()]+[(l,) for l in good]+[tuple(p) for p in itertools.combinations(good,2)]+([tuple(good)] if len(good)>2 else [])
                if e is not el[0] and e is not el[-1] and TIER=='quick': pats=pats[:1+len(good)]
                for p in pats:
                    fx={('F:'+l):0 for l in var}; fx.update({'F:'+l:1 for l in p}); fx['cpuid_supported']=e.sup
                    z=t.sgn(t.Eval(('env',e.salt),fixed=fx,uffn=e.uf).ev(r),r.w); st['points']+=1
                    if z!=(-1 if p else 0) and (top,p[:1]) not in done:
                        done.add((top,p[:1]))
                        V(f'{top}/{p[0] if p else "pass"}',f'{name}: {top} returns {z} although '+(f'the self-check of {" and ".join(p)} fails' if p else 'every self-check passes')+f': {e}')
    st['leaves']=max(st.get('leaves',0),len(leaves))
    return und
# ----------------------------------------------------------------
def task(a):
    pid,cfg,x,extra=a; t.reset(); t.MOD[0]=1; vio=[]
    r=dict(cfg=cfg,n=0,steps=0,points=0,comparisons=0,proved=0,cofactors=0,agree=0,rollups=0,und=[],nc=None)
    note=build.C[cfg].note
    V=lambda k,s: vio.append((cfg+'/'+k,note+': '+s))
    try:
        if pid=='P19':
            for l in x:
                u=leaf(cfg,l,V,r)
                if u: r['und'].append(u)
        else: r['und']+=rollup(cfg,x,V,r,extra)
    except build.CompileError as e: r['nc']=str(e)[:300]
    r['viol']=vio; return r
ROLL=['x64','x64-msvc','i386','i386-msvc','a64','ppc64','mips','riscv32']
def run(pid):
    C=check.Check(pid,'proof'); extra={}
    if pid=='P19':
        cf=[c for c in build.C if c!='x64-debug']; tus=['sc','t1ha0_sc','t1ha1_sc','t1ha2_sc']
        build.preload([(c,x) for c in cf for x in tus]); T=[]; ninst=0
        for l in LEAF:
            cs=[c for c in cf if 'aes' not in l or isx86(c)]
            def key(c): return tuple(build.fkey(build.module(c,x),f) for x in tus for f in sorted(build.module(c,x).funcs) if not build.module(c,x).funcs[f].decl)+tuple(g.size for x in tus for g in build.module(c,x).globals.values())
            gr={}
            for c in cs: gr.setdefault((key(c),build.module(c,'sc').ptrbits,build.module(c,'sc').be),[]).append(c)
            ninst+=len(cs)
            for g in gr.values(): T.append((pid,g[0],[l],()))
        T.append((pid,'x64-debug',['t1ha1_le'],()))
        extra=dict(instances=ninst,distinct=len(T))
    else:
        T=[(pid,c,d,()) for c in ROLL for k in range(4) for d in itertools.combinations(('T1HA0','T1HA1','T1HA2'),k)]
        T+=[(pid,c,d,x) for c in('x64','i386') for d in((),('T1HA1',)) for x in(('-DT1HA0_AESNI_AVAILABLE=0',),('-DT1HA0_RUNTIME_SELECT=0',),('-DT1HA_USE_INDIRECT_FUNCTIONS=0',))]
    R=check.pool(task,T); und=[u for r in R for u in r['und']]; nc=[r['nc'] for r in R if r['nc']]
    for r in R:
        for k,x in r['viol']: C.violation(k,x)
    S=lambda k: sum(r[k] for r in R)
    if pid=='P19':
        C.cov.update(self_checks=S('n'),comparisons=S('comparisons'),proved=S('proved'),cofactors=S('cofactors'),sampled=S('agree'),points=S('points'),instructions_interpreted=S('steps'),obligations=S('n'),discharged=S('proved'),
          rule='the verdict is a boolean function of comparisons of each result with its reference; with any one of them false it is the constant -1, with the published results it is 0; every entry of the tables is read; only the named implementation is called',**extra)
        ok=C.cov['self_checks']>20
    else:
        C.cov.update(builds=len(R),rollups=S('rollups'),points=S('points'),obligations=S('rollups'),leaves=max(r.get('leaves',0) for r in R),
          rule='verdict is -1 when any covered executable leaf (single, pair, all) fails, 0 when none does, in every modelled machine; no leaf runs where its extensions are missing')
        ok=C.cov['rollups']>100
    C.cov.update(undecided=und[:10],not_compiled=nc[:10],checker_cmd=f'python3-vt sa/p_check.py {pid}',trusted_base=['clang 18 front end and mem2reg','sa/interp.py, sa/terms.py','sa/spec.py (P19)','the processor model in sa/disp.py (P20)','sa/stubs for the MSVC view'])
    C.assume=['builds with assertions enabled abort at the first mismatch by design'] if pid=='P19' else ['leaf self-checks return 0 or -1 (P19)']
    if (not ok or len(und)>len(R)//2) and not C.viol: raise check.Broken(f'too little analysed: {und[:3]} {nc[:3]}')
    return C.finish()
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
