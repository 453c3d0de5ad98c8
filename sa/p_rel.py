"""P12 P13 P22: what the results depend on (support of the value numbers), and agreement between builds."""
import sys, time, random
import terms as t, build, check, spec, engine, effects, stream, p_effect, helpers
from engine import FUN, Run, clsname, AES, SPLIT, TIER, SEED, compare
from p_stream import leaves
def qfix(R,i):
    L=R.L
    if L.n is not None: return {}
    lo,hi=L.q.a[1],L.q.a[2]
    if isbig(L):
        c=[x for x in (lo,(1<<32)//L.M+1,(1<<33)//L.M+3,(1<<31)//L.M,(1<<32)//L.M,hi-1,hi//2+1,hi//3) if lo<=x<=hi]
        return {L.q:c[i%len(c)]}
    return {L.q:min(hi,lo+(0,1,3)[i%3])}
def isbig(L): return L.n is None and L.q.a[1]>=SPLIT//L.M
# ---------------------------------------------------------------- P12
def own_vars(R): return {'seed','x','y','z','st0','st1','st2','st3','q'}
def support(got,legit_const,vars_ok):
    """True when the value numbers mention only admissible leaves (no loops inside)"""
    junk=[]
    for x in leaves(got):
        if x.k=='fold': return None,[]
        if x.k=='v' and x.a[0] not in vars_ok: junk.append(x)
        if x.k=='b' and not(t.isc(x.a[1]) and legit_const(x.a[0],t.sgn(x.a[1].a[0],x.a[1].w))): junk.append(x)
    return not junk,junk
def p12(R,got,want,buf=None,p=0):
    """R: Run or Call with .L; decides that got depends on the bytes given only"""
    def legit(o,off,fx=None):
        if o=='data':
            n=R.L.n if R.L.n is not None else (fx or {}).get(R.L.q,0)*R.L.M+R.L.r
            return 0<=off<n
        return o=='ctx' and buf is not None and buf<=off<buf+p
    ok,junk=support(got,legit,own_vars(R))
    if ok: return 'ok',None
    if want is not None and len(got)==len(want) and all(a is b for a,b in zip(got,want)): return 'ok',None
    vs={x for x in leaves(got) if x.k=='v' and x.a[0] not in own_vars(R)}
    big=isbig(R.L)
    if big and not(want is not None and engine.samefolds(got,want)): return 'agree',None
    w=effects.junkflip(got,legit,vs,fix=lambda i: qfix(R,i),n=8 if big else 4,hashok=big)
    if not w and not big: w=effects.junkdirect(list(got),legit,vs,fix=lambda i: qfix(R,i))
    return ('viol',w) if w else ('agree',None)
# ---------------------------------------------------------------- P13
def flips(ts,nbytes,seeds,fixed=None,samples=5,only=None,qv=None,hashok=False):
    """[(what)] of the input bits whose flip never changes the values ts"""
    bad=[]; todo=[('data',k,b) for k in (range(nbytes) if only is None else only) for b in range(8)]+[(v,0,b) for v in seeds for b in range(64)]
    if qv is not None: todo+=[(qv,0,b) for b in range(qv.a[2].bit_length()) if qv.a[1]<=fixed[qv]^(1<<b)<=qv.a[2]]
    for i in range(samples):
        bf=engine.bytemode((0,3)[i%2],('fl',SEED,i))
        E=t.Eval(('fl',SEED,i),fixed=fixed,bytefn=bf,maxfold=300,hashfold=hashok)
        try: a=[E.ev(x) for x in ts]
        except t.TooBig: return []
        left=[]
        for w in todo:
            if w[0]=='data':
                def bf2(o,off): return E.rdbyte(o,off)^((1<<w[2]) if o=='data' and off==w[1] else 0)
                F=t.Eval(('fl',SEED,i),fixed=fixed,bytefn=bf2,maxfold=300,hashfold=hashok)
            else:
                v=w[0] if w[0] is qv else t.var(w[0],64); F=t.Eval(('fl',SEED,i),fixed={**(fixed or {}),v:E.leaf(v)^(1<<w[2])},bytefn=bf,maxfold=300,hashfold=hashok)
            b=[F.ev(x) for x in ts]
            if any(x==y for x,y in zip(a,b)): left.append(w)   # every component must react
        todo=left
        if not todo: break
    return todo
def same_len(ts1,ts2,n,fixed=None):
    """True when the results for n and n+1 bytes (same bytes, any last byte) coincide on every sample"""
    for i in range(4):
        bf=engine.bytemode(0,('ln',SEED,i))
        E=t.Eval(('ln',SEED,i),bytefn=lambda o,off: 0 if o=='data' and off>=n else None,fixed=fixed,maxfold=300)
        try:
            if any(E.ev(a)!=E.ev(b) for a,b in zip(ts1,ts2)): return False
        except t.TooBig: return False
    return True
def spec_task(a):
    fn,W,ns=a; t.reset(); t.MOD[0]=FUN[fn][1]; r=dict(n=0,bits=0,bad=[])
    def want(n):
        L=spec.Len(W,n=n); d=spec.obj('data',W); s=t.var('seed',64)
        return spec.t1ha2_atonce128(L,d,s) if fn.endswith('128') else (spec.HASH[fn](L,d,s),)
    for n in ns:
        w=want(n); r['n']+=1; r['bits']+=8*n+64
        b=flips(w,n,['seed'])
        if b: r['bad'].append((fn,W,n,b[:3]))
        if same_len(w,want(n+1),n): r['bad'].append((fn,W,n,'length'))
    return r
def p13(R,got,fn):
    """flips on the analysed result itself (used when it is not identical to the algorithm's value number)"""
    if R.L.n is not None: n=R.L.n; fx=None
    else:
        fx=qfix(R,0); n=R.L.M*fx[R.L.q]+R.L.r
    A=X_addr(R)
    if isbig(R.L):
        # the loop is one opaque function of its body, count and initial values: seed, tail and length bits outside it
        if not engine.samefolds(R.got,R.want()): return []
        fx={R.L.q:(5<<30)//R.L.M if R.L.q.a[2]>(5<<30)//R.L.M else R.L.q.a[1]+1}; n=R.L.M*fx[R.L.q]
        for a in (ADDR if A is not None else (None,)):
            b=flips(R.got,n+R.L.r,['seed'],fixed={**fx,**({A:0x12345000+a} if a is not None else {})},only=range(n,n+R.L.r),qv=R.L.q,hashok=True,samples=3)
            if b: return b
        return []
    if A is None: return flips(got,n,['seed'],fixed=fx)
    # every address on its own: a bit that reacts at some addresses only is ignored at the others
    for a in ADDR:
        b=flips(got,n,['seed'],fixed={**(fx or {}),A:0x12345000+a},samples=4)
        if b: return [x+(f'at address residue {a}',) for x in b]
    return []
ADDR=list(range(8))+[4096-4,4096-3]
def X_addr(R):
    A=R.ip.addrvars.get(R.data)
    return A if A is not None and A.k=='v' and A in set(leaves(R.got)) else None
def hash_task(a):
    pid,cfg,fn,cls,ref=a; t.reset(); t0=time.time(); M=FUN[fn][1]
    r=dict(cfg=cfg,fn=fn,n=0,ok=0,agree=[],viol=[],steps=0,folds=0,fns=set())
    for cl in cls:
        if len(r['viol'])>=3: break
        runs=[cl]; R=Run(cfg,fn,cl); todo=[(cl,R)]
        r['steps']+=R.ip.steps; r['folds']+=R.ip.nfolds; r['fns']|=R.ip.fns
        if R.err is not None:
            r['n']+=1; todo=[]
            if cl[0]=='q' and cl[2]<SPLIT//M:
                for dq in (0,1,3):
                    R2=Run(cfg,fn,('n',M*(cl[2]+dq)+cl[1]))
                    if R2.err is None: todo.append((R2.cl,R2))
            r['agree'].append(clsname(cl,M)+': '+R.err)
        for c2,X in todo:
            name=f'{cfg}/{fn}/{clsname(c2,M)}'; r['n']+=1
            if pid=='P12':
                k,w=p12(X,X.got,X.want() if X.L.n is None else None)
                if k=='ok': r['ok']+=1
                elif k=='viol': r['viol'].append((name,'the result changes with the address, the surroundings of the data or uninitialised memory',w))
                else: r['agree'].append(name)
            elif pid=='P13':
                want=X.want()
                if all(x is y for x,y in zip(X.got,want)): r['ok']+=1; continue
                if X.L.n is None and X.cl[1] not in (0,1,7,8,13,31): r['agree'].append(name); continue
                b=p13(X,X.got,fn)
                if b: r['viol'].append((name,f'flipping {b[0][0]} byte {b[0][1]} bit {b[0][2]} never changes the result ({len(b)} such bits)',dict(bits=b[:64]))); continue
                if X.L.n is not None:
                    X2=Run(cfg,fn,('n',X.L.n+1))
                    if X2.err is None and same_len(X.got,X2.got,X.L.n): r['viol'].append((name,f'the length does not enter: appending a zero byte never changes the result',dict(len=X.L.n))); continue
                r['agree'].append(name)
            else:
                Y=Run(ref,fn,c2); g=X.got
                if Y.err is not None: r['agree'].append(name+': '+Y.err); continue
                k,w=compare(X.got,Y.got,X.L,small_proven=True)
                if k=='proven': r['ok']+=1
                elif k=='differ': r['viol'].append((name,f'differs from the build {ref} ({build.C[ref].note})',w))
                else:
                    wp=engine.wrong_products(cfg)+engine.wrong_products(ref)
                    if wp: r['viol'].append((name,'wide product',dict(product=wp[0])))
                    else: r['agree'].append(name)
    r['t']=time.time()-t0; r['fns']=sorted(r['fns']); r['lemmas']={f'{k[0]}:{k[2]}':v[0] for k,v in engine.intform.LOG.items() if k[0] in(cfg,ref) and v[0] in('proven','same','wrong')}
    return r
def stream_task(a):
    pid,cfg,ps,full,first=a; t.reset(); r=dict(cfg=cfg,fn='t1ha2 stream',n=0,ok=0,agree=[],viol=[],steps=0,folds=0,fns=set(),lemmas={}); budget=[6]
    def ob(what,c,g,w,p,cl):
        if len(r['viol'])>=3: return
        r['n']+=1; r['steps']+=c.ip.steps; r['folds']+=c.ip.nfolds; r['fns']|=c.ip.fns; name=f'{cfg}/{what}'
        if g is None: r['agree'].append(name+f': {c.err}'); return
        if pid=='P12':
            k,x=p12(c,tuple(g),tuple(w),c.lay['buf'],p)
            if k=='ok': r['ok']+=1
            elif k=='viol': r['viol'].append((name,'the result changes with the address, the surroundings of the data or left-over memory of the context',x))
            else: r['agree'].append(name)
            return
        if len(g)==len(w) and all(x is y for x,y in zip(g,w)): r['ok']+=1; return
        if budget[0] and (cl is None or cl[0]=='n'):
            budget[0]-=1; W=c.W; ch=stream.mkchunks(([('n',p)] if p else [])+([cl] if cl else []),W); n=sum(L.n for L in ch)
            for extra in (0,1):
                c2,g2=stream.history(cfg,ch,extra)
                if g2 is None: continue
                A=c2.ip.addrvars.get(c2.data)
                if A is not None and A.k=='v' and A in set(leaves(g2)): b=next(filter(None,(flips(g2,n,['x','y'],fixed={A:0x12345000+a},samples=4) for a in ADDR)),[])
                else: b=flips(g2,n,['x','y'])
                if b: r['viol'].append((name,f'flipping {b[0][0]} byte {b[0][1]} bit {b[0][2]} never changes the digest ({len(b)} such bits)',dict(chunks=[L.n for L in ch],bits=b[:64],extra=extra))); return
                ch3=stream.mkchunks(([('n',p)] if p else [])+[('n',(cl[1] if cl else 0)+1)],W); c3,g3=stream.history(cfg,ch3,extra)
                if g3 is not None and same_len(g2,g3,n): r['viol'].append((name,'the total length does not enter the digest',dict(chunks=[L.n for L in ch]))); return
        r['agree'].append(name)
    flat=lambda x: list(x[0])+[x[1],x[2]]+x[3]
    if first:
        c,g,w=stream.ini(cfg); ob('t1ha2_init',c,g and flat(g),w and flat(w),0,None)
    for p in ps:
        for cl in stream.steps(p,build.module(cfg,'t1ha2').ptrbits,full):
            if cl[0]=='q' and cl[2]>=SPLIT//32 and TIER=='quick' and cl[1] not in (0,13): continue
            c,g,w=stream.step(cfg,p,cl); ob(f't1ha2_update with {p} pending, length {stream.name(cl)}',c,g and flat(g),w and flat(w),p,cl)
        for extra in (0,1):
            c,g,w=stream.fin(cfg,p,extra); ob(f't1ha2_final with {p} pending, extra={extra}',c,g,w,p,None)
    r['fns']=sorted(r['fns']); return r
POOR=[('x64-noi128','x64'),('x64-gcc','x64'),('x64-msvc','x64'),('i386-msvc','i386'),('a64-gcc','a64'),('a64-msvc','a64')]
RULE=dict(P12='the value number of the result mentions only bytes of the buffer, the seed(s) and the length (or equals the algorithm\'s); otherwise only surroundings and address are varied and the result must not move',
 P13='the value number of the result equals the algorithm\'s, in whose value number every input bit is live (each single flip and the length change the result on sampled contents)',
 P22='the value number of the result in a build without the facility equals the one in a build with it')
def run(pid):
    C=check.Check(pid,'proof'); extra={}
    if pid=='P22':
        build.preload([(c,FUN[fn][0]) for pr in POOR for c in pr for fn in FUN if fn not in AES or build.C[c].aes]); tasks=[]; inst=0; same=0
        for poor,rich in POOR:
            W=32 if build.is32(build.C[poor]) else 64
            for fn in FUN:
                if fn in AES and not(build.C[poor].aes and build.C[rich].aes): continue
                inst+=1; tu=FUN[fn][0]
                if build.fkey(build.module(poor,tu),fn)==build.fkey(build.module(rich,tu),fn): same+=1; continue
                t.MOD[0]=FUN[fn][1]
                cl=[x for x in engine.classes(fn,W) if TIER!='quick' or fn not in AES or x[0]=='n' or x[2]<SPLIT//FUN[fn][1] or x[1]%16 in(0,1,15)]
                for k in range(4): tasks.append(('P22',poor,fn,[x for x in cl if x[1]%4==k],rich))
        R=check.pool(hash_task,tasks); 
        # the helpers themselves, in every build
        hp=check.pool(helpers.task,list(build.C)); cnt={}
        for cfg,l in hp:
            for n,k,w in l:
                cnt[k]=cnt.get(k,0)+1
                if k=='wrong': C.violation(f'{cfg}/{n}',f'{build.C[cfg].note}: {n} is not the operation it stands for: {w}',w)
        if cnt.get('proven',0)+cnt.get('agree',0)==0 and not cnt.get('wrong'): raise check.Broken('no helper analysed')
        extra=dict(helper_verdicts=cnt,helpers_not_proven=sorted({f'{n}: {k} {w or ""}' for _,l in hp for n,k,w in l if k in('agree','unknown','absent')}),build_pairs=POOR,function_instances=inst,instances_with_identical_code=same)
    else:
        pl=p_effect.plan([c.name for c in build.C.values()],list(FUN))
        R=check.pool(hash_task,[(pid,rep,fn,[x for x in g if x[0]=='n' or x[2]<SPLIT//FUN[fn][1] or TIER!='quick' or x[1] in (0,1,13)],None) for rep,mem,fn,g in pl])
        vs=stream.variants(); R+=check.pool(stream_task,stream.tasks(pid,vs,TIER,effects=True))
        extra=dict(code_variants=len({(r['cfg'],r['fn']) for r in R}),configurations=sorted(build.C))
    seen={}
    for r in R:
        for key,txt,w in r['viol']: C.violation(key,f"{build.C[r['cfg']].note}: {key}: {txt} {str(w)[:600]}",w)
    if pid=='P13':
        ns=list(range(0,18))+[23,24,25,31,32,33,40,63,64,65,96,127,128,129] if TIER=='quick' else list(range(0,200))
        S=check.pool(spec_task,[(fn,W,ns[i::4]) for fn in FUN for W in ((64,) if TIER=='quick' else (64,32)) for i in range(4) if not(fn==AES[1])])
        bad=[b for s in S for b in s['bad']]
        if bad: raise check.Broken(f'the reference algorithm does not absorb {bad[:2]}')
        extra.update(reference_lengths=sum(s['n'] for s in S),reference_bits_flipped=sum(s['bits'] for s in S))
    C.cov.update(obligations=sum(r['n'] for r in R),discharged=sum(r['ok'] for r in R),agree_only=sum(len(r['agree']) for r in R),
        undecided_samples=[x for r in R for x in r['agree']][:10],functions=sorted({f for r in R for f in r['fns']}),
        instructions_interpreted=sum(r['steps'] for r in R),loops_summarised=sum(r['folds'] for r in R),rule=RULE[pid],
        checker_cmd=f'python3-vt sa/p_rel.py {pid}',trusted_base=['clang 18 front end and mem2reg','sa/interp.py, sa/terms.py, sa/intform.py','sa/spec.py','sa/stubs for the MSVC view'],**extra)
    if pid=='P22': C.cov['wide_product_lemmas']=sorted({f'{k}={v}' for r in R for k,v in r['lemmas'].items()})
    C.assume=['clang accepts the sources for each target as that target\'s own compiler would (GCC and MSVC views are emulated by predefined macros)']
    if C.cov['obligations']<50: raise check.Broken('too few obligations')
    return C.finish()
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
