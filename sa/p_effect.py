"""P08 P09 P10 P14 P16 P23: obligations over the memory accesses, stores and control flow of every hash function,
analysed per (configuration, function, length class)."""
import sys, time
import terms as t, engine, build, check, effects, p_stream
from engine import FUN, Run, classes, clsname, AES, SPLIT, TIER
CFG_EXACT=['x64-exact','x64-asan','x64-casan','i386-exact','a64be-exact','ppc64-exact','riscv64-exact','riscv64-slow-exact']
# targets whose hardware faults on misaligned accesses, and builds that ask for the slow policy: aligned whatever the header decides
CFG_STRICT=['mips','mips64el','riscv64','riscv64-exact','riscv64-slow-exact','riscv32','armeb','sparc64','ppc64-slow']
def policy(cfg):
    """(unaligned policy, one-shot reads) the configuration's own preprocessor sees: 2 efficient, 1 slow, 0 never"""
    m=build.module(cfg,build.probe('policy','''#include "t1ha.h"
#include "%s/src/t1ha_bits.h"
const int vp_policy=T1HA_SYS_UNALIGNED_ACCESS;
const int vp_fast=T1HA_USE_FAST_ONESHOT_READ;
'''%build.REPO))
    def g(n):
        b=m.globals[n].bytes; r=[b[i] for i in range(4)]
        return sum(x<<(8*i) for i,x in enumerate(r[::-1] if m.be else r))
    return g('vp_policy'),g('vp_fast')
def obligations(pid,R):
    if pid=='P08': return effects.exact_reads(R)
    if pid=='P09': return effects.page_reads(R)
    if pid=='P10':
        al={}
        if R.out is not None: al[R.out]=(0,8)
        a=effects.writes(R,al)
        if R.out is not None:
            a.n+=1
            if R.got is not None:
                g=R.got[1]; old=[x for x in leaves(g) if x.k=='b' and x.a[0]=='out']
                if old: a.viol.append(('result','the high half keeps bytes the caller left in the output',dict(cls=str(R.cl))))
                else: a.ok+=1
        return a
    if pid=='P14': return effects.alignment(R)
    if pid=='P16': return effects.undefined(R)
    if pid=='P23': return effects.leaks(R)
def leaves(x):
    seen=set(); st=[x]
    while st:
        y=st.pop()
        if y in seen: continue
        seen.add(y); yield y; st.extend(t.kids(y))
def task(a):
    pid,cfg,fn,cls=a; t0=time.time(); t.reset()
    M=FUN[fn][1]; A=effects.Acc()
    r=dict(cfg=cfg,fn=fn,classes=0,err=[],viol=[],und=[],steps=0,folds=0,fns=set())
    sec=('data','seed') if pid=='P23' else ()
    for cl in cls:
        R=Run(cfg,fn,cl,secrets=sec); r['classes']+=1; r['steps']+=R.ip.steps; r['folds']+=R.ip.nfolds; r['fns']|=R.ip.fns
        todo=[R]
        if R.err is not None and not R.dead:
            r['err'].append(clsname(cl,M)+': '+R.err)
            if cl[0]=='q' and cl[2]<SPLIT//M:
                for dq in (0,1,3):
                    R2=Run(cfg,fn,('n',M*(cl[2]+dq)+cl[1]),secrets=sec)
                    if R2.err is None: todo.append(R2)
            if engine.isbigcl(cl,M) and cl[1] in (0,1,3,7,8,13,M-1):
                for c2 in engine.wraps(cl,M,R.W):
                    R2=Run(cfg,fn,c2,secrets=sec)
                    if R2.err is None: todo.append(R2)
        for X in todo:
            o=obligations(pid,X)
            for site,txt,w in o.viol: r['viol'].append((site,txt,clsname(X.cl,M),w))
            for s in o.und: r['und'].append(s)
            A.n+=o.n; A.ok+=o.ok; A.sites|=o.sites
            if X.dead and pid=='P16': r['viol'].append((fn,'no path returns',clsname(X.cl,M),{}))
    r.update(n=A.n,ok=A.ok,sel=sorted(A.sel),sites=sorted(A.sites),t=time.time()-t0,fns=sorted(r['fns']))
    return r
def configs(pid):
    out=[]
    for c in build.C.values():
        pol,fast=policy(c.name); asan=c.name in('x64-asan','x64-casan')
        if pid=='P08' and c.name not in CFG_EXACT: continue
        if pid=='P09' and c.name in CFG_EXACT: continue
        if pid=='P14' and (c.name=='x64-slow' or pol==2 and c.name not in CFG_STRICT): continue
        out.append((c,pol,fast))
    return out
def plan(cfgs,fns):
    """one task list entry per distinct code: (representative configuration, all members, function, class groups)"""
    build.preload([(c,FUN[fn][0]) for fn in fns for c in cfgs if fn not in AES or build.C[c].aes])
    out=[]
    for fn in fns:
        cs=[c for c in cfgs if fn not in AES or build.C[c].aes]
        for rep,mem in build.groups(cs,FUN[fn][0],fn,extra=lambda c: c.startswith('i386')):
            W=32 if build.is32(build.C[rep]) else 64; t.MOD[0]=FUN[fn][1]
            cl=classes(fn,W); k=4 if fn in AES else 1
            if TIER=='quick' and fn in AES: cl=[x for x in cl if x[0]=='n' or x[2]<SPLIT//FUN[fn][1] or x[1]%16 in(0,1,15)]
            grp=[[] for _ in range(k)]
            # the two ranges of q with the same remainder stay together
            for x in cl: grp[(x[1]%FUN[fn][1])*k//FUN[fn][1]].append(x)
            out+=[(rep,mem,fn,g) for g in grp]
    out.sort(key=lambda a:-len(a[3])*(2 if a[2] in AES else 1))
    return out
def hashrun(pid,C,cfgs,fns=None):
    pl=plan([c.name for c,_,_ in cfgs],fns or list(FUN))
    R=check.pool(task,[(pid,rep,fn,g) for rep,mem,fn,g in pl])
    for r,(rep,mem,fn,g) in zip(R,pl): r['members']=mem
    return R
RULE=dict(P08='every read of the caller\'s data lies in [0,len) for every length of the class and every address',
 P09='every read of the caller\'s data touches at least one byte of it and no page the data does not occupy: evaluated for all 4096 page residues of the address; nothing is read for length 0',
 P10='every store goes to a local variable or to the documented outputs, inside their bounds; the 128-bit result leaves no byte of the output unset',
 P14='every access with a declared alignment above one is aligned for every address residue',
 P16='no live event of the kinds unreachable, abort, oversized shift, division by zero, null memcpy; every loop is summarised with a trip count given by the length',
 P23='no branch condition and no access address depends on a secret (taint over the value graph)')
def jump_task(a): return effects.compiled_branches(*a)
def run(pid):
    C=check.Check(pid,'proof'); cfgs=configs(pid)
    if not cfgs: raise check.Broken('no configuration for this property')
    R=hashrun(pid,C,cfgs)+p_stream.effect_run(pid,{c.name for c,_,_ in cfgs})
    seen=set()
    for r in R:
        for site,txt,cl,w in r['viol']:
            k=(r['cfg'],r['fn'],site)
            if k in seen: continue
            seen.add(k)
            C.violation(f"{r['cfg']}/{r['fn']}/{site}",f"{build.C[r['cfg']].note}: {r['fn']} for {cl}: {site}: {txt} {w}",w)
    if pid=='P23':
        # choices between two cheap values: a leak only where the optimised code still jumps
        sel={}
        for r in R:
            for loc,st in r['sel']: sel.setdefault((r['cfg'],FUN[r['fn']][0] if r['fn'] in FUN else 't1ha2'),set()).add((loc,st))
        jumps=dict(zip(sel,check.pool(jump_task,list(sel)))) if sel else {}
        for k,v in sel.items():
            for loc,st in sorted(v):
                if loc in jumps[k]: C.violation(f'{k[0]}/{k[1]}/{st}',f"{build.C[k[0]].note}: {st}: a conditional jump on the hashed content or the seed, kept by the optimiser",dict(site=st))
        C.cov.update(value_choices=sorted({st for v in sel.values() for _,st in v}))
    tot=sum(r['n'] for r in R); ok=sum(r['ok'] for r in R)
    C.cov.update(obligations=tot,discharged=ok,undecided=sum(len(r['und']) for r in R)+sum(len(r['err']) for r in R),
        undecided_samples=[f"{r['cfg']}/{r['fn']}: {x}" for r in R for x in (r['und']+r['err'])][:10],
        length_classes=sum(r['classes'] for r in R),code_variants=len({(r['cfg'],r['fn']) for r in R}),function_instances=len({(m,r['fn']) for r in R for m in r['members']}),configurations=[f"{c.name} (unaligned={p}, oneshot={f})" for c,p,f in cfgs],
        functions=sorted({f for r in R for f in r['fns']}),sites=sorted({x for r in R for x in r['sites']})[:200],
        instructions_interpreted=sum(r['steps'] for r in R),loops_summarised=sum(r['folds'] for r in R),rule=RULE[pid],
        checker_cmd=f'python3-vt sa/p_effect.py {pid}',
        trusted_base=['clang 18 front end and mem2reg','sa/interp.py, sa/terms.py, sa/effects.py, sa/vec.py'])
    C.assume=['clang accepts the sources for each target as that target\'s own compiler would','pages are 4096 bytes (a larger page contains these)']
    if tot<50: raise check.Broken('too few obligations')
    return C.finish()
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
