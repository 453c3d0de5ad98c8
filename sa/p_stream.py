"""P03 P04 P15: streaming t1ha2 by induction over the calls made on a context; also the streaming part of the
access/effect properties (used by p_effect.py)."""
import sys, time, os
import terms as t, build, check, spec, engine, effects, stream
from stream import Call, Obj, Ptr, NULL
from engine import compare, SPLIT, TIER
SEC=('data','st0','st1','st2','st3','ctx','x','y')
def value_task(a):
    pid,cfg,ps,full,first=a; t.reset(); t0=time.time()
    r=dict(cfg=cfg,n=0,ok=0,agree=[],und=[],viol=[],tried=0,steps=0,folds=0,fns=set(),sites=set()); budget=[10]; small={}
    def note(c): r['steps']+=c.ip.steps; r['folds']+=c.ip.nfolds; r['fns']|=c.ip.fns
    def judge(key,c,g,w,L,p,cl,smallok=True):
        """g,w: flat lists; decides one obligation"""
        r['n']+=1
        if g is not None:
            if len(g)==len(w) and all(a is b for a,b in zip(g,w)): r['ok']+=1; return True
            if len(r['viol'])>=3: return      # enough witnesses
            k,wit=compare(tuple(g),tuple(w),L,small_proven=smallok) if pid=='P15' or cl=='init' else ('unequal',None)
        else: k,wit='err',None
        if c.dead: r['viol'].append((key,'a call on a valid context does not return',{})); return
        if pid=='P15':
            if k!='differ' and isinstance(cl,tuple):
                for c2 in stream.wraps(p,cl,c.W):
                    cc,g2,w2=stream.step(cfg,p,c2)
                    if g2 is None: continue
                    k2,wit=compare(tuple(flat(g2)),tuple(flat(w2)),cc.L)
                    if k2=='differ': k='differ'; key+=f', namely {stream.name(c2)}'; break
            if k=='differ': r['viol'].append((key,'context fields after the call',wit))
            else: r['und' if k=='err' else 'agree'].append(key+(': '+c.err if c.err else ''))
            return
        wp=engine.wrong_products(cfg)
        if wp and pid=='P04': r['viol'].append((key,'wide product',dict(product=wp[0]))); return
        if budget[0]>0 and cl!='init':
            budget[0]-=1
            f=stream.confirm_spec if pid=='P04' else stream.confirm_chunk
            wit,n=f(cfg,p,cl) if not(pid=='P03' and cl is None) else (None,0); r['tried']+=n
            if wit: r['viol'].append((key,'two chunkings of the same bytes give different results' if pid=='P03' else 'the digest of this history is not the published one',wit)); budget[0]=0; return
        elif cl=='init' and pid=='P04' and k=='differ':
            wit,n=stream.confirm_spec(cfg,0,None); r['tried']+=n
            if wit: r['viol'].append((key,'the digest of this history is not the published one',wit)); return
        r['und' if k=='err' else 'agree'].append(key+(': '+c.err if c.err else ''))
    def flat(x): return list(x[0])+[x[1],x[2]]+x[3] if pid!='P15' else [x[1],x[2]]+x[3]
    if first:
        c,g,w=stream.ini(cfg); note(c)
        judge(f'{cfg}/t1ha2_init',c,flat(g) if g else None,flat(w) if g else None,None,0,'init')
    for p in ps:
        for cl in stream.steps(p,build.module(cfg,'t1ha2').ptrbits,full):
            c,g,w=stream.step(cfg,p,cl); note(c)
            so=cl[0]=='n' or cl[2]<SPLIT//32 or small.get((p,cl[1]),False)
            v=judge(f'{cfg}/t1ha2_update with {p} pending, length {stream.name(cl)}',c,flat(g) if g else None,flat(w) if g else None,c.L,p,cl,so)
            if v and cl[0]=='q': small[(p,cl[1])]=True
            if pid=='P15':
                o=effects.writes(c,{c.ctx:(0,c.lay['size'])}); r['n']+=o.n; r['ok']+=o.ok; r['sites']|=o.sites
                r['viol']+=[(f'{cfg}/t1ha2_update with {p} pending, length {stream.name(cl)}/{s}',x,y) for s,x,y in o.viol]; r['und']+=o.und
        if pid=='P15':
            # an empty update may pass a null pointer and changes nothing
            c=Call(cfg); c.opaque(p); before=(c.fields(),c.pending(p)); c.update(spec.Len(c.W,n=0),null=True); note(c); r['n']+=1
            bad=[e for e in c.ip.events if e.kind=='null-memcpy' or e.kind=='R' and e.obj is NULL]
            key=f'{cfg}/t1ha2_update with {p} pending, empty, null pointer'
            if bad: r['viol'].append((key,f'uses the null pointer at {effects.site(bad[0])}',{}))
            elif c.err: r['und'].append(key+': '+c.err)
            else:
                f=lambda x: list(x[0][0])+[x[0][1],x[0][2]]+x[1]
                k,wit=compare(tuple(f((c.fields(),c.pending(p)))),tuple(f(before)),None)
                if k=='proven': r['ok']+=1
                elif k=='differ': r['viol'].append((key,'changes the context',wit))
                else: r['agree'].append(key)
        elif pid=='P04':
            for extra in (0,1):
                c,g,w=stream.fin(cfg,p,extra); note(c)
                judge(f'{cfg}/t1ha2_final with {p} pending, extra={extra}',c,g,w,None,p,None)
        else:
            # the digest may depend on the context only through what the updates fix: no left-over byte of the buffer
            for extra in (0,1):
                c,g,w=stream.fin(cfg,p,extra); note(c); r['n']+=1
                if g is None: r['und'].append(f'{cfg}/t1ha2_final {p}: {c.err}'); continue
                b=c.lay['buf']; okoff={b+i for i in range(p)}
                junk=[x for x in leaves(g) if x.k=='b' and x.a[0]=='ctx' and not(t.isc(x.a[1]) and t.sgn(x.a[1].a[0],c.W) in okoff)]
                if not junk: r['ok']+=1; continue
                wit=effects.junkflip(g,lambda o,off,fx: o=='ctx' and off in okoff)
                if wit: r['viol'].append((f'{cfg}/t1ha2_final with {p} pending, extra={extra}','the digest depends on left-over bytes of the buffer, which differ between chunkings',wit))
                else: r['agree'].append(f'{cfg}/t1ha2_final {p}')
    r['fns']=sorted(r['fns']); r['sites']=sorted(r['sites']); r['t']=time.time()-t0
    return r
def leaves(ts):
    seen=set(); st=list(ts)
    while st:
        y=st.pop()
        if y in seen: continue
        seen.add(y); yield y; st.extend(t.kids(y))
# ---------------------------------------------------------------- effects of the streaming calls
def effect_task(a):
    """(pid, cfg, pending counts, full, first)"""
    import p_effect
    pid,cfg,ps,full,first=a; t.reset(); t0=time.time(); A=effects.Acc(); sec=SEC if pid=='P23' else ()
    r=dict(cfg=cfg,fn='t1ha2 stream',classes=0,err=[],viol=[],steps=0,folds=0,fns=set())
    def ob(c,what,cl=None,pp=0):
        r['classes']+=1; r['steps']+=c.ip.steps; r['folds']+=c.ip.nfolds; r['fns']|=c.ip.fns
        if c.err and not c.dead:
            r['err'].append(what+': '+c.err)
            if cl is not None:
                for c2 in stream.wraps(pp,cl,c.W):
                    cc=stream.step(cfg,pp,c2,sec)[0]
                    if not cc.err: ob(cc,f't1ha2_update with {pp} pending, length {stream.name(c2)}')
        if pid=='P10':
            al={c.ctx:(0,c.lay['size'])}
            if c.out is not None: al[c.out]=(0,8)
            o=effects.writes(c,al)
            if c.out is not None and c.got is not None:
                o.n+=1
                if any(x.k=='b' and x.a[0]=='out' for x in leaves([c.got[1]])): o.viol.append(('result','the high half keeps bytes the caller left in the output',{}))
                else: o.ok+=1
        else: o=p_effect.obligations(pid,c)
        for s,x,w in o.viol: r['viol'].append((s,x,what,w))
        A.add(o)
        if c.dead and pid=='P16': r['viol'].append((what,'no path returns',what,{}))
    if first: ob(stream.ini(cfg,sec)[0],'t1ha2_init')
    for p in ps:
        if pid in('P08','P09','P16'):
            c=Call(cfg); c.opaque(p); c.update(spec.Len(c.W,n=0),null=True)
            bad=[e for e in c.ip.events if e.kind=='R' and e.obj is NULL]
            if bad: r['viol'].append((effects.site(bad[0]),'reads through the null pointer of an empty update',f'{p} pending',{}))
            A.n+=1; A.ok+=not bad
        for cl in stream.steps(p,build.module(cfg,'t1ha2').ptrbits,full):
            ob(stream.step(cfg,p,cl,sec)[0],f't1ha2_update with {p} pending, length {stream.name(cl)}',cl,p)
        for extra in (0,1): ob(stream.fin(cfg,p,extra,sec)[0],f't1ha2_final with {p} pending, extra={extra}')
    r.update(n=A.n,ok=A.ok,und=A.und,sel=sorted(A.sel),sites=sorted(A.sites),t=time.time()-t0,fns=sorted(r['fns']))
    return r
def effect_run(pid,cfgs):
    vs=[]
    for rep,mem in stream.variants():
        m=[c for c in mem if c in cfgs]
        if m: vs.append((m[0],m))
    ts=stream.tasks(pid,vs,TIER,effects=True); R=check.pool(effect_task,ts); mm=dict(vs)
    for r in R: r['members']=mm[r['cfg']]
    return R
RULE=dict(P03='after one update from an arbitrary valid context, state, pending bytes, partial and total are those of the concatenated input (so any chunking reaches the same context), and t1ha2_final uses nothing else of the context',
 P04='t1ha2_init, one t1ha2_update from an arbitrary valid context and t1ha2_final have the value numbers of the published algorithm (induction over the calls)',
 P15='one update from an arbitrary valid context leaves partial<32, exactly the pending bytes in order, total increased by the length modulo 2^64, and writes only inside the context; an empty update with a null pointer changes nothing')
def run(pid):
    C=check.Check(pid,'proof'); vs=stream.variants(); mm=dict(vs)
    R=check.pool(value_task,stream.tasks(pid,vs,TIER)); seen={}
    for r in R:
        for key,txt,w in r['viol']:
            if seen.setdefault(r['cfg'],0)<4: seen[r['cfg']]+=1; C.violation(key,f"{build.C[r['cfg']].note}: {key}: {txt} {w}",w)
    C.cov.update(obligations=sum(r['n'] for r in R),discharged=sum(r['ok'] for r in R),agree_only=sum(len(r['agree']) for r in R),undecided=sum(len(r['und']) for r in R),
        undecided_samples=[x for r in R for x in r['und']+r['agree']][:10],histories_tried=sum(r['tried'] for r in R),
        code_variants=len(vs),configurations=sorted(c for _,m in vs for c in m),functions=sorted({f for r in R for f in r['fns']}),
        instructions_interpreted=sum(r['steps'] for r in R),loops_summarised=sum(r['folds'] for r in R),rule=RULE[pid],
        checker_cmd=f'python3-vt sa/p_stream.py {pid}',trusted_base=['clang 18 front end and mem2reg','sa/interp.py, sa/terms.py, sa/intform.py','sa/spec.py','sa/stream.py'])
    C.assume=['quick: for every code variant all 32 pending counts and the lengths around every boundary; all lengths for the variants of '+', '.join(sorted(stream.FULL))+'; thorough: all lengths for all variants']
    if C.cov['obligations']<50: raise check.Broken('too few obligations')
    return C.finish()
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
