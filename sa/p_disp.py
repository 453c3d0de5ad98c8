"""P11 P17 P18: process-wide state, and selection and dispatch of t1ha0."""
import sys, os, glob, re
import terms as t, build, check, interp, disp, direct
from interp import Imprecise, Ptr, FPtr, PIte, State, NULL
from disp import *
TIER=os.environ.get('VERIF_TIER','quick')
HASHTU=['t1ha0','t1ha1','t1ha2']; AESTU=['noavx','avx','avx2']
SELTU=['sc','t1ha0_sc','t1ha1_sc','t1ha2_sc','sc_all']
NOIF=('-DT1HA_USE_INDIRECT_FUNCTIONS=0',); RT=('-DT1HA0_RUNTIME_SELECT=1',); NORT=('-DT1HA0_RUNTIME_SELECT=0',); NOAES=('-DT1HA0_AESNI_AVAILABLE=0',)
def newfiles():
    """source files of the library that the table in build.py does not know"""
    known=set(build.SRC.values())
    return [p for p in sorted('src/'+os.path.basename(x) for x in glob.glob(build.REPO+'/src/*.c')) if p not in known]
def lib(cfg,extra=(),sel=True):
    ms=[]; aes=build.C[cfg].target.split('-')[0] in('x86_64','i386') and not('-DT1HA0_AESNI_AVAILABLE=0' in extra)
    for tu in HASHTU+(AESTU if aes else [])+(SELTU if sel else [])+newfiles():
        ms.append(build.module(cfg,tu,extra))
    return ms
def pname(cfg,extra): return cfg+''.join(' '+x[2:] for x in extra)
# ---------------------------------------------------------------- P11
OKCALL=re.compile(r'^(mem(cpy|move|set|cmp)|abort|__assert_fail|__assert|_assert|stub_\w+|__stack_chk_fail|_GLOBAL_OFFSET_TABLE_)$')
BADINTR=re.compile(r'^llvm\.(readcyclecounter|readsteadycounter|x86\.rdtsc|x86\.rdtscp|x86\.rdrand|x86\.rdseed|x86\.rdpid|x86\.sse\.(ld|st)mxcsr|read_register|read_volatile_register|write_register|get\.rounding|set\.rounding|get\.fpenv|set\.fpenv|returnaddress|addressofreturnaddress|frameaddress|sponentry|thread\.pointer|vastart|eh\.)')
def derived(f,start):
    """ids of values that may hold a pointer derived from the given ids/globals: {key: set of origin}"""
    d={}
    def org(o):
        if not isinstance(o,tuple): return set()
        if o[0]=='i': return d.get(o[1],set())
        if o[0]=='g': return {o[1]}
        if o[0]=='ce': return org(o[3])
        if o[0]=='agg': return set().union(set(),*[org(x) for x in o[2]])
        return set()
    for k,v in start.items(): d[k]={v}
    ch=True
    while ch:
        ch=False
        for b in f.blocks:
            for i in list(b.phis)+b.ins:
                if i.op in('getelementptr','bitcast','addrspacecast','select','ptrtoint','inttoptr','freeze','extractvalue','insertvalue','add','sub','and','or','xor'): s=set().union(set(),*[org(o) for o in i.ops])
                elif i.op=='phi': s=set().union(set(),*[org(o) for o in i.x['in'].values()])
                elif i.op=='call' and i.x['callee'][0]=='f' and i.x['callee'][1].startswith(('llvm.threadlocal','llvm.launder','llvm.ptrmask')): s=set().union(set(),*[org(o) for o in i.ops])
                else: continue
                if s-d.get(i.id,set()): d[i.id]=d.get(i.id,set())|s; ch=True
    return org
class Glob:
    """reads, writes and escapes of every global over a set of modules (flow-insensitive, parameters followed into callees)"""
    def __init__(s,mods):
        s.mods=mods; s.find=interp.Interp(mods); s.par={}; s.acc=[]
        for m in mods:
            for f in m.funcs.values():
                if not f.decl: s.scan(f,m)
    def scan(s,f,m,start=None,sink=None):
        org=derived(f,start or {})
        out=s.acc if sink is None else sink
        def rec(kind,o,i):
            for g in org(o):
                if start is None or g in start.values(): out.append((kind,g,f,m,i))
        for b in f.blocks:
            for i in b.ins:
                if i.op=='load': rec('r',i.ops[0],i)
                elif i.op=='store': rec('w',i.ops[1],i); rec('e',i.ops[0],i)
                elif i.op in('atomicrmw','cmpxchg','?'):
                    for o in i.ops: rec('w',o,i)
                elif i.op=='ret':
                    for o in i.ops: rec('e',o,i)
                elif i.op=='call':
                    c=i.x['callee']
                    for k,o in enumerate(i.ops):
                        if not org(o): continue
                        n=c[1] if c[0]=='f' else None
                        if n and (n.startswith(('llvm.lifetime','llvm.threadlocal','llvm.prefetch','llvm.assume'))): continue
                        if n and re.match(r'^(llvm\.)?mem(cpy|move|set)',n): rec('w' if k==0 else 'r',o,i); continue
                        if n:
                            cf,cm=s.find.findfunc(n,m)
                            if cf is not None and k<len(cf.args):
                                for kind in s.param(cf,cm,k): rec(kind,o,i)
                                continue
                        rec('e',o,i)
    def param(s,f,m,k):
        key=(f.name,id(m),k)
        if key in s.par: return s.par[key]
        s.par[key]=set(); sink=[]
        s.scan(f,m,{f.args[k][0]:'\0p'},sink)
        s.par[key]={a[0] for a in sink}; return s.par[key]
def refs(f):
    for b in f.blocks:
        for i in list(b.phis)+b.ins:
            for x in walk((i.ops,i.x)): yield x,i
def p11(mods,name,V):
    """V: violation(key,text)"""
    st=dict(functions=0,calls=0,globals=0,accesses=0,constants=0)
    gd={}
    for m in mods:
        for g in m.globals.values():
            if g.decl or g.name.startswith('llvm.'): continue
            gd.setdefault(g.name,[]).append((g,m)); st['globals']+=1
    G=Glob(mods); st['accesses']=len(G.acc)
    def mine(g,m):   # the definition a name refers to in module m
        for d,dm in gd.get(g,()):
            if dm is m: return d
        for d,dm in gd.get(g,()):
            if not d.internal: return d
        return None
    wr={}
    for kind,g,f,m,i in G.acc:
        d=mine(g,m)
        if d is not None and kind in 'we': wr.setdefault(id(d),[]).append((kind,f,i))
    def mutable(d): return not d.const and (id(d) in wr or d.tls or not d.internal)
    # inventory
    for n,ds in gd.items():
        for d,m in ds:
            if d.const: st['constants']+=1
            elif n!=Disp2.PTR and mutable(d):
                w=wr.get(id(d))
                V(f'{n}',f'mutable process-wide object {n} in {m.tu}: '+(f'written or exposed in {w[0][1].name} ({w[0][2].file}:{w[0][2].line})' if w else 'thread-local' if d.tls else 'visible outside and not constant'))
    # reachable code
    seen=set(); todo=[(f,m) for m in mods if m.tu in HASHTU+AESTU for f in m.funcs.values() if not f.decl and not f.internal]
    while todo:
        f,m=todo.pop()
        if (f.name,id(m)) in seen: continue
        seen.add((f.name,id(m))); st['functions']+=1
        for b in f.blocks:
            for i in b.ins:
                if i.op=='call':
                    st['calls']+=1; c=i.x['callee']
                    if c[0]=='asm':
                        txt=c[1]
                        if txt.strip() and not re.search(r'cpuid|xgetbv|0x0f, 0x01, 0xd0|pushf|emms|vzero',txt): V(f'{f.name}/{i.file}',f'{f.name} ({i.file}:{i.line}) runs machine code of unknown effect: {txt[:40]!r}')
                    elif c[0]=='f' and BADINTR.match(c[1]): V(f'{f.name}/{c[1]}',f'{f.name} ({i.file}:{i.line}) reads or changes state of the machine: {c[1]}')
                if i.op in('load','store'):
                    o=i.ops[0] if i.op=='load' else i.ops[1]
                    if o[0]=='ce' and o[1]=='inttoptr' and o[3][0]=='c': V(f'{f.name}/fixed',f'{f.name} ({i.file}:{i.line}) accesses memory at a fixed address')
        for x,i in refs(f):
            if x[0]=='f':
                if x[1].startswith('llvm.'): continue
                cf,cm=G.find.findfunc(x[1],m)
                if cf is not None: todo.append((cf,cm))
                elif not OKCALL.match(x[1]): V(f'{f.name}/{x[1]}',f'{f.name} ({i.file}:{i.line}) calls outside code: {x[1]}')
            else:
                d=mine(x[1],m)
                if d is None:
                    g=m.globals.get(x[1])
                    if g is not None and g.decl and not g.const: V(f'{f.name}/{x[1]}',f'{f.name} ({i.file}:{i.line}) uses the outside object {x[1]}')
                    continue
                for y in walk(list((d.bytes or {}).values())):
                    if y[0]=='f':
                        cf,cm=G.find.findfunc(y[1],m)
                        if cf is not None: todo.append((cf,cm))
                if mutable(d) and x[1]!=Disp2.PTR: V(f'{f.name}/{x[1]}',f'{f.name} ({i.file}:{i.line}) uses mutable process-wide state {x[1]}')
    st['stores']=p11ptr(mods,name,V)
    return st
def writers(mods):
    G=Glob(mods); r={}
    for kind,g,f,m,i in G.acc:
        if g==Disp2.PTR and kind in 'we': r.setdefault((f.name,id(m)),(f,m))
    return list(r.values())
def p11ptr(mods,name,V):
    """every value stored into the dispatch pointer is what the selection yields"""
    hs=hash_names(mods); n=0
    res=[m for m in mods if 't1ha0_resolve' in m.funcs and not m.funcs['t1ha0_resolve'].decl]
    if not res: return 0
    E=list(envs(False,sups(mods)))
    for f,m in writers(mods):
        ip=Disp2([m]+[x for x in mods if x is not m],hs)
        a=[Ptr(interp.Obj('arg%d'%k,'data'),t.const(0,ip.W)) if ty[0]=='ptr' else t.var('arg%d'%k,ty[1]) for k,(_,ty) in enumerate(f.args)]
        try: ref=ip.run('t1ha0_resolve',[])[1]; ip.fstores.clear(); ip.callf(f,m,a,State()); vals=[(pc,v,loc,pick_all(v,ref,pc,E)) for pc,v,loc,_ in ip.fstores]
        except Imprecise as e: UND.append(f'{name}: {f.name}: what is stored into {Disp2.PTR} ({e})'); continue
        for pc,v,loc,bad in vals:
            n+=1
            if bad: V(f'{f.name}/{Disp2.PTR}',f'{f.name} ({loc}) sets {Disp2.PTR} to {bad[0]}, the selection yields {bad[1]} [{bad[2]}]')
        if not vals: V(f'{f.name}/{Disp2.PTR}',f'{f.name} may change {Disp2.PTR} to something else than the selection yields')
    return n
def pick_all(v,ref,pc,E):
    for e in E:
        ev=e.eval()
        if not on_path(pc,ev): continue
        a,b=pick(v,ev),pick(ref,ev)
        if a!=b: return a,b,e
    return None
def sups(mods): return (0,1) if mods[0].ptrbits==32 and 'windows' not in mods[0].triple else (1,)
# ---------------------------------------------------------------- P17
def p17(cfg,extra,V):
    mods=lib(cfg,extra,sel=False); name=pname(cfg,extra)
    st=dict(environments=0,variants=0,features={},probes=0)
    m0=[m for m in mods if 't1ha0_resolve' in m.funcs and not m.funcs['t1ha0_resolve'].decl]
    if not m0: raise check.Broken(f'{name}: no t1ha0_resolve')
    hs=hash_names(mods); base=base_features(cfg); ip=Disp2(mods,hs)
    try: r=ip.run('t1ha0_resolve',[])
    except Imprecise as e: return st,str(e)
    if r is None: V('t1ha0_resolve',f't1ha0_resolve never returns'); return st,None
    v=r[1]; need={}
    def req(n):
        if n not in need:
            x,k=required(mods,n,base) if n in hs else (None,0)
            need[n]=x; st['variants']+=1
        return need[n]
    evs=[e for e in ip.events if e.kind in('cpuid','xgetbv')]; st['probes']=len(evs); bad={}
    for e in envs(TIER!='quick' or cfg in('x64','i386'),sups(mods)):
        E=e.eval(); st['environments']+=1; has=e.has()
        n=pick(v,E)
        if n is None:
            if 'none' not in bad: bad['none']=1; V('t1ha0_resolve/none',f't1ha0_resolve selects nothing on a machine with {e}')
            continue
        x=req(n)
        if x is None:
            if n not in bad: bad[n]=1; V(f't1ha0_resolve/{n}',f't1ha0_resolve selects {n}, which is no hash function of the library')
            continue
        ok=set(has)
        for k,im in IMPLIED.items():
            if k in has: ok|=im
        if x-ok and (n,tuple(sorted(x&{'aes','avx','avx2'}-has))) not in bad:
            bad[(n,tuple(sorted(x&{'aes','avx','avx2'}-has)))]=1
            V(f't1ha0_resolve/{n}',f't1ha0_resolve selects {n}, whose code uses {sorted(x-ok)}, on a machine that offers {sorted(has) or "none of them"}: {e}')
        for p in evs:
            if on_path(p.pc,E) and ((p.kind=='cpuid' and not e.sup) or (p.kind=='xgetbv' and 'osxsave' not in has)) and p.kind not in bad:
                bad[p.kind]=1; V(f't1ha0_resolve/{p.kind}',f'{p.stack[-1] if p.stack else "?"} ({p.loc()}) executes {p.kind} on a machine that does not have it: {e}')
    st['features']={k:sorted(x) for k,x in need.items() if x is not None}; st['fns']=sorted(ip.fns)
    return st,None
# ---------------------------------------------------------------- P18
PROBE='#include "t1ha.h"\n#ifdef __cplusplus\nextern "C"\n#endif\nuint64_t probe_t1ha0(const void *d, size_t n, uint64_t s);\nuint64_t probe_t1ha0(const void *d, size_t n, uint64_t s) { return t1ha0(d, n, s); }\n'
def differ(got,want,E):
    """first environment in which the value got is not the one the functions picked by want give"""
    tried=set()
    for e in E:
        ev=e.eval()
        try: n=pick(want[0],ev)
        except Imprecise: n='?'
        w=t.uf('hash:'+str(n),64,*want[1])
        if ev.ev(got)!=ev.ev(w): return n,e
        # does anything but the machine decide?  a condition on the arguments is tried both ways
        if n not in tried and '?'!=n:
            tried.add(n)
            if any(x.k in('v','b') and x.a[0] in('len','seed','data') for c in direct.conds([got]) for x in t.free(c)):
                r=direct.search([got],[w],lambda i: lambda asg: t.Eval(('env',e.salt,i),fixed={'cpuid_supported':e.sup,**{k:v for k,v in asg.items() if not isinstance(k,tuple)}},bytefn=lambda o,k: asg.get((o,k)),uffn=e.uf))
                if r: return n,Named(e,r[0])
    return None
class Named:
    def __init__(s,e,sol): s.e=e; s.asg={str(getattr(k,'a',[k])[0]):hex(v) for k,v in sol.asg.items()}; s.sol=sol
    def eval(s): return s.sol.E
    def __repr__(s): return f'{s.e} {s.asg}'
def called(got,e):
    ev=e.eval()
    x=got
    while x.k=='ite': x=x.a[1] if ev.ev(x.a[0]) else x.a[2]
    return x.a[0][5:] if x.k=='uf' and x.a[0].startswith('hash:') else str(x)
def p18run(cfg,extra,V,pextra=None,cxx=False):
    """dispatch of a build with run-time selection"""
    mods=lib(cfg,extra,sel=False); name=pname(cfg,extra); st=dict(sequences=0,calls=0)
    pm=build.module(cfg,build.probe('use',PROBE),extra if pextra is None else pextra)
    hs=hash_names(mods)-{'t1ha0'}; E=list(envs(False,sups(mods)))
    cs=[c for m in mods for c in ctors(m)]
    ref=Disp2([pm]+mods,hs).run('t1ha0_resolve',[])
    if ref is None: V('t1ha0_resolve',f't1ha0_resolve never returns'); return st
    ref=ref[1]
    for seq in (['call'],['call','call'],['start','call'],['call','start','call'],['resolve','call'],['start','resolve']):
        ip=Disp2([pm]+mods,hs); S=State(); st['sequences']+=1
        if ip.mods[0].ptrbits and True: a=disp.args(ip)
        want=(ref,[ip.toint(x) for x in a])
        what='->'.join(seq)
        try:
            for s in seq:
                if s=='start':
                    for c in cs:
                        r=ip.run(c,[],S)
                        if r is None: raise Dead(c)
                        S=r[2]
                elif s=='resolve':
                    r=ip.run('t1ha0_resolve',[],S)
                    if r is None: raise Dead('t1ha0_resolve')
                    S=r[2]; b=pick_all(r[1],ref,(),E)
                    if b: V('t1ha0_resolve',f'[{what}] t1ha0_resolve yields {b[0]}, at other times {b[1]} [{b[2]}]'); break
                else:
                    st['calls']+=1
                    r=ip.run('probe_t1ha0',a,S)
                    if r is None: raise Dead('t1ha0')
                    S=r[2]; b=differ(r[1],want,E)
                    if b: V('t1ha0',f'[{what}] t1ha0 calls {called(r[1],b[1])}, the selection yields {b[0]} [{b[1]}]'); break
                nul=[e for e in ip.events if e.kind in('abort','unreachable') and any(on_path(e.pc,x.eval()) for x in E[:40])]
                if nul: raise Dead(nul[0].loc())
        except Dead as e: V('t1ha0',f'[{what}] never returns ({e})')
        except Imprecise as e: UND.append(f'{name}: [{what}] {e}')
    # an indirect function's resolver runs while the library is still being relocated
    for m in mods:
        for n,(r,vis) in m.ifuncs.items():
            G=Glob(mods)
            for f,fm in closure(mods,r[1]):
                if f.name in hs: continue
                for b in f.blocks:
                    for i in b.ins:
                        if i.op=='call' and i.x['callee'][0]=='f':
                            c=i.x['callee'][1]
                            if c.startswith('llvm.'): continue
                            cf,cm=G.find.findfunc(c,fm)
                            if cf is None or (not cf.internal and cf.vis==0): V(f'{n}/resolver/{c}',f'{f.name} ({i.file}:{i.line}), run while the library is being relocated, calls {c} through the procedure linkage table')
                for x,i in refs(f):
                    if x[0]=='g':
                        for mm in mods:
                            g=mm.globals.get(x[1])
                            if g is not None and not g.const and not g.name.startswith('llvm.') and x[1]!=n: V(f'{n}/resolver/{x[1]}',f'{f.name} ({i.file}:{i.line}), run while the library is being relocated, uses the variable {x[1]}'); break
    return st
UND=[]
class Dead(Exception): pass
def p18asm(cfg,V):
    """compilers without the ifunc attribute: the assembler directive"""
    ex=('-fgnuc-version=4.8.0','-U__clang__','-D__has_attribute(x)=0','-D__has_builtin(x)=0','-Wno-builtin-macro-redefined')
    m=build.module(cfg,'t1ha0',ex)
    a=m.asm if hasattr(m,'asm') else ''
    if not a or 't1ha0' in m.ifuncs: return 0
    g=re.search(r'\.set\s+t1ha0\s*,\s*(\w+)',a)
    if not g or not re.search(r'\.globl\s+t1ha0\b',a) or not re.search(r'\.type\s+t1ha0\s*,\s*[%@]gnu_indirect_function',a): V('t1ha0',f'the assembler directives do not make t1ha0 a global indirect function: {a!r}'); return 1
    if g.group(1)!='t1ha0_resolve': V('t1ha0',f'the indirect function t1ha0 is resolved by {g.group(1)}, not by t1ha0_resolve')
    return 1
CT=['x64','i386','a64','a64be','mips','ppc64','riscv32','riscv64','s390x','armv7','armeb','sparc64','x64-msvc','i386-msvc','x64-win']
def p18const(cfg,dis,usedef,V):
    """compile-time choice"""
    opts=tuple('-D%s_DISABLED'%d for d in dis)
    pm=build.module(cfg,build.probe('use',PROBE),NORT+opts+(('-DT1HA0_USE_DEFINE=1',) if usedef else ()))
    m0=build.module(cfg,'t1ha0',RT+opts+NOAES)
    mods=[pm,m0]; n=0
    hs={x for m in mods for x,f in m.funcs.items() if x.startswith('t1ha') and is_hash(f,m.ptrbits) and not f.internal}
    refs_=[('without AES support',m0)]
    if build.C[cfg].target.split('-')[0] in('x86_64','i386'): refs_.append(('on a processor without AES',build.module(cfg,'t1ha0',RT+opts)))
    for what,m in refs_:
        ip=Disp2([pm,m],hs|hash_names([m])); a=disp.args(ip)
        try:
            ref=ip.run('t1ha0_resolve',[])[1]; r=ip.run('probe_t1ha0',a)
        except Imprecise as e: UND.append(f'{cfg} {opts}: {e}'); continue
        n+=1
        E=[e for e in envs(False,sups([m])) if 'aes' not in e.has()]
        b=differ(r[1],(ref,[ip.toint(x) for x in a]),E)
        if b: V('t1ha0',f'compile-time t1ha0 is {called(r[1],b[1])}, run-time selection {what} yields {b[0]}')
    return n
# ----------------------------------------------------------------
DISPATCH=[('x64',()),('x64',NOIF),('x64-gcc',()),('x64-gcc',NOIF),('x64-asan',()),('x64-casan',()),('x64-debug',NOIF),('x64-win',()),('x64-msvc',()),('i386',()),('i386-exact',()),('i386-msvc',()),
          ('x64',NOAES+RT),('x64-msvc',NOAES+RT),('a64',RT),('a64-msvc',RT),('a64be',RT),('mips',RT),('ppc64',RT),('riscv64',RT),('armv7',RT),('s390x',RT)]
def task(a):
    pid,cfg,extra,more=a; t.reset(); t.MOD[0]=1; vio=[]; name=pname(cfg,extra)
    V=lambda k,x: vio.append((name+'/'+k,f'{build.C[cfg].note}{" "+" ".join(extra) if extra else ""}: {x}'))
    r=dict(name=name,und=None); UND.clear()
    try:
        if pid=='P11': r.update(p11(lib(cfg,extra),name,V))
        elif pid=='P17':
            st,u=p17(cfg,extra,V); r.update(st)
            if u: UND.append(name+': '+u)
        elif pid=='P18':
            if more is None: r.update(p18run(cfg,extra,V))
            elif more=='asm': r['asm']=p18asm(cfg,V)
            else: r['choices']=p18const(cfg,more[0],more[1],V)
    except build.CompileError as e: r['und']=str(e)[:300]
    r['viol']=vio; r['undecided']=list(UND); return r
def run(pid):
    C=check.Check(pid,'proof')
    if pid=='P11': T=[(pid,c,(),None) for c in build.C]+[(pid,c,x,None) for c,x in DISPATCH if x]+[(pid,'x64',NORT,None)]
    elif pid=='P17': T=[(pid,c,x,None) for c,x in DISPATCH if build.C[c].target.split('-')[0] in('x86_64','i386')]
    else:
        import itertools
        T=[(pid,c,x,None) for c,x in DISPATCH]+[(pid,'x64',(),'asm')]
        T+=[(pid,c,(),(d,u)) for c in CT for d in ((),('T1HA1',),('T1HA2',),('T1HA1','T1HA2')) for u in(0,1)]
    R=check.pool(task,T)
    und=[r['name']+': '+r['und'] for r in R if r['und']]
    for r in R:
        for k,x in r['viol']: C.violation(k,x)
    if pid=='P11':
        C.cov.update(builds=len(R),functions=sum(r.get('functions',0) for r in R),calls=sum(r.get('calls',0) for r in R),globals=sum(r.get('globals',0) for r in R),accesses=sum(r.get('accesses',0) for r in R),dispatch_pointer_stores=sum(r.get('stores',0) for r in R),
          obligations=sum(r.get('functions',0)+r.get('globals',0)+r.get('stores',0) for r in R),
          rule='no function reachable from a hash refers to a mutable or thread-local global other than t1ha0_funcptr, calls outside code or reads machine state; no other mutable global exists in the library; every value stored into t1ha0_funcptr equals, in every modelled machine, the value of t1ha0_resolve()')
        ok=C.cov['functions']>200 and C.cov['dispatch_pointer_stores']>=3
    elif pid=='P17':
        C.cov.update(builds=len(R),environments=sum(r.get('environments',0) for r in R),feature_queries=sum(r.get('probes',0) for r in R),variants=R[0].get('features'),obligations=sum(r.get('environments',0) for r in R),functions=sorted({f for r in R for f in r.get('fns',())}),
          rule='in every modelled machine the extensions in the code of the selected function (target features of every function in its closure) are a subset of what processor and operating system offer; cpuid and xgetbv are only executed where they exist; a function is always selected')
        ok=C.cov['environments']>10000 and C.cov['feature_queries']>=10
    else:
        C.cov.update(builds=len({r['name'] for r in R}),sequences=sum(r.get('sequences',0) for r in R),calls=sum(r.get('calls',0) for r in R),compile_time_choices=sum(r.get('choices',0) for r in R),assembler_directives=sum(r.get('asm',0) for r in R),
          obligations=sum(r.get('sequences',0)+r.get('choices',0)+r.get('asm',0) for r in R),
          rule='the call that t1ha0(...) amounts to, before, during and after start-up, equals the call of the function t1ha0_resolve() yields, with the same arguments, in every modelled machine; the compile-time choice equals the portable one')
        ok=C.cov['sequences']>50 and C.cov['compile_time_choices']>50
    C.cov.update(not_compiled=und[:10],checker_cmd=f'python3-vt sa/p_disp.py {pid}',trusted_base=['clang 18 front end and mem2reg','sa/interp.py','the processor model in sa/disp.py','sa/stubs for the MSVC view'])
    C.assume=['cpuid leaf 1 ecx bits 25/27/28, leaf 7 ebx bit 5 and XCR0 bits 1-2 have their architectural meaning; extensions implied by AVX (SSE3..SSE4.2, POPCNT, XSAVE) come with it']
    C.cov['undecided']=[u for r in R for u in r.get('undecided',())]
    if (not ok or len(C.cov['undecided'])>len(R)//3) and not C.viol: raise check.Broken(f'too little analysed: {und[:3]} {C.cov["undecided"][:3]}')
    if und and not C.viol and len(und)>len(R)//2: raise check.Broken(f'does not compile: {und[:3]}')
    return C.finish()
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
