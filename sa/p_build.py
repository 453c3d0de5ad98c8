"""P21 P24: option matrix, declarations against definitions, link closure, exported symbols."""
import sys, os, re, json, glob, itertools, subprocess, hashlib, tempfile
import build, check, llvmc
TIER=os.environ.get('VERIF_TIER','quick')
NM='/usr/bin/llvm-nm-18'
if not os.path.exists(NM): NM='/usr/lib/llvm-18/bin/llvm-nm'
DIS=[d for k in range(4) for d in itertools.combinations(('T1HA0','T1HA1','T1HA2'),k)]
FIX={'t1ha0_ia32aes_noavx.c':'noavx','t1ha0_ia32aes_avx.c':'avx','t1ha0_ia32aes_avx2.c':'avx2'}
OUTSIDE=re.compile(r'^(mem(cpy|move|set|cmp)|abort|__assert_fail|__assert|_assert|_wassert|stub_\w+|__stack_chk_\w+|_GLOBAL_OFFSET_TABLE_|__(u?mul|u?div|u?mod|ashl|ashr|lshr)[dt]i3|__aeabi_\w+|_?_?tls_\w+|__gnu_\w+|_fltused|__asan_\w+|__local_stdio\w*)$')
def files(): return sorted(glob.glob(build.REPO+'/src/*.c'))
def opts_txt(o): return ' '.join(x[2:] for x in o) or 'default options'
def compile_(cfg,src,extra,out,std='c11',cxx=False,syntax=False):
    c=build.C[cfg]; save=c.std
    cmd=build.base_cmd(c,src,['-I'+build.REPO,*extra],cxx)
    cmd=[('-std='+std) if x.startswith('-std=') else x for x in cmd]+['-w']
    cmd+=['-fsyntax-only',src] if syntax else ['-O1','-Xclang','-disable-llvm-passes','-emit-llvm','-c',src,'-o',out]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: return '; '.join([l.replace(build.REPO+'/','') for l in r.stderr.splitlines() if 'error' in l][:3]) or r.stderr[:200]
    return None
def symbols(path,cfg):
    o=subprocess.run([NM,'--format=posix',path],capture_output=True,text=True).stdout; r=[]
    us='_' if 'i386-pc-windows' in build.C[cfg].target or 'i386-w64' in build.C[cfg].target else ''
    for l in o.splitlines():
        p=l.split()
        if len(p)>=2 and len(p[1])==1:
            n=p[0][1:] if us and p[0].startswith('_') else p[0]
            r.append((n,p[1]))
    return r
HDR='#include "t1ha.h"\n'
def declared(cfg,extra,cxx=False):
    """{name: (kind, has body, is inline)} the public header declares"""
    p=build.probe('hdr',HDR,cxx); c=build.C[cfg]
    cmd=build.base_cmd(c,p,['-I'+build.REPO,*extra],cxx)+['-w','-Xclang','-ast-dump=json','-fsyntax-only',p]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: return None,'; '.join([l for l in r.stderr.splitlines() if 'error' in l][:3])
    d=json.loads(r.stdout); out={}
    def walk(lst):
        for x in lst:
            if x['kind']=='LinkageSpecDecl': walk(x.get('inner',()))
            elif x['kind'] in('FunctionDecl','VarDecl') and x.get('name','').startswith('t1ha'):
                body=any(y['kind']=='CompoundStmt' for y in x.get('inner',()))
                if x['name'] in out and not body: continue
                out[x['name']]=('function' if x['kind']=='FunctionDecl' else 'variable',body,x.get('storageClass')=='static')
    walk(d['inner']); return out,None
def user(decl):
    """a program that uses everything the header declares"""
    s=HDR+'#ifdef __cplusplus\nextern "C" {\n#endif\nextern const void *use_[];\nconst void *use_[]={'
    s+=','.join(f'(const void*)&{n}' for n in sorted(decl))
    s+='};\nuint64_t use_t1ha0(const void*d,size_t n,uint64_t s);\n#ifndef T1HA0_DISABLED\nuint64_t use_t1ha0(const void*d,size_t n,uint64_t s){return t1ha0(d,n,s);}\n#endif\n#ifdef __cplusplus\n}\n#endif\n'
    return s
def p21(cfg,extra):
    """all obligations of one build"""
    V=[]; st=dict(units=0,symbols=0,declared=0,headers=0); name=f'{cfg} {opts_txt(extra)}'
    td=tempfile.mkdtemp(dir=build.tmp()); defs={}; und={}
    def v(k,x): V.append((f'{cfg}/{k}',f'{build.C[cfg].note}, {opts_txt(extra)}: {x}'))
    x86=build.C[cfg].target.split('-')[0] in('x86_64','i386')
    for f in files():
        b=os.path.basename(f); e=list(extra)+(build.AESFLAGS[FIX[b]] if b in FIX and x86 else [])
        o=td+'/'+b+'.bc'; err=compile_(cfg,f,e,o); st['units']+=1
        if err: v(b,f'src/{b} does not compile: {err}'); continue
        for n,k in symbols(o,cfg):
            st['symbols']+=1
            if k=='U': und.setdefault(n,[]).append(b)
            elif k.isupper() or k in'iw': defs.setdefault(n,[]).append((b,k))
        os.unlink(o)
    decl,err=declared(cfg,extra)
    if decl is None: v('t1ha.h',f't1ha.h does not compile: {err}'); return name,V,st
    for n,(kind,body,stat) in decl.items():
        st['declared']+=1
        if body: continue
        k=len(defs.get(n,()))
        if k!=1: v(n,f'the {kind} {n}, which t1ha.h declares, is '+('not defined' if k==0 else f'defined {k} times: {", ".join(x[0] for x in defs[n])}'))
    for n,d in defs.items():
        if len(d)>1 and sum(k not in'WVwv' for _,k in d)>1 and n not in decl: v(n,f'{n} is defined {len(d)} times: {", ".join(x[0] for x in d)}')
    for n,fs in und.items():
        if n in defs or OUTSIDE.match(n): continue
        v(n,f'src/{fs[0]} refers to {n}, which nothing defines')
    for std,cxx in (('c99',False),('c11',False),('c++98',True),('c++11',True),('c++20',True)) if TIER!='quick' else (('c99',False),('c++98',True),('c++17',True)):
        if std=='c++98' and 'msvc' in cfg: continue
        p=build.probe('user',user(decl),cxx); st['headers']+=1
        o=td+'/user.bc'; err=compile_(cfg,p,[x for x in extra],o,std=std,cxx=cxx)
        if err: v('t1ha.h/'+std,f'a {std} program that uses the header does not compile: {err}'); continue
        for n,k in symbols(o,cfg):
            if k=='U' and n not in defs and not OUTSIDE.match(n): v(n,f'a {std} program that uses the header needs {n}, which nothing defines')
        os.unlink(o)
    os.rmdir(td); return name,V,st
# ---------------------------------------------------------------- P24
def api_names(cfg,extra):
    """what the header marks as API: the names its declarations give default visibility when the library is built"""
    decl,err=declared(cfg,['-Dt1ha_EXPORTS',*extra])
    if decl is None: raise build.CompileError(err)
    m=build.module(cfg,build.probe('user',user(decl)),tuple(extra))
    api=set(); need=set()
    for n,(kind,body,stat) in decl.items():
        if body: continue
        o=m.funcs.get(n) or m.globals.get(n)
        if o is not None and o.decl and o.vis==0: api.add(n)
    # what the header's own inline functions refer to
    from p_disp import refs
    for f in m.funcs.values():
        if f.decl or f.name=='use_t1ha0': continue
        for x,i in refs(f):
            if x[1] in decl and not decl[x[1]][1]: need.add((f.name,x[1]))
    return api,need,decl
DOC={'T1HA2':['t1ha2_atonce','t1ha2_atonce128','t1ha2_init','t1ha2_update','t1ha2_final','t1ha_selfcheck__t1ha2_atonce','t1ha_selfcheck__t1ha2_atonce128','t1ha_selfcheck__t1ha2_stream','t1ha_selfcheck__t1ha2'],
 'T1HA1':['t1ha1_le','t1ha1_be','t1ha_selfcheck__t1ha1_le','t1ha_selfcheck__t1ha1_be','t1ha_selfcheck__t1ha1'],
 'T1HA0':['t1ha_selfcheck__t1ha0_32le','t1ha_selfcheck__t1ha0_32be','t1ha_selfcheck__t1ha0']}
def p24(cfg,extra):
    V=[]; st=dict(units=0,exported=0,private=0,declared=0); name=f'{cfg} {opts_txt(extra)}'
    def v(k,x): V.append((f'{cfg}/{k}',f'{build.C[cfg].note}, {opts_txt(extra)}: {x}'))
    api,need,decl=api_names(cfg,extra); st['declared']=len(api)
    exp={}; mods=[]
    x86=build.C[cfg].target.split('-')[0] in('x86_64','i386')
    inv={os.path.basename(p):k for k,p in build.SRC.items()}
    for f in files():
        b=os.path.basename(f)
        m=build.module(cfg,inv[b] if b in inv and (b not in FIX or x86) else f,tuple(extra)); st['units']+=1
        for n,o in list(m.funcs.items())+list(m.globals.items()):
            if o.decl or o.internal or n.startswith('llvm.'): continue
            if o.linkage==1: continue        # available_externally
            if o.vis==0: exp.setdefault(n,b)
            else: st['private']+=1
        for n,(r,vis) in m.ifuncs.items():
            if vis==0: exp.setdefault(n,b)
            else: st['private']+=1
        for n in m.aliases:
            exp.setdefault(n,b)
        for n in re.findall(r'\.globl\s+(\w+)',m.asm): exp.setdefault(n,b)
    st['exported']=len(exp)
    for n in sorted(set(exp)-api): v(n,f'{n} (src/{exp[n]}) is visible outside the shared library but is no API')
    for n in sorted(api-set(exp)): v(n,f'{n} is declared as API but is not visible outside the shared library')
    for f,n in sorted(need):
        if n not in exp: v(n,f'the inline {f}() of t1ha.h calls {n}, which the shared library does not export')
    dis=[x[2:-9] for x in extra if x.endswith('_DISABLED')]
    want=['t1ha_selfcheck__all_enabled']+[n for fam,l in DOC.items() if fam not in dis for n in l]
    if 't1ha0_resolve' in decl: want.append('t1ha0_resolve')
    if 't1ha0_funcptr' in decl: want.append('t1ha0_funcptr')
    elif 't1ha0' in decl and not decl['t1ha0'][1]: want.append('t1ha0')
    for n in want:
        if n not in exp and n not in api: v(n,f'the documented {n} is not visible outside the shared library')
    return name,V,st
# ----------------------------------------------------------------
def matrix(pid):
    D=lambda d: tuple(f'-D{x}_DISABLED' for x in d)
    T=[]
    def add(cfg,*o): T.append((cfg,tuple(x for y in o for x in y)))
    RT=[(),('-DT1HA0_RUNTIME_SELECT=0',),('-DT1HA0_RUNTIME_SELECT=1',)]; IF=[(),('-DT1HA_USE_INDIRECT_FUNCTIONS=0',)]
    AES=[(),('-DT1HA0_AESNI_AVAILABLE=0',)]; FO=[(),('-DT1HA_USE_FAST_ONESHOT_READ=0',)]; UA=[(),]+[(f'-DT1HA_SYS_UNALIGNED_ACCESS={k}',) for k in(0,1,2)]
    UD=[(),('-DT1HA0_USE_DEFINE=1',)]
    if pid=='P24':
        for c in('x64','a64','ppc64') if TIER=='quick' else ('x64','x64-gcc','i386','a64','a64be','mips','ppc64','riscv64','riscv32','armv7','s390x'):
            for d in DIS:
                for r in RT:
                    for i in (IF if c.startswith('x64') else IF[:1]):
                        if c.startswith('x64') and r==RT[1] and i: continue
                        add(c,D(d),r,i)
        for c in('x64-gcc','x64-debug','i386','mips','a64be','riscv32','armv7','s390x'):
            for r in RT: add(c,r)
            add(c,D(('T1HA1','T1HA2')),RT[1])
        for a in AES[1:]:
            for r in RT: add('x64',a,r); add('i386',a,r)
        # without -fvisibility=hidden the sources' own pragmas and attributes decide
        NV=('-fvisibility=default',)
        for c in('x64','x64-gcc','a64','i386','mips'):
            for r in RT: add(c,r,NV)
            add(c,D(('T1HA0',)),NV); add(c,D(('T1HA1','T1HA2')),NV)
        return list(dict.fromkeys(T))
    for d in DIS:
        for r in RT:
            for a in AES:
                for i in IF:
                    if d and a and i: continue
                    add('x64',D(d),r,a,i)
    for d in DIS:
        for r in RT: add('i386',D(d),r); add('x64-msvc',D(d),r); add('a64',D(d),r); add('mips',D(d),r)
        add('x64-gcc',D(d)); add('a64be',D(d)); add('i386-msvc',D(d)); add('ppc64',D(d)); add('riscv32',D(d)); add('x64-debug',D(d)); add('x64-win',D(d)); add('x64-noi128',D(d)); add('a64-msvc',D(d))
    for c in('x64','i386','a64','a64be','ppc64','mips','riscv64','riscv32','armv7','armeb','sparc64','s390x','mips64el','x64-gcc','a64-gcc','x64-msvc','i386-msvc','a64-msvc','ppc64-gcc','x64-noi128'):
        for f in FO:
            for u in UA:
                if TIER!='quick' or not(f and u): add(c,f,u)
        for u in UD[TIER=='quick' and c not in('x64','i386','a64','mips','ppc64','x64-msvc'):]:
            add(c,RT[1],u); add(c,RT[1],u,D(('T1HA1',))); add(c,RT[1],u,D(('T1HA2',)))
    for c in build.C: add(c)
    if TIER!='quick':
        for c in('x64','i386','a64','a64be','mips','ppc64','x64-msvc'):
            for d in DIS:
                for r in RT:
                    for a in AES:
                        for f in FO:
                            for u in UA: add(c,D(d),r,a,f,u)
    return list(dict.fromkeys(T))
def task(a):
    pid,cfg,extra=a
    try: n,V,st=(p21 if pid=='P21' else p24)(cfg,extra); return n,V,st,None
    except build.CompileError as e: return f'{cfg} {opts_txt(extra)}',[],{},str(e)[:200]
def run(pid):
    C=check.Check(pid,'proof'); T=matrix(pid); build.tmp()
    R=check.pool(task,[(pid,)+x for x in T]); nc=[f'{n}: {e}' for n,_,_,e in R if e]
    seen={}
    for n,V,st,e in R:
        for k,x in V:
            kk=k.split('/',1)[1]
            if seen.setdefault(kk,0)<3: seen[kk]+=1; C.violation(k,x)
    S=lambda k: sum(st.get(k,0) for _,_,st,_ in R)
    if pid=='P21':
        C.cov.update(builds=len(R),translation_units=S('units'),symbols=S('symbols'),declarations=S('declared'),header_uses=S('headers'),obligations=S('units')+S('declared')+S('headers'),
          rule='every source file compiles; every function or variable the header declares is defined exactly once; every reference is defined; C and C++ programs that use all declarations compile and refer only to what is defined')
        ok=C.cov['builds']>100
    else:
        C.cov.update(builds=len(R),translation_units=S('units'),exported=S('exported'),private=S('private'),declared_api=S('declared'),obligations=S('exported')+S('private'),
          rule='symbols with external linkage and default visibility = names the header declares with default visibility; what the header\'s inline code calls is among them; the documented functions are present')
        ok=C.cov['exported']>100
    C.cov.update(not_compiled=nc[:10],targets=sorted({build.C[c].target for c,_ in T}),checker_cmd=f'python3-vt sa/p_build.py {pid}',trusted_base=['clang 18 as compiler for each target','sa/stubs for libc and MSVC headers'])
    C.assume=['e2k can not be compiled here; its branches are not covered','GCC and MSVC are represented by clang with their predefined macros']
    if (not ok or (nc and len(nc)>len(R)//2)) and not C.viol: raise check.Broken(f'too little analysed: {nc[:3]}')
    return C.finish()
if __name__=='__main__': check.main(lambda: run(sys.argv[1]))
