"""Shared by P11 P17 P18 P20: the processor model and the selection function, abstractly interpreted."""
import terms as t, build, interp, itertools
from interp import Interp, Obj, Ptr, FPtr, PIte, State, Imprecise, NULL
AES,OSX,AVX=1<<25,1<<27,1<<28; AVX2=1<<5
class Env:
    """what a processor and operating system report"""
    __slots__=('sup','max','c1','b7','xcr','salt','legacy')
    def __init__(s,sup,mx,c1,b7,xcr,salt=0,legacy=False): s.sup=sup; s.max=mx; s.c1=c1; s.b7=b7; s.xcr=xcr; s.salt=salt
    def uf(s,x,n,args):
        if n=='xcr_eax' and args[0]==0: return s.xcr
        if not n.startswith(('cpuid_','xcr_')): return None
        if n.startswith('cpuid_'):
            r=n[6:]; leaf,sub=args[0],args[1]
            if leaf==0 and r=='eax': return s.max
            if leaf==1 and r=='ecx' and s.max>=1: return s.c1
            if leaf==7 and sub==0 and r=='ebx' and s.max>=7: return s.b7
        # anything else is whatever the machine likes
        return (0,0xffffffff,t.h64('cpu',n,tuple(args),s.salt)&0xffffffff)[s.salt%3]
    def has(s):
        r=set()
        if s.sup and s.max>=1:
            if s.c1&AES: r.add('aes')
            if s.c1&OSX: r.add('osxsave')
            if s.c1&OSX and s.c1&AVX and s.xcr&6==6:
                r.add('avx')
                if s.max>=7 and s.b7&AVX2: r.add('avx2')
        return r
    def eval(s): return t.Eval(('env',s.salt),fixed={'cpuid_supported':s.sup},uffn=s.uf)
    def __repr__(s): return f"cpuid supported={s.sup} max leaf={s.max:#x} leaf1.ecx={s.c1:#x} leaf7.ebx={s.b7:#x} xcr0={s.xcr:#x}"
def envs(full=True,sup=(1,)):
    K1=[sum(c) for c in itertools.product((0,AES),(0,OSX),(0,AVX))]
    bg=[(0,0),(0xffffffff,0xffffffff)]
    bg+=[(b^(1<<k),b) for b in(0,0xffffffff) for k in range(32) if (1<<k)&~(AES|OSX|AVX)]
    bg+=[(b,b^(1<<k)) for b in(0,0xffffffff) for k in range(32) if (1<<k)&~AVX2]
    mx=(0,1,6,7,8,13,0x20,0x80000001) if full else (0,1,6,7,13)
    xc=(0,1,2,3,4,5,6,7,0xe7,0xfffffff9,0xfffffffb,0xfffffffd,0xffffffff) if full else (0,1,3,5,7,0xe7,0xfffffff9)
    n=0
    for s in sup:
        for i,(b1,b7) in enumerate(bg if full else bg[:2]):
            for k1 in K1:
                for k7 in(0,AVX2):
                    for m in (mx if i<2 else (1,7,13)):
                        for x in (xc if i<2 else (3,7)):
                            n+=1; yield Env(s,m,b1&~(AES|OSX|AVX)|k1,b7&~AVX2|k7,x,n)
HASHSIG=('uint64','ptr')
def is_hash(f,W):
    return f.ret==('int',64) and len(f.args)==3 and f.args[0][1][0]=='ptr' and f.args[1][1]==('int',W) and f.args[2][1]==('int',64)
def hash_names(mods):
    """externally visible functions with the signature of a hash"""
    r=set()
    for m in mods:
        for n,f in m.funcs.items():
            if n.startswith('t1ha') and not f.internal and is_hash(f,m.ptrbits): r.add(n)
    return r
class Disp(Interp):
    """interpreter whose hash functions are opaque: a call returns a value that names the function and its arguments"""
    def __init__(s,mods,opaque,**k):
        super().__init__(mods,**k); s.opaque=opaque
        for n in opaque: s.handlers[n]=s.mk(n)
    def mk(s,n):
        def h(ip,fr,i,st,args):
            ip.ev('hash',i,st,x=n)
            a=[ip.toint(x) for x in args]
            return t.uf('hash:'+n,64,*a)
        return h
def pick(v,E):
    """the function (or None) a pointer value denotes in the environment of evaluation E"""
    while isinstance(v,PIte): v=v.a if E.ev(v.c) else v.b
    if isinstance(v,FPtr): return v.name
    if isinstance(v,t.T) and t.isc(v) and v.a[0]==0: return None
    if isinstance(v,Ptr) and v.obj is NULL: return None
    raise Imprecise(f'function pointer {v}')
def on_path(pc,E):
    return all(bool(E.ev(c))==bool(b) for c,b in pc)
BASE64={'64bit','cx8','cmov','mmx','fxsr','sse','sse2','x87','crc32-not'}
NEEDS={'aes':'aes','avx':'avx','avx2':'avx2'}
# extensions every processor with the key feature has
IMPLIED={'aes':{'sse','sse2','mmx'},'avx':{'sse3','ssse3','sse4.1','sse4.2','crc32','popcnt','xsave'},'avx2':{'sse3','ssse3','sse4.1','sse4.2','crc32','popcnt','xsave'}}
def closure(mods,name):
    ip=Interp(mods); seen={}; todo=[(name,None)]
    while todo:
        n,m=todo.pop()
        f,fm=ip.findfunc(n,m)
        if f is None or (f.name,id(fm)) in seen: continue
        seen[(f.name,id(fm))]=(f,fm)
        for b in f.blocks:
            for i in list(b.phis)+list(b.ins):
                for x in walk((i.ops,i.x)):
                    if x[0]=='f': todo.append((x[1],fm))
    return list(seen.values())
def walk(x):
    if isinstance(x,dict): x=list(x.values())
    if isinstance(x,(tuple,list)):
        if len(x)>=2 and isinstance(x[0],str) and x[0] in('f','g') and isinstance(x[1],str): yield x
        for y in x: yield from walk(y)
def required(mods,name,base):
    """the extensions the code of a function (with everything it calls) may use beyond the base of the target"""
    fs=closure(mods,name)
    if not fs: return None,0
    need=set()
    for f,m in fs:
        need|={x[1:] for x in (f.features or '').split(',') if x.startswith('+')}-base
        for b in f.blocks:
            for i in b.ins:
                if i.op=='call' and i.x['callee'][0]=='f':
                    n=i.x['callee'][1]
                    for p,q in(('llvm.x86.aesni.','aes'),('llvm.x86.avx2.','avx2'),('llvm.x86.avx.vzero','avx'),('llvm.x86.avx.','avx')):
                        if n.startswith(p): need.add(q); break
    return need,len(fs)
def base_features(cfg,extra=()):
    m=build.module(cfg,build.probe('basefeat','int t1ha_base_probe(int x){return x;}\n'),extra)
    return {x[1:] for x in m.funcs['t1ha_base_probe'].features.split(',') if x.startswith('+')}
class Disp2(Disp):
    """records every value stored into the dispatch pointer; resolves indirect functions at relocation time"""
    PTR='t1ha0_funcptr'
    def __init__(s,mods,opaque,**k):
        super().__init__(mods,opaque,**k); s.fstores=[]; s.rel={}
    def store(s,st,p,size,v,ins,align):
        if isinstance(p,Ptr) and p.obj.name==s.PTR: s.fstores.append((st.pc,v,f'{ins.file}:{ins.line}' if ins is not None else '?',s.stack[-1] if s.stack else '?'))
        return super().store(st,p,size,v,ins,align)
    def callname(s,fr,i,st,name,args):
        if name not in s.handlers:
            f,_=s.findfunc(name,fr.mod)
            if f is None:
                for m in s.mods:
                    if name in m.ifuncs:
                        if name not in s.rel:
                            r=m.ifuncs[name][0]
                            x=s.run(r[1],[],State()); s.rel[name]=x[1] if x else None
                        v=s.rel[name]
                        if v is None: raise Imprecise('resolver does not return')
                        return s.callite(fr,i,st,v,args)
        return super().callname(fr,i,st,name,args)
def ctors(m):
    g=m.globals.get('llvm.global_ctors'); r=[]
    for k,v in sorted((g.bytes or {}).items()) if g else ():
        if isinstance(v,tuple):
            for x in walk(v):
                if x[0]=='f' and x[1] not in r: r.append(x[1])
    return r
def args(ip):
    W=ip.W
    return [Ptr(Obj('data','data',ro=True),t.const(0,W)),t.var('len',W),t.var('seed',64)]
