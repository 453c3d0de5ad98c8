"""Compiles /repo's current sources to LLVM IR for a matrix of build configurations (nothing is run)."""
import os, subprocess, tempfile, shutil, atexit, re
import llvmc
REPO=os.environ.get('T1HA_REPO','/repo')
HERE=os.path.dirname(os.path.abspath(__file__))
STUB=os.path.join(HERE,'stubs')
CLANG='/usr/bin/clang-18'; OPT='/usr/bin/opt-18'
if not os.path.exists(OPT): OPT='/usr/lib/llvm-18/bin/opt'
if not os.path.exists(CLANG): CLANG=shutil.which('clang') or CLANG

GCC=['-fgnuc-version=13.3.0','-U__clang__','-D__has_builtin(x)=0','-Wno-builtin-macro-redefined']
MS=['-U__clang__','-D__has_attribute(x)=0','-D__has_builtin(x)=0','-Wno-builtin-macro-redefined']
class Cfg:
    def __init__(s,name,target,flags=(),std='c11',ms=False,aes=(),note='',native=False):
        s.name=name; s.target=target; s.flags=list(flags); s.std=std; s.ms=ms; s.aes=aes; s.note=note; s.native=native
C={}
def _c(name,*a,**k): C[name]=Cfg(name,*a,**k)
O0=['-DT1HA_USE_FAST_ONESHOT_READ=0']
AES3=('noavx','avx','avx2')
_c('x64','x86_64-linux-gnu',aes=AES3,note='x86-64 Linux, default options')
_c('x64-exact','x86_64-linux-gnu',O0,aes=AES3,note='x86-64, one-shot reads off')
_c('x64-asan','x86_64-linux-gnu',['-D__SANITIZE_ADDRESS__=1'],aes=AES3,note='x86-64 as AddressSanitizer builds see it')
_c('x64-casan','x86_64-linux-gnu',['-fsanitize=address'],aes=AES3,note='x86-64 built with -fsanitize=address')
_c('x64-debug','x86_64-linux-gnu',['-UNDEBUG'],aes=AES3,note='x86-64 with assertions')
_c('x64-noi128','x86_64-linux-gnu',['-U__SIZEOF_INT128__','-U_INTEGRAL_MAX_BITS'],note='x86-64 without 128-bit integers')
_c('x64-gcc','x86_64-linux-gnu',GCC,note='x86-64 as GCC 13 sees the sources',aes=())
_c('x64-win','x86_64-w64-windows-gnu',aes=AES3,note='x86-64 Windows (LLP64)')
_c('x64-msvc','x86_64-pc-windows-msvc',MS,ms=True,aes=AES3,note='x86-64 MSVC view')
_c('x64-slow','x86_64-linux-gnu',['-DT1HA_SYS_UNALIGNED_ACCESS=1'],note='x86-64, slow-unaligned policy')
_c('i386','i386-linux-gnu',aes=AES3,note='IA-32 Linux')
_c('i386-exact','i386-linux-gnu',O0,aes=AES3,note='IA-32, one-shot reads off')
_c('i386-msvc','i386-pc-windows-msvc',MS,ms=True,aes=AES3,note='IA-32 MSVC view')
_c('a64','aarch64-linux-gnu',note='AArch64, efficient unaligned')
_c('a64-gcc','aarch64-linux-gnu',GCC,note='AArch64 as GCC sees it')
_c('a64-msvc','aarch64-pc-windows-msvc',MS,ms=True,note='AArch64 MSVC view')
_c('a64be','aarch64_be-linux-gnu',note='AArch64 big-endian, efficient unaligned')
_c('a64be-exact','aarch64_be-linux-gnu',O0,note='AArch64 big-endian, exact reads')
_c('ppc64','powerpc64-linux-gnu',note='PowerPC64 big-endian, aligned-only')
_c('ppc64-eff','powerpc64-linux-gnu',['-DT1HA_SYS_UNALIGNED_ACCESS=2'],note='PowerPC64 big-endian, efficient unaligned')
_c('ppc64-slow','powerpc64-linux-gnu',['-DT1HA_SYS_UNALIGNED_ACCESS=1'],note='PowerPC64 big-endian, slow unaligned')
_c('ppc64-exact','powerpc64-linux-gnu',O0,note='PowerPC64 big-endian, aligned-only, exact reads')
_c('ppc64-gcc','powerpc64-linux-gnu',GCC,note='PowerPC64 as GCC sees it')
_c('mips','mips-linux-gnu',note='MIPS32 big-endian, aligned-only')
_c('mips64el','mips64el-linux-gnuabi64',note='MIPS64 little-endian, aligned-only')
_c('riscv64','riscv64-linux-gnu',note='RISC-V 64, aligned-only')
_c('riscv64-exact','riscv64-linux-gnu',O0,note='RISC-V 64, aligned-only, exact reads')
_c('riscv64-slow-exact','riscv64-linux-gnu',O0+['-DT1HA_SYS_UNALIGNED_ACCESS=1'],note='RISC-V 64, slow unaligned, exact reads')
_c('riscv32','riscv32-linux-gnu',note='RISC-V 32, aligned-only')
_c('armv7','armv7-linux-gnueabihf',note='ARMv7')
_c('armeb','armeb-linux-gnueabi',['-march=armv5te'],note='ARM big-endian, aligned-only')
_c('sparc64','sparcv9-linux-gnu',note='SPARC V9, aligned-only')
_c('s390x','s390x-linux-gnu',note='s390x big-endian')

def is32(c): return c.target.split('-')[0] in('i386','mips','riscv32','armv7','armeb')
AESFLAGS={'noavx':['-mno-avx2','-mno-avx','-maes'],'avx':['-mno-avx2','-mavx','-maes'],'avx2':['-mavx2','-mavx','-maes']}
def makeflags():
    """per-object flags of the AES translation units, taken from the Makefile's own recipes"""
    try:
        out=subprocess.run(['make','-n','-B','libt1ha.a'],cwd=REPO,capture_output=True,text=True,timeout=60).stdout
    except Exception: return dict(AESFLAGS)
    r={}
    for l in out.splitlines():
        m=re.search(r't1ha0_ia32aes_(noavx|avx2|avx)\.c',l)
        if m and ' -c' in l: r[m.group(1)]=[t for t in l.split() if t.startswith('-m') and not t.startswith('-mtune') and not t.startswith('-march')]
    return r if len(r)==3 else dict(AESFLAGS)

_tmp=None
def tmp():
    global _tmp
    if _tmp is None:
        _tmp=tempfile.mkdtemp(prefix='t1ha-sa-'); pid=os.getpid()
        atexit.register(lambda: os.getpid()==pid and shutil.rmtree(_tmp,ignore_errors=True))
    return _tmp
class CompileError(Exception): pass
def base_cmd(cfg,src,extra=(),cxx=False):
    c=[CLANG,'--target='+cfg.target,'-ffreestanding','-nostdlibinc']
    if cfg.ms: c+=['-isystem',STUB+'/msvc']
    c+=['-isystem',STUB+'/common','-x','c++' if cxx else 'c','-std='+('c++11' if cxx else cfg.std)]
    c+=['-DNDEBUG','-D_DEFAULT_SOURCE',*(['-w'] if 'windows' in cfg.target else ['-Dt1ha_EXPORTS','-fvisibility=hidden','-fPIC'])]
    c+=cfg.flags+list(extra)
    return c
def compile_ir(cfg,src,extra=(),opt='mem2reg',cxx=False):
    """returns path of the bitcode of src (absolute, or relative to REPO)"""
    if isinstance(cfg,str): cfg=C[cfg]
    p=src if os.path.isabs(src) else os.path.join(REPO,src)
    fd,o=tempfile.mkstemp(suffix='.bc',dir=tmp()); os.close(fd)
    cmd=base_cmd(cfg,src,['-I'+REPO,*extra],cxx)+['-w','-O1','-Xclang','-disable-llvm-passes','-gline-tables-only','-emit-llvm','-c',p,'-o',o]
    r=subprocess.run(cmd,capture_output=True,text=True)
    if r.returncode: raise CompileError(f"{cfg.name}: {src}: "+'\n'.join([l for l in r.stderr.splitlines() if 'error' in l][:5] or r.stderr.splitlines()[:5]))
    if opt:
        r=subprocess.run([OPT,'-passes='+opt,o,'-o',o],capture_output=True,text=True)
        if r.returncode: raise CompileError(f"{cfg.name}: {src}: opt: {r.stderr[:300]}")
    return o
def compile_o2(cfg,src,extra=()):
    """path of the optimised textual IR of src"""
    if isinstance(cfg,str): cfg=C[cfg]
    fd,o=tempfile.mkstemp(suffix='.ll',dir=tmp()); os.close(fd)
    r=subprocess.run(base_cmd(cfg,src,['-I'+REPO,*extra])+['-w','-O2','-gline-tables-only','-S','-emit-llvm',os.path.join(REPO,src),'-o',o],capture_output=True,text=True)
    if r.returncode: raise CompileError(f"{cfg.name}: {src}: {r.stderr[:300]}")
    return o
_mods={}
def aes_extra(var): return AESFLAGS[var]
SRC={'t1ha0':'src/t1ha0.c','t1ha1':'src/t1ha1.c','t1ha2':'src/t1ha2.c',
     't1ha0_sc':'src/t1ha0_selfcheck.c','t1ha1_sc':'src/t1ha1_selfcheck.c','t1ha2_sc':'src/t1ha2_selfcheck.c',
     'sc':'src/t1ha_selfcheck.c','sc_all':'src/t1ha_selfcheck_all.c',
     'noavx':'src/t1ha0_ia32aes_noavx.c','avx':'src/t1ha0_ia32aes_avx.c','avx2':'src/t1ha0_ia32aes_avx2.c'}
def module(cfg,tu,extra=()):
    cn=cfg if isinstance(cfg,str) else cfg.name
    key=(cn,tu,tuple(extra))
    m=_mods.get(key)
    if m is None:
        ex=list(extra)
        if tu in AESFLAGS: ex=AESFLAGS[tu]+ex
        o=compile_ir(cfg,SRC.get(tu,tu),ex)
        m=llvmc.load(o); m.cfg=cn; m.tu=tu
        os.unlink(o); _mods[key]=m
    return m

_probes={}
def probe(name,text,cxx=False):
    """path of a probe translation unit with the given text (in the run's temporary folder)"""
    p=_probes.get((name,text))
    if p is None:
        d=tempfile.mkdtemp(dir=tmp()); p=os.path.join(d,name+('.cc' if cxx else '.c'))
        open(p,'w').write(text); _probes[(name,text)]=p
    return p
# ---------------------------------------------------------------- configurations with the same intermediate code
import hashlib
def fkey(m,fn):
    """hash of a function with everything it calls and refers to (line numbers and names of locals excluded)"""
    order=[]; seen=set(); out=[]
    def want(kind,n):
        if (kind,n) not in seen: seen.add((kind,n)); order.append((kind,n))
    want('f',fn)
    for kind,n in order:
        if kind=='f':
            f=m.funcs.get(n)
            if f is None or f.decl: out.append(('decl',n,m.aliases.get(n))); continue
            ren={}
            def r(x):
                if isinstance(x,(tuple,list)):
                    if len(x)>=2 and x[0]=='i' and isinstance(x[1],int) and not isinstance(x[1],bool) and len(x)==2: return ('i',ren.setdefault(x[1],len(ren)))
                    if len(x)>=2 and x[0]=='f' and isinstance(x[1],str): want('f',x[1])
                    if len(x)>=2 and x[0]=='g' and isinstance(x[1],str): want('g',x[1])
                    return tuple(r(y) for y in x)
                if isinstance(x,dict): return tuple((r(k),r(x[k])) for k in sorted(x,key=str))
                return x
            body=[]
            for a in f.args: body.append(('arg',r(a) if not hasattr(a,'id') else r(('i',a.id))))
            for b in f.blocks:
                body.append(('bb',b.idx,tuple(b.succ)))
                for i in list(b.phis)+list(b.ins): body.append((i.op,ren.setdefault(i.id,len(ren)),i.ty,r(i.ops),r(i.x)))
            out.append((n,body))
        else:
            g=m.globals.get(n)
            out.append((n,None) if g is None or g.decl else (n,g.size,g.const,g.align,tuple((k,str(v)) for k,v in sorted((g.bytes or {}).items()))))
    return hashlib.sha1(repr((m.ptrbits,m.be,out)).encode()).hexdigest()
def groups(cfgs,tu,fn,extra=''):
    """[(representative, [members])] of the configurations whose code for fn is the same"""
    r={}
    for c in cfgs:
        m=module(c,tu)
        k=(fkey(m,fn),extra(c) if callable(extra) else extra) if fn in m.funcs else ('none',c)
        r.setdefault(k,[]).append(c)
    return [(v[0],v) for v in r.values()]
def preload(pairs):
    """compiles (configuration, translation unit) pairs in parallel"""
    import concurrent.futures as cf
    todo=[(c,tu) for c,tu in dict.fromkeys(pairs) if (c,tu,()) not in _mods]
    with cf.ThreadPoolExecutor(8) as P: res=list(P.map(lambda a: _pre(*a),todo))
    for (c,tu),o in zip(todo,res):
        if isinstance(o,Exception): raise o
        m=llvmc.load(o); m.cfg=c; m.tu=tu; os.unlink(o); _mods[(c,tu,())]=m
def _pre(c,tu):
    try: return compile_ir(c,SRC.get(tu,tu),AESFLAGS.get(tu,[]))
    except Exception as e: return e
