"""P22: the arithmetic helpers of src/t1ha_bits.h (and rot32 of src/t1ha0.c) compared, one by one and in every build, with
the integer operation they stand for.  Each helper is wrapped in a probe function, interpreted for symbolic operands and its
value number compared with that of the operation; the integer normal form decides carries and wide products; what neither
settles is evaluated at corner and pseudo-random operands."""
import re
import terms as t, build, interp, intform
from terms import mask
M=mask(64)
CORNER=[0,1,2,0x7fffffff,0x80000000,0xffffffff,0x100000000,0x100000001,0x1ffffffff,0x7fffffffffffffff,0x8000000000000000,0xffffffff00000000,
        0xffffffff00000001,0xfffffffeffffffff,0xfffffffffffffffe,M,0x5555555555555555,0x123456789abcdef0]
# name -> (wrapper text, operand widths, shift amounts or None, int function(*operands[,s]) -> tuple of results (return, *stored))
V='t1ha_uint128_t x,y,z; (void)x;(void)y;(void)z; x.l=a; x.h=b; '
def w128(x): return (x&M,x>>64)
def i128(a,b): return a|b<<64
H={
 'rot64':('u64 vp_rot64(u64 a,unsigned s){return rot64(a,s);}',(64,),range(1,64),lambda a,s:((a>>s|a<<(64-s))&M,)),
 'bswap64':('u64 vp_bswap64(u64 a){return bswap64(a);}',(64,),None,lambda a:(int.from_bytes(a.to_bytes(8,'little'),'big'),)),
 'bswap32':('u32 vp_bswap32(u32 a){return bswap32(a);}',(32,),None,lambda a:(int.from_bytes(a.to_bytes(4,'little'),'big'),)),
 'bswap16':('u32 vp_bswap16(u32 a){return (uint16_t)bswap16((uint16_t)a);}',(16,),None,lambda a:(int.from_bytes(a.to_bytes(2,'little'),'big'),)),
 'mul_32x32_64':('u64 vp_mul_32x32_64(u32 a,u32 b){return mul_32x32_64(a,b);}',(32,32),None,lambda a,b:(a*b,)),
 'mul_64x64_high':('u64 vp_mul_64x64_high(u64 a,u64 b){return mul_64x64_high(a,b);}',(64,64),None,lambda a,b:(a*b>>64,)),
 'mul_64x64_128':('u64 vp_mul_64x64_128(u64 a,u64 b,u64*o){uint64_t h; u64 l=mul_64x64_128(a,b,&h); o[0]=h; return l;}',(64,64),None,lambda a,b:(a*b&M,a*b>>64)),
 'add64carry_first':('u64 vp_add64carry_first(u64 a,u64 b,u64*o){uint64_t r; u64 c=add64carry_first(a,b,&r); o[0]=r; return c;}',(64,64),None,lambda a,b:(a+b>>64,a+b&M)),
 'add64carry_next':('u64 vp_add64carry_next(u64 a,u64 b,u32 s,u64*o){uint64_t r; u64 c=add64carry_next(s,a,b,&r); o[0]=r; return c;}',(64,64),range(2),lambda a,b,s:(a+b+s>>64,a+b+s&M)),
 'add64carry_last':('u64 vp_add64carry_last(u64 a,u64 b,u32 s,u64*o){uint64_t r; add64carry_last(s,a,b,&r); o[0]=r; return 0;}',(64,64),range(2),lambda a,b,s:(0,a+b+s&M)),
 'not128':('u64 vp_not128(u64 a,u64 b,u64*o){'+V+'z=not128(x); o[0]=z.h; return z.l;}',(64,64),None,lambda a,b:w128(~i128(a,b)&mask(128))),
 'left128':('u64 vp_left128(u64 a,u64 b,unsigned s,u64*o){'+V+'z=left128(x,s); o[0]=z.h; return z.l;}',(64,64),range(128),lambda a,b,s:w128(i128(a,b)<<s&mask(128))),
 'right128':('u64 vp_right128(u64 a,u64 b,unsigned s,u64*o){'+V+'z=right128(x,s); o[0]=z.h; return z.l;}',(64,64),range(128),lambda a,b,s:w128(i128(a,b)>>s)),
 'rot128':('u64 vp_rot128(u64 a,u64 b,unsigned s,u64*o){'+V+'z=rot128(x,s); o[0]=z.h; return z.l;}',(64,64),range(130),lambda a,b,s:w128((i128(a,b)>>s%128|i128(a,b)<<(128-s%128))&mask(128))),
 'or128':('u64 vp_or128(u64 a,u64 b,u64 c,u64 d,u64*o){'+V+'y.l=c; y.h=d; z=or128(x,y); o[0]=z.h; return z.l;}',(64,)*4,None,lambda a,b,c,d:w128(i128(a,b)|i128(c,d))),
 'xor128':('u64 vp_xor128(u64 a,u64 b,u64 c,u64 d,u64*o){'+V+'y.l=c; y.h=d; z=xor128(x,y); o[0]=z.h; return z.l;}',(64,)*4,None,lambda a,b,c,d:w128(i128(a,b)^i128(c,d))),
 'add128':('u64 vp_add128(u64 a,u64 b,u64 c,u64 d,u64*o){'+V+'y.l=c; y.h=d; z=add128(x,y); o[0]=z.h; return z.l;}',(64,)*4,None,lambda a,b,c,d:w128(i128(a,b)+i128(c,d)&mask(128))),
 'mul128':('u64 vp_mul128(u64 a,u64 b,u64 c,u64 d,u64*o){'+V+'y.l=c; y.h=d; z=mul128(x,y); o[0]=z.h; return z.l;}',(64,)*4,None,lambda a,b,c,d:w128(i128(a,b)*i128(c,d)&mask(128))),
}
H32={'rot32':('u32 vp_rot32(u32 a,unsigned s){return rot32(a,s);}',(32,),range(1,32),lambda a,s:((a>>s|a<<(32-s))&mask(32),))}
HEAD='#include "t1ha.h"\n#include "%s"\ntypedef uint64_t u64; typedef uint32_t u32;\n#define VP __attribute__((noinline))\n'
def want_terms(n,a,s):
    """the operation as terms (return, *stored), or None where only integers are given"""
    if n in('rot64','rot32'): return (t.rotr(a[0],s),)
    if n.startswith('bswap'): return (t.bswap(a[0]),)
    if n=='mul_32x32_64': return (t.mul(t.zext(a[0],64),t.zext(a[1],64)),)
    if n=='mul_64x64_high': return (t.mulfull(*a)[1],)
    if n=='mul_64x64_128': return tuple(t.mulfull(*a))
    if n=='add64carry_last': return (t.const(0,64),t.addc(t.add(*a),s))
    x=t.concat([a[0],a[1]]) if len(a)>1 else None
    if n=='not128': r=t.not_(x)
    elif n=='left128': r=t.shl(x,s)
    elif n=='right128': r=t.lshr(x,s)
    elif n=='rot128': r=t.rotr(x,s%128) if s%128 else x
    elif n=='xor128': r=t.xor(x,t.concat([a[2],a[3]]))
    elif n=='or128': return tuple(t.or_(a[i],a[2+i]) for i in (0,1))
    else: return None
    return (t.extract(r,0,64),t.extract(r,64,64))
def want_nf(nf,n,a,s):
    """the operation as one integer polynomial: value and the modulus (bits), for results low, high"""
    v=nf.val
    if n in('mul_64x64_128',): return nf.mul(v(a[0]),v(a[1])),128
    if n in('add64carry_first','add64carry_next'): return nf.add((v(a[0]),1),(v(a[1]),1),({():s or 0},1)),65
    if n=='add128': return nf.add((v(a[0]),1),(v(a[1]),1<<64),(v(a[2]),1),(v(a[3]),1<<64)),128
    if n=='mul128': return nf.mul(nf.add((v(a[0]),1),(v(a[1]),1<<64)),nf.add((v(a[2]),1),(v(a[3]),1<<64))),128
    return None
def one(m,n,ws,s,fn):
    f=m.funcs['vp_'+n]; I=interp.Interp(m)
    a=[t.var('hp%d'%i,w) for i,w in enumerate(ws)]
    # C integer promotion of narrow operands to 32-bit arguments
    args=[]
    for x,(_,ty) in zip(a,f.args): args.append(x if x.w==ty[1] else t.zext(x,ty[1]))
    if s is not None: args.append(t.const(s,f.args[len(a)][1][1]))
    out=interp.Obj('hp:out','out',8,align=8); ptr=len(f.args)>len(args)
    if ptr: args.append(interp.Ptr(out,t.const(0,I.W)))
    try: r=I.callf(f,m,args,interp.State())
    except interp.Imprecise as e: return 'unknown',str(e)
    if r is None: return 'wrong',dict(note='does not return')
    for e in I.events:
        if e.kind in('ub-shift','unreachable','abort','division'): return 'wrong',dict(note='undefined: '+str(e.x or e.kind),shift=s)
    try: g=(r[1],)+((I.rawload(r[2],out,t.const(0,I.W),8,64),) if ptr else ())
    except interp.Imprecise as e: return 'unknown',str(e)
    w=want_terms(n,a,s)
    if w is not None and len(w)==len(g) and all(t.zext(x,64) is t.zext(y,64) for x,y in zip(g,w)): return 'proven',None
    nf=intform.NF()
    for x in a: nf.cut(x)
    q=want_nf(nf,n,a,s)
    if q is not None:
        lo,hi=(g[1],g[0]) if n.startswith('add64') else g
        if intform.same_mod(nf,nf.add((nf.val(lo),1),(nf.val(hi),1<<64)),q[0],q[1]): return 'proven',None
    k=0
    for i in range(600 if len(ws)>1 else 60):
        if i<len(CORNER)**min(len(ws),2):
            c=[CORNER[i%len(CORNER)],CORNER[i//len(CORNER)%len(CORNER)]]
            vals=[(c[j%2] if j<2 else CORNER[t.h64('hp',i,j)%len(CORNER)])&mask(w) for j,w in enumerate(ws)]
        else: vals=[t.h64('hp',i,j)&mask(w) for j,w in enumerate(ws)]
        E=t.Eval(('hp',i),fixed=dict(zip(a,vals))); got=tuple(E.ev(x) for x in g); ex=fn(*vals,*([s] if s is not None else []))
        if got!=ex: return 'wrong',dict(operands=[hex(x) for x in vals],shift=s,got=[hex(x) for x in got],expected=[hex(x) for x in ex])
    return 'agree',None
def task(cfg):
    """every helper of one configuration -> [(helper, verdict, detail)]"""
    t.reset(); t.MOD[0]=1; out=[]
    for src,tab in ((build.REPO+'/src/t1ha_bits.h',H),(build.REPO+'/src/t1ha0.c',H32)):
        names=list(tab); m=None
        while names:
            tx=HEAD%src+''.join(tab[n][0].replace(' vp_',' VP vp_',1)+'\n' for n in names)
            try: m=build.module(cfg,build.probe('helpers',tx)); break
            except build.CompileError:
                # without the helpers that are not there in this build
                ok=[]
                for n in names:
                    try: build.compile_ir(cfg,build.probe('helper',HEAD%src+tab[n][0]+'\n'),opt=None); ok.append(n)
                    except build.CompileError: out.append((n,'absent',None))
                if ok==names: break
                names=ok
        for n in (names if m is not None else []):
            tx,ws,ss,fn=tab[n]; res=[one(m,n,ws,s,fn) for s in (ss if ss is not None else [None])]
            v=next((r for r in res if r[0]=='wrong'),None) or next((r for r in res if r[0]=='unknown'),None) or next((r for r in res if r[0]=='agree'),None) or ('proven',None)
            out.append((n,v[0],v[1]))
    return cfg,out
if __name__=='__main__':
    import sys,time
    for c in sys.argv[1:] or build.C:
        t0=time.time(); r=task(c)[1]; print(c,[x for x in r if x[1]!='proven'],len(r),'%.1f'%(time.time()-t0))
