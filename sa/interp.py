"""Abstract interpreter over LLVM IR: one dataflow pass per function and argument class.
Values are terms (terms.py) and symbolic pointers; control-flow joins merge states; loops whose trip
count is not a constant are summarised as recurrences.  Nothing is executed and no solver is used."""
import terms as t
from terms import T
from llvmc import Ins

class Imprecise(Exception): pass
class LoopSym(Exception):
    def __init__(s,H,why=''): s.H=H; s.why=why

class Obj:
    n=0
    def __init__(s,name,kind,size=None,ro=False,align=1,init=None,be=False):
        s.name=name; s.kind=kind; s.size=size; s.ro=ro; s.align=align; s.init=init
    def __repr__(s): return f"<{s.name}>"
NULL=Obj('null','null',0)
class Ptr:
    __slots__=('obj','off')
    def __init__(s,o,f): s.obj=o; s.off=f
    def __eq__(s,o): return isinstance(o,Ptr) and s.obj is o.obj and s.off is o.off
    def __hash__(s): return hash((id(s.obj),s.off.id))
    def __repr__(s): return f"&{s.obj.name}+{s.off}"
class FPtr:
    __slots__=('name',)
    def __init__(s,n): s.name=n
    def __eq__(s,o): return isinstance(o,FPtr) and s.name==o.name
    def __hash__(s): return hash(s.name)
    def __repr__(s): return f"@{s.name}"
class PIte:
    __slots__=('c','a','b')
    def __init__(s,c,a,b): s.c=c; s.a=a; s.b=b
    def __eq__(s,o): return isinstance(o,PIte) and s.c is o.c and s.a==o.a and s.b==o.b
    def __hash__(s): return hash((s.c.id,s.a,s.b))
    def __repr__(s): return f"({s.c}?{s.a}:{s.b})"

class State:
    __slots__=('mem','pc')
    def __init__(s): s.mem={}; s.pc=()
    def copy(s):
        n=State(); n.mem={o:{k:dict(c) for k,c in ks.items()} for o,ks in s.mem.items()}; n.pc=s.pc
        return n
class Ev:
    """one recorded event"""
    __slots__=('kind','obj','off','size','align','ins','pc','loops','x','stack')
    def loc(s): return f"{s.ins.file}:{s.ins.line}" if s.ins is not None else '?'
    def __repr__(s): return f"{s.kind} {s.obj and s.obj.name}+{s.off} size {s.size} align {s.align} {s.loc()} {s.x or ''}"

# ------------------------------------------------------------------ CFG facts
class Cfg:
    def __init__(s,f):
        n=len(f.blocks); s.n=n
        term=[b.ins[-1].op for b in f.blocks]
        ret=[i for i in range(n) if term[i]=='ret']
        live=set(ret); st=list(ret)
        while st:
            x=st.pop()
            for p in f.blocks[x].pred:
                if p not in live: live.add(p); st.append(p)
        s.live=live
        # postdominators among live blocks; virtual exit n
        succ={i:([j for j in f.blocks[i].succ if j in live] if term[i]!='ret' else [n]) for i in live}
        allb=set(live)|{n}
        pd={i:set(allb) for i in live}; pd[n]={n}
        ch=True
        while ch:
            ch=False
            for i in sorted(live,reverse=True):
                ss=succ[i]
                new=set.intersection(*[pd[j] for j in ss])|{i}
                if new!=pd[i]: pd[i]=new; ch=True
        s.ipd={}
        for i in live:
            c=pd[i]-{i}
            for j in c:
                if len(pd[j])==len(c): s.ipd[i]=j; break
        # dominators
        dom={0:{0}}; order=[]; seen=set()
        def dfs(r):
            stack=[(r,iter(f.blocks[r].succ))]; seen.add(r)
            while stack:
                x,it=stack[-1]
                for y in it:
                    if y not in seen: seen.add(y); stack.append((y,iter(f.blocks[y].succ))); break
                else: order.append(x); stack.pop()
        dfs(0); order.reverse()
        full=set(order)
        for b in order[1:]: dom[b]=set(full)
        ch=True
        while ch:
            ch=False
            for b in order[1:]:
                ps=[p for p in f.blocks[b].pred if p in full]
                new=set.intersection(*[dom[p] for p in ps])|{b}
                if new!=dom[b]: dom[b]=new; ch=True
        s.loops={}
        for b in order:
            for h in f.blocks[b].succ:
                if h in dom[b]:
                    L=s.loops.setdefault(h,{h}); st=[b]
                    while st:
                        x=st.pop()
                        if x not in L: L.add(x); st.extend(p for p in f.blocks[x].pred if p in full)
        s.dom=dom
        # ids defined in a loop and used outside
        s.out={}
        for h,L in s.loops.items():
            defs={i.id for b in L for i in f.blocks[b].ins+f.blocks[b].phis}
            used=set()
            for b in range(n):
                if b in L: continue
                for i in f.blocks[b].ins+f.blocks[b].phis:
                    ops=list(i.ops)+list(i.x.get('in',{}).values())+[p[1] for p in i.x.get('parts',()) if p[0]=='v']
                    for o in ops:
                        if o[0]=='i' and o[1] in defs: used.add(o[1])
            s.out[h]=used
def cfg(f):
    c=getattr(f,'_cfg',None)
    if c is None: c=f._cfg=Cfg(f)
    return c

class Frame:
    __slots__=('f','env','mod','depth','cfg')

def pmerge(c,a,b):
    if a is b: return a
    if isinstance(a,T) and isinstance(b,T):
        if a.w!=b.w: raise Imprecise('merge widths')
        return t.ite(c,a,b)
    if a is None or b is None: return a if b is None else b if a is None else None
    if isinstance(a,tuple) and isinstance(b,tuple): return tuple(pmerge(c,x,y) for x,y in zip(a,b))
    if a==b: return a
    if isinstance(a,Ptr) and isinstance(b,Ptr) and a.obj is b.obj: return Ptr(a.obj,t.ite(c,a.off,b.off))
    if isinstance(a,(Ptr,FPtr,PIte)) and isinstance(b,(Ptr,FPtr,PIte)): return PIte(c,a,b)
    raise Imprecise('merge of a pointer and an integer')

ALU={'add':t.add,'sub':t.sub,'mul':t.mul,'and':t.and_,'or':t.or_,'xor':t.xor}
BENIGN={'add','sub','xor','and','or','shl','lshr','ashr','trunc','zext','sext','icmp','select','phi','br','freeze','ptrtoint','getelementptr','inttoptr'}

class Interp:
    def __init__(s,mods,secrets=(),handlers=None,maxsteps=400000):
        s.mods=mods if isinstance(mods,list) else [mods]
        m=s.mods[0]; s.W=m.ptrbits; s.be=m.be
        s.events=[]; s.gobj={}; s.steps=0; s.maxsteps=maxsteps
        s.secrets=set(secrets)      # names of secret variables and objects
        s.handlers=handlers or {}
        s.summ=None; s.fresh=0; s.kmax=t.kmax(s.W); s.summaries={}
        s.asumm={}; s.extcalls=[]; s.stack=[]; s.loopctx=[]; s.addrvars={}
        s.nfolds=0; s.nbranch=0; s.ncalls=0; s.nshift=0; s.fns=set()
    # ---------------------------------------------------------- helpers
    def c(s,v): return t.const(v,s.W)
    def new(s,name,w,lo=0,hi=None):
        s.fresh+=1
        return t.var(f"{name}${s.fresh}",w,lo,hi)
    def ev(s,kind,ins,st,obj=None,off=None,size=None,align=None,x=None):
        e=Ev(); e.kind=kind; e.ins=ins; e.pc=st.pc; e.obj=obj; e.off=off; e.size=size; e.align=align; e.x=x; e.loops=tuple(s.loopctx)
        e.stack=tuple(s.stack); s.events.append(e); return e
    def findfunc(s,name,mod=None):
        if mod is not None:
            f=mod.funcs.get(name)
            if f is not None and not f.decl: return f,mod
        for m in s.mods:
            f=m.funcs.get(name)
            if f is not None and not f.decl and not f.internal: return f,m
        for m in s.mods:
            if name in m.aliases:
                a=m.aliases[name]
                if a[0]=='f': return s.findfunc(a[1],m)
        return None,None
    def globalobj(s,name,mod):
        for m in [mod]+s.mods:
            g=m.globals.get(name)
            if g is not None and not g.decl and (m is mod or not g.internal):
                key=(name,id(m) if g.internal else 0)
                o=s.gobj.get(key)
                if o is None:
                    o=Obj(name,'global',g.size,ro=g.const,align=g.align,init=('g',g,m)); s.gobj[key]=o
                return o
        key=(name,0); o=s.gobj.get(key)
        if o is None:
            o=Obj(name,'extern'); s.gobj[key]=o
        return o
    def addr(s,o):
        """numeric address of an object"""
        v=s.addrvars.get(o)
        if v is None:
            if o is NULL: v=s.c(0)
            else:
                a=o.align if o.kind not in('data',) else 1
                lo=4096; hi=(3<<(s.W-2))-1
                if a>1: v=t.scale(t.var('A/%d:%s'%(a,o.name),s.W,lo//a+1,hi//a-1),a)
                else: v=t.var('A:'+o.name,s.W,lo,hi)
            s.addrvars[o]=v
            s.raddr=getattr(s,'raddr',{}); 
            if o is not NULL: s.raddr[v if v.k=='v' else t.lin_parts(v)[0][0][0]]=(o,v)
        return v
    def toint(s,p):
        if isinstance(p,T): return p
        if isinstance(p,Ptr): return t.add(s.addr(p.obj),p.off)
        if isinstance(p,PIte): return t.ite(p.c,s.toint(p.a),s.toint(p.b))
        if isinstance(p,FPtr): return t.var('A:@'+p.name,s.W,4096,(3<<(s.W-2))-1)
        raise Imprecise('toint')
    def toptr(s,v):
        if not isinstance(v,T): return v
        if t.isc(v):
            if v.a[0]==0: return Ptr(NULL,s.c(0))
            return Ptr(NULL,v)
        ra=getattr(s,'raddr',{})
        cands=[x for x in t.free(v) if x in ra]
        if len(cands)==1:
            o,av=ra[cands[0]]
            d=t.sub(v,av)
            return Ptr(o,d)
        raise Imprecise('inttoptr')
    # ---------------------------------------------------------- memory
    def key(s,off):
        """(symbolic part, constant) of an offset"""
        p,c=t.lin_parts(off)
        return tuple(sorted(((x,k&t.mask(off.w)) for x,k in p),key=lambda e:e[0].id)),t.sgn(c&t.mask(off.w),off.w)
    def init_byte(s,o,key,i):
        if o.init is not None and o.init[0]=='g' and key==():
            b=o.init[1].bytes
            v=b.get(i) if b else None
            if v is None:
                raise Imprecise(f'read outside global {o.name}')
            return v
        if o.init is not None and o.init[0]=='fn' : 
            r=o.init[1](key,i)
            if r is not None: return r
        off=t.lin_add(list(key),i,s.W)
        return t.byte(o.name,off)
    def getcells(s,st,o,key):
        ks=st.mem.get(o)
        if ks is None: return None
        for k in ks:
            if k!=key:
                # different symbolic bases: must be provably disjoint to be ignored
                a=ks[k]
                if a and not s.disjoint(k,a,key): raise Imprecise('aliasing offsets in '+o.name)
        return ks.get(key)
    def disjoint(s,k1,cells,k2): return False
    def load(s,st,p,size,w,ins,align,want='int',vec=None):
        if isinstance(p,PIte):
            a=s.load(s.withpc(st,p.c,1),p.a,size,w,ins,align,want); b=s.load(s.withpc(st,p.c,0),p.b,size,w,ins,align,want)
            return pmerge(p.c,a,b)
        if isinstance(p,T): p=s.toptr(p)
        o=p.obj
        s.ev('R',ins,st,o,p.off,size,align)
        s.leakaddr(ins,st,p.off)
        if o is NULL: raise Imprecise('load through null')
        return s.rawload(st,o,p.off,size,w,want)
    def rawload(s,st,o,off,size,w,want='int'):
        key,c=s.key(off)
        cells=s.getcells(st,o,key)
        if cells:
            x=cells.get(c)
            if x is not None and x[0]==size:
                v=x[1]
                if want=='ptr':
                    if isinstance(v,T): return s.toptr(v)
                    return v
                if isinstance(v,T): return v if v.w==w else t.trunc(v,w)
                if isinstance(v,(Ptr,PIte,FPtr)): return s.toint(v)
        bs=[]
        for i in range(c,c+size):
            b=None
            if cells:
                b=s.cellbyte(cells,i)
            if b is None: b=s.init_byte(o,key,i)
            bs.append(b)
        if want=='ptr' and any(isinstance(b,tuple) for b in bs):
            if all(isinstance(b,tuple) and b[2]==i for i,b in enumerate(bs)):
                return s.opnd_const(bs[0][1],o.init[2])
            raise Imprecise('partial pointer load')
        bs=[t.const(b,8) if isinstance(b,int) else b for b in bs]
        if any(isinstance(b,tuple) for b in bs): raise Imprecise('pointer bytes')
        v=t.concat(bs[::-1] if s.be else bs)
        if v.w!=w: v=t.trunc(v,w)
        if want=='ptr': return s.toptr(v)
        return v
    def cellbyte(s,cells,i):
        for off,(sz,v) in cells.items():
            if off<=i<off+sz:
                if not isinstance(v,T): 
                    v=s.toint(v)
                k=i-off
                if s.be: k=sz-1-k
                if v.w<8*sz: v=t.zext(v,8*sz)
                return t.extract(v,8*k,8)
        return None
    def store(s,st,p,size,v,ins,align):
        if isinstance(p,PIte):
            o1=s.toptr_obj(p)
            # conditional store: read-modify-write on both targets
            for q,truth in s.flat(p):
                old=s.rawload(st,q.obj,q.off,size,8*size,'ptr' if not isinstance(v,T) else 'int')
                s.ev('W',ins,s.withpcs(st,truth),q.obj,q.off,size,align)
                nv=v
                for c,b in truth: nv=pmerge(c,nv,old) if b else pmerge(c,old,nv)
                s.rawstore(st,q.obj,q.off,size,nv)
            return
        if isinstance(p,T): p=s.toptr(p)
        o=p.obj
        s.ev('W',ins,st,o,p.off,size,align)
        s.leakaddr(ins,st,p.off)
        if o is NULL: raise Imprecise('store through null')
        s.rawstore(st,o,p.off,size,v)
    def toptr_obj(s,p): return None
    def loadagg(s,st,p,ty,ins,align):
        fl=[(o,x) for o,x in zip(ty[2],ty[1])] if ty[0]=='struct' else [(k*(s.bits(ty[2])//8),ty[2]) for k in range(ty[1])]
        r=[]
        for o,x in fl:
            w=s.bits(x)
            if w%8: raise Imprecise('aggregate load')
            r.append(s.load(st,Ptr(p.obj,t.addc(p.off,o)),w//8,w,ins,min(align or 1,w//8),'ptr' if x[0]=='ptr' else 'int'))
        return tuple(r)
    def flat(s,p,tr=()):
        if isinstance(p,PIte): return s.flat(p.a,tr+((p.c,1),))+s.flat(p.b,tr+((p.c,0),))
        if isinstance(p,T): p=s.toptr(p)
        return [(p,tr)]
    def rawstore(s,st,o,off,size,v):
        key,c=s.key(off)
        if isinstance(v,T) and v.w<8*size: v=t.zext(v,8*size)
        s.getcells(st,o,key)
        cells=st.mem.setdefault(o,{}).setdefault(key,{})
        for off2 in list(cells):
            sz,old=cells[off2]
            if off2<c+size and c<off2+sz and not(off2==c and sz==size):
                for i in range(off2,off2+sz):
                    if not c<=i<c+size: cells[i]=(1,s.cellbyte({off2:(sz,old)},i))
                if not (c<=off2<c+size) : pass
                if cells.get(off2)==(sz,old): del cells[off2]
        for i in list(cells):
            sz,_=cells[i]
            if c<=i<c+size and not(i==c and sz==size): del cells[i]
        cells[c]=(size,v)
    def withpc(s,st,c,b):
        n=State(); n.mem=st.mem; n.pc=st.pc+((c,b),); return n
    def withpcs(s,st,tr):
        n=State(); n.mem=st.mem; n.pc=st.pc+tuple(tr); return n
    def merge(s,c,a,b,pc):
        """state after a conditional with condition c"""
        n=State(); n.pc=pc
        for o in set(a.mem)|set(b.mem):
            ka=a.mem.get(o,{}); kb=b.mem.get(o,{}); r={}
            for key in set(ka)|set(kb):
                ca=ka.get(key,{}); cb=kb.get(key,{}); cells={}
                lay={}
                bad=False
                for off,(sz,_) in list(ca.items())+list(cb.items()):
                    if lay.setdefault(off,sz)!=sz: bad=True
                if not bad:
                    so=sorted(lay.items())
                    for (o1,s1),(o2,_) in zip(so,so[1:]):
                        if o1+s1>o2: bad=True
                if bad:
                    pts=set()
                    for off,(sz,_) in list(ca.items())+list(cb.items()): pts|=set(range(off,off+sz))
                    lay={i:1 for i in pts}
                for off,sz in lay.items():
                    x=ca.get(off); y=cb.get(off)
                    if x and y and x[0]==sz and y[0]==sz and (x[1] is y[1]): cells[off]=x; continue
                    off_t=t.lin_add(list(key),off,s.W)
                    ptr=any(z and z[0]==sz and not isinstance(z[1],T) for z in (x,y))
                    va=x[1] if x and x[0]==sz else s.rawload(a,o,off_t,sz,8*sz,'ptr' if ptr else 'int')
                    vb=y[1] if y and y[0]==sz else s.rawload(b,o,off_t,sz,8*sz,'ptr' if ptr else 'int')
                    cells[off]=(sz,pmerge(c,va,vb))
                r[key]=cells
            n.mem[o]=r
        return n
    # ---------------------------------------------------------- leaks
    def issecret(s,term):
        for x in t.free(term):
            if x.k=='b' and x.a[0] in s.secrets: return True
            if x.k=='v' and x.a[0] in s.secrets: return True
        return False
    def leakaddr(s,ins,st,off):
        if s.secrets and not t.isc(off) and s.issecret(off): s.ev('leak-address',ins,st,x='address')
    # ---------------------------------------------------------- operands
    def opnd_const(s,o,mod):
        k=o[0]
        if k=='c': return t.const(o[2],o[1])
        if k=='null': return Ptr(NULL,s.c(0))
        if k=='f': return FPtr(o[1])
        if k=='g':
            for m in [mod]+s.mods:
                if o[1] in m.aliases and o[2]==0 and m.aliases[o[1]][0]=='f': return FPtr(o[1])
                if o[1] in m.ifuncs: return FPtr(o[1])
            return Ptr(s.globalobj(o[1],mod),s.c(o[2]))
        if k=='zero': return s.zero(o[1])
        if k=='undef': return s.undef(o[1])
        if k=='agg':
            vs=[s.opnd_const(x,mod) for x in o[2]]
            if o[1][0]=='vec': return t.concat(vs)
            return tuple(vs)
        if k=='ce':
            v=s.opnd_const(o[3],mod)
            return s.toint(v) if o[1]=='ptrtoint' else s.toptr(v)
        if k in('meta','asm'): return None
        raise Imprecise('operand '+str(o)[:60])
    def undef(s,ty):
        if ty[0]=='int': return s.new('undef',ty[1])
        if ty[0]=='vec': return s.new('undef',s.bits(ty))
        if ty[0]=='struct': return tuple(s.undef(x) for x in ty[1])
        if ty[0]=='arr': return tuple(s.undef(ty[2]) for _ in range(ty[1]))
        if ty[0]=='ptr': return Ptr(NULL,s.c(0))
        raise Imprecise('undef '+str(ty))
    def zero(s,ty):
        if ty[0]=='int': return t.const(0,ty[1])
        if ty[0]=='vec': return t.const(0,s.bits(ty))
        if ty[0]=='ptr': return Ptr(NULL,s.c(0))
        if ty[0]=='struct': return tuple(s.zero(x) for x in ty[1])
        if ty[0]=='arr': return tuple(s.zero(ty[2]) for _ in range(ty[1]))
        raise Imprecise('zero '+str(ty))
    def bits(s,ty):
        if ty[0]=='int': return ty[1]
        if ty[0]=='ptr': return s.W
        if ty[0]=='vec': return ty[1]*s.bits(ty[2])
        raise Imprecise('bits '+str(ty))
    def op(s,fr,o):
        if o[0]=='i':
            try: return fr.env[o[1]]
            except KeyError: raise Imprecise('undefined value')
        return s.opnd_const(o,fr.mod)
    def lanes(s,v,ty):
        w=s.bits(ty[2]); return [t.extract(v,i*w,w) for i in range(ty[1])]
    # ---------------------------------------------------------- control
    def facts(s,st):
        d={}
        for c,b in st.pc:
            v=t.const(1,1) if b else t.const(0,1)
            d[c]=v; d[t.not_(c)]=t.const(0,1) if b else t.const(1,1)
            cc=c if b else t.not_(c)
            if cc.k=='and':
                for x in cc.a: d[x]=t.const(1,1); d[t.not_(x)]=t.const(0,1)
        return d
    def decide(s,c,st):
        if t.isc(c) or not st.pc: return c
        d=s.facts(st)
        if c in d: return d[c]
        if c.k in('and','bits'):
            r=t.subst(c,d)
            if t.isc(r): return r
        return c
    def phis(s,fr,blk,prev):
        return {p.id:s.op(fr,p.x['in'][prev]) for p in fr.f.blocks[blk].phis}
    def go(s,fr,blk,prev,phiv,st,stops,region,start=False):
        """returns ('at',blk,prev,phiv,st) | ('ret',val,st) | None when the path is dead"""
        f=fr.f; cf=fr.cfg
        while True:
            if not start:
                if blk in stops or (region is not None and blk not in region): return ('at',blk,prev,phiv,st)
                if blk in cf.loops:
                    r=s.do_loop(fr,blk,prev,phiv,st)
                    if r is None or r[0]=='ret': return r
                    _,blk,prev,phiv,st=r
                    continue
            start=False
            fr.env.update(phiv)
            B=f.blocks[blk]
            for i in B.ins[:-1]:
                s.steps+=1
                if i.op=='call':
                    v=s.call(fr,i,st)
                    if v is DEAD: return None
                    fr.env[i.id]=v
                else: fr.env[i.id]=s.exec(fr,i,st)
            if s.steps>s.maxsteps: raise Imprecise('step limit')
            i=B.ins[-1]
            if i.op=='ret':
                v=s.op(fr,i.ops[0]) if i.ops else None
                return ('ret',v,st)
            if i.op=='unreachable':
                s.ev('unreachable',i,st); return None
            if i.op=='br':
                if i.x['f'] is None: nxt=i.x['t']
                else:
                    c=s.op(fr,i.ops[0])
                    tt,ff=i.x['t'],i.x['f']
                    if tt==ff: nxt=tt
                    else:
                        c=s.decide(c,st)
                        if t.isc(c): nxt=tt if c.a[0] else ff
                        else:
                            r=s.branch(fr,i,blk,[(c,tt)],ff,st,stops,region)
                            if r is None or r[0]!='next': return r
                            _,blk,prev,phiv,st=r
                            continue
            elif i.op=='switch':
                v=s.op(fr,i.ops[0]); nxt=None; arms=[]
                for k,b in i.x['cases']:
                    c=s.decide(t.cmp('eq',v,t.const(k,v.w)),st)
                    if t.isc(c):
                        if c.a[0]: nxt=b; break
                    else: arms.append((c,b))
                if nxt is None: nxt=i.x['default']
                if arms:
                    r=s.branch(fr,i,blk,arms,nxt,st,stops,region)
                    if r is None or r[0]!='next': return r
                    _,blk,prev,phiv,st=r
                    continue
            else: raise Imprecise('terminator '+i.op)
            phiv=s.phis(fr,nxt,blk); prev=blk; blk=nxt
    def branch(s,fr,i,blk,arms,dflt,st,stops,region):
        """undecided multiway branch: arms [(cond,target)], then the default"""
        cf=fr.cfg; s.nbranch+=1
        J=cf.ipd.get(blk)
        if region is not None:
            # leaving the loop on an undecided condition?
            outs=[b for _,b in arms if b not in region and b in cf.live]+([dflt] if dflt not in region and dflt in cf.live else [])
            if outs:
                sm=s.summ
                if sm is None or sm['region'] is not region: raise LoopSym(s.curH(region,cf),f"{i.file}:{i.line}")
                if len(arms)!=1 or sm['exit'] is not None or len(st.pc)!=sm['pc']: raise Imprecise('loop with several exits')
                c,tt=arms[0]
                if s.secrets and s.issecret(c): s.ev('leak-branch',i,st,x='loop')
                if tt not in region: ec,eb,stay=c,tt,dflt
                else: ec,eb,stay=t.not_(c),dflt,tt
                if stay not in region: raise Imprecise('loop exit shape')
                sm['exit']=(ec,eb,blk,s.phis(fr,eb,blk),st.copy(),len(s.events),{k:fr.env.get(k) for k in cf.out[sm['H']]})
                return ('next',stay,blk,s.phis(fr,stay,blk),st)
            if J is None or J not in region:
                if J is not None or True: raise LoopSym(s.curH(region,cf),f"{i.file}:{i.line}")
        # content-dependent control flow
        if s.secrets and any(s.issecret(c) for c,_ in arms):
            s.ev('leak-select' if s.benign(fr.f,blk,J) else 'leak-branch',i,st,x='branch')
        pc0=st.pc
        st2=stops|({J} if J is not None else set())
        outs=[]; pc=pc0
        for c,b in arms+[(None,dflt)]:
            sa=st.copy(); sa.pc=pc+(((c,1),) if c is not None else ())
            # infeasible combination of conditions
            r=s.go(fr,b,blk,s.phis(fr,b,blk),sa,frozenset(st2),region)
            if r is not None:
                if r[0]=='at':
                    if r[1]!=J:
                        raise LoopSym(s.curH(region,cf),'arm') if region is not None else Imprecise('unstructured branch')
                outs.append((c,r))
            if c is not None: pc=pc+((c,0),)
        if not outs: return None
        # fold from the last
        c,r=outs[-1]
        if r[0]=='ret':
            if any(x[1][0]!='ret' for x in outs): raise Imprecise('mixed return')
            val,sx=r[1],r[2]
            for c,q in reversed(outs[:-1]):
                val=pmerge(c,q[1],val) if val is not None else None
                sx=s.merge(c,q[2],sx,pc0)
            sx.pc=pc0
            return ('ret',val,sx)
        if any(x[1][0]!='at' for x in outs): raise Imprecise('mixed return')
        ph,sx,pv=r[3],r[4],r[2]
        for c,q in reversed(outs[:-1]):
            ph={k:pmerge(c,q[3][k],ph[k]) for k in ph}
            sx=s.merge(c,q[4],sx,pc0)
        sx.pc=pc0
        return ('next',J,pv,ph,sx)
    def curH(s,region,cf):
        for h,L in cf.loops.items():
            if L is region: return (h,id(cf))
        return None
    def benign(s,f,blk,J):
        key=(blk,J); m=getattr(f,'_ben',None)
        if m is None: m=f._ben={}
        if key in m: return m[key]
        seen=set(); st=[x for x in f.blocks[blk].succ]; ok=True
        while st:
            x=st.pop()
            if x==J or x in seen: continue
            if x==blk: ok=False; break
            seen.add(x)
            for i in f.blocks[x].ins+f.blocks[x].phis:
                if i.op not in BENIGN: ok=False
            if sum(len(f.blocks[y].ins) for y in seen)>40: ok=False
            if not ok: break
            st.extend(f.blocks[x].succ)
        m[key]=ok and J is not None
        return m[key]
    # ---------------------------------------------------------- loops
    def do_loop(s,fr,H,prev,phiv,st):
        cf=fr.cfg; L=cf.loops[H]
        snap=st.copy(); env0=dict(fr.env); nev=len(s.events); ph0=dict(phiv); nctx=len(s.loopctx)
        outer=s.summ
        try:
            s.summ=None
            n=0
            while True:
                r=s.go(fr,H,prev,phiv,st,frozenset((H,)),L,start=True)
                if r is None or r[0]=='ret': 
                    s.summ=outer
                    return r
                if r[1]!=H: s.summ=outer; return r
                _,_,prev,phiv,st=r
                n+=1
                if n==6 and s.kmax is not None:
                    # a long loop: its trip count is probably not a constant
                    keep=(list(s.events[nev:]),list(s.loopctx[nctx:]),fr.env,s.steps)
                    try:
                        del s.events[nev:]; del s.loopctx[nctx:]; fr.env=dict(env0); s.summ=outer
                        return s.summarise(fr,H,ph0,snap,L,True)
                    except (Imprecise,LoopSym):
                        del s.events[nev:]; del s.loopctx[nctx:]
                        s.events.extend(keep[0]); s.loopctx.extend(keep[1]); fr.env=keep[2]; s.summ=None
                if n>5000: raise Imprecise('loop bound')
        except LoopSym as e:
            s.summ=outer
            if e.H!=(H,id(cf)): raise
            del s.events[nev:]; del s.loopctx[nctx:]
            fr.env=env0
            return s.summarise(fr,H,ph0,snap,L)
        except Exception:
            s.summ=outer
            raise
    def summarise(s,fr,H,ph0,st0,L,varying=False):
        cf=fr.cfg; outer=s.summ; W=s.W
        if s.kmax is None: raise Imprecise('undecided loop exit')
        s.fresh+=1; K=t.var(f"K${s.fresh}",W,0,s.kmax)
        X={}        # ('p',phi id) or ('m',obj,key,off,size) -> symbol
        closed={}   # carrier -> constant step
        memc=[]
        nev=len(s.events); nctx=len(s.loopctx)
        env0=dict(fr.env)
        def initval(cr):
            if cr[0]=='p': return ph0[cr[1]]
            v=s.rawload(st0,cr[1],t.lin_add(list(cr[2]),cr[3],W),cr[4],8*cr[4],cr[5])
            return v
        def cur(cr,iv):
            if cr in closed:
                d=closed[cr]
                kk=lambda w: t.trunc(K,w) if w<=W else t.zext(K,w)
                if isinstance(iv,Ptr): return Ptr(iv.obj,t.add(iv.off,t.scale(K,d)))
                return t.add(iv,t.scale(kk(iv.w),d))
            x=X.get(cr)
            if x is None:
                w=iv.off.w if isinstance(iv,Ptr) else iv.w if isinstance(iv,T) else None
                if w is None: raise Imprecise('loop-carried '+type(iv).__name__)
                s.fresh+=1; x=X[cr]=t.var(f"X${s.fresh}",w)
            return Ptr(iv.obj,x) if isinstance(iv,Ptr) else x
        for attempt in range(12):
            del s.events[nev:]; del s.loopctx[nctx:]
            fr.env=dict(env0)
            st=st0.copy()
            carriers=[('p',p.id) for p in fr.f.blocks[H].phis]+memc
            iv={c:initval(c) for c in carriers}
            start={c:cur(c,iv[c]) for c in carriers}
            for c in memc: s.rawstore(st,c[1],t.lin_add(list(c[2]),c[3],W),c[4],start[c])
            base=st.copy()
            s.summ={'region':L,'exit':None,'pc':len(st.pc),'H':H}
            s.loopctx.append([K,None])
            try: r=s.go(fr,H,None,{c[1]:start[c] for c in carriers if c[0]=='p'},st,frozenset((H,)),L,start=True)
            except LoopSym as e: raise Imprecise('loop not summarised: '+str(e.why))
            finally: sm=s.summ; s.summ=outer
            if r is None or r[0]!='at' or r[1]!=H: raise Imprecise('loop shape')
            _,_,_,ph1,st1=r
            changed=False
            # memory written
            have={(c[1],c[2],c[3],c[4]) for c in memc}
            syms=set(X.values())|{K}
            for o,ks in st1.mem.items():
                for key,cells in ks.items():
                    for off,(sz,v) in cells.items():
                        b=base.mem.get(o,{}).get(key,{}).get(off)
                        if b is not None and b[0]==sz and (b[1] is v or b[1]==v): continue
                        if any(not t.free(z).isdisjoint(syms) for z,_ in key): raise Imprecise('store at a varying address in a loop')
                        if o.kind=='alloca' and o not in st0.mem and o not in base.mem: continue
                        if (o,key,off,sz) not in have:
                            if any(c[1] is o and c[2]==key and c[3]<off+sz and off<c[3]+c[4] for c in memc):
                                # re-cut at byte granularity is not attempted
                                raise Imprecise('overlapping carried cells')
                            memc.append(('m',o,key,off,sz,'int' if isinstance(v,T) else 'ptr')); changed=True
            if changed: continue
            step={}
            for c in carriers:
                if c[0]=='p': step[c]=ph1[c[1]]
                else: step[c]=s.rawload(st1,c[1],t.lin_add(list(c[2]),c[3],W),c[4],8*c[4],c[5])
            for c in carriers:
                a,b=start[c],step[c]
                if isinstance(a,Ptr):
                    if not isinstance(b,Ptr) or b.obj is not a.obj: raise Imprecise('loop-carried pointer changes object')
                    d=t.sub(b.off,a.off)
                elif isinstance(a,T): d=t.sub(b,a)
                else: raise Imprecise('loop-carried value')
                if c in closed:
                    if not(t.isc(d) and t.sgn(d.a[0],d.w)==closed[c]): raise Imprecise('induction')
                elif t.isc(d): closed[c]=t.sgn(d.a[0],d.w); changed=True
                elif isinstance(a,Ptr): raise Imprecise('loop-carried pointer without constant step')
            if not changed: break
        else: raise Imprecise('loop does not stabilise')
        if sm['exit'] is None: raise Imprecise('endless loop')
        ec,eb,eprev,eph,est,eev,eenv=sm['exit']
        Tn=s.solve(ec,K)
        if varying and t.isc(Tn): raise Imprecise('constant trip count')
        # events: K ranges
        ctx=s.loopctx[nctx]; 
        s.loopctx.pop()
        for n,e in enumerate(s.events[nev:]):
            e.loops=tuple(([k,(Tn if nev+n<eev else t.addc(Tn,-1))] if k is K else [k,m]) for k,m in e.loops)
        comps=[(start[c],iv[c],step[c]) for c in carriers if c not in closed]
        F1=t.make_folds(comps,K,Tn); F2=t.make_folds(comps,K,t.addc(Tn,1))
        s.nfolds+=1
        mp={K:Tn}; stepmap={}
        for (x,i,sp),f1,f2 in zip(comps,F1,F2): mp[x]=f1; stepmap[sp]=f2
        memo={}
        syms=set(mp)
        def fin(v):
            if isinstance(v,T):
                r=stepmap.get(v)
                if r is not None: return r
                if t.free(v).isdisjoint(syms): return v
                return t.subst(v,mp,memo)
            if isinstance(v,Ptr): return Ptr(v.obj,fin(v.off))
            if isinstance(v,tuple): return tuple(fin(x) for x in v)
            if isinstance(v,PIte): return PIte(fin(v.c),fin(v.a),fin(v.b))
            return v
        for k,v in eenv.items():
            if v is not None: fr.env[k]=fin(v)
        eph={k:fin(v) for k,v in eph.items()}
        for o,ks in est.mem.items():
            for key,cells in ks.items():
                for off in cells:
                    sz,v=cells[off]; cells[off]=(sz,fin(v))
        est.pc=st0.pc
        return ('at',eb,eprev,eph,est)
    def solve(s,e,K):
        """first iteration K in which the exit condition e(K) holds"""
        neg=False
        if e.k=='bits' and len(e.a)==1 and e.a[0][2]==1 and len(e.a[0][1])==1:
            (x,l),=e.a[0][1]
            if l==0 and x.w==1: e=x; neg=True
        if e.k!='cmp': raise Imprecise('loop exit condition')
        p,x,y=e.a; w=x.w
        ax,ay=t.affine(x),t.affine(y)
        def chk(m):
            for z in m[0]:
                if z is not K and K in t.free(z): raise Imprecise('loop exit not linear')
        chk(ax); chk(ay)
        d=dict(ax[0]); c=ax[1]-ay[1]
        for z,k in ay[0].items(): d[z]=d.get(z,0)-k
        beta=d.pop(K,0)
        d={z:k for z,k in d.items() if k}
        if beta==0: raise Imprecise('loop exit does not depend on the iteration')
        if p in('ult','slt'):
            if not neg and beta<0: num=({z:k for z,k in d.items()},c+1); b=-beta      # beta K + delta < 0
            elif neg and beta>0: num=({z:-k for z,k in d.items()},-c); b=beta
            else: raise Imprecise('loop exit direction')
        else:
            if neg: raise Imprecise('loop exit on inequality')
            if beta>0: num=({z:-k for z,k in d.items()},-c); b=beta
            else: num=({z:k for z,k in d.items()},c); b=-beta
            if num[1]%b or any(k%b for k in num[0].values()): raise Imprecise('loop exit equality')
        W=s.W
        def up(z):
            return z if z.w==W else t.zext(z,W) if z.w<W else t.trunc(z,W)
        if all(k%b==0 for k in num[0].values()):
            cc=-((-num[1])//b)
            lo=hi=cc
            for z,k in num[0].items():
                a,h=t.rng(z); k//=b
                lo+=k*(a if k>0 else h); hi+=k*(h if k>0 else a)
            if hi<=0: Tn=s.c(0)
            elif lo<0: raise Imprecise('trip count may be clamped')
            else: Tn=t.lin_add([(up(z),k//b) for z,k in num[0].items()],cc,W)
        else:
            lo=hi=num[1]
            for z,k in num[0].items():
                a,h=t.rng(z)
                lo+=k*(a if k>0 else h); hi+=k*(h if k>0 else a)
            if hi>=1<<(W-1) or lo<-(1<<(W-1)): raise Imprecise('trip count range')
            Tn=t.cdiv(t.lin_add([(up(z),k) for z,k in num[0].items()],num[1],W),b)
            hi=max(0,-((-hi)//b)); lo=max(0,-((-lo)//b))
        if hi>s.kmax: raise Imprecise('trip count bound')
        # the compared quantities must not wrap for K in 0..T
        for m in (ax,ay):
            for kv in ((0,0),(lo,hi)) if True else ():
                pass
            L=H=m[1]; kb=m[0].get(K,0)
            for z,k in m[0].items():
                if z is K: continue
                a,h=t.rng(z); L+=k*(a if k>0 else h); H+=k*(h if k>0 else a)
            l0,h0=L,H
            # at K=T: use the affine form of T when available
            l1=L+min(kb*lo,kb*hi); h1=H+max(kb*lo,kb*hi)
            if Tn.k!='uf':
                ta=t.affine(Tn); mm={z:k for z,k in m[0].items() if z is not K}; c1=m[1]+kb*ta[1]
                same=True
                for z,k in ta[0].items():
                    mm[z]=mm.get(z,0)+kb*k
                l1=h1=c1
                for z,k in mm.items():
                    if k:
                        a,h=t.rng(z); l1+=k*(a if k>0 else h); h1+=k*(h if k>0 else a)
            lo_,hi_=min(l0,l1),max(h0,h1)
            if p=='slt': ok=lo_>=-(1<<(w-1)) and hi_<1<<(w-1)
            else: ok=lo_>=0 and hi_<1<<w
            if p=='eq': ok=hi_-lo_<1<<w
            if not ok: raise Imprecise('loop bound may wrap')
        return Tn
    # ---------------------------------------------------------- calls
    def run(s,name,args,st=None):
        f,m=s.findfunc(name)
        if f is None:
            for m in s.mods:
                if name in m.funcs and not m.funcs[name].decl: f=m.funcs[name]; break
        if f is None: raise KeyError(name)
        st=st or State()
        r=s.callf(f,m,args,st)
        return r
    def callf(s,f,m,args,st):
        """returns ('ret',val,st) or None"""
        fr=Frame(); fr.f=f; fr.mod=m; fr.env={}; fr.cfg=cfg(f)
        if len(s.stack)>40: raise Imprecise('recursion')
        s.fns.add(f.name)
        for (i,ty),a in zip(f.args,args): fr.env[i]=a
        s.stack.append(f.name); sm=s.summ; 
        try: return s.go(fr,0,None,{},st,frozenset(),None)
        finally: s.stack.pop(); s.summ=sm
    def call(s,fr,i,st):
        cal=i.x['callee']; s.ncalls+=1
        if cal[0]=='asm': return s.asm(fr,i,st,cal)
        args=[s.op(fr,o) for o in i.ops]
        if cal[0]=='f': name=cal[1]
        else:
            fp=s.op(fr,cal) 
            if isinstance(fp,PIte): return s.callite(fr,i,st,fp,args)
            if isinstance(fp,FPtr): name=fp.name
            else: raise Imprecise('indirect call')
        return s.callname(fr,i,st,name,args)
    def callite(s,fr,i,st,fp,args):
        if not isinstance(fp,PIte):
            if not isinstance(fp,FPtr): raise Imprecise('indirect call')
            return s.callname(fr,i,st,fp.name,args)
        a=st.copy(); b=st.copy(); pc=st.pc
        a.pc=pc+((fp.c,1),); b.pc=pc+((fp.c,0),)
        va=s.callite(fr,i,a,fp.a,args); vb=s.callite(fr,i,b,fp.b,args)
        if va is DEAD and vb is DEAD: return DEAD
        if va is DEAD: st.mem=b.mem; return vb
        if vb is DEAD: st.mem=a.mem; return va
        m=s.merge(fp.c,a,b,pc); st.mem=m.mem
        return pmerge(fp.c,va,vb)
    def callname(s,fr,i,st,name,args):
        h=s.handlers.get(name)
        if h is not None: return h(s,fr,i,st,args)
        if name.startswith('llvm.'): return s.intrin(fr,i,st,name,args)
        if name.startswith('stub_'): return s.stub(fr,i,st,name,args)
        if name in('memcpy','memmove'): s.memcpy(fr,i,st,args,name); return args[0]
        if name=='memset':
            n=args[2]
            if not t.isc(n): raise Imprecise('memset size')
            v=t.trunc(args[1],8)
            p=args[0]
            if n.a[0]:
                s.ev('W',i,st,p.obj,p.off,n.a[0],1)
                for k in range(n.a[0]): s.rawstore(st,p.obj,t.addc(p.off,k),1,v)
            return p
        f,m=s.findfunc(name,fr.mod)
        if f is None:      # a static function of another file, called through a pointer
            cand=[(x.funcs[name],x) for x in s.mods if name in x.funcs and not x.funcs[name].decl]
            if len(cand)==1: f,m=cand[0]
        if f is None:
            if name in('abort','__assert_fail','__assert','_assert'):
                s.ev('abort',i,st,x=name); return DEAD
            s.ev('extcall',i,st,x=name)
            raise Imprecise('call of '+name)
        sm=s.lemma(f,m)
        if sm is not None:
            s.fns.add(f.name)
            return sm(s,i,st,args)
        r=s.callf(f,m,args,st)
        if r is None: return DEAD
        if r[2] is not st: st.mem=r[2].mem
        return r[1]
    LEMMAS=None
    def lemma(s,f,m):
        if Interp.LEMMAS is None: return None
        return Interp.LEMMAS(s,f,m)
    def memcpy(s,fr,i,st,args,name):
        d,sr,n=args[:3]
        if not t.isc(n):
            if s.secrets and s.issecret(n): s.ev('leak-address',i,st,x='memcpy size')
            raise Imprecise('memcpy size')
        n=n.a[0]
        for p,what in ((d,'destination'),(sr,'source')):
            if isinstance(p,Ptr) and p.obj is NULL: s.ev('null-memcpy',i,st,x=what,size=n)
        if n==0: return
        if n>1<<16: raise Imprecise('memcpy size')
        if isinstance(d,PIte) or isinstance(sr,PIte): raise Imprecise('memcpy of conditional pointers')
        if isinstance(d,T): d=s.toptr(d)
        if isinstance(sr,T): sr=s.toptr(sr)
        s.ev('R',i,st,sr.obj,sr.off,n,1); s.ev('W',i,st,d.obj,d.off,n,1)
        s.leakaddr(i,st,sr.off); s.leakaddr(i,st,d.off)
        if NULL in (d.obj,sr.obj): raise Imprecise('memcpy null')
        # copy whole cells where layouts allow
        key,c=s.key(sr.off); cells=s.getcells(st,sr.obj,key) or {}
        vals=[]; k=0
        while k<n:
            x=cells.get(c+k)
            if x is not None and k+x[0]<=n: vals.append((k,x[0],x[1])); k+=x[0]; continue
            w=1
            if n-k>=8 and not any(o<c+k+8 and c+k<o+z for o,(z,_) in cells.items()): w=8
            if sr.obj.init is not None and sr.obj.init[0]=='g' and any(isinstance((sr.obj.init[1].bytes or {}).get(c+k+j),tuple) for j in range(w)):
                if n-k>=s.W//8: vals.append((k,s.W//8,s.rawload(st,sr.obj,t.addc(sr.off,k),s.W//8,s.W,'ptr'))); k+=s.W//8; continue
            vals.append((k,w,s.rawload(st,sr.obj,t.addc(sr.off,k),w,8*w))); k+=w
        for k,w,v in vals: s.rawstore(st,d.obj,t.addc(d.off,k),w,v)
    def asm(s,fr,i,st,cal):
        txt=cal[1]
        args=[s.op(fr,o) for o in i.ops]
        if not txt.strip(): return None if i.ty[0]=='void' else args[0]
        if 'pushf' in txt and 'popf' in txt: return t.var('cpuid_supported',32,0,1)
        if 'cpuid' in txt:
            s.ev('cpuid',i,st)
            a=args+[t.const(0,32)]*2
            return tuple(t.uf('cpuid_'+r,32,a[0],a[1]) for r in('eax','ebx','ecx','edx'))
        if 'xgetbv' in txt or '0x0f, 0x01, 0xd0' in txt:
            s.ev('xgetbv',i,st)
            return tuple(t.uf('xcr_'+r,32,args[0]) for r in('eax','edx'))
        raise Imprecise('inline assembly '+txt[:30])
    def intrin(s,fr,i,st,name,args):
        n=name[5:]
        b=n.split('.')[0]
        if n.startswith(('lifetime','dbg','prefetch','experimental.noalias','invariant','donothing','x86.avx.vzeroupper','x86.mmx.emms')): return None
        if b=='expect': return args[0]
        if b=='assume':
            c=args[0]
            if t.isc(c) and c.a[0]==0: s.ev('unreachable',i,st,x='assume'); return DEAD
            if not t.isc(c):
                d=s.decide(t.not_(c),st)
                if not(t.isc(d) and d.a[0]==0): s.ev('unreachable',i,s.withpc(st,c,0),x='assume')
            return None
        if b in('memcpy','memmove'): s.memcpy(fr,i,st,args,name); return None
        if b=='memset': return s.callname(fr,i,st,'memset',args) and None
        if b=='bswap': return t.bswap(args[0])
        if b in('fshl','fshr'):
            x,y,k=args
            if not t.isc(k): raise Imprecise('funnel shift')
            k=k.a[0]%x.w
            if k==0: return x if b=='fshl' else y
            if b=='fshl': return t.or_(t.shl(x,k),t.lshr(y,x.w-k))
            return t.or_(t.shl(x,x.w-k),t.lshr(y,k))
        if n.startswith('uadd.with.overflow'):
            r=t.add(*args); return (r,t.cmp('ult',r,args[0]))
        if n.startswith('usub.with.overflow'): return (t.sub(*args),t.cmp('ult',args[0],args[1]))
        if n.startswith('umul.with.overflow'):
            lo,hi=t.mulfull(*args); return (lo,t.cmp('ne',hi,t.const(0,hi.w)))
        if b in('umin','umax','smin','smax'):
            c=t.cmp(('ult' if b[0]=='u' else 'slt'),args[0],args[1])
            return t.ite(c,args[0],args[1]) if b.endswith('min') else t.ite(c,args[1],args[0])
        if n=='x86.aesni.aesenc': return t.aesenc(*args)
        if n=='x86.aesni.aesdec': return t.aesdec(*args)
        if n in('x86.aesni.aesenclast','x86.aesni.aesdeclast','x86.aesni.aesimc'): return t.uf(n,128,*args)
        if b in('ctlz','cttz'): return t.uf(b,args[0].w,args[0])
        if b=='ctpop': return t.uf(b,args[0].w,args[0])
        if n=='trap': s.ev('abort',i,st,x='trap'); return DEAD
        if n=='x86.xgetbv':
            s.ev('xgetbv',i,st)
            return t.concat([t.uf('xcr_eax',32,args[0]),t.uf('xcr_edx',32,args[0])])
        if b in('objectsize',): return t.const(-1,i.ty[1])
        if b=='stackrestore' : return None
        if b=='stacksave': return Ptr(NULL,s.c(0))
        if b=='is' : return t.const(0,1)
        if i.ty[0]=='int' or i.ty[0]=='vec':
            if all(isinstance(a,T) for a in args): return t.uf(n,s.bits(i.ty),*args)
        raise Imprecise('intrinsic '+name)
    def stub(s,fr,i,st,name,args):
        n=name[5:]
        def out(p,v): s.store(st,p,v.w//8,v,i,v.w//8 if v.w<64 or s.W==64 else 4)
        if n=='umul128':
            lo,hi=t.mulfull(args[0],args[1]); out(args[2],hi); return lo
        if n=='umulh': return t.mulfull(args[0],args[1])[1]
        if n in('addcarry_u64','addcarry_u32'):
            c,x,y,p=args; w=x.w
            # carry-in is 0 or 1 (any non-zero value counts as 1); the sum is formed one bit wider
            cin=t.zext(t.cmp('ne',c,t.const(0,c.w)),w+1)
            r=t.lin_add([(t.zext(x,w+1),1),(t.zext(y,w+1),1),(cin,1)],0,w+1)
            out(p,t.trunc(r,w)); return t.zext(t.extract(r,w,1),8)
        if n=='emulu' or n=='arm_umull': return t.mul(t.zext(args[0],64),t.zext(args[1],64))
        if n in('rotr64','rotr'):
            k=args[1]
            if not t.isc(k): raise Imprecise('rotate')
            return t.rotr(args[0],k.a[0])
        if n.startswith('bswap'): return t.bswap(args[0])
        if n in('cpuid','cpuidex'):
            p=args[0]; a=args[1:]+[t.const(0,32)]*2
            for k,r in enumerate(('eax','ebx','ecx','edx')):
                s.store(st,Ptr(p.obj,t.addc(p.off,4*k)),4,t.uf('cpuid_'+r,32,a[0],a[1] if n=='cpuidex' else t.const(0,32)),i,4)
            return None
        if n=='xgetbv': s.ev('xgetbv',i,st)
        if n in('cpuid','cpuidex'): s.ev('cpuid',i,st)
        if n=='xgetbv': return t.concat([t.uf('xcr_eax',32,args[0]),t.uf('xcr_edx',32,args[0])])
        raise Imprecise('stub '+name)
    # ---------------------------------------------------------- instructions
    def exec(s,fr,i,st):
        op=i.op; g=s.op
        if op=='load':
            p=g(fr,i.ops[0]); ty=i.ty
            if ty[0] in('struct','arr') and isinstance(p,Ptr): return s.loadagg(st,p,ty,i,i.x['align'])
            return s.load(st,p,i.x['size'],s.bits(ty),i,i.x['align'],'ptr' if ty[0]=='ptr' else 'int')
        if op=='store':
            v=g(fr,i.ops[0]); p=g(fr,i.ops[1])
            if isinstance(v,tuple):
                if not isinstance(p,Ptr): raise Imprecise('aggregate store')
                n=i.x['size']//len(v)
                if any(not isinstance(x,T) or x.w!=8*n for x in v): raise Imprecise('aggregate store')
                for k,x in enumerate(v): s.store(st,Ptr(p.obj,t.addc(p.off,k*n)),n,x,i,min(i.x['align'] or 1,n))
                return None
            s.store(st,p,i.x['size'],v,i,i.x['align']); return None
        if op=='alloca':
            n=g(fr,i.ops[0]) if i.ops else s.c(1)
            if not t.isc(n): raise Imprecise('variable-size alloca')
            s.fresh+=1
            return Ptr(Obj(f"local@{i.fn}#{i.id}",'alloca',i.x['size']*n.a[0],align=i.x['align']),s.c(0))
        if op=='getelementptr':
            p=g(fr,i.ops[0]); off=s.c(0)
            for q in i.x['parts']:
                if q[0]=='k': off=t.addc(off,q[1])
                else:
                    v=g(fr,q[1])
                    v=v if v.w==s.W else t.sext(v,s.W) if v.w<s.W else t.trunc(v,s.W)
                    off=t.add(off,t.scale(v,q[2]))
            return s.gep(p,off)
        if op in ALU:
            a,b=g(fr,i.ops[0]),g(fr,i.ops[1])
            a,b=s.toint(a),s.toint(b)
            if i.ty[0]=='vec':
                if op in('and','or','xor'): return ALU[op](a,b)
                return t.concat([ALU[op](x,y) for x,y in zip(s.lanes(a,i.ty),s.lanes(b,i.ty))])
            return ALU[op](a,b)
        if op in('shl','lshr','ashr'):
            a,k=g(fr,i.ops[0]),g(fr,i.ops[1])
            if i.ty[0]=='vec':
                return t.concat([s.shift(op,x,y,i,st) for x,y in zip(s.lanes(a,i.ty),s.lanes(k,i.ty))])
            return s.shift(op,a,k,i,st)
        if op=='icmp': return s.icmp(i,st,i.x['pred'],g(fr,i.ops[0]),g(fr,i.ops[1]),i.x['oty'][0])
        if op=='select':
            c,a,b=[g(fr,o) for o in i.ops]
            if c.w!=1: raise Imprecise('vector select')
            c=s.decide(c,st)
            if t.isc(c): return a if c.a[0] else b
            return pmerge(c,a,b)
        if op in('zext','sext','trunc'):
            v=g(fr,i.ops[0])
            if i.ty[0]=='vec':
                w=s.bits(i.ty[2]); return t.concat([getattr(t,op)(x,w) for x in s.lanes(v,i.x['oty'][0])])
            return getattr(t,op)(v,i.ty[1])
        if op=='ptrtoint':
            v=s.toint(g(fr,i.ops[0])); w=i.ty[1]
            return v if v.w==w else t.trunc(v,w) if v.w>w else t.zext(v,w)
        if op=='inttoptr':
            v=g(fr,i.ops[0])
            if v.w!=s.W: v=t.trunc(v,s.W) if v.w>s.W else t.zext(v,s.W)
            return s.toptr(v)
        if op in('freeze',): return g(fr,i.ops[0])
        if op=='bitcast': 
            v=g(fr,i.ops[0])
            if s.be and i.ty[0]=='vec': raise Imprecise('vector bitcast')
            return v
        if op in('udiv','urem','sdiv','srem'):
            a,b=g(fr,i.ops[0]),g(fr,i.ops[1])
            s.ev('division',i,st,x=(a,b))
            if t.isc(b) and b.a[0]:
                d=b.a[0]
                k=d.bit_length()-1
                if d&(d-1)==0 and (op[0]=='u' or t.rng(a)[1]<1<<(a.w-1)):
                    return t.lshr(a,k) if op[1:]=='div' else t.and_(a,t.const(d-1,a.w))
                if op[0]=='s' and k and d&(d-1)==0 and d<1<<(a.w-1) and t.trunc(a,k) is t.const(0,k): return t.sext(t.extract(a,k,a.w-k),a.w) if op=='sdiv' else t.const(0,a.w)
                r=t.affine_rng(a) if a.k=='lin' else None
                if r and r[0]>=0 and r[1]<1<<(a.w-(op[0]=='s')):
                    am=t.affine(a)
                    if am[1]>=0 and all(c>0 and c%d==0 and z.w==a.w for z,c in am[0].items()):
                        return t.lin_add([(z,c//d) for z,c in am[0].items()],am[1]//d,a.w) if op[1:]=='div' else t.const(am[1]%d,a.w)
                if t.isc(a):
                    return t.const(t.Eval(0).uf(t.uf(op,a.w,a,b),[a.a[0],d]),a.w)
            return t.uf(op,a.w,a,b)
        if op=='extractelement':
            v,k=g(fr,i.ops[0]),g(fr,i.ops[1])
            if not t.isc(k): raise Imprecise('lane index')
            w=s.bits(i.ty); return t.extract(v,k.a[0]*w,w)
        if op=='insertelement':
            v,e,k=[g(fr,o) for o in i.ops]
            if not t.isc(k): raise Imprecise('lane index')
            ls=s.lanes(v,i.ty); ls[k.a[0]]=e; return t.concat(ls)
        if op=='shufflevector':
            a,b=g(fr,i.ops[0]),g(fr,i.ops[1]); ty=i.x['oty'][0]
            ls=s.lanes(a,ty)+s.lanes(b,ty)
            w=s.bits(ty[2])
            return t.concat([ls[k] if k>=0 else s.new('undef',w) for k in i.x['mask']])
        if op=='extractvalue':
            v=g(fr,i.ops[0])
            for k in i.x['idx']: v=v[k]
            return v
        if op=='insertvalue':
            def ins(a,idx,v):
                a=list(a); a[idx[0]]=v if len(idx)==1 else ins(a[idx[0]],idx[1:],v); return tuple(a)
            return ins(g(fr,i.ops[0]),i.x['idx'],g(fr,i.ops[1]))
        if op=='fence': return None
        if op in('cmpxchg','atomicrmw'): s.ev('atomic',i,st); raise Imprecise(op)
        raise Imprecise('instruction '+op)
    def gep(s,p,off):
        if isinstance(p,T): p=s.toptr(p)
        if isinstance(p,PIte): return PIte(p.c,s.gep(p.a,off),s.gep(p.b,off))
        if isinstance(p,FPtr): raise Imprecise('gep on function')
        if t.isc(off) and off.a[0]==0: return p
        return Ptr(p.obj,t.add(p.off,off))
    def shift(s,op,a,k,i,st):
        w=a.w; s.nshift+=1
        if t.isc(k):
            k=k.a[0]
            if k>=w:
                s.ev('ub-shift',i,st,x=f"shift of {w}-bit value by {k}")
                return s.new('undef',w)
            if op=='shl': return t.shl(a,k)
            if op=='lshr': return t.lshr(a,k)
            if k==0: return a
            sh=t.extract(a,k,w-k); return t.sext(sh,w)
        lo,hi=t.rng(k)
        if lo>=w: s.ev('ub-shift',i,st,x=f"shift of {w}-bit value by at least {lo}")
        elif hi>=w: s.ev('maybe-shift',i,st,x=k)
        if k.k=='ite':
            return t.ite(k.a[0],s.shift(op,a,k.a[1],i,s.withpc(st,k.a[0],1)),s.shift(op,a,k.a[2],i,s.withpc(st,k.a[0],0)))
        return t.uf(op,w,a,k)
    def icmp(s,i,st,p,a,b,ty):
        if isinstance(a,T) and isinstance(b,T):
            if ty[0]=='vec':
                return t.concat([t.cmp(p,x,y) for x,y in zip(s.lanes(a,ty),s.lanes(b,ty))])
            return t.cmp(p,a,b)
        return s.pcmp(p,a,b)
    def pcmp(s,p,a,b):
        if isinstance(a,PIte): return t.ite(a.c,s.pcmp(p,a.a,b),s.pcmp(p,a.b,b))
        if isinstance(b,PIte): return t.ite(b.c,s.pcmp(p,a,b.a),s.pcmp(p,a,b.b))
        if isinstance(a,T): a=s.toptr(a)
        if isinstance(b,T): b=s.toptr(b)
        if isinstance(a,FPtr) or isinstance(b,FPtr):
            if p in('eq','ne'):
                e=isinstance(a,FPtr) and isinstance(b,FPtr) and a.name==b.name
                return t.const(int(e==(p=='eq')),1)
            raise Imprecise('function pointer comparison')
        if a.obj is b.obj:
            if p in('eq','ne'): return t.cmp(p,a.off,b.off)
            # offsets inside one object: compared as signed distances
            q={'ult':'slt','ule':'sle','ugt':'sgt','uge':'sge'}.get(p,p)
            return t.cmp(q,a.off,b.off)
        if p in('eq','ne'):
            return t.const(int(p=='ne'),1)
        raise Imprecise('comparison of unrelated pointers')
class _Dead: pass
DEAD=_Dead()
