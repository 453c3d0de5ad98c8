"""Directed assignments: for the comparisons that occur in one value number and not in the other, leaf values under which
the comparison takes the truth value pseudo-random leaves do not give it (a rare special case in the code would hide there)."""
import terms as t
from terms import mask, sgn
class Fail(Exception): pass
class Solver:
    """overrides of leaves on top of an evaluator made by mk(asg): asg = {leaf term or (object, offset): value}"""
    def __init__(s,mk,asg=None): s.mk=mk; s.asg=dict(asg or {}); s.E=mk(s.asg); s.depth=0
    def set(s,k,v): s.asg[k]=v; s.E=s.mk(s.asg)
    def solve(s,x,tg,d=0):
        """makes x evaluate to tg if it can be inverted along one path"""
        tg&=mask(x.w); k=x.k
        if d>200: raise Fail
        if k=='c':
            if x.a[0]!=tg: raise Fail
            return
        if k=='v':
            if not x.a[1]<=tg<=x.a[2]: raise Fail
            if x in s.asg and s.asg[x]!=tg: raise Fail
            s.set(x,tg); return
        if k=='b':
            off=sgn(s.E.ev(x.a[1]),x.a[1].w); key=(x.a[0],off)
            if s.asg.get(key,tg)!=tg: raise Fail
            s.set(key,tg); return
        if k=='lin':
            # solve for one term with an odd coefficient (or a power of two dividing the rest)
            for y,c in sorted(x.a[0],key=lambda p:(-len(t.free(p[0])) if False else p[0].k not in('v','b','bits'),p[0].id)):
                z=(c&-c).bit_length()-1
                rest=(tg-s.E.ev(x)+c*s.E.ev(y))&mask(x.w)
                if rest&mask(z): continue
                w=x.w-z
                need=(rest>>z)*pow(c>>z,-1,1<<w)&mask(w)
                if y.w>w: need|=s.E.ev(y)&~mask(w)
                sv=dict(s.asg)
                try: s.solve(y,need&mask(y.w),d+1); return
                except Fail: s.asg=sv; s.E=s.mk(s.asg)
            raise Fail
        if k=='bits':
            pos=0; need={}
            for n,ss,c in x.a:
                v=(tg>>pos)&mask(n); pos+=n
                if not ss:
                    if v!=c: raise Fail
                    continue
                at=sorted(ss,key=lambda p:(p[0].k not in('v','b','bits','lin'),p[0].id))
                y,l=next(((y,l) for y,l in at if y not in s.asg),at[0])
                for z,m in at:
                    if (z,m)!=(y,l): v^=(s.E.ev(z)>>m)&mask(n)
                v=(v^c)&mask(n); a,b=need.get(y,(0,0))
                ov=a&(mask(n)<<l)
                if ov and (b^(v<<l))&ov: raise Fail
                need[y]=(a|mask(n)<<l,b|v<<l)
            for y,(a,b) in need.items(): s.solve(y,(s.E.ev(y)&~a)|b,d+1)
            return
        if k=='ite':
            for b in ((1,2) if s.E.ev(x.a[0]) else (2,1)):
                sv=dict(s.asg)
                try:
                    s.solve(x.a[b],tg,d+1)
                    if bool(s.E.ev(x.a[0]))!=(b==1): s.truth(x.a[0],b==1,d+1)
                    return
                except Fail: s.asg=sv; s.E=s.mk(s.asg)
            raise Fail
        if k=='cmp': s.truth(x,bool(tg),d+1); return
        if k=='and':
            if x.w==1 and tg:
                for y in x.a: s.solve(y,1,d+1)
                return
            for i,y in enumerate(x.a):
                oth=mask(x.w)
                for j,z in enumerate(x.a):
                    if j!=i: oth&=s.E.ev(z)
                if tg&~oth: continue
                sv=dict(s.asg)
                try: s.solve(y,(s.E.ev(y)&~oth)|tg,d+1); return
                except Fail: s.asg=sv; s.E=s.mk(s.asg)
            raise Fail
        if k=='uf' and x.a[0]=='aesenc0':
            s.solve(x.a[1],aesinv(tg,False),d+1); return
        if k=='uf' and x.a[0]=='aesdec0':
            s.solve(x.a[1],aesinv(tg,True),d+1); return
        raise Fail
    def truth(s,c,b,d=0):
        if bool(s.E.ev(c))==b: return
        if c.k!='cmp': s.solve(c,int(b),d+1); return
        p,x,y=c.a; w=x.w
        tries=[]
        vx,vy=s.E.ev(x),s.E.ev(y)
        if p=='eq': tries=[(x,vy),(y,vx)] if b else [(x,vy^1),(y,vx^1)]
        elif p=='ult':
            lt=[(x,vy-1),(x,0),(y,vx+1),(y,mask(w))]; ge=[(x,vy),(x,mask(w)),(y,vx),(y,0)]
            tries=[q for q in (lt if b else ge) if 0<=q[1]<=mask(w)]
        else:
            h=1<<(w-1); lt=[(x,vy-1),(x,h),(y,vx+1),(y,h-1)]; ge=[(x,vy),(x,h-1),(y,vx),(y,h)]
            tries=lt if b else ge
        for z,v in tries:
            sv=dict(s.asg)
            try:
                s.solve(z,v,d+1)
                if bool(s.E.ev(c))==b: return
            except Fail: pass
            s.asg=sv; s.E=s.mk(s.asg)
        raise Fail
_inv={}
def aesinv(v,dec):
    """the state that one key-less AES round maps to v (the round is linear after its byte substitution)"""
    f=t.aesdec_i if dec else t.aesenc_i
    T=_inv.get(dec)
    if T is None:
        # column j of the output depends on four bytes; tabulate byte contributions by their differences
        base=f(0,0); con=[[f(b<<(8*i),0)^base for b in range(256)] for i in range(16)]; T=_inv[dec]=(base,con)
    base,con=T; v^=base; out=0
    # the map b -> con[i][b] is S(b)^S(0) times a fixed invertible matrix: solve by linear algebra over GF(2)
    M=_inv.get((dec,'m'))
    if M is None:
        rows=[]
        for i in range(16):
            seen={}; basis=[]
            for b in range(1,256):
                x=con[i][b]
                for y in basis: x=min(x,x^y)
                if x: basis.append(x)
            rows.append(basis)
        M=_inv[(dec,'m')]=[y for r in rows for y in r],rows
    # v = XOR of one element of every byte's span: split by reduced elimination over all 128 basis vectors
    piv=_inv.get((dec,'p'))
    if piv is None:
        vec=[(y,1<<(i*8+k)) for i,r in enumerate(M[1]) for k,y in enumerate(r)]; piv={}
        for y,m in vec:
            while y:
                h=y.bit_length()-1
                if h not in piv: piv[h]=(y,m); break
                y^=piv[h][0]; m^=piv[h][1]
        _inv[(dec,'p')]=piv
    m=0; x=v
    while x:
        h=x.bit_length()-1
        if h not in piv: raise Fail
        x^=piv[h][0]; m^=piv[h][1]
    for i in range(16):
        part=0
        for k,y in enumerate(M[1][i]):
            if m>>(i*8+k)&1: part^=y
        b=next((b for b in range(256) if con[i][b]==part),None)
        if b is None: raise Fail
        out|=b<<(8*i)
    return out
def conds(ts):
    """comparisons outside loop bodies"""
    seen=set(); r=[]; st=list(ts)
    while st:
        x=st.pop()
        if x in seen: continue
        seen.add(x)
        if x.k=='cmp' and not any(y.k in('bx','bk') for y in t.free(x)): r.append(x)
        st.extend([p[0] for p in x.a[1]]+[x.a[2]] if x.k=='fold' else t.kids(x))
    r.sort(key=lambda x:x.id)
    return r
def search(got,want,mk,n=2,cap=48):
    """an assignment under which got and want differ, or None.  mk(i)(asg) makes the evaluator of sample i"""
    cw=set(conds(want)); cs=[c for c in conds(got) if c not in cw]
    cs+=[c for c in conds(want) if c not in set(conds(got))]
    done=0
    for c in cs[:cap]:
        seen=set()
        for i in range(4):
            try: seen.add(bool(mk(i)({}).ev(c)))
            except t.TooBig: pass
        if len(seen)!=1: continue
        b=not seen.pop()
        for i in range(n):
            try:
                s=Solver(mk(i)); s.truth(c,b)
                a=[s.E.ev(x) for x in got]; w=[s.E.ev(x) for x in want]
            except (Fail,t.TooBig,RecursionError,ZeroDivisionError): continue
            done+=1
            if a!=w: return s,a,w
            # both sides of the rare case once more with the rest changed is covered by the other samples
    return None
