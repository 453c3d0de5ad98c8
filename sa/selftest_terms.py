"""Differential self-test of the term algebra (development aid, and run by setup)."""
import random, sys
import terms as t
def run(n=20000,seed=1):
    R=random.Random(seed); bad=0
    for it in range(n):
        if it%400==0:
            t.reset(); 
            pool={}
            for w in (1,8,16,32,64,128): pool[w]=[(t.var(f'x{w}_{i}',w),) for i in range(2)]
            pool[64].append((t.var('q',64,2,1<<30),)); pool[32].append((t.var('s',32,3,1000),))
            pool={w:[p[0] for p in l] for w,l in pool.items()}
            for w in pool: pool[w]+= [t.const(R.choice([0,1,2,7,31,t.mask(w),R.getrandbits(w)]),w) for _ in range(3)]
            envs=[t.Eval(('s',it,j)) for j in range(4)]
        w=R.choice([8,16,32,64,64,64,128])
        p=lambda ww=None:R.choice(pool[ww or w][-14:]+pool[ww or w][:4])
        op=R.choice(['add','sub','mul','xor','and','or','not','shl','lshr','rotr','zext','sext','trunc','extract','cmp','ite','concat','bswap','scale','neg','addc'])
        x,y=p(),p(); m=t.mask(w)
        S=t.sgn
        if op=='add': r=t.add(x,y); f=lambda e,X,Y:(X+Y)&m
        elif op=='sub': r=t.sub(x,y); f=lambda e,X,Y:(X-Y)&m
        elif op=='mul': 
            if t.size(x)+t.size(y)>300: continue
            r=t.mul(x,y); f=lambda e,X,Y:(X*Y)&m
        elif op=='xor': r=t.xor(x,y); f=lambda e,X,Y:X^Y
        elif op=='and': r=t.and_(x,y); f=lambda e,X,Y:X&Y
        elif op=='or': r=t.or_(x,y); f=lambda e,X,Y:X|Y
        elif op=='not': r=t.not_(x); f=lambda e,X,Y:X^m
        elif op=='neg': r=t.neg(x); f=lambda e,X,Y:-X&m
        elif op in('shl','lshr','rotr'):
            k=R.randrange(w)
            r=getattr(t,op)(x,k)
            f={'shl':lambda e,X,Y,k=k:(X<<k)&m,'lshr':lambda e,X,Y,k=k:X>>k,'rotr':lambda e,X,Y,k=k:((X>>k)|(X<<(w-k)))&m}[op]
        elif op=='scale': k=R.choice([3,5,8,2**(w-1),R.getrandbits(w)]); r=t.scale(x,k); f=lambda e,X,Y,k=k:X*k&m
        elif op=='addc': k=R.choice([1,-1,8,-31,R.getrandbits(w)]); r=t.addc(x,k); f=lambda e,X,Y,k=k:X+k&m
        elif op in('zext','sext'):
            if w==128: continue
            w2=R.choice([z for z in (16,32,64,128) if z>w]); r=getattr(t,op)(x,w2)
            f=(lambda e,X,Y:X) if op=='zext' else (lambda e,X,Y:S(X,w)&t.mask(w2))
        elif op=='trunc': w2=R.choice([z for z in (1,8,16,32,64,128) if z<w]); r=t.trunc(x,w2); f=lambda e,X,Y:X&t.mask(w2)
        elif op=='extract':
            w2=R.choice([z for z in (1,8,16,32,64) if z<=w]); lo=R.randrange(w-w2+1); r=t.extract(x,lo,w2); f=lambda e,X,Y,lo=lo,w2=w2:(X>>lo)&t.mask(w2)
        elif op=='cmp':
            pr=R.choice(['eq','ne','ult','ule','ugt','uge','slt','sle','sgt','sge'])
            r=t.cmp(pr,x,y)
            F={'eq':lambda a,b:a==b,'ne':lambda a,b:a!=b,'ult':lambda a,b:a<b,'ule':lambda a,b:a<=b,'ugt':lambda a,b:a>b,'uge':lambda a,b:a>=b,
               'slt':lambda a,b:S(a,w)<S(b,w),'sle':lambda a,b:S(a,w)<=S(b,w),'sgt':lambda a,b:S(a,w)>S(b,w),'sge':lambda a,b:S(a,w)>=S(b,w)}[pr]
            f=lambda e,X,Y:int(F(X,Y))
        elif op=='ite': c=p(1); r=t.ite(c,x,y); f=lambda e,X,Y:X if e.ev(c) else Y
        elif op=='concat':
            if w>64: continue
            r=t.concat([x,y]); f=lambda e,X,Y:X|Y<<w
            if r.w not in pool: continue
        elif op=='bswap': r=t.bswap(x); f=lambda e,X,Y:int.from_bytes(X.to_bytes(w//8,'little'),'big')
        else: continue
        for e in envs:
            v=e.ev(r); g=f(e,e.ev(x),e.ev(y))
            if v!=g: bad+=1; print('BAD',op,t.show(x,3),'|',t.show(y,3),'->',t.show(r,3),hex(v),hex(g)); break
            rl,rh=t.rng(r)
            if not rl<=v<=rh: bad+=1; print('BADRNG',op,t.show(r,3),hex(v),hex(rl),hex(rh)); break
            if v&t.zm(r): bad+=1; print('BADZM',op,t.show(r,3)); break
        if bad>10: return bad
        if t.size(r)<120: pool[r.w].append(r)
    return bad
def idents():
    t.reset()
    x,y=t.var('x',64),t.var('y',64); a=t.var('a',32); b=t.var('b',32)
    l=t.add(x,t.scale(y,5)); ok=[]
    for z in (x,l,t.mul(x,y),t.xor(x,l)):
        for k in (1,23,32,41,63):
            ok.append(t.or_(t.lshr(z,k),t.shl(z,64-k)) is t.rotr(z,k))
            ok.append(t.xor(t.lshr(z,k),t.shl(z,64-k)) is t.rotr(z,k))
            if z.k!="lin": ok.append(t.add(t.lshr(z,k),t.shl(z,64-k)) is t.rotr(z,k))
            ok.append(t.rotr(t.rotr(z,k),64-k) is z)
    ok.append(t.bswap(t.bswap(l)) is l)
    lo,hi=t.trunc(l,32),t.extract(l,32,32)
    ok.append(t.concat([lo,hi]) is l)
    ok.append(t.or_(t.zext(lo,64),t.shl(t.zext(hi,64),32)) is l)
    ok.append(t.add(t.zext(lo,64),t.shl(t.zext(hi,64),32)) is l)
    m=t.mul(t.zext(x,128),t.zext(y,128))
    ok.append(t.trunc(m,64) is t.mul(x,y))
    ok.append(t.sub(t.add(x,y),y) is x)
    ok.append(t.bswap(t.concat([t.extract(x,8*i,8) for i in range(7,-1,-1)])) is x)
    ok.append(t.not_(t.not_(l)) is l)
    ok.append(t.sub(t.const(-1,64),x) is t.not_(x))
    q=t.var('q',64,2,1<<50)
    n=t.addc(t.scale(q,32),7)
    ok.append(t.and_(n,t.const(31,64)) is t.const(7,64))
    ok.append(t.lshr(n,5) is q)
    ok.append(t.and_(n,t.const(~31,64)) is t.scale(q,32))
    ok.append(t.cmp('ult',n,t.const(32,64)) is t.const(0,1))
    ok.append(t.trunc(t.zext(n,128),64) is n)
    return [i for i,v in enumerate(ok) if not v]
if __name__=='__main__':
    b=run(int(sys.argv[1]) if len(sys.argv)>1 else 20000); i=idents(); print('bad',b,'ident failures',i); sys.exit(bool(b or i))
