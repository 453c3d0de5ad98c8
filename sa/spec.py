"""Independent formulation of the t1ha algorithms as terms (written from the published algorithm, checked once
against the published reference values, see selftest_spec.py).  Not derived from /repo at run time."""
import terms as t
P64=[0xEC99BF0D8372CAAB,0x82434FE90EDCEF39,0xD4F06DB99D67BE4B,0xBD9CACC22C6E9571,0x9C06FAF4D023E3AB,0xC060724A8424F345,0xCB5AF53AE3AAAC31]
P32=[0x92D78269,0xCA9B4735,0xA4ABA1C3,0xF6499843,0x86F0FD61,0xCA2DA6FB,0xC4BB3575]
def k64(i): return t.const(P64[i],64)
def k32(i): return t.const(P32[i],32)
rot=t.rotr; add=t.add; xor=t.xor; sub=t.sub; mul=t.mul
def mulhl(v,p): return t.mulfull(v,p)
def mux(v,p):
    l,h=mulhl(v,p); return xor(l,h)
def mixup64(a,b,v,p):
    l,h=mulhl(add(b,v),p); return xor(a,l),add(b,h)
def final64(a,b):
    return mux(xor(mul(add(a,rot(b,41)),k64(0)),mul(add(rot(a,23),b),k64(6))),k64(5))
def mixup32(a,b,v,p):
    l=t.mul(t.zext(add(b,v),64),t.zext(p,64))
    return xor(a,t.trunc(l,32)),add(b,t.extract(l,32,32))
def final32(a,b):
    l=t.concat([xor(b,rot(a,13)),a])
    l=mul(l,k64(0)); l=xor(l,t.lshr(l,41)); l=mul(l,k64(4)); l=xor(l,t.lshr(l,47)); return mul(l,k64(6))

class Data:
    """byte provider: rd(offset term) -> byte term"""
    def __init__(s,rd,W): s.rd=rd; s.W=W
    def word(s,off,n,be=False,total=None):
        """n bytes at off as an unsigned value of total (default n) bytes"""
        bs=[s.rd(t.addc(off,i)) for i in range(n)]
        if be: bs.reverse()
        if total and total>n: bs+=[t.const(0,8)]*(total-n)
        return t.concat(bs)
def obj(name,W): return Data(lambda off: t.byte(name,off),W)
def buf(bs,W): return Data(lambda off: t.const(bs[t.sgn(off.a[0],W)],8),W)

_n=[0]
def recur(state,step,data,off0,stride,N,W):
    """apply step(state,off) N times (N an int or a term)"""
    if isinstance(N,int) or t.isc(N):
        n=N if isinstance(N,int) else N.a[0]
        for i in range(n): state=step(state,t.addc(off0,stride*i))
        return state
    _n[0]+=1
    K=t.var(f"k!{_n[0]}",W,0,t.kmax(W))
    X=[t.var(f"x!{_n[0]}.{i}",x.w) for i,x in enumerate(state)]
    st=step(tuple(X),t.add(off0,t.scale(K,stride)))
    comps=[(x,i,s) for x,i,s in zip(X,state,st)]
    # components that advance by a constant are closed forms, not recurrences
    closed={}
    for j,(x,i,s) in enumerate(comps):
        d=sub(s,x)
        if t.isc(d): closed[j]=d.a[0]
    if closed:
        kk=lambda w: t.trunc(K,w) if w<=W else t.zext(K,w)
        nn=lambda w: t.trunc(N,w) if w<=W else t.zext(N,w)
        mp={comps[j][0]:add(comps[j][1],t.scale(kk(comps[j][0].w),d)) for j,d in closed.items()}
        rest=[(x,i,t.subst(s,mp)) for j,(x,i,s) in enumerate(comps) if j not in closed]
        F=iter(t.make_folds(rest,K,N))
        return tuple(add(comps[j][1],t.scale(nn(comps[j][0].w),closed[j])) if j in closed else next(F) for j in range(len(comps)))
    return tuple(t.make_folds(comps,K,N))

class Len:
    """length class: value term, quotient (int or term) and remainder for a modulus"""
    def __init__(s,W,n=None,M=None,q=None,r=None):
        s.W=W
        if n is not None: s.n=n; s.term=t.const(n,W); s.M=None
        else: s.n=None; s.M=M; s.q=q; s.r=r; s.term=t.addc(t.scale(q,M),r)
    def split(s,m):
        """(number of whole m-blocks, remainder int, offset term of the remainder)"""
        if s.n is not None: return s.n//m, s.n%m, t.const(s.n-s.n%m,s.W)
        assert s.M%m==0
        k=s.r//m
        nb=t.addc(t.scale(s.q,s.M//m),k); return nb,s.r%m,t.addc(t.scale(s.q,s.M),k*m)
    def gt(s,v):
        return s.n>v if s.n is not None else True
    def z64(s): return t.zext(s.term,64)
    def __repr__(s): return f"len={s.n}" if s.n is not None else f"len={s.M}*q+{s.r}"

# ------------------------------------------------------------------ t1ha2
def t2_init(x,y):
    return (x,y,add(rot(y,23),t.not_(x)),add(t.not_(y),rot(x,19)))
def t2_step(d):
    def f(s,off):
        a,b,c,dd=s
        w=[d.word(t.addc(off,8*i),8) for i in range(4)]
        d02=add(w[0],rot(add(w[2],dd),56)); c13=add(w[1],rot(add(w[3],c),19))
        nd=xor(dd,add(b,rot(w[1],38))); nc=xor(c,add(a,rot(w[0],57)))
        return (xor(a,mul(k64(5),add(d02,w[3]))),xor(b,mul(k64(6),add(c13,w[2]))),nc,nd)
    return f
def squash(s):
    a,b,c,d=s
    return (xor(a,mul(k64(6),add(c,rot(d,23)))),xor(b,mul(k64(5),add(rot(c,19),d))),c,d)
def tailwords(d,off,r):
    """list of the (up to 4) words of an r-byte tail, aligned to the switch position"""
    n=(r+7)//8; ws=[]
    for i in range(n):
        k=min(8,r-8*i); ws.append(d.word(t.addc(off,8*i),k,total=8))
    return ws
def t2_tail_ab(s,d,off,r):
    a,b=s[0],s[1]; ws=tailwords(d,off,r); n=len(ws)
    for i,w in enumerate(ws):
        p=n-i
        if p in(4,2): a,b=mixup64(a,b,w,k64(p))
        else: b,a=mixup64(b,a,w,k64(p))
    return final64(a,b)
def final128(a,b,c,d):
    a,b=mixup64(a,b,xor(rot(c,41),d),k64(0)); b,c=mixup64(b,c,xor(rot(d,23),a),k64(6))
    c,d=mixup64(c,d,xor(rot(a,19),b),k64(5)); d,a=mixup64(d,a,xor(rot(b,31),c),k64(4))
    return xor(a,b),add(c,d)
def t2_tail_abcd(s,d,off,r):
    a,b,c,dd=s; ws=tailwords(d,off,r); n=len(ws)
    for i,w in enumerate(ws):
        p=n-i
        if p==4: a,dd=mixup64(a,dd,w,k64(4))
        elif p==3: b,a=mixup64(b,a,w,k64(3))
        elif p==2: c,b=mixup64(c,b,w,k64(2))
        else: dd,c=mixup64(dd,c,w,k64(1))
    return final128(a,b,c,dd)
def t1ha2_atonce(L,d,seed):
    s=t2_init(seed,L.z64())
    if L.gt(32):
        nb,r,off=L.split(32)
        s=squash(recur(s,t2_step(d),d,t.const(0,L.W),32,nb,L.W))
    else: r,off=L.n,t.const(0,L.W)
    return t2_tail_ab(s,d,off,r)
def t1ha2_atonce128(L,d,seed):
    s=t2_init(seed,L.z64())
    if L.gt(32):
        nb,r,off=L.split(32)
        s=recur(s,t2_step(d),d,t.const(0,L.W),32,nb,L.W)
    else: r,off=L.n,t.const(0,L.W)
    return t2_tail_abcd(s,d,off,r)
def t2_update(s,p,pend,L,d):
    """state after feeding L bytes of d to state s with p pending bytes (pend: Data at offset 0..p-1).
    returns (state, pending length, list of pending bytes)"""
    W=L.W
    def cat(off0):
        # stream offset -> byte: first p pending bytes, then d
        def rd(i): return pend.rd(t.const(i,W)) if i<p else d.rd(t.const(i-p,W))
        return rd
    if L.n is not None:
        tot=p+L.n; nb=tot//32; rd=cat(0)
        sd=Data(lambda off: rd(off.a[0]),W)
        for i in range(nb): s=t2_step(sd)(s,t.const(32*i,W))
        return s,tot%32,[rd(nb*32+i) for i in range(tot%32)]
    # symbolic: L = 32 q + r, q>=2
    z=t.const(0,W)
    if p:
        rd=cat(0); sd=Data(lambda off: rd(off.a[0]),W)
        s=t2_step(sd)(s,z)
        start=32-p
        rest=L.r-start          # remaining = 32 q + rest
        k,r=divmod(rest,32)
        nb=t.addc(t.scale(L.q,L.M//32),k)
        base=t.const(start,W)
    else:
        k,r=divmod(L.r,32); nb=t.addc(t.scale(L.q,L.M//32),k); base=z
    s=recur(s,t2_step(d),d,base,32,nb,W)
    off=t.add(base,t.scale(nb,32))
    return s,r,[d.rd(t.addc(off,i)) for i in range(r)]
def t2_final(s,p,pend,total,W,extra):
    """total: number of bytes fed (64-bit term)"""
    bits=xor(t.shl(total,3),t.const(1<<63,64))
    bd=Data(lambda off: t.extract(bits,8*off.a[0],8),W)
    s,p2,pb=t2_update(s,p,pend,Len(W,n=8),bd)
    d=Data(lambda off: pb[off.a[0]],W)
    z=t.const(0,W)
    if extra: return t2_tail_abcd(s,d,z,p2)
    return t2_tail_ab(squash(s),d,z,p2),None

# ------------------------------------------------------------------ t1ha1
def t1_step(d,be):
    def f(s,off):
        a,b,c,dd=s
        w=[d.word(t.addc(off,8*i),8,be) for i in range(4)]
        d02=xor(w[0],rot(add(w[2],dd),17)); c13=xor(w[1],rot(add(w[3],c),17))
        nd=sub(dd,xor(b,rot(w[1],31))); nc=add(c,xor(a,rot(w[0],41)))
        return (xor(a,mul(k64(1),add(d02,w[3]))),xor(b,mul(k64(0),add(c13,w[2]))),nc,nd)
    return f
def t1ha1(L,d,seed,be):
    a=seed; b=L.z64()
    if L.gt(32):
        c=add(rot(b,17),seed); dd=xor(b,rot(seed,17))
        nb,r,off=L.split(32)
        a,b,c,dd=recur((a,b,c,dd),t1_step(d,be),d,t.const(0,L.W),32,nb,L.W)
        a=xor(a,mul(k64(6),add(rot(c,17),dd))); b=xor(b,mul(k64(5),add(c,rot(dd,17))))
    else: r,off=L.n,t.const(0,L.W)
    n=(r+7)//8
    for i in range(n):
        k=min(8,r-8*i); w=d.word(t.addc(off,8*i),k,be,total=8); p=n-i
        if p in(4,2): b=add(b,mux(w,k64(p)))
        else: a=add(a,mux(w,k64(p)))
    v=mul(xor(a,b),k64(0))
    return add(mux(rot(add(a,b),17),k64(4)),xor(v,rot(v,41)))
def t1ha1_le(L,d,seed): return t1ha1(L,d,seed,False)
def t1ha1_be(L,d,seed): return t1ha1(L,d,seed,True)

# ------------------------------------------------------------------ t1ha0 32-bit
def t0_step(d,be):
    def f(s,off):
        a,b,c,dd=s
        w=[d.word(t.addc(off,4*i),4,be) for i in range(4)]
        d13=add(w[1],rot(add(w[3],dd),17)); c02=xor(w[0],rot(add(w[2],c),11))
        nd=xor(dd,rot(add(a,w[0]),3)); nc=xor(c,rot(add(b,w[1]),7))
        return (mul(k32(0),xor(d13,w[2])),mul(k32(1),add(c02,w[3])),nc,nd)
    return f
def t1ha0_32(L,d,seed,be):
    l32=t.trunc(L.term,32)
    a=add(rot(l32,17),t.trunc(seed,32)); b=xor(l32,t.extract(seed,32,32))
    if L.gt(16):
        c=t.not_(a); dd=rot(b,5)
        nb,r,off=L.split(16)
        a,b,c,dd=recur((a,b,c,dd),t0_step(d,be),d,t.const(0,L.W),16,nb,L.W)
        c=add(c,a); dd=add(dd,b)
        a=xor(a,mul(k32(6),add(rot(c,16),dd))); b=xor(b,mul(k32(5),add(c,rot(dd,16))))
    else: r,off=L.n,t.const(0,L.W)
    n=(r+3)//4
    for i in range(n):
        k=min(4,r-4*i); w=d.word(t.addc(off,4*i),k,be,total=4); p=n-i
        if p in(4,2): a,b=mixup32(a,b,w,k32(p))
        else: b,a=mixup32(b,a,w,k32(p))
    return final32(a,b)
def t1ha0_32le(L,d,seed): return t1ha0_32(L,d,seed,False)
def t1ha0_32be(L,d,seed): return t1ha0_32(L,d,seed,True)

# ------------------------------------------------------------------ t1ha0 AES
enc,dec=t.aesenc,t.aesdec
def v128(lo,hi): return t.concat([lo,hi])
def add2(x,y): return t.concat([add(t.extract(x,0,64),t.extract(y,0,64)),add(t.extract(x,64,64),t.extract(y,64,64))])
def sub2(x,y): return t.concat([sub(t.extract(x,0,64),t.extract(y,0,64)),sub(t.extract(x,64,64),t.extract(y,64,64))])
def aes_tail(a,b,d,off,r):
    n=(r+7)//8
    for i in range(n):
        k=min(8,r-8*i); w=d.word(t.addc(off,8*i),k,total=8); p=n-i
        if p in(4,2): a,b=mixup64(a,b,w,k64(p))
        else: b,a=mixup64(b,a,w,k64(p))
    return final64(a,b)
def rest2(x,y,d,off):
    v0y=add2(y,d.word(off,16)); v1x=sub2(x,d.word(t.addc(off,16),16))
    return dec(x,v0y),dec(y,v1x)
def aes_a(L,d,seed):
    a,b=seed,L.z64(); W=L.W
    if not L.gt(32): return aes_tail(a,b,d,t.const(0,W),L.n)
    x=v128(b,a); y=enc(x,v128(k64(6),k64(5)))
    nb,rem,off=L.split(128)
    def step(s,o):
        x,y=s
        v=[d.word(t.addc(o,16*i),16) for i in range(8)]
        v0y=enc(v[0],y); v2x6=enc(v[2],xor(x,v[6])); v4567=xor(enc(v[4],v[5]),add2(v[6],v[7]))
        v0y71=dec(sub2(v[7],v0y),v[1]); v2x63=enc(v2x6,v[3])
        return (enc(v4567,add2(x,y)),enc(v2x63,xor(v0y71,v[5])))
    x,y=recur((x,y),step,d,t.const(0,W),128,nb,W)
    if rem&64:
        x,y=rest2(x,y,d,off); off=t.addc(off,32); x,y=rest2(x,y,d,off); off=t.addc(off,32)
    if rem&32: x,y=rest2(x,y,d,off); off=t.addc(off,32)
    if rem&16:
        y=add2(x,y); x=dec(x,d.word(off,16)); off=t.addc(off,16)
    x=add2(dec(x,enc(y,x)),y)
    return aes_tail(t.extract(x,0,64),t.extract(x,64,64),d,off,rem&15)
def aes_b(L,d,seed):
    a,b=seed,L.z64(); W=L.W
    if not L.gt(32): return aes_tail(a,b,d,t.const(0,W),L.n)
    x=v128(b,a); y=enc(x,v128(k64(1),k64(0)))
    off=t.const(0,W)
    nb,rem,end=L.split(128)
    if rem&16:
        x=add2(x,d.word(off,16)); y=enc(x,y); off=t.addc(off,16)
    salt=y
    def step(s,o):
        x,y,salt=s
        v=[d.word(t.addc(o,16*i),16) for i in range(8)]
        q=enc(v[0],salt)
        for i in range(1,8): q=dec(q,v[i])
        salt=add2(salt,v128(k64(6),k64(5)))
        q=enc(x,q)
        return (add2(y,x),q,salt)
    x,y,salt=recur((x,y,salt),step,d,off,128,nb,W)
    off=t.add(off,t.scale(nb,128) if not isinstance(nb,int) else t.const(nb*128,W))
    n=(rem&~15)-(16 if rem&16 else 0)
    for i in range(n//32): x,y=rest2(x,y,d,off); off=t.addc(off,32)
    x=add2(dec(x,enc(y,x)),y)
    return aes_tail(t.extract(x,0,64),t.extract(x,64,64),d,off,rem&15)
HASH={'t1ha2_atonce':t1ha2_atonce,'t1ha1_le':t1ha1_le,'t1ha1_be':t1ha1_be,'t1ha0_32le':t1ha0_32le,'t1ha0_32be':t1ha0_32be,
      't1ha0_ia32aes_noavx':aes_a,'t1ha0_ia32aes_avx':aes_a,'t1ha0_ia32aes_avx2':aes_b}
