"""Validates spec.py against the published reference values (development aid; parses /repo's reference tables)."""
import re,sys,os
import terms as t, spec
REPO=os.environ.get('T1HA_REPO','/repo')
def tables():
    r={}
    for f in ('t1ha0','t1ha1','t1ha2'):
        s=open(f'{REPO}/src/{f}_selfcheck.c').read()
        for m in re.finditer(r'(t1ha_refval_\w+)\[81\]\s*=\s*\{(.*?)\}',s,re.S):
            r[m.group(1)]=[int(x.strip().rstrip('ULul'),0) for x in re.sub(r'//[^\n]*|/\*.*?\*/','',m.group(2),flags=re.S).split(',') if x.strip()]
    return r
PAT=bytes([0,1,2,3,4,5,6,7,0xFF,0x7F,0x3F,0x1F,0xF,8,16,32,64,0x80,0xFE,0xFC,0xF8,0xF0,0xE0,0xC0,0xFD,0xFB,0xF7,0xEF,0xDF,0xBF,0x55,0xAA,11,17,19,23,29,37,42,43])+b'abcdefghijklmnopqrstuvwx'
def probes():
    M=(1<<64)-1
    yield b'',0; yield b'',M; yield PAT,0
    s=1
    for i in range(1,64): yield PAT[:i],s; s=s<<1&M
    s=M
    for i in range(1,8): s=s<<1&M; yield PAT[i:],s
    L=bytes(i&255 for i in range(512))
    for i in range(8): yield L[i:i+128+i*17],s
def run():
    T=tables(); bad=0; W=64
    names={k:k for k in T}
    for k,ref in T.items():
        n=k.replace('t1ha_refval_','').replace('32le','t1ha0_32le') if k!='t1ha_refval_64le' else k
        fn=None
        if k.endswith('_32le'): fn=spec.t1ha0_32le
        elif k.endswith('_32be'): fn=spec.t1ha0_32be
        elif k.endswith('_64le'): fn=spec.t1ha1_le
        elif k.endswith('_64be'): fn=spec.t1ha1_be
        elif k.endswith('ia32aes_a'): fn=spec.aes_a
        elif k.endswith('ia32aes_b'): fn=spec.aes_b
        elif k.endswith('2atonce'): fn=spec.t1ha2_atonce
        elif k.endswith('2atonce128'): fn=lambda L,d,s: spec.t1ha2_atonce128(L,d,s)[0]
        elif k.endswith('2stream'):
            def fn(L,d,s,extra=False):
                st=spec.t2_init(s,s); st,p,pb=spec.t2_update(st,0,d,L,d)
                return spec.t2_final(st,p,spec.Data(lambda o:pb[o.a[0]],W),t.const(L.n,64),W,extra)[0]
        elif k.endswith('2stream128'):
            def fn(L,d,s):
                st=spec.t2_init(s,s); st,p,pb=spec.t2_update(st,0,d,L,d)
                return spec.t2_final(st,p,spec.Data(lambda o:pb[o.a[0]],W),t.const(L.n,64),W,True)[0]
        if fn is None: print('?',k); continue
        b=0
        for (dat,seed),r in zip(probes(),ref):
            v=fn(spec.Len(W,n=len(dat)),spec.buf(dat,W),t.const(seed,64))
            if not t.isc(v) or v.a[0]!=r: b+=1
        print(k,'mismatches',b,'of',len(ref)); bad+=b
    return bad
if __name__=='__main__': sys.exit(bool(run()))
