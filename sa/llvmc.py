"""Loads LLVM bitcode through the LLVM-C API (ctypes) into plain Python objects."""
import ctypes as C, re

_L = None
def lib():
    global _L
    if _L is None:
        for n in ("/usr/lib/llvm-18/lib/libLLVM-18.so.1", "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
                  "/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM.so.18.1", "libLLVM-18.so.1"):
            try:
                _L = C.CDLL(n); break
            except OSError:
                pass
        if _L is None:
            raise RuntimeError("libLLVM 18 not found")
        P = C.c_void_p; S = C.c_char_p; U = C.c_uint; ULL = C.c_ulonglong
        def d(name, res, *args):
            f = getattr(_L, name); f.restype = res; f.argtypes = list(args)
        d("LLVMContextCreate", P)
        d("LLVMContextDispose", None, P)
        d("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, S, C.POINTER(P), C.POINTER(S))
        d("LLVMParseIRInContext", C.c_int, P, P, C.POINTER(P), C.POINTER(S))
        d("LLVMGetModuleDataLayout", P, P)
        d("LLVMGetDataLayoutStr", S, P)
        d("LLVMGetTarget", S, P)
        d("LLVMGetModuleInlineAsm", S, P, C.POINTER(C.c_size_t))
        for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstGlobal", "LLVMGetNextGlobal",
                  "LLVMGetFirstGlobalAlias", "LLVMGetNextGlobalAlias", "LLVMAliasGetAliasee",
                  "LLVMGetFirstGlobalIFunc", "LLVMGetNextGlobalIFunc", "LLVMGetGlobalIFuncResolver",
                  "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock", "LLVMGetFirstInstruction",
                  "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGlobalGetValueType", "LLVMGetElementType",
                  "LLVMGetInitializer", "LLVMGetCalledValue", "LLVMGetCondition", "LLVMGetAllocatedType",
                  "LLVMGetGEPSourceElementType", "LLVMBasicBlockAsValue", "LLVMGetBasicBlockTerminator",
                  "LLVMGetReturnType", "LLVMValueAsBasicBlock"):
            d(n, P, P)
        d("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
        for n in ("LLVMGetTypeKind", "LLVMGetValueKind", "LLVMGetInstructionOpcode", "LLVMGetNumOperands",
                  "LLVMIsDeclaration", "LLVMIsGlobalConstant", "LLVMGetLinkage", "LLVMGetVisibility",
                  "LLVMGetIntTypeWidth", "LLVMGetAlignment", "LLVMGetVolatile", "LLVMGetOrdering",
                  "LLVMGetICmpPredicate", "LLVMGetNumIndices", "LLVMCountIncoming", "LLVMIsConditional",
                  "LLVMGetNumSuccessors", "LLVMGetNumArgOperands", "LLVMGetNumMaskElements",
                  "LLVMGetDebugLocLine", "LLVMCountParams", "LLVMCountStructElementTypes", "LLVMGetArrayLength",
                  "LLVMGetVectorSize", "LLVMIsNull", "LLVMIsUndef", "LLVMIsPoison", "LLVMIsConstantString",
                  "LLVMIsThreadLocal", "LLVMIsFunctionVarArg"):
            d(n, C.c_int, P)
        d("LLVMGetNSW", C.c_int, P); d("LLVMGetNUW", C.c_int, P)
        d("LLVMGetOperand", P, P, U)
        d("LLVMGetSuccessor", P, P, U)
        d("LLVMGetIncomingValue", P, P, U); d("LLVMGetIncomingBlock", P, P, U)
        d("LLVMGetParam", P, P, U)
        d("LLVMGetMaskValue", C.c_int, P, U)
        d("LLVMGetIndices", C.POINTER(U), P)
        d("LLVMConstIntGetZExtValue", ULL, P)
        d("LLVMPrintValueToString", P, P); d("LLVMPrintTypeToString", P, P)
        d("LLVMDisposeMessage", None, P)
        d("LLVMGetStructElementTypes", None, P, C.POINTER(P))
        d("LLVMOffsetOfElement", ULL, P, P, U)
        d("LLVMABISizeOfType", ULL, P, P); d("LLVMStoreSizeOfType", ULL, P, P)
        d("LLVMABIAlignmentOfType", U, P, P)
        d("LLVMPointerSize", U, P); d("LLVMByteOrder", C.c_int, P)
        d("LLVMGetDebugLocFilename", S, P, C.POINTER(U))
        d("LLVMGetAggregateElement", P, P, U)
        d("LLVMGetElementAsConstant", P, P, U)
        d("LLVMGetConstOpcode", C.c_int, P)
        d("LLVMGetStringAttributeAtIndex", P, P, U, S, U)
        d("LLVMGetStringAttributeValue", S, P, C.POINTER(U))
        d("LLVMGetInlineAsmAsmString", S, P, C.POINTER(C.c_size_t))
        d("LLVMGetInlineAsmConstraintString", S, P, C.POINTER(C.c_size_t))
        d("LLVMGetSection", S, P)
    return _L

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',8:'add',9:'fadd',10:'sub',11:'fsub',
 12:'mul',13:'fmul',14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',
 23:'and',24:'or',25:'xor',26:'alloca',27:'load',28:'store',29:'getelementptr',30:'trunc',31:'zext',32:'sext',
 33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',40:'inttoptr',41:'bitcast',
 60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',49:'vaarg',50:'extractelement',
 51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',
 57:'atomicrmw',66:'fneg',67:'callbr'}
PRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
# value kinds
VK_ARG,VK_BB,VK_FUNC,VK_ALIAS,VK_IFUNC,VK_GV,VK_CE=0,1,5,6,7,8,10
LINK_INTERNAL=(8,9)

class Ins:
    __slots__=('op','id','ty','ops','x','line','file','fn')
    def __repr__(s): return f"<%{s.id} {s.op} {s.ty} {s.ops} {s.x} @{s.file}:{s.line}>"
class Block:
    __slots__=('idx','ins','succ','pred','phis')
class Func:
    def __init__(s): s.blocks=[]; s.args=[]
class Global: pass
class Module: pass

class Loader:
    def __init__(self, path):
        L=lib(); self.L=L
        self.ctx=L.LLVMContextCreate()
        buf=C.c_void_p(); msg=C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(f"cannot read {path}: {msg.value}")
        mod=C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError(f"cannot parse {path}: {msg.value}")
        self.mod=mod; self.dl=L.LLVMGetModuleDataLayout(mod); self.tcache={}
    def name(self,v):
        n=C.c_size_t(); s=self.L.LLVMGetValueName2(v,C.byref(n)); return (s or b'').decode()
    def pstr(self,v):
        p=self.L.LLVMPrintValueToString(v); s=C.string_at(p).decode('utf8','replace'); self.L.LLVMDisposeMessage(p); return s
    def ty(self,t):
        r=self.tcache.get(t)
        if r is None:
            L=self.L; k=L.LLVMGetTypeKind(t)
            if k==8: r=('int',L.LLVMGetIntTypeWidth(t))
            elif k==12: r=('ptr',)
            elif k==0: r=('void',)
            elif k==7: r=('label',)
            elif k==10:
                n=L.LLVMCountStructElementTypes(t); a=(C.c_void_p*n)(); L.LLVMGetStructElementTypes(t,a)
                r=('struct',tuple(self.ty(x) for x in a),tuple(L.LLVMOffsetOfElement(self.dl,t,i) for i in range(n)),L.LLVMABISizeOfType(self.dl,t))
            elif k==11: r=('arr',L.LLVMGetArrayLength(t),self.ty(L.LLVMGetElementType(t)))
            elif k==13: r=('vec',L.LLVMGetVectorSize(t),self.ty(L.LLVMGetElementType(t)))
            elif k==14: r=('meta',)
            else: r=('other',k)
            self.tcache[t]=r
        return r
    def size(self,t): return self.L.LLVMABISizeOfType(self.dl,t)
    def const_int(self,v,w):
        if w<=64: return self.L.LLVMConstIntGetZExtValue(v)
        s=self.pstr(v).split()[-1]
        if s=='true': return 1
        return int(s)&((1<<w)-1)
    def operand(self,v):
        L=self.L
        i=self.ids.get(v)
        if i is not None: return ('i',i)
        k=L.LLVMGetValueKind(v); t=self.ty(L.LLVMTypeOf(v))
        if k==VK_BB: return ('bb',self.bbs[v])
        if t[0]=='int' and k==18: return ('c',t[1],self.const_int(v,t[1]))
        if k==VK_FUNC: return ('f',self.name(v))
        if k in (VK_GV,VK_ALIAS,VK_IFUNC): return ('g',self.name(v),0)
        if k in (14,25): return ('undef',t)   # undef/poison
        if L.LLVMIsNull(v):
            if t[0]=='ptr': return ('null',)
            return ('zero',t)
        if k==VK_CE:
            op=OPC.get(L.LLVMGetConstOpcode(v))
            if op=='getelementptr':
                base=self.operand(L.LLVMGetOperand(v,0)); off=self.gep_const(v)
                if base[0]=='g': return ('g',base[1],base[2]+off)
                return ('unk','constgep '+self.pstr(v))
            if op in('bitcast','addrspacecast'): return self.operand(L.LLVMGetOperand(v,0))
            if op in('ptrtoint','inttoptr'): return ('ce',op,t,self.operand(L.LLVMGetOperand(v,0)))
            return ('unk',self.pstr(v))
        if t[0] in('vec','arr','struct'):
            n=t[1] if t[0]!='struct' else len(t[1])
            return ('agg',t,[self.operand(L.LLVMGetAggregateElement(v,i)) for i in range(n)])
        if t[0]=='meta': return ('meta',)
        if k==23:
            n=C.c_size_t()
            return ('asm',(L.LLVMGetInlineAsmAsmString(v,C.byref(n)) or b'').decode(),(L.LLVMGetInlineAsmConstraintString(v,C.byref(n)) or b'').decode())
        return ('unk',self.pstr(v))
    def gep_const(self,v):
        L=self.L; off=0; n=L.LLVMGetNumOperands(v); t=L.LLVMGetGEPSourceElementType(v)
        for i in range(1,n):
            o=L.LLVMGetOperand(v,i); w=self.ty(L.LLVMTypeOf(o))[1]; x=self.const_int(o,w)
            if x>>(w-1): x-=1<<w
            if i==1: off+=x*self.size(t)
            else:
                k=L.LLVMGetTypeKind(t)
                if k==10:
                    off+=L.LLVMOffsetOfElement(self.dl,t,x); n2=L.LLVMCountStructElementTypes(t); a=(C.c_void_p*n2)(); L.LLVMGetStructElementTypes(t,a); t=a[x]
                else:
                    t=L.LLVMGetElementType(t); off+=x*self.size(t)
        return off
    def gep(self,v):
        """list of ('k',const) / ('v',operand,scale)"""
        L=self.L; parts=[]; n=L.LLVMGetNumOperands(v); t=L.LLVMGetGEPSourceElementType(v)
        for i in range(1,n):
            o=L.LLVMGetOperand(v,i); op=self.operand(o)
            if i==1: sc=self.size(t)
            else:
                k=L.LLVMGetTypeKind(t)
                if k==10:
                    x=op[2]; parts.append(('k',L.LLVMOffsetOfElement(self.dl,t,x))); n2=L.LLVMCountStructElementTypes(t); a=(C.c_void_p*n2)(); L.LLVMGetStructElementTypes(t,a); t=a[x]; continue
                t=L.LLVMGetElementType(t); sc=self.size(t)
            parts.append(('v',op,sc))
        return parts
    def init_bytes(self,v,t,out,off):
        """flatten a constant into out: dict off->byte or ('p',operand,i)"""
        L=self.L; T=self.ty(t); k=L.LLVMGetValueKind(v)
        if T[0]=='int':
            w=T[1]; nb=(w+7)//8
            if L.LLVMIsUndef(v): x=0
            else: x=self.const_int(v,w)
            for i in range(nb):
                out[off+i]=(x>>(8*(nb-1-i if self.be else i)))&255
        elif T[0]=='ptr':
            nb=L.LLVMPointerSize(self.dl)
            if L.LLVMIsNull(v):
                for i in range(nb): out[off+i]=0
            else:
                o=self.operand(v)
                for i in range(nb): out[off+i]=('p',o,i)
        elif T[0]=='arr' or T[0]=='vec':
            et=L.LLVMGetElementType(t); es=self.size(et)
            if L.LLVMIsNull(v) or L.LLVMIsUndef(v):
                for i in range(T[1]*es): out[off+i]=0
                return
            for i in range(T[1]): self.init_bytes(L.LLVMGetAggregateElement(v,i),et,out,off+i*es)
        elif T[0]=='struct':
            for i in range(T[3]): out[off+i]=0
            if L.LLVMIsNull(v) or L.LLVMIsUndef(v): return
            n=len(T[1]); a=(C.c_void_p*n)(); L.LLVMGetStructElementTypes(t,a)
            for i in range(n): self.init_bytes(L.LLVMGetAggregateElement(v,i),a[i],out,off+T[2][i])
    def load(self):
        L=self.L; M=Module(); M.funcs={}; M.globals={}; M.aliases={}; M.ifuncs={}
        M.be = L.LLVMByteOrder(self.dl)==0
        self.be=M.be; M.ptrbits=8*L.LLVMPointerSize(self.dl); M.triple=L.LLVMGetTarget(self.mod).decode()
        self.ids={}; self.bbs={}
        n=C.c_size_t(); M.asm=(L.LLVMGetModuleInlineAsm(self.mod,C.byref(n)) or b'').decode()
        g=L.LLVMGetFirstGlobal(self.mod)
        while g:
            G=Global(); G.name=self.name(g); t=L.LLVMGlobalGetValueType(g); G.ty=self.ty(t); G.size=self.size(t) if G.ty[0]!='other' else 0
            G.const=bool(L.LLVMIsGlobalConstant(g)); G.decl=bool(L.LLVMIsDeclaration(g)); G.linkage=L.LLVMGetLinkage(g)
            G.vis=L.LLVMGetVisibility(g); G.align=L.LLVMGetAlignment(g); G.tls=bool(L.LLVMIsThreadLocal(g)); G.bytes=None
            G.internal=G.linkage in LINK_INTERNAL
            if not G.decl and not G.name.startswith('llvm.'):
                G.bytes={}; self.init_bytes(L.LLVMGetInitializer(g),t,G.bytes,0)
            elif G.name=='llvm.global_ctors':
                G.bytes={}; self.init_bytes(L.LLVMGetInitializer(g),t,G.bytes,0)
            M.globals[G.name]=G
            g=L.LLVMGetNextGlobal(g)
        a=L.LLVMGetFirstGlobalAlias(self.mod)
        while a:
            M.aliases[self.name(a)]=self.operand(L.LLVMAliasGetAliasee(a)); a=L.LLVMGetNextGlobalAlias(a)
        a=L.LLVMGetFirstGlobalIFunc(self.mod)
        while a:
            M.ifuncs[self.name(a)]=(self.operand(L.LLVMGetGlobalIFuncResolver(a)),L.LLVMGetVisibility(a)); a=L.LLVMGetNextGlobalIFunc(a)
        f=L.LLVMGetFirstFunction(self.mod)
        while f:
            F=self.func(f); M.funcs[F.name]=F; f=L.LLVMGetNextFunction(f)
        return M
    def func(self,f):
        L=self.L; F=Func(); F.name=self.name(f); F.decl=bool(L.LLVMIsDeclaration(f)); F.linkage=L.LLVMGetLinkage(f)
        F.internal=F.linkage in LINK_INTERNAL; F.vis=L.LLVMGetVisibility(f)
        ft=L.LLVMGlobalGetValueType(f); F.ret=self.ty(L.LLVMGetReturnType(ft)); F.vararg=bool(L.LLVMIsFunctionVarArg(ft))
        a=L.LLVMGetStringAttributeAtIndex(f,0xffffffff,b"target-features",15)
        if a:
            n=C.c_uint(); F.features=L.LLVMGetStringAttributeValue(a,C.byref(n)).decode()
        else: F.features=''
        self.ids={}; self.bbs={}; self.nid=0
        for i in range(L.LLVMCountParams(f)):
            p=L.LLVMGetParam(f,i); self.ids[p]=self.nid; F.args.append((self.nid,self.ty(L.LLVMTypeOf(p)))); self.nid+=1
        if F.decl: return F
        b=L.LLVMGetFirstBasicBlock(f); n=0; blks=[]
        while b:
            self.bbs[b]=n; self.bbs[L.LLVMBasicBlockAsValue(b)]=n; blks.append(b); n+=1; b=L.LLVMGetNextBasicBlock(b)
        raw=[]
        for b in blks:
            i=L.LLVMGetFirstInstruction(b); lst=[]
            while i:
                self.ids[i]=self.nid; self.nid+=1; lst.append(i); i=L.LLVMGetNextInstruction(i)
            raw.append(lst)
        for n,lst in enumerate(raw):
            B=Block(); B.idx=n; B.ins=[]; B.pred=[]; B.succ=[]; B.phis=[]
            for i in lst:
                I=self.inst(i,F)
                if I is None: continue
                if I.op=='phi': B.phis.append(I)
                else: B.ins.append(I)
            t=B.ins[-1]
            if t.op=='br': B.succ=[t.x['t']] if t.x.get('f') is None else [t.x['t'],t.x['f']]
            elif t.op=='switch': B.succ=[t.x['default']]+[c[1] for c in t.x['cases']]
            F.blocks.append(B)
        for B in F.blocks:
            for s in set(B.succ): F.blocks[s].pred.append(B.idx)
        F.nids=self.nid
        return F
    def inst(self,i,F):
        L=self.L; I=Ins(); I.fn=F.name; I.op=OPC.get(L.LLVMGetInstructionOpcode(i),'?'); I.id=self.ids[i]
        I.ty=self.ty(L.LLVMTypeOf(i)); I.x={}
        n=C.c_uint(); fn=L.LLVMGetDebugLocFilename(i,C.byref(n))
        I.file=(fn or b'').decode().split('/')[-1] if fn else ''; I.line=L.LLVMGetDebugLocLine(i) if fn else 0
        op=I.op; no=L.LLVMGetNumOperands(i)
        if op=='call':
            cv=L.LLVMGetCalledValue(i); na=L.LLVMGetNumArgOperands(i)
            I.x['callee']=self.operand(cv)
            if I.x['callee'][0]=='f' and I.x['callee'][1].startswith('llvm.dbg'): return None
            I.ops=[self.operand(L.LLVMGetOperand(i,k)) for k in range(na)]
            I.x['argty']=[self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,k))) for k in range(na)]
            return I
        if op=='br':
            I.ops=[]
            if L.LLVMIsConditional(i):
                I.ops=[self.operand(L.LLVMGetCondition(i))]
                I.x['t']=self.bbs[L.LLVMGetSuccessor(i,0)]; I.x['f']=self.bbs[L.LLVMGetSuccessor(i,1)]
            else: I.x['t']=self.bbs[L.LLVMGetSuccessor(i,0)]; I.x['f']=None
            return I
        if op=='switch':
            I.ops=[self.operand(L.LLVMGetOperand(i,0))]; I.x['default']=self.bbs[L.LLVMGetSuccessor(i,0)]
            I.x['cases']=[(self.operand(L.LLVMGetOperand(i,2*k))[2],self.bbs[L.LLVMGetSuccessor(i,k)]) for k in range(1,no//2)]
            return I
        if op=='phi':
            I.ops=[]; I.x['in']={}
            for k in range(L.LLVMCountIncoming(i)):
                I.x['in'][self.bbs[L.LLVMGetIncomingBlock(i,k)]]=self.operand(L.LLVMGetIncomingValue(i,k))
            return I
        if op=='getelementptr':
            I.ops=[self.operand(L.LLVMGetOperand(i,0))]; I.x['parts']=self.gep(i); return I
        I.ops=[self.operand(L.LLVMGetOperand(i,k)) for k in range(no)]
        I.x['oty']=[self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i,k))) for k in range(no)]
        if op in('load','store'):
            I.x['align']=L.LLVMGetAlignment(i); I.x['vol']=bool(L.LLVMGetVolatile(i)); I.x['atomic']=L.LLVMGetOrdering(i)
            t=L.LLVMTypeOf(i if op=='load' else L.LLVMGetOperand(i,0)); I.x['size']=L.LLVMStoreSizeOfType(self.dl,t)
        elif op=='icmp': I.x['pred']=PRED[L.LLVMGetICmpPredicate(i)]
        elif op=='alloca':
            t=L.LLVMGetAllocatedType(i); I.x['size']=self.size(t); I.x['align']=L.LLVMGetAlignment(i)
        elif op in('extractvalue','insertvalue'):
            k=L.LLVMGetNumIndices(i); p=L.LLVMGetIndices(i); I.x['idx']=[p[j] for j in range(k)]
        elif op=='shufflevector':
            k=L.LLVMGetNumMaskElements(i); I.x['mask']=[L.LLVMGetMaskValue(i,j) for j in range(k)]
        elif op in('add','sub','mul','shl'):
            I.x['nsw']=bool(L.LLVMGetNSW(i))
        return I

def load(path):
    ld=Loader(path); m=ld.load(); lib().LLVMContextDispose(ld.ctx) if False else None
    return m
