"""LLVM bitcode -> plain Python objects, through the LLVM-C API (ctypes)."""
import ctypes as C, os, glob

def _lib():
    for p in ["/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so"]:
        if os.path.exists(p):
            return C.CDLL(p)
    raise RuntimeError("libLLVM-18 not found")
L = _lib()
P = C.c_void_p
def _d(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = list(args); return f
u = C.c_uint
for n, r, a in [
    ("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, (C.c_char_p, P, P)),
    ("LLVMContextCreate", P, ()), ("LLVMParseBitcodeInContext2", C.c_int, (P, P, P)),
    ("LLVMGetModuleDataLayout", P, (P,)), ("LLVMGetFirstFunction", P, (P,)), ("LLVMGetNextFunction", P, (P,)),
    ("LLVMGetNamedFunction", P, (P, C.c_char_p)), ("LLVMGetNamedGlobal", P, (P, C.c_char_p)),
    ("LLVMGetValueName2", C.c_char_p, (P, P)), ("LLVMIsDeclaration", C.c_int, (P,)),
    ("LLVMGetFirstBasicBlock", P, (P,)), ("LLVMGetNextBasicBlock", P, (P,)), ("LLVMGetBasicBlockName", C.c_char_p, (P,)),
    ("LLVMGetFirstInstruction", P, (P,)), ("LLVMGetNextInstruction", P, (P,)), ("LLVMGetInstructionOpcode", C.c_int, (P,)),
    ("LLVMGetNumOperands", C.c_int, (P,)), ("LLVMGetOperand", P, (P, u)), ("LLVMTypeOf", P, (P,)),
    ("LLVMGetTypeKind", C.c_int, (P,)), ("LLVMGetIntTypeWidth", u, (P,)), ("LLVMGetElementType", P, (P,)),
    ("LLVMGetArrayLength2", C.c_uint64, (P,)), ("LLVMGetVectorSize", u, (P,)), ("LLVMCountStructElementTypes", u, (P,)),
    ("LLVMStructGetTypeAtIndex", P, (P, u)), ("LLVMOffsetOfElement", C.c_ulonglong, (P, P, u)), ("LLVMABISizeOfType", C.c_ulonglong, (P, P)),
    ("LLVMStoreSizeOfType", C.c_ulonglong, (P, P)),
    ("LLVMGetICmpPredicate", C.c_int, (P,)), ("LLVMGetFCmpPredicate", C.c_int, (P,)),
    ("LLVMCountIncoming", u, (P,)), ("LLVMGetIncomingValue", P, (P, u)), ("LLVMGetIncomingBlock", P, (P, u)),
    ("LLVMGetNumSuccessors", u, (P,)), ("LLVMGetSuccessor", P, (P, u)), ("LLVMIsConditional", C.c_int, (P,)), ("LLVMGetCondition", P, (P,)),
    ("LLVMGetGEPSourceElementType", P, (P,)), ("LLVMGetNSW", C.c_int, (P,)), ("LLVMGetNUW", C.c_int, (P,)),
    ("LLVMGetCalledValue", P, (P,)), ("LLVMGetNumArgOperands", u, (P,)), ("LLVMGetAllocatedType", P, (P,)),
    ("LLVMGetNumIndices", u, (P,)), ("LLVMGetIndices", C.POINTER(u), (P,)),
    ("LLVMGetNumMaskElements", u, (P,)), ("LLVMGetMaskValue", C.c_int, (P, u)),
    ("LLVMIsAConstantInt", P, (P,)), ("LLVMConstIntGetSExtValue", C.c_longlong, (P,)), ("LLVMIsAConstantFP", P, (P,)),
    ("LLVMConstRealGetDouble", C.c_double, (P, P)), ("LLVMIsNull", C.c_int, (P,)), ("LLVMIsUndef", C.c_int, (P,)),
    ("LLVMIsAConstantExpr", P, (P,)), ("LLVMGetConstOpcode", C.c_int, (P,)), ("LLVMIsAGlobalVariable", P, (P,)), ("LLVMIsAGlobalAlias", P, (P,)),
    ("LLVMIsAFunction", P, (P,)), ("LLVMIsAConstantDataSequential", P, (P,)), ("LLVMGetElementAsConstant", P, (P, u)),
    ("LLVMIsAConstantArray", P, (P,)), ("LLVMIsAConstantStruct", P, (P,)), ("LLVMIsAConstantVector", P, (P,)),
    ("LLVMIsAConstantAggregateZero", P, (P,)), ("LLVMIsAConstantPointerNull", P, (P,)), ("LLVMIsConstant", C.c_int, (P,)),
    ("LLVMGetInitializer", P, (P,)), ("LLVMIsGlobalConstant", C.c_int, (P,)), ("LLVMGlobalGetValueType", P, (P,)),
    ("LLVMCountParams", u, (P,)), ("LLVMGetParam", P, (P, u)), ("LLVMGetReturnType", P, (P,)), ("LLVMIsAInlineAsm", P, (P,)),
    ("LLVMPrintValueToString", C.c_char_p, (P,)), ("LLVMPrintTypeToString", C.c_char_p, (P,)), ("LLVMAliasGetAliasee", P, (P,)),
    ("LLVMGetFirstGlobal", P, (P,)), ("LLVMGetNextGlobal", P, (P,)), ("LLVMValueAsBasicBlock", P, (P,)),
    ("LLVMGetSwitchDefaultDest", P, (P,)),
]:
    _d(n, r, *a)

OPC = {1:'ret',2:'br',3:'switch',4:'indirectbr',5:'invoke',7:'unreachable',66:'fneg',8:'add',9:'fadd',10:'sub',11:'fsub',12:'mul',13:'fmul',
 14:'udiv',15:'sdiv',16:'fdiv',17:'urem',18:'srem',19:'frem',20:'shl',21:'lshr',22:'ashr',23:'and',24:'or',25:'xor',26:'alloca',27:'load',
 28:'store',29:'gep',30:'trunc',31:'zext',32:'sext',33:'fptoui',34:'fptosi',35:'uitofp',36:'sitofp',37:'fptrunc',38:'fpext',39:'ptrtoint',
 40:'inttoptr',41:'bitcast',60:'addrspacecast',42:'icmp',43:'fcmp',44:'phi',45:'call',46:'select',47:'userop1',50:'extractelement',
 51:'insertelement',52:'shufflevector',53:'extractvalue',54:'insertvalue',68:'freeze',55:'fence',56:'cmpxchg',57:'atomicrmw',58:'resume',
 59:'landingpad',49:'vaarg'}
IPRED = {32:'eq',33:'ne',34:'ugt',35:'uge',36:'ult',37:'ule',38:'sgt',39:'sge',40:'slt',41:'sle'}
FPRED = {0:'false',1:'oeq',2:'ogt',3:'oge',4:'olt',5:'ole',6:'one',7:'ord',8:'uno',9:'ueq',10:'ugt',11:'uge',12:'ult',13:'ule',14:'une',15:'true'}

class Ty:
    __slots__ = ("k", "w", "n", "e", "els", "offs", "size", "store")
    def __repr__(s):
        if s.k == 'int': return f"i{s.w}"
        if s.k in ('arr', 'vec'): return f"{s.k}<{s.n} x {s.e}>"
        if s.k == 'struct': return "{" + ",".join(map(repr, s.els)) + "}"
        return s.k

class Inst:
    __slots__ = ("op", "ty", "ops", "id", "name", "x", "blk", "idx")
    def __repr__(s): return f"<{s.op} %{s.name or s.id}>"

class Block:
    __slots__ = ("name", "insts", "succ", "id", "phis", "fn")
    def __repr__(s): return f"bb:{s.name}"

class Func:
    def __init__(s): s.blocks = None

# operand kinds: ('r', id) register / argument; ('c', const)
class CAgg:
    """aggregate constant: list of element constants"""
    __slots__ = ("ty", "els")
    def __init__(s, ty, els): s.ty, s.els = ty, els
class CZero:
    __slots__ = ("ty",)
    def __init__(s, ty): s.ty = ty
class CUndef:
    __slots__ = ("ty",)
    def __init__(s, ty): s.ty = ty
class CGlobal:
    __slots__ = ("name", "kind")
    def __init__(s, name, kind): s.name, s.kind = name, kind
class CExpr:
    __slots__ = ("op", "ops", "ty", "x")
    def __init__(s, op, ops, ty, x=None): s.op, s.ops, s.ty, s.x = op, ops, ty, x
class CNull: pass
class CFloat:
    __slots__ = ("v",)
    def __init__(s, v): s.v = v
NULL = CNull()

def vname(v):
    n = C.c_size_t()
    b = L.LLVMGetValueName2(v, C.byref(n))
    return b.decode() if b else ""

class Module:
    def __init__(self, path):
        buf = P(); msg = P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError("cannot read " + path)
        ctx = L.LLVMContextCreate(); self.ctx = ctx
        mod = P()
        if L.LLVMParseBitcodeInContext2(ctx, buf, C.byref(mod)):
            raise RuntimeError("cannot parse " + path)
        self.mod = mod; self.td = L.LLVMGetModuleDataLayout(mod)
        self._ty = {}; self._fn = {}; self._vid = {}; self._glob = {}
        self._nid = 0
    def functions(self):
        f = L.LLVMGetFirstFunction(self.mod)
        while f:
            yield vname(f), bool(L.LLVMIsDeclaration(f))
            f = L.LLVMGetNextFunction(f)
    def ty(self, t):
        r = self._ty.get(t)
        if r: return r
        k = L.LLVMGetTypeKind(t)
        r = Ty(); r.w = r.n = r.e = r.els = r.offs = None; r.size = 0; r.store = 0
        if k == 0: r.k = 'void'
        elif k == 8: r.k = 'int'; r.w = L.LLVMGetIntTypeWidth(t)
        elif k in (2, 3): r.k = 'double' if k == 3 else 'float'
        elif k in (4, 5, 6): r.k = 'fp80'
        elif k == 12: r.k = 'ptr'
        elif k == 11: r.k = 'arr'; r.n = L.LLVMGetArrayLength2(t); r.e = self.ty(L.LLVMGetElementType(t))
        elif k == 13: r.k = 'vec'; r.n = L.LLVMGetVectorSize(t); r.e = self.ty(L.LLVMGetElementType(t))
        elif k == 10:
            r.k = 'struct'; n = L.LLVMCountStructElementTypes(t)
            r.els = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try: r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
            except Exception: r.offs = []
        elif k == 7: r.k = 'label'
        elif k == 14: r.k = 'metadata'
        else: r.k = f'kind{k}'
        if r.k in ('int', 'double', 'float', 'fp80', 'ptr', 'arr', 'vec', 'struct'):
            r.size = L.LLVMABISizeOfType(self.td, t); r.store = L.LLVMStoreSizeOfType(self.td, t)
        self._ty[t] = r
        return r
    def const(self, v):
        ty = self.ty(L.LLVMTypeOf(v))
        if L.LLVMIsAConstantInt(v):
            c = L.LLVMConstIntGetSExtValue(v)
            if ty.w == 1: return bool(c)
            return c
        if L.LLVMIsAConstantFP(v):
            lo = C.c_int()
            return CFloat(L.LLVMConstRealGetDouble(v, C.byref(lo)))
        if L.LLVMIsAFunction(v): return CGlobal(vname(v), 'fn')
        if L.LLVMIsAGlobalVariable(v): return CGlobal(vname(v), 'var')
        if L.LLVMIsAGlobalAlias(v): return self.const(L.LLVMAliasGetAliasee(v))
        if L.LLVMIsUndef(v): return CUndef(ty)
        if L.LLVMIsAConstantPointerNull(v): return NULL
        if L.LLVMIsAConstantAggregateZero(v): return CZero(ty)
        if L.LLVMIsAConstantDataSequential(v):
            return CAgg(ty, [self.const(L.LLVMGetElementAsConstant(v, i)) for i in range(ty.n)])
        if L.LLVMIsAConstantArray(v) or L.LLVMIsAConstantStruct(v) or L.LLVMIsAConstantVector(v):
            return CAgg(ty, [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))])
        if L.LLVMIsAConstantExpr(v):
            op = OPC[L.LLVMGetConstOpcode(v)]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            x = None
            if op == 'gep': x = self.ty(L.LLVMGetGEPSourceElementType(v))
            if op == 'icmp': x = IPRED[L.LLVMGetICmpPredicate(v)]
            return CExpr(op, ops, ty, x)
        if L.LLVMIsNull(v): return CZero(ty)
        return CUndef(ty)
    def operand(self, v):
        if v in self._vid: return ('r', self._vid[v])
        if L.LLVMIsAInlineAsm(v): return ('asm', None)
        if L.LLVMGetTypeKind(L.LLVMTypeOf(v)) == 14: return ('md', None)
        if L.LLVMIsConstant(v): return ('c', self.const(v))
        self._nid += 1; self._vid[v] = self._nid
        return ('r', self._nid)
    def reg(self, v):
        o = self.operand(v)
        return o[1]
    def has(self, name):
        f = L.LLVMGetNamedFunction(self.mod, name.encode())
        return bool(f) and not L.LLVMIsDeclaration(f)
    def fn(self, name):
        if name in self._fn: return self._fn[name]
        f = L.LLVMGetNamedFunction(self.mod, name.encode())
        if not f or L.LLVMIsDeclaration(f):
            self._fn[name] = None; return None
        F = Func(); F.name = name
        F.params = [self.reg(L.LLVMGetParam(f, i)) for i in range(L.LLVMCountParams(f))]
        F.pnames = [vname(L.LLVMGetParam(f, i)) for i in range(L.LLVMCountParams(f))]
        F.blocks = []; F.bmap = {}
        b = L.LLVMGetFirstBasicBlock(f)
        bl = []
        while b:
            B = Block(); B.name = L.LLVMGetBasicBlockName(b).decode(); B.id = len(F.blocks); B.insts = []; B.succ = []; B.phis = []; B.fn = F
            F.blocks.append(B); F.bmap[b] = B; bl.append(b)
            b = L.LLVMGetNextBasicBlock(b)
        for b in bl:
            B = F.bmap[b]
            i = L.LLVMGetFirstInstruction(b)
            while i:
                I = self.inst(F, i)
                I.blk = B; I.idx = len(B.insts)
                if I.op == 'phi': B.phis.append(I)
                B.insts.append(I)
                i = L.LLVMGetNextInstruction(i)
            B.succ = B.insts[-1].x if B.insts[-1].op in ('br', 'switch') else []
            if B.insts[-1].op == 'br': B.succ = list(B.insts[-1].x)
            elif B.insts[-1].op == 'switch': B.succ = [t for _, t in B.insts[-1].x[0]] + [B.insts[-1].x[1]]
            elif B.insts[-1].op == 'invoke': B.succ = [B.insts[-1].x['normal']]
        self.loops(F)
        self._fn[name] = F
        return F
    def inst(self, F, i):
        I = Inst()
        opc = L.LLVMGetInstructionOpcode(i)
        I.op = OPC.get(opc, f'op{opc}'); I.ty = self.ty(L.LLVMTypeOf(i)); I.name = vname(i)
        I.id = self.reg(i); I.x = None
        op = I.op; n = L.LLVMGetNumOperands(i)
        if op == 'br':
            I.ops = [self.operand(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
            I.x = [F.bmap[L.LLVMGetSuccessor(i, k)] for k in range(L.LLVMGetNumSuccessors(i))]
        elif op == 'switch':
            I.ops = [self.operand(L.LLVMGetOperand(i, 0))]
            cases = []
            for k in range(2, n, 2):
                cases.append((self.const(L.LLVMGetOperand(i, k)), F.bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, k + 1))]))
            I.x = (cases, F.bmap[L.LLVMValueAsBasicBlock(L.LLVMGetOperand(i, 1))])
        elif op == 'phi':
            I.ops = []
            I.x = {F.bmap[L.LLVMGetIncomingBlock(i, k)].id: self.operand(L.LLVMGetIncomingValue(i, k)) for k in range(L.LLVMCountIncoming(i))}
        elif op in ('call', 'invoke'):
            cv = L.LLVMGetCalledValue(i)
            na = L.LLVMGetNumArgOperands(i)
            I.ops = [self.operand(L.LLVMGetOperand(i, k)) for k in range(na)]
            I.x = {'callee': self.operand(cv), 'atys': [self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, k))) for k in range(na)]}
            if op == 'invoke': I.x['normal'] = F.bmap[L.LLVMGetSuccessor(i, 0)]
        else:
            I.ops = [self.operand(L.LLVMGetOperand(i, k)) for k in range(n)]
            if op == 'icmp': I.x = (IPRED[L.LLVMGetICmpPredicate(i)], self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0))))
            elif op == 'fcmp': I.x = FPRED[L.LLVMGetFCmpPredicate(i)]
            elif op == 'gep': I.x = (self.ty(L.LLVMGetGEPSourceElementType(i)),)
            elif op == 'alloca': I.x = self.ty(L.LLVMGetAllocatedType(i))
            elif op in ('extractvalue', 'insertvalue'):
                p = L.LLVMGetIndices(i); I.x = [p[k] for k in range(L.LLVMGetNumIndices(i))]
            elif op == 'shufflevector': I.x = [L.LLVMGetMaskValue(i, k) for k in range(L.LLVMGetNumMaskElements(i))]
            elif op in ('add', 'sub', 'mul', 'shl'): I.x = (bool(L.LLVMGetNSW(i)), bool(L.LLVMGetNUW(i)))
            elif op == 'store': I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
            elif op in ('trunc', 'zext', 'sext', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'ptrtoint', 'inttoptr', 'extractelement', 'shl', 'fptrunc', 'fpext'):
                I.x = self.ty(L.LLVMTypeOf(L.LLVMGetOperand(i, 0)))
        return I
    def glob(self, name):
        """(type, initializer or None, isconst)"""
        if name in self._glob: return self._glob[name]
        g = L.LLVMGetNamedGlobal(self.mod, name.encode())
        if not g: r = None
        else:
            ini = L.LLVMGetInitializer(g)
            r = (self.ty(L.LLVMGlobalGetValueType(g)), self.const(ini) if ini else None, bool(L.LLVMIsGlobalConstant(g)))
        self._glob[name] = r
        return r
    def loops(self, F):
        n = len(F.blocks)
        # dominators (iterative, sets as bit masks)
        full = (1 << n) - 1
        dom = [full] * n; dom[0] = 1
        preds = [[] for _ in range(n)]
        for b in F.blocks:
            for s in b.succ: preds[s.id].append(b.id)
        order = []; seen = set(); st = [(F.blocks[0], iter(F.blocks[0].succ))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s.id not in seen:
                    seen.add(s.id); st.append((s, iter(s.succ))); break
            else:
                order.append(b.id); st.pop()
        order.reverse()
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == 0: continue
                d = full
                for p in preds[b]:
                    if p in seen: d &= dom[p]
                d |= 1 << b
                if d != dom[b]: dom[b] = d; ch = True
        loops = {}
        for b in order:
            for s in F.blocks[b].succ:
                if dom[b] >> s.id & 1:
                    body = loops.setdefault(s.id, {s.id})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x in body: continue
                        body.add(x); work += [p for p in preds[x] if p in seen]
        F.loops = loops
        F.preds = preds
