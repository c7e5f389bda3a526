"""ctypes reader: LLVM bitcode -> plain Python IR objects (via libLLVM's C API)."""
import ctypes as C

L = C.CDLL('libLLVM.so.18.1')
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


CtxCreate = _f('LLVMContextCreate', P)
BufFile = _f('LLVMCreateMemoryBufferWithContentsOfFile', C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseIR = _f('LLVMParseIRInContext', C.c_int, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
FirstFn = _f('LLVMGetFirstFunction', P, P)
NextFn = _f('LLVMGetNextFunction', P, P)
ValName = _f('LLVMGetValueName2', C.c_char_p, P, C.POINTER(C.c_size_t))
IsDecl = _f('LLVMIsDeclaration', C.c_int, P)
FirstBB = _f('LLVMGetFirstBasicBlock', P, P)
NextBB = _f('LLVMGetNextBasicBlock', P, P)
FirstI = _f('LLVMGetFirstInstruction', P, P)
NextI = _f('LLVMGetNextInstruction', P, P)
Opcode = _f('LLVMGetInstructionOpcode', C.c_int, P)
NumOps = _f('LLVMGetNumOperands', C.c_int, P)
Operand = _f('LLVMGetOperand', P, P, C.c_uint)
TypeOf = _f('LLVMTypeOf', P, P)
TypeKind = _f('LLVMGetTypeKind', C.c_int, P)
IntW = _f('LLVMGetIntTypeWidth', C.c_uint, P)
ICmp = _f('LLVMGetICmpPredicate', C.c_int, P)
FCmp = _f('LLVMGetFCmpPredicate', C.c_int, P)
GepTy = _f('LLVMGetGEPSourceElementType', P, P)
DataLayout = _f('LLVMGetModuleDataLayout', P, P)
OffEl = _f('LLVMOffsetOfElement', C.c_ulonglong, P, P, C.c_uint)
SizeOf = _f('LLVMABISizeOfType', C.c_ulonglong, P, P)
StoreSize = _f('LLVMStoreSizeOfType', C.c_ulonglong, P, P)
ElTy = _f('LLVMGetElementType', P, P)
StructEl = _f('LLVMStructGetTypeAtIndex', P, P, C.c_uint)
ArrLen = _f('LLVMGetArrayLength', C.c_uint, P)
CntInc = _f('LLVMCountIncoming', C.c_uint, P)
IncVal = _f('LLVMGetIncomingValue', P, P, C.c_uint)
IncBB = _f('LLVMGetIncomingBlock', P, P, C.c_uint)
IsInst = _f('LLVMIsAInstruction', P, P)
IsCI = _f('LLVMIsAConstantInt', P, P)
IsCF = _f('LLVMIsAConstantFP', P, P)
IsNull = _f('LLVMIsNull', C.c_int, P)
IsUndef = _f('LLVMIsUndef', C.c_int, P)
IsFn = _f('LLVMIsAFunction', P, P)
IsGV = _f('LLVMIsAGlobalVariable', P, P)
IsCE = _f('LLVMIsAConstantExpr', P, P)
IsArg = _f('LLVMIsAArgument', P, P)
CEOp = _f('LLVMGetConstOpcode', C.c_int, P)
CIVal = _f('LLVMConstIntGetZExtValue', C.c_ulonglong, P)
CFVal = _f('LLVMConstRealGetDouble', C.c_double, P, C.POINTER(C.c_int))
Called = _f('LLVMGetCalledValue', P, P)
Term = _f('LLVMGetBasicBlockTerminator', P, P)
NSucc = _f('LLVMGetNumSuccessors', C.c_uint, P)
Succ = _f('LLVMGetSuccessor', P, P, C.c_uint)
IsCond = _f('LLVMIsConditional', C.c_int, P)
Cond = _f('LLVMGetCondition', P, P)
CntPar = _f('LLVMCountParams', C.c_uint, P)
GetPar = _f('LLVMGetParam', P, P, C.c_uint)
AllocTy = _f('LLVMGetAllocatedType', P, P)
DbgLoc = _f('LLVMInstructionGetDebugLoc', P, P)
LocLine = _f('LLVMDILocationGetLine', C.c_uint, P)
LocScope = _f('LLVMDILocationGetScope', P, P)
LocIA = _f('LLVMDILocationGetInlinedAt', P, P)
ScopeFile = _f('LLVMDIScopeGetFile', P, P)
FileName = _f('LLVMDIFileGetFilename', P, P, C.POINTER(C.c_uint))
SPLine = _f('LLVMDISubprogramGetLine', C.c_uint, P)
NumIdx = _f('LLVMGetNumIndices', C.c_uint, P)
Idxs = _f('LLVMGetIndices', C.POINTER(C.c_uint), P)
GetNSW = getattr(L, 'LLVMGetNSW', None)
if GetNSW is not None:
    GetNSW.restype = C.c_int
    GetNSW.argtypes = [P]
DisposeM = _f('LLVMDisposeModule', None, P)
BBVal = _f('LLVMBasicBlockAsValue', P, P)
GetInit = _f('LLVMGetInitializer', P, P)
FirstGlobal = _f('LLVMGetFirstGlobal', P, P)
NextGlobal = _f('LLVMGetNextGlobal', P, P)
IsCStr = _f('LLVMIsConstantString', C.c_int, P)
CStr = _f('LLVMGetAsString', P, P, C.POINTER(C.c_size_t))
IsCDS = _f('LLVMIsAConstantDataSequential', P, P)
NumArgs = _f('LLVMGetNumArgOperands', C.c_uint, P)
FnRetTy = _f('LLVMGetReturnType', P, P)
GlobalValTy = _f('LLVMGlobalGetValueType', P, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 5: 'invoke', 7: 'unreachable', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl',
       21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'gep',
       30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc',
       38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call',
       46: 'select', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 66: 'fneg', 68: 'freeze', 58: 'resume', 59: 'landingpad'}
ICP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq',
       10: 'ugt', 11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Inst:
    __slots__ = ('op', 'id', 'ops', 'ty', 'extra', 'loc', 'nsw', 'bb')


class Block:
    __slots__ = ('name', 'phis', 'insts', 'term', 'succs', 'preds', 'idx')


class Func:
    pass


class Lazy(dict):
    """function name -> Func, read on first use"""
    def __init__(self, mod):
        self.mod, self.raw = mod, {}

    def __missing__(self, nm):
        r = self[nm] = self.mod.read_fn(self.raw[nm], nm)
        return r

    def __contains__(self, nm):
        return nm in self.raw

    def __iter__(self):
        return iter(self.raw)


class Module:
    def __init__(self, path):
        ctx = CtxCreate()
        buf, err = P(), C.c_char_p()
        if BufFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(err.value)
        m = P()
        if ParseIR(ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError(err.value)
        self.dl = DataLayout(m)
        self.funcs = Lazy(self)
        self.strings = {}
        g = FirstGlobal(m)
        while g:
            i = GetInit(g)
            ln = C.c_size_t()
            if i and IsCDS(i) and IsCStr(i):
                q = CStr(i, C.byref(ln))
                self.strings[self.name(g)] = C.string_at(q, ln.value)
            elif i and IsNull(i) and TypeKind(TypeOf(i)) == 11:
                self.strings[self.name(g)] = b'\0' * ArrLen(TypeOf(i))
            g = NextGlobal(g)
        self.m = m
        self.loc_cache = {}
        f = FirstFn(m)
        while f:
            if not IsDecl(f):
                self.funcs.raw[self.name(f)] = f
            f = NextFn(f)

    def name(self, v):
        n = C.c_size_t()
        s = ValName(v, C.byref(n))
        return s.decode()[:n.value] if s else ''

    def ty(self, t):
        k = TypeKind(t)
        if k == 8:
            return ('i', IntW(t))
        if k == 3:
            return ('f', 64)
        if k == 2:
            return ('f', 32)
        if k == 12:
            return ('p', 64)
        if k == 0:
            return ('void', 0)
        if k == 4:
            return ('f', 80)
        return ('agg', SizeOf(self.dl, t) if k in (10, 11, 13) else k)

    def loc(self, i):
        d = DbgLoc(i)
        if not d:
            return None
        if d in self.loc_cache:
            return self.loc_cache[d]
        chain = []
        x = d
        while x:
            sc = LocScope(x)
            fl = ScopeFile(sc) if sc else None
            n = C.c_uint()
            fn = ''
            if fl:
                p = FileName(fl, C.byref(n))
                fn = C.string_at(p, n.value).decode() if p else ''
            chain.append((fn, LocLine(x)))
            x = LocIA(x)
        self.loc_cache[d] = chain
        return chain

    def operand(self, v):
        if IsInst(v) or IsArg(v):
            return ('v', v)
        if IsCI(v):
            w = IntW(TypeOf(v))
            return ('ci', CIVal(v) & ((1 << w) - 1), w)
        if IsCF(v):
            x = C.c_int()
            return ('cf', CFVal(v, C.byref(x)))
        if IsFn(v):
            return ('fn', self.name(v))
        if IsUndef(v):
            return ('undef', self.ty(TypeOf(v)))
        if IsGV(v):
            return ('gv', self.name(v))
        if IsCE(v):
            op = OPC.get(CEOp(v), '?')
            if op == 'gep':
                return ('cgep', self.gep(v))
            return ('ce', op, [self.operand(Operand(v, k)) for k in range(NumOps(v))])
        if IsNull(v):
            t = self.ty(TypeOf(v))
            if t[0] == 'p':
                return ('null',)
            return ('zero', t)
        return ('unk', self.ty(TypeOf(v)))

    def gep(self, v):
        """-> (base operand, const offset, [(operand, width, stride)])"""
        t = GepTy(v)
        n = NumOps(v)
        base = self.operand(Operand(v, 0))
        const, var = 0, []
        for k in range(1, n):
            o = Operand(v, k)
            if k > 1:
                tk = TypeKind(t)
                if tk == 10:
                    fi = CIVal(o)
                    const += OffEl(self.dl, t, fi)
                    t = StructEl(t, fi)
                    continue
                t = ElTy(t)
            sz = SizeOf(self.dl, t)
            if IsCI(o):
                w = IntW(TypeOf(o))
                x = CIVal(o)
                if x >> (w - 1) & 1:
                    x -= 1 << w
                const += x * sz
            else:
                var.append((self.operand(o), IntW(TypeOf(o)), sz))
        return base, const, var

    def read_fn(self, f, nm):
        F = Func()
        F.name = nm
        F.args = [GetPar(f, k) for k in range(CntPar(f))]
        F.argtys = [self.ty(TypeOf(a)) for a in F.args]
        bbs, order = {}, []
        b = FirstBB(f)
        while b:
            B = Block()
            B.idx = len(order)
            B.preds = []
            bbs[b] = B
            bbs[BBVal(b)] = B
            order.append((b, B))
            b = NextBB(b)
        for b, B in order:
            B.phis, B.insts = [], []
            i = FirstI(b)
            while i:
                oc = OPC.get(Opcode(i), 'op%d' % Opcode(i))
                I = Inst()
                I.op = oc
                I.id = i
                I.ty = self.ty(TypeOf(i))
                I.loc = self.loc(i)
                I.extra = None
                I.nsw = False
                I.bb = B
                if oc == 'phi':
                    I.ops = [(self.operand(IncVal(i, k)), bbs[IncBB(i, k)]) for k in range(CntInc(i))]
                    B.phis.append(I)
                elif oc == 'gep':
                    I.ops = []
                    I.extra = self.gep(i)
                    B.insts.append(I)
                elif oc in ('br', 'ret', 'unreachable', 'switch'):
                    I.ops = []
                    if oc == 'br':
                        B.succs = [bbs[Succ(i, k)] for k in range(NSucc(i))]
                        if IsCond(i):
                            I.ops = [self.operand(Cond(i))]
                    elif oc == 'switch':
                        n = NumOps(i)
                        I.ops = [self.operand(Operand(i, 0))]
                        I.extra = [(self.operand(Operand(i, k)), bbs[Operand(i, k + 1)]) for k in range(2, n, 2)]
                        B.succs = [bbs[Operand(i, 1)]] + [e[1] for e in I.extra]
                    else:
                        B.succs = []
                        if oc == 'ret' and NumOps(i):
                            I.ops = [self.operand(Operand(i, 0))]
                    B.term = I
                elif oc in ('call', 'invoke'):
                    n = NumArgs(i)
                    I.extra = self.operand(Called(i))
                    I.ops = [self.operand(Operand(i, k)) if TypeKind(TypeOf(Operand(i, k))) != 14 else ('md',) for k in range(n)]
                    B.insts.append(I)
                    if oc == 'invoke':
                        B.succs = [bbs[Succ(i, k)] for k in range(NSucc(i))]
                        T = Inst(); T.op = 'br'; T.ops = []; T.id = None; T.ty = ('void', 0); T.loc = I.loc
                        T.extra = None; T.nsw = False; T.bb = B
                        B.succs = B.succs[:1]
                        B.term = T
                else:
                    I.ops = [self.operand(Operand(i, k)) for k in range(NumOps(i))]
                    if oc == 'icmp':
                        I.extra = (ICP[ICmp(i)], self.ty(TypeOf(Operand(i, 0))))
                    elif oc == 'fcmp':
                        I.extra = FCP[FCmp(i)]
                    elif oc in ('extractvalue', 'insertvalue'):
                        ix = Idxs(i)
                        I.extra = [ix[k] for k in range(NumIdx(i))]
                    elif oc == 'alloca':
                        I.extra = SizeOf(self.dl, AllocTy(i))
                    elif oc == 'store':
                        o = Operand(i, 0)
                        I.extra = (self.ty(TypeOf(o)), StoreSize(self.dl, TypeOf(o)))
                    elif oc == 'load':
                        I.extra = StoreSize(self.dl, TypeOf(i))
                    elif oc in ('trunc', 'zext', 'sext', 'fptoui', 'fptosi', 'uitofp', 'sitofp'):
                        I.extra = self.ty(TypeOf(Operand(i, 0)))
                    if oc in ('add', 'sub', 'mul', 'shl') and GetNSW is not None:
                        I.nsw = bool(GetNSW(i))
                    B.insts.append(I)
                i = NextI(i)
        F.blocks = [B for _, B in order]
        for B in F.blocks:
            for s in B.succs:
                s.preds.append(B)
        return F
