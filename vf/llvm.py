"""Lazy decoding of LLVM 18 bitcode through the LLVM C API (ctypes).

Everything the verifier knows about the program comes from here: the module is
what clang produced from /repo's current source.  Functions are decoded when
first called.
"""
import ctypes as C
import glob

_cands = ["/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"] \
    + glob.glob("/usr/lib/x86_64-linux-gnu/libLLVM*18*")
L = None
for _c in _cands:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        pass
if L is None:
    raise RuntimeError("libLLVM 18 not found")

P = C.c_void_p
U = C.c_uint
ULL = C.c_ulonglong


def _f(name, res, *args):
    fn = getattr(L, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateMemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
ParseBitcode = _f("LLVMParseBitcode2", C.c_int, P, C.POINTER(P))
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetValueName2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetFirstBB = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBB = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInst = _f("LLVMGetFirstInstruction", P, P)
GetNextInst = _f("LLVMGetNextInstruction", P, P)
GetOpcode = _f("LLVMGetInstructionOpcode", C.c_int, P)
GetNumOperands = _f("LLVMGetNumOperands", C.c_int, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", C.c_int, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", U, P)
GetValueKind = _f("LLVMGetValueKind", C.c_int, P)
ConstIntZExt = _f("LLVMConstIntGetZExtValue", ULL, P)
GEPSourceElem = _f("LLVMGetGEPSourceElementType", P, P)
ICmpPred = _f("LLVMGetICmpPredicate", C.c_int, P)
FCmpPred = _f("LLVMGetFCmpPredicate", C.c_int, P)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
GetSucc = _f("LLVMGetSuccessor", P, P, U)
IsConditional = _f("LLVMIsConditional", C.c_int, P)
GetCondition = _f("LLVMGetCondition", P, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncomingValue = _f("LLVMGetIncomingValue", P, P, U)
IncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
GetCalledValue = _f("LLVMGetCalledValue", P, P)
GetCalledFT = _f("LLVMGetCalledFunctionType", P, P)
GetNumArgOperands = _f("LLVMGetNumArgOperands", U, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
GetUnwindDest = _f("LLVMGetUnwindDest", P, P)
GetNumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", C.c_int, P)
GetNumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
GetAllocatedType = _f("LLVMGetAllocatedType", P, P)
GetDL = _f("LLVMGetModuleDataLayout", P, P)
ABISize = _f("LLVMABISizeOfType", ULL, P, P)
StoreSize = _f("LLVMStoreSizeOfType", ULL, P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", ULL, P, P, U)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", C.c_int, P)
IsThreadLocal = _f("LLVMIsThreadLocal", C.c_int, P)
IsDeclaration = _f("LLVMIsDeclaration", C.c_int, P)
ConstOpcode = _f("LLVMGetConstOpcode", C.c_int, P)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
GetAggElem = _f("LLVMGetAggregateElement", P, P, U)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
ElemType = _f("LLVMGetElementType", P, P)
CountStructElems = _f("LLVMCountStructElementTypes", U, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, P)
DbgLine = _f("LLVMGetDebugLocLine", U, P)
DbgFile = _f("LLVMGetDebugLocFilename", C.c_char_p, P, C.POINTER(U))
BasicBlockAsValue = _f("LLVMBasicBlockAsValue", P, P)
PrintValue = _f("LLVMPrintValueToString", P, P)
PrintType = _f("LLVMPrintTypeToString", P, P)
GlobalValueType = _f("LLVMGlobalGetValueType", P, P)
IsVarArg = _f("LLVMIsFunctionVarArg", C.c_int, P)
GetReturnType = _f("LLVMGetReturnType", P, P)
GetLinkage = _f("LLVMGetLinkage", C.c_int, P)
ReplaceAllUses = _f("LLVMReplaceAllUsesWith", None, P, P)
_NamedGlobal = _f("LLVMGetNamedGlobal", P, P, C.c_char_p)
_DeleteGlobal = _f("LLVMDeleteGlobal", None, P)


def drop_global(mod, name):
    g = _NamedGlobal(mod, name)
    if g:
        _DeleteGlobal(g)


WriteBitcode = _f("LLVMWriteBitcodeToFile", C.c_int, P, C.c_char_p)
GetVectorSize = _f("LLVMGetVectorSize", U, P)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       49: 'vaarg', 50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue',
       54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}

# value kinds
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_IFUNC, VK_GVAR, VK_BLOCKADDR, VK_CE, VK_CARRAY, VK_CSTRUCT, VK_CVEC, \
    VK_UNDEF, VK_AGGZERO, VK_DATAARRAY, VK_DATAVEC, VK_CINT, VK_CFP, VK_NULL, VK_TOKNONE, VK_MDVAL, VK_ASM, VK_INST = \
    0, 1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24
VK_POISON = 25

# type kinds
TK_VOID, TK_FLOAT, TK_DOUBLE, TK_X86FP80, TK_LABEL, TK_INT, TK_FUNC, TK_STRUCT, TK_ARRAY, TK_PTR, TK_VECTOR, TK_META = \
    0, 2, 3, 4, 7, 8, 9, 10, 11, 12, 13, 14


class Ty:
    __slots__ = ("kind", "width", "size", "store", "elems", "offs", "count", "elem", "ref")

    def __repr__(self):
        return f"<{self.kind}{self.width or ''} size={self.size}>"


class Inst:
    __slots__ = ("op", "dst", "ty", "args", "x", "line", "file", "idx", "aty")


class Block:
    __slots__ = ("name", "insts", "idx", "phis", "succs", "fn")


class Func:
    pass


class Module:
    def __init__(self, path):
        buf, err = P(), C.c_char_p()
        if CreateMemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError(f"cannot read {path}")
        mod = P()
        if ParseBitcode(buf, C.byref(mod)):
            raise RuntimeError(f"cannot parse {path}")
        self.mod = mod
        self.dl = GetDL(mod)
        self.types = {}
        self.funcs = {}
        self.func_by_ref = {}
        self.globals = {}
        self.glob_by_ref = {}
        self.aliases = {}
        f = GetFirstFunction(mod)
        while f:
            fn = Func()
            fn.ref = f
            fn.name = self.name(f)
            fn.decl = bool(IsDeclaration(f))
            fn.decoded = False
            self.funcs[fn.name] = fn
            self.func_by_ref[f] = fn
            f = GetNextFunction(f)
        g = GetFirstGlobal(mod)
        while g:
            n = self.name(g)
            self.globals[n] = g
            self.glob_by_ref[g] = n
            g = GetNextGlobal(g)
        a = GetFirstAlias(mod)
        while a:
            self.aliases[a] = AliasGetAliasee(a)
            n = self.name(a)
            tgt = self.func_by_ref.get(self.aliases[a])
            if tgt and n not in self.funcs:
                self.funcs[n] = tgt
            a = GetNextAlias(a)

    def name(self, v):
        n = C.c_size_t()
        s = GetValueName2(v, C.byref(n))
        return s.decode() if s else ""

    def ty(self, t):
        r = self.types.get(t)
        if r:
            return r
        r = Ty()
        r.ref = t
        r.width = 0
        r.elems = r.offs = r.count = r.elem = None
        self.types[t] = r
        k = GetTypeKind(t)
        if k == TK_INT:
            r.kind = 'int'
            r.width = GetIntTypeWidth(t)
        elif k == TK_PTR:
            r.kind = 'ptr'
            r.width = 64
        elif k == TK_STRUCT:
            r.kind = 'struct'
        elif k == TK_ARRAY:
            r.kind = 'array'
            r.count = ArrayLen(t)
            r.elem = self.ty(ElemType(t))
        elif k in (TK_FLOAT, TK_DOUBLE, TK_X86FP80):
            r.kind = 'fp'
            r.width = {TK_FLOAT: 32, TK_DOUBLE: 64, TK_X86FP80: 80}[k]
        elif k == TK_VOID:
            r.kind = 'void'
        elif k == TK_FUNC:
            r.kind = 'func'
        elif k == TK_VECTOR:
            r.kind = 'vec'
            r.count = GetVectorSize(t)
            r.elem = self.ty(ElemType(t))
        else:
            r.kind = 'other%d' % k
        if r.kind in ('int', 'ptr', 'struct', 'array', 'fp', 'vec'):
            r.size = ABISize(self.dl, t)
            r.store = StoreSize(self.dl, t)
        else:
            r.size = r.store = 0
        if r.kind == 'struct':
            n = CountStructElems(t)
            r.elems = [self.ty(StructElem(t, i)) for i in range(n)]
            r.offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
        return r

    def tyof(self, v):
        return self.ty(TypeOf(v))

    def decode(self, fn, const):
        """Decode a function body; const(valueref) turns constants into engine values."""
        if fn.decoded:
            return fn
        fn.decoded = True
        fn.loops = None
        slots = {}
        fn.argnames = []
        fn.argtys = []
        for i in range(CountParams(fn.ref)):
            p = GetParam(fn.ref, i)
            slots[p] = len(slots)
            fn.argnames.append(self.name(p))
            fn.argtys.append(self.tyof(p))
        fn.nargs = len(slots)
        fn.varnames = dict(enumerate(fn.argnames))
        blocks = []
        bbs = {}
        bb = GetFirstBB(fn.ref)
        while bb:
            b = Block()
            b.idx = len(blocks)
            b.name = self.name(BasicBlockAsValue(bb))
            b.fn = fn
            bbs[bb] = b
            bbs[BasicBlockAsValue(bb)] = b
            insts = []
            i = GetFirstInst(bb)
            while i:
                if self.tyof(i).kind != 'void':
                    slots[i] = len(slots)
                insts.append(i)
                i = GetNextInst(i)
            b.insts = insts
            blocks.append(b)
            bb = GetNextBB(bb)
        fn.nslots = len(slots)
        fn.slot_line = {}

        def opnd(v):
            s = slots.get(v)
            if s is not None:
                return s
            k = GetValueKind(v)
            if k == VK_MDVAL:
                return ('meta',)
            return ('c', const(v))

        last = (None, 0)
        for b in blocks:
            out = []
            phis = []
            b.succs = []
            for ref in b.insts:
                I = Inst()
                opc = GetOpcode(ref)
                I.op = OPC.get(opc, 'op%d' % opc)
                I.ty = self.tyof(ref)
                I.dst = slots.get(ref)
                I.x = None
                I.aty = None
                n = U()
                line = DbgLine(ref)
                if line:
                    fl = DbgFile(ref, C.byref(n))
                    last = (fl[:n.value].decode() if fl else None, line)
                    I.file, I.line = last
                else:
                    I.file, I.line = last[0], 0
                op = I.op
                if I.dst is not None:
                    nm = self.name(ref)
                    if nm:
                        fn.varnames[I.dst] = nm
                if op == 'phi':
                    I.args = [(bbs[IncomingBlock(ref, k)].idx, opnd(IncomingValue(ref, k)))
                              for k in range(CountIncoming(ref))]
                    phis.append(I)
                    continue
                if op == 'br':
                    b.succs = [bbs[GetSucc(ref, k)] for k in range(NumSucc(ref))]
                    I.x = b.succs
                    I.args = [opnd(GetCondition(ref))] if IsConditional(ref) else []
                elif op == 'switch':
                    b.succs = [bbs[GetSucc(ref, k)] for k in range(NumSucc(ref))]
                    nops = GetNumOperands(ref)
                    cases = []
                    for k in range(2, nops, 2):
                        cases.append((ConstIntZExt(GetOperand(ref, k)), b.succs[k // 2]))
                    I.x = (cases, b.succs[0])
                    I.args = [opnd(GetOperand(ref, 0))]
                    I.aty = self.tyof(GetOperand(ref, 0))
                elif op in ('call', 'invoke'):
                    cv = GetCalledValue(ref)
                    na = GetNumArgOperands(ref)
                    I.args = [opnd(GetOperand(ref, k)) for k in range(na)]
                    I.aty = [self.tyof(GetOperand(ref, k)) if I.args[k] != ('meta',) else None for k in range(na)]
                    if GetValueKind(cv) == VK_ASM:
                        callee = ('asm', C.cast(PrintValue(cv), C.c_char_p).value.decode())
                    else:
                        callee = opnd(cv)
                    if op == 'invoke':
                        nd, ud = bbs[GetNormalDest(ref)], bbs[GetUnwindDest(ref)]
                        b.succs = [nd, ud]
                        I.x = (callee, nd, ud)
                    else:
                        I.x = (callee, None, None)
                elif op == 'gep':
                    base = opnd(GetOperand(ref, 0))
                    t = self.ty(GEPSourceElem(ref))
                    off = 0
                    terms = []
                    for k in range(1, GetNumOperands(ref)):
                        iv = GetOperand(ref, k)
                        if k > 1:
                            if t.kind == 'struct':
                                fi = ConstIntZExt(iv)
                                off += t.offs[fi]
                                t = t.elems[fi]
                                continue
                            t = t.elem
                        if GetValueKind(iv) == VK_CINT:
                            w = self.tyof(iv).width
                            c = ConstIntZExt(iv)
                            if w < 64 and c >> (w - 1):
                                c -= 1 << w
                            off += c * t.size
                        else:
                            terms.append((opnd(iv), self.tyof(iv).width, t.size))
                    I.args = [base]
                    I.x = (off & ((1 << 64) - 1), terms)
                elif op == 'icmp':
                    I.args = [opnd(GetOperand(ref, 0)), opnd(GetOperand(ref, 1))]
                    I.x = ICMP[ICmpPred(ref)]
                    I.aty = self.tyof(GetOperand(ref, 0))
                elif op == 'fcmp':
                    I.args = [opnd(GetOperand(ref, 0)), opnd(GetOperand(ref, 1))]
                    I.x = FCmpPred(ref)
                    I.aty = self.tyof(GetOperand(ref, 0))
                elif op == 'alloca':
                    I.args = [opnd(GetOperand(ref, 0))]
                    I.x = self.ty(GetAllocatedType(ref))
                elif op in ('extractvalue', 'insertvalue'):
                    n = GetNumIndices(ref)
                    idx = GetIndices(ref)
                    I.x = [idx[k] for k in range(n)]
                    I.args = [opnd(GetOperand(ref, k)) for k in range(GetNumOperands(ref))]
                    I.aty = self.tyof(GetOperand(ref, 0))
                elif op == 'landingpad':
                    I.x = (bool(IsCleanup(ref)), [const(GetClause(ref, k)) for k in range(GetNumClauses(ref))],
                           [self.tyof(GetClause(ref, k)).kind for k in range(GetNumClauses(ref))])
                    I.args = []
                elif op == 'atomicrmw':
                    I.x = RMWOp(ref)
                    I.args = [opnd(GetOperand(ref, 0)), opnd(GetOperand(ref, 1))]
                else:
                    I.args = [opnd(GetOperand(ref, k)) for k in range(GetNumOperands(ref))]
                    if I.args and op not in ('ret',):
                        I.aty = self.tyof(GetOperand(ref, 0))
                    elif op == 'ret' and I.args:
                        I.aty = self.tyof(GetOperand(ref, 0))
                out.append(I)
            b.insts = out
            b.phis = phis
        fn.blocks = blocks
        fn.slots = slots
        return fn


def dominators(fn):
    n = len(fn.blocks)
    preds = [[] for _ in range(n)]
    order = []
    seen = set()
    stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    seen.add(0)
    while stack:
        b, it = stack[-1]
        for s in it:
            preds[s.idx].append(b.idx)
            if s.idx not in seen:
                seen.add(s.idx)
                stack.append((s, iter(s.succs)))
                break
        else:
            order.append(b.idx)
            stack.pop()
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    changed = True
    while changed:
        changed = False
        for b in rpo:
            if b == 0:
                continue
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True
    return idom, preds, num


def loops_of(fn):
    """header block idx -> frozenset of block idx in the natural loop."""
    if fn.loops is not None:
        return fn.loops
    idom, preds, num = dominators(fn)

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]
    loops = {}
    for b in num:
        for s in fn.blocks[b].succs:
            if dom(s.idx, b):
                body = loops.setdefault(s.idx, {s.idx})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work.extend(preds[x])
    fn.loops = {h: frozenset(s) for h, s in loops.items()}
    fn.idom = idom
    fn.dom = dom
    return fn.loops
