"""Load LLVM IR (textual or bitcode) through libLLVM's C API into plain Python objects."""
import ctypes as C
import glob
import struct

_path = None
for p in ("/usr/lib/llvm-18/lib/libLLVM.so.1", "/usr/lib/llvm-18/lib/libLLVM-18.so"):
    if glob.glob(p):
        _path = p
        break
L = C.CDLL(_path)
P = C.c_void_p


def _f(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


U = C.c_uint
I = C.c_int
LLVMContextCreate = _f("LLVMContextCreate", P)
LLVMContextDispose = _f("LLVMContextDispose", None, P)
LLVMCreateMemoryBufferWithContentsOfFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p))
LLVMParseIRInContext = _f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(C.c_char_p))
GetModuleDataLayout = _f("LLVMGetModuleDataLayout", P, P)
GetFirstFunction = _f("LLVMGetFirstFunction", P, P)
GetNextFunction = _f("LLVMGetNextFunction", P, P)
GetFirstGlobal = _f("LLVMGetFirstGlobal", P, P)
GetNextGlobal = _f("LLVMGetNextGlobal", P, P)
GetFirstGlobalAlias = _f("LLVMGetFirstGlobalAlias", P, P)
GetNextGlobalAlias = _f("LLVMGetNextGlobalAlias", P, P)
AliasGetAliasee = _f("LLVMAliasGetAliasee", P, P)
GetInitializer = _f("LLVMGetInitializer", P, P)
IsGlobalConstant = _f("LLVMIsGlobalConstant", I, P)
GlobalGetValueType = _f("LLVMGlobalGetValueType", P, P)
IsDeclaration = _f("LLVMIsDeclaration", I, P)
GetValueName2 = _f("LLVMGetValueName2", C.c_char_p, P, C.POINTER(C.c_size_t))
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
GetFirstBasicBlock = _f("LLVMGetFirstBasicBlock", P, P)
GetNextBasicBlock = _f("LLVMGetNextBasicBlock", P, P)
GetFirstInstruction = _f("LLVMGetFirstInstruction", P, P)
GetNextInstruction = _f("LLVMGetNextInstruction", P, P)
GetInstructionOpcode = _f("LLVMGetInstructionOpcode", I, P)
GetNumOperands = _f("LLVMGetNumOperands", I, P)
GetOperand = _f("LLVMGetOperand", P, P, U)
GetValueKind = _f("LLVMGetValueKind", I, P)
TypeOf = _f("LLVMTypeOf", P, P)
GetTypeKind = _f("LLVMGetTypeKind", I, P)
GetIntTypeWidth = _f("LLVMGetIntTypeWidth", U, P)
CountStructElementTypes = _f("LLVMCountStructElementTypes", U, P)
StructGetTypeAtIndex = _f("LLVMStructGetTypeAtIndex", P, P, U)
GetArrayLength2 = _f("LLVMGetArrayLength2", C.c_uint64, P)
GetVectorSize = _f("LLVMGetVectorSize", U, P)
GetElementType = _f("LLVMGetElementType", P, P)
OffsetOfElement = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ABISizeOfType = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
ConstIntGetSExtValue = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
ConstRealGetDouble = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
GetConstOpcode = _f("LLVMGetConstOpcode", I, P)
GetGEPSourceElementType = _f("LLVMGetGEPSourceElementType", P, P)
GetICmpPredicate = _f("LLVMGetICmpPredicate", I, P)
GetFCmpPredicate = _f("LLVMGetFCmpPredicate", I, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
GetIncomingValue = _f("LLVMGetIncomingValue", P, P, U)
GetIncomingBlock = _f("LLVMGetIncomingBlock", P, P, U)
GetCalledValue = _f("LLVMGetCalledValue", P, P)
GetNumArgOperands = _f("LLVMGetNumArgOperands", U, P)
GetNormalDest = _f("LLVMGetNormalDest", P, P)
GetUnwindDest = _f("LLVMGetUnwindDest", P, P)
GetNumClauses = _f("LLVMGetNumClauses", U, P)
GetClause = _f("LLVMGetClause", P, P, U)
IsCleanup = _f("LLVMIsCleanup", I, P)
GetNumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
GetAllocatedType = _f("LLVMGetAllocatedType", P, P)
GetElementAsConstant = _f("LLVMGetElementAsConstant", P, P, U)
GetAggregateElement = _f("LLVMGetAggregateElement", P, P, U)
GetNumSuccessors = _f("LLVMGetNumSuccessors", U, P)
GetSuccessor = _f("LLVMGetSuccessor", P, P, U)
IsConditional = _f("LLVMIsConditional", I, P)
GetCondition = _f("LLVMGetCondition", P, P)
ValueAsBasicBlock = _f("LLVMValueAsBasicBlock", P, P)
BasicBlockAsValue = _f("LLVMBasicBlockAsValue", P, P)
PrintValueToString = _f("LLVMPrintValueToString", C.c_char_p, P)
PrintTypeToString = _f("LLVMPrintTypeToString", C.c_char_p, P)
GetReturnType = _f("LLVMGetReturnType", P, P)
GetAtomicRMWBinOp = _f("LLVMGetAtomicRMWBinOp", I, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 67: "callbr", 66: "fneg", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl",
       21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc",
       31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq", 10: "ugt", 11: "uge",
        12: "ult", 13: "ule", 14: "une", 15: "true"}


class Type:
    __slots__ = ("kind", "bits", "elem", "n", "fields", "offs", "size", "s")

    def __repr__(self):
        return self.s


class Inst:
    __slots__ = ("op", "ty", "ops", "x", "id", "name")


class Block:
    __slots__ = ("name", "insts", "succs", "preds", "idx", "phis")


class Func:
    __slots__ = ("name", "params", "blocks", "decl", "rety", "cfg", "mod")


class Const:
    """kind: int,float,null,undef,zero,agg,global,func,gep,cast,str"""
    __slots__ = ("kind", "ty", "v")

    def __init__(self, kind, ty, v):
        self.kind, self.ty, self.v = kind, ty, v


class Local:
    __slots__ = ("id", "ty")

    def __init__(self, id, ty):
        self.id, self.ty = id, ty


class Module:
    def __init__(self, path):
        self.ctx = LLVMContextCreate()
        buf = P()
        err = C.c_char_p()
        if LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if LLVMParseIRInContext(self.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("cannot parse " + path + ": " + str(err.value))
        self.m = m
        self.dl = GetModuleDataLayout(m)
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.aliases = {}
        self._raw = {}
        g = GetFirstGlobal(m)
        while g:
            name = self.name(g)
            self.globals[name] = g
            g = GetNextGlobal(g)
        f = GetFirstFunction(m)
        while f:
            name = self.name(f)
            self._raw[name] = f
            f = GetNextFunction(f)
        a = GetFirstGlobalAlias(m)
        while a:
            self.aliases[self.name(a)] = self.name(AliasGetAliasee(a))
            a = GetNextGlobalAlias(a)
        self._ginit = {}

    def name(self, v):
        n = C.c_size_t()
        s = GetValueName2(v, C.byref(n))
        return s[: n.value].decode() if s else ""

    def ty(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        r = Type()
        self.types[t] = r
        k = GetTypeKind(t)
        r.bits = r.elem = r.n = r.fields = r.offs = None
        r.size = 0
        r.s = "?"
        if k == 0:
            r.kind = "void"
        elif k in (1, 2, 3, 4, 5):
            r.kind = "float"
            r.bits = {1: 16, 2: 32, 3: 64, 4: 80, 5: 128}[k]
        elif k == 8:
            r.kind = "int"
            r.bits = GetIntTypeWidth(t)
        elif k == 9:
            r.kind = "func"
        elif k == 10:
            r.kind = "struct"
            n = CountStructElementTypes(t)
            r.fields = [self.ty(StructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [OffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                r.offs = []
        elif k == 11:
            r.kind = "array"
            r.n = GetArrayLength2(t)
            r.elem = self.ty(GetElementType(t))
        elif k == 12:
            r.kind = "ptr"
        elif k == 13:
            r.kind = "vector"
            r.n = GetVectorSize(t)
            r.elem = self.ty(GetElementType(t))
        else:
            r.kind = "other%d" % k
        if r.kind in ("float", "int", "struct", "array", "ptr", "vector"):
            r.size = ABISizeOfType(self.dl, t)
        s = r.kind
        if r.bits:
            s += str(r.bits)
        r.s = s
        return r

    def func(self, name):
        f = self.funcs.get(name)
        if f is not None:
            return f
        if name in self.aliases:
            return self.func(self.aliases[name])
        raw = self._raw.get(name)
        if raw is None:
            return None
        f = Func()
        f.name = name
        f.mod = self
        f.decl = bool(IsDeclaration(raw))
        f.cfg = None
        self.funcs[name] = f
        ids = {}
        f.params = []
        for i in range(CountParams(raw)):
            p = GetParam(raw, i)
            ids[p] = len(ids)
            f.params.append(Local(ids[p], self.ty(TypeOf(p))))
        f.blocks = []
        if f.decl:
            return f
        bbs = {}
        b = GetFirstBasicBlock(raw)
        order = []
        while b:
            bbs[b] = len(order)
            order.append(b)
            i = GetFirstInstruction(b)
            while i:
                ids[i] = len(ids)
                i = GetNextInstruction(i)
            b = GetNextBasicBlock(b)
        for bi, b in enumerate(order):
            B = Block()
            B.idx = bi
            B.name = "bb%d" % bi
            B.insts = []
            B.phis = []
            B.preds = []
            B.succs = []
            i = GetFirstInstruction(b)
            while i:
                ins = self.inst(i, ids, bbs)
                (B.phis if ins.op == "phi" else B.insts).append(ins)
                i = GetNextInstruction(i)
            f.blocks.append(B)
        for B in f.blocks:
            t = B.insts[-1]
            if t.op == "br":
                B.succs = list(t.x)
            elif t.op == "switch":
                B.succs = [t.x[0]] + [d for _, d in t.x[1]]
            elif t.op == "invoke":
                B.succs = [t.x[1], t.x[2]]
            for s in B.succs:
                if B.idx not in f.blocks[s].preds:
                    f.blocks[s].preds.append(B.idx)
        return f

    def inst(self, i, ids, bbs):
        r = Inst()
        r.id = ids[i]
        r.op = OPC.get(GetInstructionOpcode(i), "op%d" % GetInstructionOpcode(i))
        r.ty = self.ty(TypeOf(i))
        r.x = None
        r.name = None
        n = GetNumOperands(i)
        val = lambda v: self.val(v, ids)
        if r.op == "br":
            if IsConditional(i):
                r.ops = [val(GetCondition(i))]
            else:
                r.ops = []
            r.x = [bbs[GetSuccessor(i, k)] for k in range(GetNumSuccessors(i))]
        elif r.op == "switch":
            r.ops = [val(GetOperand(i, 0))]
            cases = []
            for k in range(2, n, 2):
                cases.append((ConstIntGetSExtValue(GetOperand(i, k)), bbs[ValueAsBasicBlock(GetOperand(i, k + 1))]))
            r.x = (bbs[ValueAsBasicBlock(GetOperand(i, 1))], cases)
        elif r.op == "phi":
            r.ops = []
            r.x = [(bbs[GetIncomingBlock(i, k)], val(GetIncomingValue(i, k))) for k in range(CountIncoming(i))]
        elif r.op in ("call", "invoke"):
            na = GetNumArgOperands(i)
            r.ops = [val(GetOperand(i, k)) for k in range(na)]
            cv = val(GetCalledValue(i))
            if r.op == "call":
                r.x = (cv,)
            else:
                r.x = (cv, bbs[GetNormalDest(i)], bbs[GetUnwindDest(i)])
        elif r.op == "landingpad":
            r.ops = []
            r.x = ([val(GetClause(i, k)) for k in range(GetNumClauses(i))], bool(IsCleanup(i)))
        else:
            r.ops = [val(GetOperand(i, k)) for k in range(n)]
            if r.op == "icmp":
                r.x = ICMP[GetICmpPredicate(i)]
            elif r.op == "fcmp":
                r.x = FCMP[GetFCmpPredicate(i)]
            elif r.op == "getelementptr":
                r.x = self.ty(GetGEPSourceElementType(i))
            elif r.op == "alloca":
                r.x = self.ty(GetAllocatedType(i))
            elif r.op in ("extractvalue", "insertvalue"):
                ix = GetIndices(i)
                r.x = [ix[k] for k in range(GetNumIndices(i))]
            elif r.op == "atomicrmw":
                r.x = GetAtomicRMWBinOp(i)
        return r

    def val(self, v, ids):
        k = GetValueKind(v)
        if v in ids:
            return Local(ids[v], self.ty(TypeOf(v)))
        return self.const(v)

    def const(self, v):
        k = GetValueKind(v)
        t = self.ty(TypeOf(v))
        # LLVMValueKind: 0 Argument 1 BB 2 MemUse 3 MemDef 4 MemPhi 5 Function 6 GlobalAlias 7 IFunc 8 GlobalVar 9 BlockAddr
        # 10 ConstExpr 11 ConstArray 12 ConstStruct 13 ConstVector 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 Int 19 FP
        # 20 NullPtr 21 TokenNone 22 Metadata 23 InlineAsm 24 Instruction 25 Poison 26 TargetNone
        if k == 5:
            return Const("func", t, self.name(v))
        if k == 6:
            tgt = self.aliases.get(self.name(v))
            return Const("func", t, tgt) if tgt in self._raw else Const("global", t, tgt)
        if k == 8:
            return Const("global", t, self.name(v))
        if k == 18:
            if t.bits and t.bits > 64:
                s = PrintValueToString(v).decode().split()[-1]
                return Const("int", t, int(s))
            return Const("int", t, ConstIntGetSExtValue(v))
        if k == 19:
            li = I()
            return Const("float", t, ConstRealGetDouble(v, C.byref(li)))
        if k == 20:
            return Const("null", t, None)
        if k in (14, 25):
            return Const("undef", t, None)
        if k == 15:
            return Const("zero", t, None)
        if k in (16, 17):
            return Const("agg", t, [self.const(GetElementAsConstant(v, i)) for i in range(t.n)])
        if k in (11, 12, 13):
            n = GetNumOperands(v)
            return Const("agg", t, [self.const(GetOperand(v, i)) for i in range(n)])
        if k == 10:
            op = OPC.get(GetConstOpcode(v))
            ops = [self.const(GetOperand(v, i)) for i in range(GetNumOperands(v))]
            if op == "getelementptr":
                return Const("gep", t, (self.ty(GetGEPSourceElementType(v)), ops))
            return Const("cexpr", t, (op, ops, (ICMP[GetICmpPredicate(v)] if op == "icmp" else None)))
        if k == 22:
            return Const("meta", t, None)
        return Const("other", t, k)

    def ginit(self, name):
        """Initializer of a global variable (Const) or None; and its type."""
        if name not in self._ginit:
            g = self.globals.get(name)
            if g is None:
                self._ginit[name] = (None, None, False)
            else:
                ini = GetInitializer(g)
                self._ginit[name] = (self.const(ini) if ini else None, self.ty(GlobalGetValueType(g)), bool(IsGlobalConstant(g)))
        return self._ginit[name]


class CFG:
    """dominator-free helpers: immediate post-dominators and natural loops of a function."""

    def __init__(self, f):
        n = len(f.blocks)
        self.n = n
        succ = [list(dict.fromkeys(b.succs)) for b in f.blocks]
        # reverse post order
        seen = [False] * n
        order = []
        stack = [(0, iter(succ[0]))]
        seen[0] = True
        while stack:
            b, it = stack[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    stack.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = order[::-1]
        self.rponum = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        self.idom = {0: 0}
        preds = {b: [p for p in f.blocks[b].preds if seen[p]] for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in self.idom:
                        new = p if new is None else self._ix(self.idom, self.rponum, p, new)
                if self.idom.get(b) != new:
                    self.idom[b] = new
                    ch = True
        # post dominators; virtual exit = n. Blocks ending in unreachable / resume are ignored as exits (they never rejoin).
        ends = [b for b in self.rpo if f.blocks[b].insts[-1].op == "ret"]
        rsucc = {b: list(succ[b]) for b in self.rpo}
        for e in ends:
            rsucc[e] = [n]
        rpred = {b: [] for b in self.rpo}
        rpred[n] = []
        for b in self.rpo:
            for s in rsucc[b]:
                rpred[s].append(b)
        # order from exit
        seen2 = {n}
        order2 = []
        stack = [(n, iter(rpred[n]))]
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen2:
                    seen2.add(s)
                    stack.append((s, iter(rpred[s])))
                    break
            else:
                order2.append(b)
                stack.pop()
        rp = order2[::-1]
        num = {b: i for i, b in enumerate(rp)}
        ip = {n: n}
        ch = True
        while ch:
            ch = False
            for b in rp[1:]:
                new = None
                for s in rsucc[b]:
                    if s in ip and s in num:
                        new = s if new is None else self._ix(ip, num, s, new)
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    ch = True
        self.ipdom = ip
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in succ[b]:
                if self.dominates(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    @staticmethod
    def _ix(ip, num, a, b):
        while a != b:
            while num[a] > num[b]:
                a = ip[a]
            while num[b] > num[a]:
                b = ip[b]
        return a
