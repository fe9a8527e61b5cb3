"""Load textual LLVM IR through the LLVM-C API (ctypes, libLLVM-18) into plain
Python objects.  Nothing is interpreted here: one Python object per function,
block, instruction and constant of the module clang produced from /repo."""
import ctypes as C
import ctypes.util
import os

_L = None


def lib():
    global _L
    if _L is None:
        for p in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
                  "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM.so.18.1"):
            if os.path.exists(p):
                _L = C.CDLL(p)
                break
        else:
            raise RuntimeError("libLLVM-18 not found")
        vp = C.c_void_p
        names_vp = """LLVMContextCreate LLVMGetFirstFunction LLVMGetNextFunction LLVMGetFirstBasicBlock
        LLVMGetNextBasicBlock LLVMGetFirstInstruction LLVMGetNextInstruction LLVMTypeOf LLVMGetOperand
        LLVMBasicBlockAsValue LLVMGetParam LLVMGetElementType LLVMGetAllocatedType LLVMGetGEPSourceElementType
        LLVMGetIncomingBlock LLVMGetIncomingValue LLVMGetCalledFunctionType LLVMGetCalledValue LLVMGetReturnType
        LLVMGlobalGetValueType LLVMGetInitializer LLVMGetFirstGlobal LLVMGetNextGlobal LLVMStructGetTypeAtIndex
        LLVMGetModuleDataLayout LLVMGetAggregateElement LLVMGetSuccessor LLVMGetInstructionParent LLVMValueAsBasicBlock
        LLVMGetBasicBlockParent LLVMAliasGetAliasee LLVMGetFirstGlobalAlias LLVMGetNextGlobalAlias LLVMGetCondition""".split()
        for n in names_vp:
            f = getattr(_L, n)
            f.restype = vp
        for n in names_vp:
            getattr(_L, n).argtypes = None
        _L.LLVMGetValueName2.restype = C.c_char_p
        _L.LLVMGetValueName2.argtypes = [vp, C.POINTER(C.c_size_t)]
        _L.LLVMPrintValueToString.restype = C.c_char_p
        _L.LLVMPrintTypeToString.restype = C.c_char_p
        _L.LLVMGetAsString.restype = C.c_char_p
        _L.LLVMConstIntGetZExtValue.restype = C.c_ulonglong
        _L.LLVMConstIntGetSExtValue.restype = C.c_longlong
        _L.LLVMConstRealGetDouble.restype = C.c_double
        _L.LLVMABISizeOfType.restype = C.c_ulonglong
        _L.LLVMOffsetOfElement.restype = C.c_ulonglong
        _L.LLVMGetArrayLength2.restype = C.c_ulonglong
        _L.LLVMGetIndices.restype = C.POINTER(C.c_uint)
        _L.LLVMGetDebugLocLine.restype = C.c_uint
        _L.LLVMGetDebugLocFilename.restype = C.c_char_p
        _L.LLVMGetStructName.restype = C.c_char_p
    return _L


def V(x):
    return C.c_void_p(x)


class Type:
    __slots__ = ("k", "bits", "elems", "n", "size", "offs", "name", "ret", "params", "vararg")

    def __init__(s, k, **kw):
        s.k = k
        for a in ("bits", "elems", "n", "size", "offs", "name", "ret", "params", "vararg"):
            setattr(s, a, kw.get(a))

    def __repr__(s):
        if s.k == "int":
            return "i%d" % s.bits
        if s.k == "struct":
            return s.name or "{%s}" % ",".join(map(repr, s.elems))
        if s.k == "array":
            return "[%d x %r]" % (s.n, s.elems[0])
        return s.k


KINDS = {0: "void", 2: "float", 3: "double", 8: "label", 9: "int", 10: "func", 11: "struct", 12: "array",
         13: "ptr", 14: "vector", 15: "metadata", 5: "fp128", 4: "x86_fp80"}
# LLVMTypeKind in 18: Void0 Half1 Float2 Double3 X86_FP80_4 FP128_5 PPC6 Label7 Integer8 Function9 Struct10
# Array11 Pointer12 Vector13 Metadata14 X86_MMX15 Token16 ...
KINDS = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int", 9: "func",
         10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata"}

OPC = {1: "ret", 2: "br", 3: "switch", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd", 10: "sub",
       11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem",
       20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store",
       29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp",
       37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi",
       45: "call", 46: "select", 53: "extractvalue", 54: "insertvalue", 55: "fence", 56: "cmpxchg", 57: "atomicrmw",
       58: "resume", 59: "landingpad", 68: "freeze"}
IPRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FPRED = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
         10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Inst:
    __slots__ = ("op", "ty", "ops", "pred", "nsw", "nuw", "inb", "sty", "blocks", "callee", "fty", "idx", "line",
                 "file", "id", "cases", "vty", "block", "name")


class Const:
    """k: int, null, undef, zero, agg, str, fp, expr, global, func"""
    __slots__ = ("k", "ty", "v", "ops", "op", "sty", "inb", "_cache")

    def __init__(s, k, ty, v=None, ops=None, op=None, sty=None):
        s.k, s.ty, s.v, s.ops, s.op, s.sty = k, ty, v, ops, op, sty
        s._cache = None


class Arg:
    __slots__ = ("i", "ty", "id")


class Block:
    __slots__ = ("insts", "id", "succ", "fn", "preds", "name")


class Function:
    __slots__ = ("name", "dname", "args", "blocks", "fty", "decl", "loops", "idom")


class Global:
    __slots__ = ("name", "vty", "init", "const")


class Module:
    def __init__(self, path):
        L = lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        m = C.c_void_p()
        if L.LLVMParseIRInContext(V(ctx), buf, C.byref(m), C.byref(msg)):
            raise RuntimeError(msg.value)
        self.m = m
        self.dl = L.LLVMGetModuleDataLayout(m)
        self.types = {}
        self.consts = {}
        self.vals = {}
        self.funcs = {}
        self.globals = {}
        self.fptr = {}
        self.nid = 0
        f = L.LLVMGetFirstFunction(m)
        raw = []
        while f:
            fn = Function()
            fn.name = self.name(f)
            fn.fty = self.type(L.LLVMGlobalGetValueType(V(f)))
            fn.decl = L.LLVMCountBasicBlocks(V(f)) == 0
            fn.args = []
            for i in range(L.LLVMCountParams(V(f))):
                p = L.LLVMGetParam(V(f), i)
                a = Arg()
                a.i = i
                a.ty = self.type(L.LLVMTypeOf(V(p)))
                a.id = self.newid()
                self.vals[p] = a
                fn.args.append(a)
            fn.blocks = []
            fn.loops = None
            self.funcs[fn.name] = fn
            self.fptr[f] = fn
            raw.append((f, fn))
            f = L.LLVMGetNextFunction(V(f))
        # aliases (C1/C2 constructors)
        self.aliases = {}
        a = L.LLVMGetFirstGlobalAlias(m)
        while a:
            t = L.LLVMAliasGetAliasee(V(a))
            if t in self.fptr:
                self.fptr[a] = self.fptr[t]
                self.funcs[self.name(a)] = self.fptr[t]
            a = L.LLVMGetNextGlobalAlias(V(a))
        g = L.LLVMGetFirstGlobal(m)
        graw = []
        while g:
            go = Global()
            go.name = self.name(g)
            go.vty = self.type(L.LLVMGlobalGetValueType(V(g)))
            go.const = bool(L.LLVMIsGlobalConstant(V(g)))
            go.init = None
            self.globals[go.name] = go
            self.fptr[g] = go
            graw.append((g, go))
            g = L.LLVMGetNextGlobal(V(g))
        for g, go in graw:
            ini = L.LLVMGetInitializer(V(g))
            if ini:
                go.init = self.value(ini)
        for f, fn in raw:
            self.load_fn(f, fn)
        self.demangle()

    def newid(self):
        self.nid += 1
        return self.nid

    def name(self, v):
        n = C.c_size_t()
        s = self.L.LLVMGetValueName2(V(v), C.byref(n))
        return s.decode() if s else ""

    def demangle(self):
        import subprocess
        names = sorted(self.funcs)
        p = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
        out = p.stdout.split("\n")
        for n, d in zip(names, out):
            fn = self.funcs[n]
            fn.dname = d if n.startswith("_Z") else n

    def type(self, t):
        if t in self.types:
            return self.types[t]
        L = self.L
        k = KINDS.get(L.LLVMGetTypeKind(V(t)), "other")
        ty = Type(k)
        self.types[t] = ty
        if k == "int":
            ty.bits = L.LLVMGetIntTypeWidth(V(t))
        elif k == "struct":
            n = L.LLVMCountStructElementTypes(V(t))
            nm = L.LLVMGetStructName(V(t))
            ty.name = nm.decode() if nm else None
            ty.elems = [self.type(L.LLVMStructGetTypeAtIndex(V(t), i)) for i in range(n)]
            if not L.LLVMIsOpaqueStruct(V(t)):
                ty.offs = [L.LLVMOffsetOfElement(V(self.dl), V(t), i) for i in range(n)]
        elif k == "array":
            ty.n = L.LLVMGetArrayLength2(V(t))
            ty.elems = [self.type(L.LLVMGetElementType(V(t)))]
        elif k == "func":
            ty.ret = self.type(L.LLVMGetReturnType(V(t)))
            n = L.LLVMCountParamTypes(V(t))
            arr = (C.c_void_p * max(n, 1))()
            L.LLVMGetParamTypes(V(t), arr)
            ty.params = [self.type(arr[i]) for i in range(n)]
            ty.vararg = bool(L.LLVMIsFunctionVarArg(V(t)))
        if k in ("int", "array", "ptr", "float", "double", "x86_fp80") or (k == "struct" and ty.offs is not None):
            ty.size = L.LLVMABISizeOfType(V(self.dl), V(t))
        return ty

    def value(self, v):
        """operand -> Inst | Arg | Const | Function | Global | Block"""
        L = self.L
        if v in self.vals:
            return self.vals[v]
        if v in self.fptr:
            return self.fptr[v]
        if L.LLVMIsConstant(V(v)):
            c = self.const(v)
            self.vals[v] = c
            return c
        return None

    def const(self, v):
        L = self.L
        ty = self.type(L.LLVMTypeOf(V(v)))
        if L.LLVMIsAConstantInt(V(v)):
            if ty.bits > 64:
                s = L.LLVMPrintValueToString(V(v)).decode()
                return Const("int", ty, int(s.split()[-1]) & ((1 << ty.bits) - 1))
            return Const("int", ty, L.LLVMConstIntGetZExtValue(V(v)) & ((1 << ty.bits) - 1))
        if L.LLVMIsUndef(V(v)):
            return Const("undef", ty)
        if L.LLVMIsNull(V(v)):
            return Const("zero", ty)
        if L.LLVMIsAConstantFP(V(v)):
            li = C.c_int()
            return Const("fp", ty, L.LLVMConstRealGetDouble(V(v), C.byref(li)))
        if L.LLVMIsAConstantDataSequential(V(v)) or L.LLVMIsAConstantStruct(V(v)) or L.LLVMIsAConstantArray(V(v)):
            n = ty.n if ty.k == "array" else len(ty.elems)
            if L.LLVMIsAConstantDataSequential(V(v)) and ty.elems[0].k == "int" and ty.elems[0].bits == 8:
                ln = C.c_size_t()
                L.LLVMGetAsString.restype = C.c_void_p
                p = L.LLVMGetAsString(V(v), C.byref(ln))
                return Const("str", ty, C.string_at(p, ln.value))
            c = Const("agg", ty)
            c.ops = [self.value(L.LLVMGetAggregateElement(V(v), i)) for i in range(n)]
            return c
        if L.LLVMIsAConstantExpr(V(v)):
            op = OPC.get(L.LLVMGetConstOpcode(V(v)), "?")
            c = Const("expr", ty, op=op)
            c.ops = [self.value(L.LLVMGetOperand(V(v), i)) for i in range(L.LLVMGetNumOperands(V(v)))]
            c.inb = False
            if op == "gep":
                c.sty = self.type(L.LLVMGetGEPSourceElementType(V(v)))
                c.inb = bool(L.LLVMIsInBounds(V(v)))
            return c
        return Const("other", ty, L.LLVMPrintValueToString(V(v)).decode()[:80])

    def load_fn(self, f, fn):
        L = self.L
        b = L.LLVMGetFirstBasicBlock(V(f))
        bl = []
        while b:
            blk = Block()
            blk.id = self.newid()
            blk.fn = fn
            blk.insts = []
            blk.preds = []
            blk.succ = []
            bv = L.LLVMBasicBlockAsValue(V(b))
            blk.name = self.name(bv)
            self.vals[bv] = blk
            self.vals[b] = blk
            i = L.LLVMGetFirstInstruction(V(b))
            il = []
            while i:
                ins = Inst()
                ins.id = self.newid()
                ins.block = blk
                self.vals[i] = ins
                il.append((i, ins))
                i = L.LLVMGetNextInstruction(V(i))
            bl.append((b, blk, il))
            fn.blocks.append(blk)
            b = L.LLVMGetNextBasicBlock(V(b))
        for b, blk, il in bl:
            for i, ins in il:
                self.load_inst(i, ins)
                blk.insts.append(ins)
            t = blk.insts[-1]
            blk.succ = list(dict.fromkeys(t.blocks or []))
        for blk in fn.blocks:
            for s in blk.succ:
                s.preds.append(blk)

    def load_inst(self, i, ins):
        L = self.L
        opn = L.LLVMGetInstructionOpcode(V(i))
        ins.op = OPC.get(opn, "op%d" % opn)
        ins.ty = self.type(L.LLVMTypeOf(V(i)))
        ins.line = L.LLVMGetDebugLocLine(V(i))
        ln = C.c_uint()
        if ins.line:
            L.LLVMGetDebugLocFilename.restype = C.c_void_p
            p = L.LLVMGetDebugLocFilename(V(i), C.byref(ln))
            ins.file = C.string_at(p, ln.value).decode() if p else ""
        else:
            ins.file = ""
        ins.name = self.name(i)
        ins.pred = ins.sty = ins.callee = ins.fty = ins.idx = ins.cases = ins.vty = None
        ins.nsw = ins.nuw = ins.inb = False
        ins.blocks = None
        n = L.LLVMGetNumOperands(V(i))
        op = ins.op
        if op in ("br", "switch"):
            ns = L.LLVMGetNumSuccessors(V(i))
            ins.blocks = [self.vals[L.LLVMGetSuccessor(V(i), k)] for k in range(ns)]
            if op == "br":
                ins.ops = [self.value(L.LLVMGetCondition(V(i)))] if L.LLVMIsConditional(V(i)) else []
            else:
                ins.ops = [self.value(L.LLVMGetOperand(V(i), 0))]
                ins.cases = []
                for k in range(2, n, 2):
                    c = self.value(L.LLVMGetOperand(V(i), k))
                    t = self.vals[L.LLVMGetOperand(V(i), k + 1)]
                    ins.cases.append((c.v if c.k == "int" else 0, t))
                ins.blocks = [self.vals[L.LLVMGetOperand(V(i), 1)]] + [t for _, t in ins.cases]
            return
        if op == "phi":
            ins.ops = []
            ins.blocks = None
            ins.cases = []
            for k in range(L.LLVMCountIncoming(V(i))):
                ins.cases.append((self.vals[L.LLVMGetIncomingBlock(V(i), k)], L.LLVMGetIncomingValue(V(i), k)))
            # resolve lazily: values may be later instructions, but all Inst objects exist already
            ins.cases = [(b, self.value(v)) for b, v in ins.cases]
            return
        if op in ("call", "invoke"):
            ins.callee = self.value(L.LLVMGetCalledValue(V(i)))
            ins.fty = self.type(L.LLVMGetCalledFunctionType(V(i)))
            na = L.LLVMGetNumArgOperands(V(i))
            ins.ops = [self.value(L.LLVMGetOperand(V(i), k)) for k in range(na)]
            if op == "invoke":
                ins.blocks = [self.vals[L.LLVMGetSuccessor(V(i), 0)], self.vals[L.LLVMGetSuccessor(V(i), 1)]]
            return
        ins.ops = [self.value(L.LLVMGetOperand(V(i), k)) for k in range(n)]
        if op in ("add", "sub", "mul", "shl"):
            ins.nsw = bool(L.LLVMGetNSW(V(i)))
            ins.nuw = bool(L.LLVMGetNUW(V(i)))
        elif op == "icmp":
            ins.pred = IPRED[L.LLVMGetICmpPredicate(V(i))]
        elif op == "fcmp":
            ins.pred = FPRED[L.LLVMGetFCmpPredicate(V(i))]
        elif op == "alloca":
            ins.vty = self.type(L.LLVMGetAllocatedType(V(i)))
        elif op == "gep":
            ins.sty = self.type(L.LLVMGetGEPSourceElementType(V(i)))
            ins.inb = bool(L.LLVMIsInBounds(V(i)))
        elif op in ("extractvalue", "insertvalue"):
            k = L.LLVMGetNumIndices(V(i))
            p = L.LLVMGetIndices(V(i))
            ins.idx = [p[j] for j in range(k)]


def analyse_loops(fn):
    """natural loops: header -> set(blocks).  Also block->innermost header."""
    if fn.loops is not None:
        return fn.loops
    blocks = fn.blocks
    # dominators (simple iterative)
    order = []
    seen = set()
    st = [(blocks[0], iter(blocks[0].succ))]
    seen.add(blocks[0].id)
    while st:
        b, it = st[-1]
        for s in it:
            if s.id not in seen:
                seen.add(s.id)
                st.append((s, iter(s.succ)))
                break
        else:
            order.append(b)
            st.pop()
    order.reverse()
    num = {b.id: i for i, b in enumerate(order)}
    dom = {b.id: None for b in order}
    dom[blocks[0].id] = {blocks[0].id}
    ch = True
    while ch:
        ch = False
        for b in order[1:]:
            ps = [dom[p.id] for p in b.preds if p.id in num and dom[p.id] is not None]
            d = set.intersection(*ps) if ps else set()
            d = d | {b.id}
            if d != dom[b.id]:
                dom[b.id] = d
                ch = True
    loops = {}
    for b in order:
        for s in b.succ:
            if s.id in dom[b.id]:
                body = loops.setdefault(s.id, {s.id})
                work = [b]
                while work:
                    x = work.pop()
                    if x.id not in body:
                        body.add(x.id)
                        work.extend(x.preds)
    fn.loops = loops
    return loops
