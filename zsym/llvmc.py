"""Minimal reader for LLVM 18 bitcode/IR through the LLVM-C API (ctypes).

Gives plain-Python objects (Module/Function/Block/Instr/operands) that the
symbolic executor walks.  Nothing here interprets semantics.
"""
import ctypes as C
import struct

_L = None


def _lib():
    global _L
    if _L is None:
        last = None
        for n in ("libLLVM-18.so.1", "libLLVM.so.18.1", "libLLVM-18.so",
                  "/usr/lib/llvm-18/lib/libLLVM.so.18.1",
                  "/usr/lib/llvm-18/lib/libLLVM-18.so"):
            try:
                _L = C.CDLL(n)
                break
            except OSError as e:
                last = e
        if _L is None:
            raise last
        P = C.c_void_p
        for name, res in {
            "LLVMContextCreate": P, "LLVMGetFirstFunction": P, "LLVMGetNextFunction": P,
            "LLVMGetFirstBasicBlock": P, "LLVMGetNextBasicBlock": P, "LLVMGetFirstInstruction": P,
            "LLVMGetNextInstruction": P, "LLVMTypeOf": P, "LLVMGetOperand": P, "LLVMGetFirstGlobal": P,
            "LLVMGetNextGlobal": P, "LLVMGetInitializer": P, "LLVMGlobalGetValueType": P,
            "LLVMGetModuleDataLayout": P, "LLVMStructGetTypeAtIndex": P, "LLVMGetElementType": P,
            "LLVMGetAllocatedType": P, "LLVMGetGEPSourceElementType": P, "LLVMGetCalledValue": P,
            "LLVMGetCalledFunctionType": P, "LLVMGetIncomingBlock": P, "LLVMGetIncomingValue": P,
            "LLVMGetParam": P, "LLVMBasicBlockAsValue": P, "LLVMGetSuccessor": P,
            "LLVMGetAggregateElement": P, "LLVMGetReturnType": P, "LLVMGetSwitchDefaultDest": P,
            "LLVMGetNormalDest": P, "LLVMGetIndices": C.POINTER(C.c_uint), "LLVMPrintValueToString": P,
            "LLVMGetElementAsConstant": P, "LLVMGetCondition": P, "LLVMIsAGlobalAlias": P, "LLVMAliasGetAliasee": P,
            "LLVMIsAConstantExpr": P, "LLVMIsAFunction": P, "LLVMIsAGlobalVariable": P,
            "LLVMGetEntryBasicBlock": P, "LLVMGetNextParam": P, "LLVMGetFirstParam": P,
            "LLVMPrintTypeToString": P, "LLVMGetEnumAttributeAtIndex": P, "LLVMGetTypeAttributeValue": P,
        }.items():
            getattr(_L, name).restype = res
        for name in ("LLVMConstIntGetZExtValue", "LLVMOffsetOfElement", "LLVMABISizeOfType",
                     "LLVMStoreSizeOfType"):
            getattr(_L, name).restype = C.c_ulonglong
        _L.LLVMConstRealGetDouble.restype = C.c_double
        _L.LLVMGetValueName2.restype = C.c_char_p
        _L.LLVMGetStructName.restype = C.c_char_p
        _L.LLVMGetAsString.restype = P
    return _L


def V(p):
    return C.c_void_p(p)


class Type:
    __slots__ = ("kind", "width", "elem", "count", "fields", "offsets", "size", "store", "name")

    def __init__(self, kind, **kw):
        self.kind = kind
        self.width = self.elem = self.count = self.fields = self.offsets = self.name = None
        self.size = self.store = 0
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        if self.kind == "int":
            return "i%d" % self.width
        if self.kind in ("array", "vector"):
            return "[%d x %r]" % (self.count, self.elem)
        if self.kind == "struct":
            return "{%s}" % ",".join(map(repr, self.fields))
        return self.kind


_TK = {0: "void", 1: "half", 2: "float", 3: "double", 4: "x86_fp80", 5: "fp128", 7: "label", 8: "int",
       9: "func", 10: "struct", 11: "array", 12: "ptr", 13: "vector", 14: "metadata", 16: "token"}

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg",
       8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv",
       16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and",
       24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc",
       31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc",
       38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast", 42: "icmp",
       43: "fcmp", 44: "phi", 45: "call", 46: "select", 50: "extractelement", 51: "insertelement",
       52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 69: "callbr"}

ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno",
        9: "ueq", 10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}


class Instr:
    __slots__ = ("op", "ty", "ops", "x", "id", "text")

    def __init__(self, op, ty):
        self.op = op
        self.ty = ty
        self.ops = ()
        self.x = None
        self.id = None


class Block:
    __slots__ = ("name", "instrs", "key")

    def __init__(self, key):
        self.key = key
        self.instrs = []
        self.name = None


class Function:
    __slots__ = ("name", "params", "blocks", "entry", "ret", "isdecl", "_p", "_m", "_loaded", "ninstr", "varargs", "byval")


class Module:
    """A parsed LLVM module.  Values are referenced as tuples:
    ('r', key) register/param ; ('c', const) constants resolved by const()."""

    def __init__(self, path):
        L = _lib()
        self.ctx = V(L.LLVMContextCreate())
        buf = C.c_void_p()
        msg = C.c_char_p()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise RuntimeError(msg.value)
        mod = C.c_void_p()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise RuntimeError("LLVM parse: %s" % msg.value)
        self.mod = mod
        self.dl = V(L.LLVMGetModuleDataLayout(mod))
        self._types = {}
        self._consts = {}
        self.functions = {}
        self.globals = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            fn = Function()
            fn._p = f
            fn._m = self
            fn.name = self._name(f)
            fn.isdecl = bool(L.LLVMIsDeclaration(V(f)))
            fn._loaded = False
            fn.ninstr = 0
            self.functions[fn.name] = fn
            f = L.LLVMGetNextFunction(V(f))
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            n = self._name(g)
            ini = L.LLVMGetInitializer(V(g))
            self.globals[n] = dict(ptr=g, ty=self.type(L.LLVMGlobalGetValueType(V(g))),
                                   const=bool(L.LLVMIsGlobalConstant(V(g))),
                                   tls=bool(L.LLVMIsThreadLocal(V(g))),
                                   init=ini)
            g = L.LLVMGetNextGlobal(V(g))

    def _name(self, v):
        n = C.c_size_t()
        return _lib().LLVMGetValueName2(V(v), C.byref(n)).decode()

    def type(self, p):
        t = self._types.get(p)
        if t is not None:
            return t
        L = _lib()
        k = L.LLVMGetTypeKind(V(p))
        kind = _TK.get(k, "k%d" % k)
        t = Type(kind)
        if kind == "int":
            t.width = L.LLVMGetIntTypeWidth(V(p))
        elif kind in ("array", "vector"):
            t.count = L.LLVMGetArrayLength(V(p)) if kind == "array" else L.LLVMGetVectorSize(V(p))
            t.elem = self.type(L.LLVMGetElementType(V(p)))
        elif kind == "struct":
            n = L.LLVMCountStructElementTypes(V(p))
            t.fields = [self.type(L.LLVMStructGetTypeAtIndex(V(p), i)) for i in range(n)]
            if L.LLVMTypeIsSized(V(p)):
                t.offsets = [L.LLVMOffsetOfElement(self.dl, V(p), i) for i in range(n)]
        if kind not in ("void", "label", "func", "metadata", "token") and L.LLVMTypeIsSized(V(p)):
            t.size = L.LLVMABISizeOfType(self.dl, V(p))
            t.store = L.LLVMStoreSizeOfType(self.dl, V(p))
        self._types[p] = t
        return t

    # ---- functions -------------------------------------------------------
    def load(self, fn):
        if fn._loaded:
            return fn
        L = _lib()
        fn._loaded = True
        fn.params = []
        fn.byval = {}
        kid = L.LLVMGetEnumAttributeKindForName(b"byval", C.c_size_t(5))
        p = L.LLVMGetFirstParam(V(fn._p))
        while p:
            at = L.LLVMGetEnumAttributeAtIndex(V(fn._p), len(fn.params) + 1, kid)
            if at:
                fn.byval[len(fn.params)] = self.type(L.LLVMGetTypeAttributeValue(V(at)))
            fn.params.append((p, self.type(L.LLVMTypeOf(V(p)))))
            p = L.LLVMGetNextParam(V(p))
        fn.blocks = {}
        fn.entry = None
        if fn.isdecl:
            return fn
        b = L.LLVMGetFirstBasicBlock(V(fn._p))
        while b:
            bk = Block(L.LLVMBasicBlockAsValue(V(b)))
            if fn.entry is None:
                fn.entry = b
            fn.blocks[b] = bk
            i = L.LLVMGetFirstInstruction(V(b))
            while i:
                bk.instrs.append(self._instr(i))
                fn.ninstr += 1
                i = L.LLVMGetNextInstruction(V(i))
            b = L.LLVMGetNextBasicBlock(V(b))
        return fn

    def _operand(self, p):
        L = _lib()
        vk = L.LLVMGetValueKind(V(p))
        # kinds: 0 Argument, 1 BasicBlock, 24 Instruction (LLVMValueKind enum)
        if L.LLVMIsAInstruction is not None and L.LLVMIsAInstruction(V(p)):
            return ("r", p)
        if vk == 0:
            return ("r", p)
        if vk == 1:
            return ("b", L.LLVMValueAsBasicBlock(V(p)))
        if vk in (25, 26, 22, 23) and False:
            return ("m", None)
        return ("c", p)

    def _instr(self, p):
        L = _lib()
        op = OPC.get(L.LLVMGetInstructionOpcode(V(p)), "op%d" % L.LLVMGetInstructionOpcode(V(p)))
        ins = Instr(op, self.type(L.LLVMTypeOf(V(p))))
        ins.id = p
        n = L.LLVMGetNumOperands(V(p))
        if op in ("call", "invoke"):
            na = L.LLVMGetNumArgOperands(V(p))
            cv = L.LLVMGetCalledValue(V(p))
            args = [self._operand(L.LLVMGetOperand(V(p), i)) for i in range(na)]
            atys = [self.type(L.LLVMTypeOf(V(L.LLVMGetOperand(V(p), i)))) for i in range(na)]
            ins.ops = args
            nd = L.LLVMGetNormalDest(V(p)) if op == "invoke" else None
            ins.x = (self._operand(cv), atys, nd)
        elif op == "phi":
            k = L.LLVMCountIncoming(V(p))
            ins.x = {L.LLVMGetIncomingBlock(V(p), i): self._operand(L.LLVMGetIncomingValue(V(p), i)) for i in range(k)}
        elif op == "br":
            ns = L.LLVMGetNumSuccessors(V(p))
            ins.x = [L.LLVMGetSuccessor(V(p), i) for i in range(ns)]
            if ns == 2:
                ins.ops = (self._operand(L.LLVMGetCondition(V(p))),)
        elif op == "switch":
            cond = self._operand(L.LLVMGetOperand(V(p), 0))
            cases = []
            for i in range(2, n, 2):
                cases.append((L.LLVMConstIntGetZExtValue(V(L.LLVMGetOperand(V(p), i))),
                              L.LLVMValueAsBasicBlock(V(L.LLVMGetOperand(V(p), i + 1)))))
            ins.ops = (cond,)
            ins.x = (L.LLVMGetSwitchDefaultDest(V(p)), cases)
        elif op == "landingpad":
            ins.ops = ()
        else:
            ins.ops = tuple(self._operand(L.LLVMGetOperand(V(p), i)) for i in range(n))
            if op == "alloca":
                ins.x = self.type(L.LLVMGetAllocatedType(V(p)))
            elif op == "getelementptr":
                ins.x = self.type(L.LLVMGetGEPSourceElementType(V(p)))
            elif op == "icmp":
                ins.x = ICMP[L.LLVMGetICmpPredicate(V(p))]
            elif op == "fcmp":
                ins.x = FCMP[L.LLVMGetFCmpPredicate(V(p))]
            elif op == "store":
                ins.x = self.type(L.LLVMTypeOf(V(L.LLVMGetOperand(V(p), 0))))
            elif op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp",
                        "fptosi", "fptoui", "fpext", "fptrunc"):
                ins.x = self.type(L.LLVMTypeOf(V(L.LLVMGetOperand(V(p), 0))))
            elif op in ("extractvalue", "insertvalue"):
                k = L.LLVMGetNumIndices(V(p))
                ix = L.LLVMGetIndices(V(p))
                ins.x = [ix[i] for i in range(k)]
            elif op == "shufflevector":
                k = L.LLVMGetNumMaskElements(V(p))
                ins.x = [L.LLVMGetMaskValue(V(p), i) for i in range(k)]
            elif op in ("ret",):
                pass
        return ins

    def describe(self, p):
        L = _lib()
        s = L.LLVMPrintValueToString(V(p))
        r = C.cast(s, C.c_char_p).value.decode()
        L.LLVMDisposeMessage(V(s))
        return r

    # ---- constants ---------------------------------------------------------
    def const(self, p):
        """-> ('int',w,v) ('f32',bits) ('f64',bits) ('null',) ('undef',ty) ('global',name) ('func',name)
              ('agg',ty,[...]) ('zero',ty) ('gep',base,off) ..."""
        c = self._consts.get(p)
        if c is None:
            c = self._const(p)
            self._consts[p] = c
        return c

    def _const(self, p):
        L = _lib()
        pv = V(p)
        ty = self.type(L.LLVMTypeOf(pv))
        if L.LLVMIsAFunction(pv):
            return ("func", self._name(p))
        if L.LLVMIsAGlobalVariable(pv):
            return ("global", self._name(p))
        if L.LLVMIsAGlobalAlias(pv):
            return self.const(L.LLVMAliasGetAliasee(pv))
        if L.LLVMIsUndef(pv) or L.LLVMIsPoison(pv):
            return ("undef", ty)
        if ty.kind == "int":
            if L.LLVMIsAConstantInt(pv):
                if ty.width <= 64:
                    return ("int", ty.width, L.LLVMConstIntGetZExtValue(pv))
                return ("int", ty.width, int(self.describe(p).split()[-1]) & ((1 << ty.width) - 1))
        if ty.kind in ("float", "double") and L.LLVMIsAConstantFP(pv):
            li = C.c_int()
            d = L.LLVMConstRealGetDouble(pv, C.byref(li))
            if ty.kind == "float":
                try:
                    return ("f32", struct.unpack("<I", struct.pack("<f", d))[0])
                except OverflowError:
                    return ("f32", 0x7f800000 if d > 0 else 0xff800000)
            return ("f64", struct.unpack("<Q", struct.pack("<d", d))[0])
        if L.LLVMIsNull(pv):
            return ("null",) if ty.kind == "ptr" else ("zero", ty)
        if L.LLVMIsAConstantExpr(pv):
            op = OPC.get(L.LLVMGetConstOpcode(pv))
            ops = [L.LLVMGetOperand(pv, i) for i in range(L.LLVMGetNumOperands(pv))]
            if op == "getelementptr":
                st = self.type(L.LLVMGetGEPSourceElementType(pv))
                off = 0
                cur = st
                for k, o in enumerate(ops[1:]):
                    c = self.const(o)
                    v = 0 if c[0] == "zero" else c[2]
                    w = 64 if c[0] == "zero" else c[1]
                    if v >= 1 << (w - 1):
                        v -= 1 << w
                    if k == 0:
                        off += v * st.size
                    elif cur.kind == "struct":
                        off += cur.offsets[v]
                        cur = cur.fields[v]
                    else:
                        cur = cur.elem
                        off += v * cur.size
                return ("gep", self.const(ops[0]), off)
            return ("expr", op, [self.const(o) for o in ops], ty)
        if ty.kind == "struct":
            return ("agg", ty, [self.const(L.LLVMGetAggregateElement(pv, i)) for i in range(len(ty.fields))])
        if ty.kind in ("array", "vector"):
            return ("agg", ty, [self.const(L.LLVMGetAggregateElement(pv, i)) for i in range(ty.count)])
        return ("unknown", self.describe(p))
