"""Loads LLVM IR through the LLVM-C API into plain Python objects."""
import ctypes, re
L = ctypes.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so") if __import__("os").path.exists("/usr/lib/llvm-18/lib/libLLVM-18.so") else ctypes.CDLL("libLLVM-18.so.1")
P = ctypes.c_void_p

def _f(name, res, *args):
    f = getattr(L, name); f.restype = res; f.argtypes = args; return f
U = ctypes.c_uint; S = ctypes.c_char_p; I = ctypes.c_int; ULL = ctypes.c_ulonglong; SZ = ctypes.c_size_t
_CreateMB = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, ctypes.POINTER(P), ctypes.POINTER(S))
_ParseIR = _f("LLVMParseIRInContext", I, P, P, ctypes.POINTER(P), ctypes.POINTER(S))
_CtxCreate = _f("LLVMContextCreate", P)
FirstFn = _f("LLVMGetFirstFunction", P, P); NextFn = _f("LLVMGetNextFunction", P, P)
FirstGl = _f("LLVMGetFirstGlobal", P, P); NextGl = _f("LLVMGetNextGlobal", P, P)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P); NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstI = _f("LLVMGetFirstInstruction", P, P); NextI = _f("LLVMGetNextInstruction", P, P)
GetName = _f("LLVMGetValueName2", S, P, ctypes.POINTER(SZ))
TypeOf = _f("LLVMTypeOf", P, P); TypeKind = _f("LLVMGetTypeKind", I, P)
IntW = _f("LLVMGetIntTypeWidth", U, P); ElemT = _f("LLVMGetElementType", P, P)
VecN = _f("LLVMGetVectorSize", U, P); ArrN = _f("LLVMGetArrayLength2", ctypes.c_uint64, P)
StructN = _f("LLVMCountStructElementTypes", U, P); StructAt = _f("LLVMStructGetTypeAtIndex", P, P, U)
IsPacked = _f("LLVMIsPackedStruct", I, P); StructName = _f("LLVMGetStructName", S, P)
Opc = _f("LLVMGetInstructionOpcode", I, P); NOps = _f("LLVMGetNumOperands", I, P); Op = _f("LLVMGetOperand", P, P, U)
ValKind = _f("LLVMGetValueKind", I, P)
ICmpPred = _f("LLVMGetICmpPredicate", I, P)
NSucc = _f("LLVMGetNumSuccessors", U, P); Succ = _f("LLVMGetSuccessor", P, P, U)
Cond = _f("LLVMGetCondition", P, P); IsCond = _f("LLVMIsConditional", I, P)
NInc = _f("LLVMCountIncoming", U, P); IncV = _f("LLVMGetIncomingValue", P, P, U); IncB = _f("LLVMGetIncomingBlock", P, P, U)
CalledV = _f("LLVMGetCalledValue", P, P); NArgs = _f("LLVMGetNumArgOperands", U, P)
GEPT = _f("LLVMGetGEPSourceElementType", P, P); IsInb = _f("LLVMIsInBounds", I, P)
AllocT = _f("LLVMGetAllocatedType", P, P)
NIdx = _f("LLVMGetNumIndices", U, P); Idx = _f("LLVMGetIndices", ctypes.POINTER(U), P)
NMask = _f("LLVMGetNumMaskElements", U, P); Mask = _f("LLVMGetMaskValue", I, P, U)
CIZ = _f("LLVMConstIntGetZExtValue", ULL, P)
Print = _f("LLVMPrintValueToString", P, P); PrintT = _f("LLVMPrintTypeToString", P, P)
Dispose = _f("LLVMDisposeMessage", None, P)
AggElt = _f("LLVMGetAggregateElement", P, P, U)
ConstOpc = _f("LLVMGetConstOpcode", I, P)
GInit = _f("LLVMGetInitializer", P, P); GConst = _f("LLVMIsGlobalConstant", I, P); GValT = _f("LLVMGlobalGetValueType", P, P)
ThreadLocal = _f("LLVMIsThreadLocal", I, P)
Linkage = _f("LLVMGetLinkage", I, P)
IsDecl = _f("LLVMIsDeclaration", I, P)
NParams = _f("LLVMCountParams", U, P); Param = _f("LLVMGetParam", P, P, U)
DLine = _f("LLVMGetDebugLocLine", U, P); DFile = _f("LLVMGetDebugLocFilename", S, P, ctypes.POINTER(U))
IAsmStr = _f("LLVMGetInlineAsmAsmString", S, P, ctypes.POINTER(SZ)); IAsmCon = _f("LLVMGetInlineAsmConstraintString", S, P, ctypes.POINTER(SZ))
IAsmSE = _f("LLVMGetInlineAsmHasSideEffects", I, P)
TD = _f("LLVMGetModuleDataLayout", P, P); SizeOf = _f("LLVMABISizeOfType", ULL, P, P); OffOf = _f("LLVMOffsetOfElement", ULL, P, P, U)
StoreSz = _f("LLVMStoreSizeOfType", ULL, P, P); ByteOrder = _f("LLVMByteOrder", I, P); PtrSize = _f("LLVMPointerSize", U, P)
Volatile = _f("LLVMGetVolatile", I, P); Ordering = _f("LLVMGetOrdering", I, P)
RetT = _f("LLVMGetReturnType", P, P); FnTy = _f("LLVMGlobalGetValueType", P, P)
RMWOp = _f("LLVMGetAtomicRMWBinOp", I, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub", 12: "mul", 13: "fmul",
       14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor",
       26: "alloca", 27: "load", 28: "store", 29: "getelementptr", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp",
       36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call",
       46: "select", 50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 5: "invoke", 60: "addrspacecast", 66: "fneg", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


class Ty:
    __slots__ = ("k", "w", "n", "e", "els", "size", "store", "offs", "name")
    def __repr__(self):
        return {"i": "i%d" % self.w, "p": "ptr", "v": "<%s x %r>" % (self.n, self.e), "a": "[%s x %r]" % (self.n, self.e)}.get(self.k, self.k)


class Instr:
    __slots__ = ("op", "name", "ty", "ops", "a", "line", "file", "fn", "idx")
    def __init__(self):
        self.a = {}
    def loc(self):
        t = self.a.get("text")
        return "%s:%d%s" % (self.file, self.line, " (asm: %s)" % t if t else "")
    def __repr__(self):
        return "%s = %s %s %s" % (self.name, self.op, self.ops, self.a)


class Block:
    def __init__(self, name):
        self.name = name; self.ins = []; self.succ = []; self.pred = []


class Function:
    pass


class Module:
    def absorb(self, other):
        """take the definitions of objects this module only declares"""
        for n, g in other.globals.items():
            o = self.globals.get(n)
            if g.init is not None and (o is None or o.init is None):
                self.globals[n] = g


class Loader:
    def __init__(self, path):
        self.ctx = _CtxCreate()
        mb = P(); err = S()
        if _CreateMB(path.encode(), ctypes.byref(mb), ctypes.byref(err)):
            raise RuntimeError("cannot read " + path)
        m = P()
        if _ParseIR(self.ctx, mb, ctypes.byref(m), ctypes.byref(err)):
            raise RuntimeError("cannot parse %s: %s" % (path, err.value))
        self.m = m.value
        self.td = TD(self.m)
        self.tys = {}
        self.out = Module()
        self.out.ptrbits = PtrSize(self.td) * 8
        self.out.little = ByteOrder(self.td) == 1
        self.out.functions = {}
        self.out.globals = {}
        self.out.decls = set()
        self.gnames = {}
        self.load()

    def name(self, v):
        n = SZ(); s = GetName(v, ctypes.byref(n)); return s.decode()

    def s(self, p):
        r = ctypes.cast(p, S).value.decode(); Dispose(p); return r

    def ty(self, t):
        if t in self.tys:
            return self.tys[t]
        k = TypeKind(t)
        r = Ty(); self.tys[t] = r
        r.w = r.n = 0; r.e = None; r.els = None; r.size = r.store = 0; r.offs = None; r.name = None
        if k == 8:
            r.k = "i"; r.w = IntW(t); r.size = SizeOf(self.td, t); r.store = StoreSz(self.td, t)
        elif k == 12:
            r.k = "p"; r.w = self.out.ptrbits; r.size = r.store = r.w // 8
        elif k == 13 or k == 18:
            r.k = "v"; r.n = VecN(t); r.e = self.ty(ElemT(t)); r.w = r.n * r.e.w; r.size = SizeOf(self.td, t); r.store = StoreSz(self.td, t)
        elif k == 11:
            r.k = "a"; r.n = ArrN(t); r.e = self.ty(ElemT(t)); r.size = r.store = SizeOf(self.td, t)
        elif k == 10:
            r.k = "s"; n = StructN(t); r.els = [self.ty(StructAt(t, i)) for i in range(n)]
            nm = StructName(t); r.name = nm.decode() if nm else None
            try:
                r.size = r.store = SizeOf(self.td, t); r.offs = [OffOf(self.td, t, i) for i in range(n)]
            except Exception:
                pass
        elif k == 0:
            r.k = "void"
        elif k == 7 or k == 14 or k == 16:
            r.k = {7: "label", 14: "metadata", 16: "token"}[k]
        elif k == 9:
            r.k = "fn"
        else:
            r.k = "f"; r.w = {1: 16, 2: 32, 3: 64, 4: 80}.get(k, 128); r.size = r.store = r.w // 8
        return r

    def const(self, v):
        """operand representation: ('c', value, ty) int constant; ('cv', [..]) aggregate; ('g', name); ('ge', base, offset); ('u', ty); ('v', id)"""
        k = ValKind(v)
        t = self.ty(TypeOf(v))
        # kinds: 0 Argument 1 BasicBlock 2 MemoryUse.. 4 MemoryPhi 5 Function 6 GlobalAlias 7 GlobalIFunc 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstantArray 12 ConstantStruct 13 ConstantVector 14 Undef 15 AggregateZero 16 DataArray 17 DataVector 18 ConstantInt 19 FP 20 PointerNull 21 TokenNone 22 Metadata 23 InlineAsm 24 Instruction 25 Poison
        if k in (0, 24):
            return ("v", self.vid[v])
        if k == 18:
            if t.w <= 64:
                return ("c", CIZ(v), t)
            s = self.s(Print(v)).split()[-1]
            return ("c", int(s) % (1 << t.w), t)
        if k == 5:
            return ("f", self.name(v))
        if k in (6, 8):
            return ("g", self.gname(v), 0)
        if k == 20:
            return ("null", t)
        if k in (14, 25):
            return ("u", t)
        if k == 15:
            return ("z", t)
        if k in (11, 12, 13, 16, 17):
            n = t.n if t.k in "av" else len(t.els)
            return ("cv", [self.const(AggElt(v, i)) for i in range(n)], t)
        if k == 10:
            o = OPC.get(ConstOpc(v))
            if o == "getelementptr":
                base = self.const(Op(v, 0))
                off = self.gepconst(self.ty(GEPT(v)), [self.const(Op(v, i)) for i in range(1, NOps(v))])
                if base[0] == "g":
                    return ("g", base[1], base[2] + off)
            if o in ("bitcast", "addrspacecast"):
                return self.const(Op(v, 0))
            if o in ("ptrtoint", "inttoptr"):
                x = self.const(Op(v, 0))
                if x[0] == "g":
                    return x
            if o == "sub":
                x, y = self.const(Op(v, 0)), self.const(Op(v, 1))
                if x[0] == y[0] == "g" and x[1] == y[1]:
                    return ("c", (x[2] - y[2]) % (1 << t.w), t)
            return ("cx", self.s(Print(v)), t)
        if k == 23:
            n = SZ(); a = IAsmStr(v, ctypes.byref(n)).decode(); c = IAsmCon(v, ctypes.byref(n)).decode()
            return ("asm", a, c, bool(IAsmSE(v)))
        if k == 22:
            return ("md", v)
        if k == 19:
            return ("fp", self.s(Print(v)), t)
        return ("?", self.s(Print(v)), t)

    def gname(self, v):
        if v not in self.gnames:
            n = self.name(v) or "anon%d" % len(self.gnames)
            self.gnames[v] = n
        return self.gnames[v]

    def gepconst(self, t, idx):
        off = 0
        cur = t; first = True
        for i in idx:
            c = i[1]
            if i[0] != "c":
                raise RuntimeError("non-constant constexpr gep")
            if i[2].w and c >> (i[2].w - 1):
                c -= 1 << i[2].w
            if first:
                off += c * cur.size; first = False
            elif cur.k in ("a", "v"):
                off += c * cur.e.size; cur = cur.e
            else:
                off += cur.offs[c]; cur = cur.els[c]
        return off

    def load(self):
        g = FirstGl(self.m)
        gl = []
        while g:
            gl.append(g); self.gname(g); g = NextGl(g)
        self.vid = {}
        for g in gl:
            G = Module(); G.name = self.gname(g); G.ty = self.ty(GValT(g)); G.const = bool(GConst(g)); G.tls = bool(ThreadLocal(g))
            G.linkage = Linkage(g)
            G.init = None if IsDecl(g) else self.const(GInit(g))
            self.out.globals[G.name] = G
        f = FirstFn(self.m)
        while f:
            self.function(f); f = NextFn(f)

    def function(self, f):
        nm = self.name(f)
        if IsDecl(f):
            self.out.decls.add(nm); return
        F = Function(); F.name = nm; F.blocks = []; F.linkage = Linkage(f)
        F.rty = self.ty(RetT(FnTy(f)))
        self.vid = {}
        F.params = []
        for i in range(NParams(f)):
            p = Param(f, i); self.vid[p] = "a%d" % i; F.params.append(("a%d" % i, self.ty(TypeOf(p)), self.name(p)))
        bbs = []; b = FirstBB(f)
        bid = {}
        while b:
            B = Block("b%d" % len(bbs)); bid[b] = B; bbs.append((b, B)); b = NextBB(b)
        ins = []
        for b, B in bbs:
            i = FirstI(b)
            while i:
                self.vid[i] = "v%d" % len(self.vid); ins.append((B, i)); i = NextI(i)
        basics = {}
        for B, v in ins:
            X = Instr(); X.op = OPC.get(Opc(v), "op%d" % Opc(v)); X.name = self.vid[v]; X.ty = self.ty(TypeOf(v)); X.fn = F
            n = U(); X.line = DLine(v) or 0; d = DFile(v, ctypes.byref(n)); X.file = d.decode()[:n.value] if d else ""
            o = X.op
            if o == "phi":
                X.ops = [self.const(IncV(v, k)) for k in range(NInc(v))]
                X.a["from"] = [bid[IncB(v, k)] for k in range(NInc(v))]
            elif o == "br":
                if IsCond(v):
                    X.ops = [self.const(Cond(v))]; X.a["succ"] = [bid[Succ(v, 0)], bid[Succ(v, 1)]]
                else:
                    X.ops = []; X.a["succ"] = [bid[Succ(v, 0)]]
            elif o == "switch":
                X.ops = [self.const(Op(v, 0))]
                X.a["default"] = bid[Succ(v, 0)]
                X.a["cases"] = [(CIZ(Op(v, 2 * k)), bid[Succ(v, k)]) for k in range(1, NSucc(v))]
            elif o in ("call", "invoke"):
                X.ops = [self.const(Op(v, k)) for k in range(NArgs(v))]
                X.a["callee"] = self.const(CalledV(v))
                if X.a["callee"][0] == "asm":
                    X.a["optys"] = [self.ty(TypeOf(Op(v, k))) for k in range(NArgs(v))]
            else:
                X.ops = [self.const(Op(v, k)) for k in range(NOps(v))]
                if o == "icmp":
                    X.a["pred"] = PRED[ICmpPred(v)]
                    X.a["oty"] = self.ty(TypeOf(Op(v, 0)))
                elif o == "getelementptr":
                    X.a["ty"] = self.ty(GEPT(v)); X.a["inb"] = bool(IsInb(v))
                elif o == "alloca":
                    X.a["ty"] = self.ty(AllocT(v))
                elif o in ("extractvalue", "insertvalue"):
                    p = Idx(v); X.a["idx"] = [p[k] for k in range(NIdx(v))]
                elif o == "shufflevector":
                    X.a["mask"] = [Mask(v, k) for k in range(NMask(v))]
                elif o in ("load", "store"):
                    X.a["vol"] = bool(Volatile(v)); X.a["ord"] = Ordering(v)
                elif o == "atomicrmw":
                    X.a["rmw"] = RMWOp(v)
                if o in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "store", "fptoui", "uitofp"):
                    X.a["oty"] = self.ty(TypeOf(Op(v, 0)))
            B.ins.append(X)
        for b, B in bbs:
            F.blocks.append(B)
        finish_cfg(F)
        self.out.functions[nm] = F


def finish_cfg(F):
    for B in F.blocks:
        B.pred = []
    for B in F.blocks:
        t = B.ins[-1]
        if t.op == "br":
            B.succ = list(t.a["succ"])
        elif t.op == "switch":
            B.succ = []
            for x in [t.a["default"]] + [c[1] for c in t.a["cases"]]:
                if x not in B.succ:
                    B.succ.append(x)
        elif "succ" in t.a:
            B.succ = list(dict.fromkeys(t.a["succ"]))
        else:
            B.succ = []
        for s in dict.fromkeys(B.succ):
            s.pred.append(B)


def mark_const(m):
    """objects with internal linkage that nothing in the module writes are constants"""
    cand = {n for n, g in m.globals.items() if not g.const and g.init is not None and g.linkage in (8, 9) and not g.tls}
    if not cand:
        return
    def roots(o, der):
        if o[0] == "g":
            return {o[1]}
        if o[0] == "v":
            return der.get(o[1], set())
        if o[0] == "cv":
            return set().union(*[roots(x, der) for x in o[1]]) if o[1] else set()
        return set()
    for g in m.globals.values():
        if g.init is not None:
            cand -= roots(g.init, {})
    for F in m.functions.values():
        der = {}
        ch = True
        while ch:
            ch = False
            for B in F.blocks:
                for i in B.ins:
                    if i.op in ("getelementptr", "phi", "select", "bitcast", "freeze"):
                        r = set().union(*[roots(o, der) for o in i.ops]) if i.ops else set()
                        if not r <= der.get(i.name, set()):
                            der[i.name] = der.get(i.name, set()) | r; ch = True
        for B in F.blocks:
            for i in B.ins:
                if i.op in ("getelementptr", "phi", "select", "bitcast", "freeze", "load", "icmp"):
                    continue
                for k, o in enumerate(i.ops):
                    c = i.a.get("callee", ("",))
                    if i.op == "call" and c[0] == "f" and c[1].startswith(("llvm.memcpy", "llvm.memmove")) and k == 1:
                        continue
                    cand -= roots(o, der)
    for n in cand:
        m.globals[n].const = True


def load(path):
    return Loader(path).out
