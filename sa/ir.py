"""LLVM IR front end of the analyses.

Compiles an analysis unit with clang (no optimisation), decides with `policy.atomic` which library routines stay
opaque, inlines everything else with LLVM's always-inliner, puts the result into SSA form and turns it into plain
Python objects. Nothing is executed; libLLVM is only used as a parser / transformer of the current source.
"""
import ctypes as C
import functools
import os
import re
import subprocess
import sys

_LIB = None
for _n in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so"):
    try:
        _LIB = C.CDLL(_n)
        break
    except OSError:
        continue
if _LIB is None:
    raise RuntimeError("libLLVM-18 not found")

P, S, U, I = C.c_void_p, C.c_char_p, C.c_uint, C.c_int


def _f(name, res, *args):
    fn = getattr(_LIB, name)
    fn.restype = res
    fn.argtypes = list(args)
    return fn


CreateCtx = _f("LLVMContextCreate", P)
DisposeCtx = _f("LLVMContextDispose", None, P)
MemBufFile = _f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(P))
ParseBC = _f("LLVMParseBitcodeInContext2", I, P, P, C.POINTER(P))
LinkModules = _f("LLVMLinkModules2", I, P, P)
WriteLL = _f("LLVMPrintModuleToFile", I, P, S, C.POINTER(P))
FirstFn = _f("LLVMGetFirstFunction", P, P)
NextFn = _f("LLVMGetNextFunction", P, P)
ValName = _f("LLVMGetValueName2", S, P, C.POINTER(C.c_size_t))
IsDecl = _f("LLVMIsDeclaration", I, P)
GetLinkage = _f("LLVMGetLinkage", I, P)
SetLinkage = _f("LLVMSetLinkage", None, P, I)
FirstBB = _f("LLVMGetFirstBasicBlock", P, P)
NextBB = _f("LLVMGetNextBasicBlock", P, P)
FirstInst = _f("LLVMGetFirstInstruction", P, P)
NextInst = _f("LLVMGetNextInstruction", P, P)
InstOpcode = _f("LLVMGetInstructionOpcode", I, P)
NumOps = _f("LLVMGetNumOperands", I, P)
GetOp = _f("LLVMGetOperand", P, P, U)
TypeOf = _f("LLVMTypeOf", P, P)
TypeKind = _f("LLVMGetTypeKind", I, P)
IntWidth = _f("LLVMGetIntTypeWidth", U, P)
ICmpPred = _f("LLVMGetICmpPredicate", I, P)
FCmpPred = _f("LLVMGetFCmpPredicate", I, P)
CountIncoming = _f("LLVMCountIncoming", U, P)
IncVal = _f("LLVMGetIncomingValue", P, P, U)
IncBB = _f("LLVMGetIncomingBlock", P, P, U)
BBAsVal = _f("LLVMBasicBlockAsValue", P, P)
ValAsBB = _f("LLVMValueAsBasicBlock", P, P)
NumSucc = _f("LLVMGetNumSuccessors", U, P)
GetSucc = _f("LLVMGetSuccessor", P, P, U)
CountParams = _f("LLVMCountParams", U, P)
GetParam = _f("LLVMGetParam", P, P, U)
CalledValue = _f("LLVMGetCalledValue", P, P)
NumArgOps = _f("LLVMGetNumArgOperands", U, P)
GEPSrcType = _f("LLVMGetGEPSourceElementType", P, P)
AllocaType = _f("LLVMGetAllocatedType", P, P)
DataLayout = _f("LLVMGetModuleDataLayout", P, P)
OffsetOf = _f("LLVMOffsetOfElement", C.c_ulonglong, P, P, U)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, P, P)
StoreSize = _f("LLVMStoreSizeOfType", C.c_ulonglong, P, P)
ElemType = _f("LLVMGetElementType", P, P)
StructElem = _f("LLVMStructGetTypeAtIndex", P, P, U)
CountStructElems = _f("LLVMCountStructElementTypes", U, P)
ArrayLen = _f("LLVMGetArrayLength2", C.c_uint64, P)
ZExt = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, P)
SExt = _f("LLVMConstIntGetSExtValue", C.c_longlong, P)
RealD = _f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
ValueKind = _f("LLVMGetValueKind", I, P)
ConstOpcode = _f("LLVMGetConstOpcode", I, P)
PrintVal = _f("LLVMPrintValueToString", S, P)
PrintType = _f("LLVMPrintTypeToString", S, P)
DbgLine = _f("LLVMGetDebugLocLine", U, P)
DbgFile = _f("LLVMGetDebugLocFilename", P, P, C.POINTER(U))
DbgDir = _f("LLVMGetDebugLocDirectory", P, P, C.POINTER(U))
RMWOp = _f("LLVMGetAtomicRMWBinOp", I, P)
Ordering = _f("LLVMGetOrdering", I, P)
GetExact = _f("LLVMGetExact", I, P)
IsVolatile = _f("LLVMGetVolatile", I, P)
AttrKind = _f("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t)
CreateAttr = _f("LLVMCreateEnumAttribute", P, P, U, C.c_uint64)
AddAttr = _f("LLVMAddAttributeAtIndex", None, P, U, P)
RemAttr = _f("LLVMRemoveEnumAttributeAtIndex", None, P, U, U)
GetEnumAttr = _f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
GetCallAttr = _f("LLVMGetCallSiteEnumAttribute", P, P, U, U)
RemCallAttr = _f("LLVMRemoveCallSiteEnumAttribute", None, P, U, U)
RunPasses = _f("LLVMRunPasses", P, P, S, P, P)
CreatePBO = _f("LLVMCreatePassBuilderOptions", P)
ErrMsg = _f("LLVMGetErrorMessage", S, P)
FirstGlobal = _f("LLVMGetFirstGlobal", P, P)
NextGlobal = _f("LLVMGetNextGlobal", P, P)
GetInit = _f("LLVMGetInitializer", P, P)
IsGlobalConst = _f("LLVMIsGlobalConstant", I, P)
IsTLS = _f("LLVMIsThreadLocal", I, P)
IsConstString = _f("LLVMIsConstantString", I, P)
GetAsString = _f("LLVMGetAsString", P, P, C.POINTER(C.c_size_t))
CDSElem = _f("LLVMGetElementAsConstant", P, P, U)
AggElem = _f("LLVMGetAggregateElement", P, P, U)
NumIndices = _f("LLVMGetNumIndices", U, P)
GetIndices = _f("LLVMGetIndices", C.POINTER(U), P)
InitTM = _f("LLVMInitializeX86TargetInfo", None)
InitT = _f("LLVMInitializeX86Target", None)
InitMC = _f("LLVMInitializeX86TargetMC", None)
GetDefTriple = _f("LLVMGetDefaultTargetTriple", S)
GetTargetFromTriple = _f("LLVMGetTargetFromTriple", I, S, C.POINTER(P), C.POINTER(P))
CreateTM = _f("LLVMCreateTargetMachine", P, P, S, S, S, I, I, I)
GetSubprogram = _f("LLVMGetSubprogram", P, P)
SPLine = _f("LLVMDISubprogramGetLine", U, P)
ScopeFile = _f("LLVMDIScopeGetFile", P, P)
DIFileName = _f("LLVMDIFileGetFilename", P, P, C.POINTER(U))
DIFileDir = _f("LLVMDIFileGetDirectory", P, P, C.POINTER(U))
InstDbgLoc = _f("LLVMInstructionGetDebugLoc", P, P)
LocLine = _f("LLVMDILocationGetLine", U, P)
LocCol = _f("LLVMDILocationGetColumn", U, P)
LocScope = _f("LLVMDILocationGetScope", P, P)
LocInlined = _f("LLVMDILocationGetInlinedAt", P, P)
DelBody = None
CreateBuilder = _f("LLVMCreateBuilderInContext", P, P)
DisposeBuilder = _f("LLVMDisposeBuilder", None, P)
PosBefore = _f("LLVMPositionBuilderBefore", None, P, P)
BuildAlloca = _f("LLVMBuildAlloca", P, P, P, S)
BuildLoad = _f("LLVMBuildLoad2", P, P, P, P, S)
BuildStore = _f("LLVMBuildStore", P, P, P, P)
SetOp = _f("LLVMSetOperand", None, P, U, P)
ModCtx = _f("LLVMGetModuleContext", P, P)

OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 66: "fneg", 8: "add", 9: "fadd",
       10: "sub", 11: "fsub", 12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem",
       19: "frem", 20: "shl", 21: "lshr", 22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load",
       28: "store", 29: "gep", 30: "trunc", 31: "zext", 32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp",
       36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint", 40: "inttoptr", 41: "bitcast", 60: "addrspacecast",
       42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg", 50: "extractelement",
       51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 68: "freeze", 55: "fence",
       56: "cmpxchg", 57: "atomicrmw", 58: "resume", 59: "landingpad", 67: "callbr"}
ICMP = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}
FCMP = {0: "false", 1: "oeq", 2: "ogt", 3: "oge", 4: "olt", 5: "ole", 6: "one", 7: "ord", 8: "uno", 9: "ueq",
        10: "ugt", 11: "uge", 12: "ult", 13: "ule", 14: "une", 15: "true"}
RMW = {0: "xchg", 1: "add", 2: "sub", 3: "and", 4: "nand", 5: "or", 6: "xor", 7: "max", 8: "min", 9: "umax",
       10: "umin", 11: "fadd", 12: "fsub"}

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SA = os.path.join(VERIF, "sa")


class AnalysisError(Exception):
    """The analysis itself is broken (anchor vanished, unit does not compile)."""


# ---------------------------------------------------------------------------------------------- demangling
try:
    _cxx = C.CDLL("libstdc++.so.6")
    _dem = _cxx.__cxa_demangle
    _dem.restype = P
    _dem.argtypes = [S, P, P, C.POINTER(I)]
    _free = C.CDLL(None).free
    _free.argtypes = [P]
except OSError:
    _dem = None


@functools.lru_cache(None)
def demangle(n):
    # strip clang suffixes such as ".omp_outlined" is done by the caller
    if not n.startswith("_Z"):
        return n
    if _dem:
        st = I()
        p = _dem(n.encode(), None, None, C.byref(st))
        if p:
            s = C.string_at(p).decode()
            _free(p)
            return s
    return n


# ---------------------------------------------------------------------------------------------- Python IR
class Val:
    __slots__ = ()


class Const(Val):
    """kind: int (v unsigned, bits), fp, null, undef, fn, global, str, agg, expr"""
    __slots__ = ("kind", "v", "ty", "x")

    def __init__(self, kind, v, ty, x=None):
        self.kind, self.v, self.ty, self.x = kind, v, ty, x

    def __repr__(self):
        return "%s:%s" % (self.kind, self.v)


class Arg(Val):
    __slots__ = ("i", "fn", "ty", "name")

    def __init__(self, i, fn, ty, name):
        self.i, self.fn, self.ty, self.name = i, fn, ty, name

    def __repr__(self):
        return "arg%d" % self.i


class Inst(Val):
    __slots__ = ("op", "ops", "ty", "bb", "id", "x", "loc", "idx", "users", "inl", "col", "rec")

    def __repr__(self):
        return "%%%d=%s" % (self.id, self.op)


class Block:
    __slots__ = ("fn", "id", "insts", "succs", "preds", "name")

    def __repr__(self):
        return "bb%d" % self.id

    @property
    def term(self):
        return self.insts[-1]


class Fn:
    def __init__(self):
        self.blocks = []
        self.args = []

    def __repr__(self):
        return "<fn %s>" % self.name

    def insts(self):
        for b in self.blocks:
            for i in b.insts:
                yield i

    @property
    def dname(self):
        return demangle(self.name)


class Mod:
    pass


def tykind(t):
    return TypeKind(t)


def tystr(t, cache={}):
    k = TypeKind(t)
    if k == 8:
        return "i%d" % IntWidth(t)
    return {0: "void", 2: "float", 3: "double", 4: "x86_fp80", 7: "label", 12: "ptr"}.get(k) or {10: "struct", 11: "array", 13: "vector"}.get(k) or "k%d" % k


class Loader:
    def __init__(self, mod, dl):
        self.mod, self.dl = mod, dl
        self.vals = {}
        self.consts = {}

    def sname(self, v):
        n = C.c_size_t()
        s = ValName(v, C.byref(n))
        return s.decode(errors="replace") if s else ""

    def const(self, v):
        c = self.consts.get(v)
        if c is not None:
            return c
        k = ValueKind(v)
        t = TypeOf(v)
        ts = tystr(t)
        if k == 18:
            c = Const("int", ZExt(v) if IntWidth(t) <= 64 else None, ts)
        elif k == 5:   # function
            c = Const("fn", self.sname(v), ts)
        elif k == 8:   # global var
            c = Const("global", self.sname(v), ts)
        elif ts in ("double", "float", "x86_fp80") and k == 19:
            lo = I()
            c = Const("fp", RealD(v, C.byref(lo)), ts)
        elif k == 10:  # constant expr
            oc = ConstOpcode(v)
            op = OPC.get(oc, "?%d" % oc)
            if op == "gep":
                c = Const("expr", "gep", ts, None)
                base, off, var = self.gep(v, constexpr=True)
                c.x = (base, off, var)
            else:
                c = Const("expr", op, ts, [self.const(GetOp(v, i)) for i in range(NumOps(v))])
        else:
            txt = PrintVal(v).decode(errors="replace")
            if txt.endswith(" null"):
                c = Const("null", 0, ts)
            elif k in (14, 25) or "undef" in txt or "poison" in txt:
                c = Const("undef", None, ts)
            elif "zeroinitializer" in txt:
                c = Const("zero", None, ts)
            else:
                c = Const("other", txt, ts)
        self.consts[v] = c
        return c

    def val(self, v):
        r = self.vals.get(v)
        if r is not None:
            return r
        k = ValueKind(v)
        if k in (0,):
            raise AssertionError("unmapped arg")
        if k == 24 or k == 25:                         # an instruction in unreachable code, poison
            return Const("undef", None, tystr(TypeOf(v)))
        if k in (22, 23, 26):                          # metadata, asm
            return Const("other", "asm/md", "x")
        return self.const(v)

    def gep(self, v, constexpr=False):
        """-> (base, const byte offset, [(index value, scale)])"""
        get = self.const if constexpr else self.val
        base = get(GetOp(v, 0))
        t = GEPSrcType(v)
        off = 0
        var = []
        n = NumOps(v)
        for i in range(1, n):
            o = GetOp(v, i)
            isint = ValueKind(o) == 18
            if i == 1:
                sz = ABISize(self.dl, t)
            else:
                k = TypeKind(t)
                if k == 10:
                    idx = ZExt(o)
                    off += OffsetOf(self.dl, t, idx)
                    t = StructElem(t, idx)
                    continue
                t = ElemType(t)
                sz = ABISize(self.dl, t)
            if isint:
                off += SExt(o) * sz
            else:
                var.append((get(o), sz))
        return base, off, var


def load_fn(L, f):
    fn = Fn()
    fn.name = L.sname(f)
    fn.decl = bool(IsDecl(f))
    fn.linkage = GetLinkage(f)
    fn.line, fn.file = 0, ""
    sp = GetSubprogram(f)
    if sp:
        fn.line = SPLine(sp)
        fi = ScopeFile(sp)
        if fi:
            n = U()
            p = DIFileName(fi, C.byref(n))
            fn.file = C.string_at(p, n.value).decode() if p else ""
    for i in range(CountParams(f)):
        a = GetParam(f, i)
        A = Arg(i, fn, tystr(TypeOf(a)), L.sname(a))
        fn.args.append(A)
        L.vals[a] = A
    if fn.decl:
        return fn
    bbs = {}
    raw = []
    b = FirstBB(f)
    while b:
        B = Block()
        B.fn, B.id, B.insts, B.succs, B.preds = fn, len(fn.blocks), [], [], []
        fn.blocks.append(B)
        bbs[b] = B
        i = FirstInst(b)
        while i:
            ins = Inst()
            ins.id = len(raw)
            ins.bb = B
            ins.idx = len(B.insts)
            ins.users = []
            B.insts.append(ins)
            L.vals[i] = ins
            raw.append((i, ins))
            i = NextInst(i)
        b = NextBB(b)
    for i, ins in raw:
        op = OPC.get(InstOpcode(i), "?%d" % InstOpcode(i))
        ins.op = op
        ins.ty = tystr(TypeOf(i))
        ins.x = None
        ins.inl = None
        # location: innermost; remember the chain of inline sites for reports
        dl = InstDbgLoc(i)
        ins.loc = None
        ins.col = LocCol(dl) if dl else None
        ins.rec = None
        if dl:
            locs = []
            while dl:
                sc = LocScope(dl)
                fi = ScopeFile(sc) if sc else None
                name = ""
                if fi:
                    n = U()
                    p = DIFileName(fi, C.byref(n))
                    name = C.string_at(p, n.value).decode() if p else ""
                    if name and not name.startswith("/"):
                        p = DIFileDir(fi, C.byref(n))
                        name = os.path.join(C.string_at(p, n.value).decode() if p else "", name)
                locs.append((name, LocLine(dl)))
                dl = LocInlined(dl)
            ins.loc = locs
        if op == "phi":
            n = CountIncoming(i)
            ins.ops = [L.val(IncVal(i, k)) for k in range(n)]
            ins.x = [bbs[IncBB(i, k)] for k in range(n)]
        elif op == "gep":
            base, off, var = L.gep(i)
            if NumOps(i) == 3 and TypeKind(GEPSrcType(i)) == 10:
                k = L.val(GetOp(i, 2))
                ins.rec = (PrintType(GEPSrcType(i)).decode().split(" = ")[0], k.v if isinstance(k, Const) else None)
            ins.ops = [base] + [v for v, _ in var]
            ins.x = (off, [s for _, s in var])
        elif op in ("call", "invoke"):
            cv = CalledValue(i)
            n = NumArgOps(i)
            ins.ops = [L.val(GetOp(i, k)) for k in range(n)]
            ins.x = L.val(cv) if ValueKind(cv) != 23 else Const("asm", "asm", "ptr")
        elif op == "br":
            n = NumOps(i)
            ins.ops = [L.val(GetOp(i, 0))] if n == 3 else []
            B = ins.bb
            # operand order: cond, false, true -> use successors
        elif op == "switch":
            n = NumOps(i)
            ins.ops = [L.val(GetOp(i, 0))]
            ins.x = [L.const(GetOp(i, k)).v for k in range(2, n, 2)]
        else:
            n = NumOps(i)
            ins.ops = []
            for k in range(n):
                o = GetOp(i, k)
                if ValueKind(o) == 1:
                    continue
                ins.ops.append(L.val(o))
            if op == "icmp":
                ins.x = ICMP[ICmpPred(i)]
            elif op == "fcmp":
                ins.x = FCMP[FCmpPred(i)]
            elif op == "alloca":
                t = AllocaType(i)
                ins.x = (ABISize(L.dl, t), PrintType(t).decode())
            elif op in ("sdiv", "udiv", "ashr", "lshr"):
                ins.x = bool(GetExact(i))
            elif op == "atomicrmw":
                ins.x = RMW.get(RMWOp(i), "?")
            elif op in ("extractvalue", "insertvalue"):
                ins.x = [GetIndices(i)[k] for k in range(NumIndices(i))]
            elif op in ("load", "store"):
                ins.x = {"atomic": Ordering(i) != 0, "volatile": bool(IsVolatile(i)),
                         "size": StoreSize(L.dl, TypeOf(i) if op == "load" else TypeOf(GetOp(i, 0)))}
        B = ins.bb
        if op in ("br", "switch", "invoke"):
            for k in range(NumSucc(i)):
                B.succs.append(bbs[GetSucc(i, k)])
    for B in fn.blocks:
        for s in B.succs:
            if B not in s.preds:
                s.preds.append(B)
    for ins in fn.insts():
        for o in ins.ops:
            if isinstance(o, Inst):
                o.users.append(ins)
    return fn


NOINLINE = AttrKind(b"noinline", 8)
ALWAYS = AttrKind(b"alwaysinline", 12)
OPTNONE = AttrKind(b"optnone", 7)
FNIDX = 0xFFFFFFFF


_tm = None


def target_machine():
    global _tm
    if _tm is None:
        InitTM(), InitT(), InitMC()
        tr = GetDefTriple()
        t, e = P(), P()
        if GetTargetFromTriple(tr, C.byref(t), C.byref(e)):
            raise AnalysisError("no X86 target")
        _tm = CreateTM(t, tr, b"x86-64", b"", 1, 0, 0)
    return _tm


def run_passes(mod, pipeline):
    o = CreatePBO()
    e = RunPasses(mod, pipeline.encode(), target_machine(), o)
    if e:
        raise AnalysisError("LLVM pass pipeline failed: " + ErrMsg(e).decode())


def clang(src, out, repo, defs=(), extra=()):
    r = None
    for std in ("-std=gnu++11", "-std=gnu++17"):        # the project asks for C++11; g++ accepts newer constructs with a warning
        e = clang1(std, src, out, repo, defs, extra)
        if e is None:
            return
        r = r or e
    raise AnalysisError("clang failed on %s:\n%s" % (src, r))


def clang1(std, src, out, repo, defs, extra):
    cmd = ["clang++", std, "-w", *[x for x in extra if x.startswith("-I")], "-I" + os.path.join(SA, "stub"),
           "-I" + os.path.join(repo, "source/girgs/include"), "-I" + os.path.join(repo, "source/hypergirgs/include"),
           "-DSYSTEM_LINUX", "-O2", "-Xclang", "-disable-llvm-passes", "-Xclang", "-mno-constructor-aliases", "-fno-math-errno", "-ffp-contract=off", "-g1", "-emit-llvm", "-c",
           *["-D" + d for d in defs], *[x for x in extra if not x.startswith("-I")], src, "-o", out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.stdout[-3000:] if r.returncode else None


def link(files):
    ctx = CreateCtx()
    dst = None
    for f in files:
        mb, e = P(), P()
        if MemBufFile(f.encode(), C.byref(mb), C.byref(e)):
            raise AnalysisError("cannot read " + f)
        m = P()
        if ParseBC(ctx, mb, C.byref(m)):
            raise AnalysisError("cannot parse " + f)
        if dst is None:
            dst = m
        elif LinkModules(dst, m):
            raise AnalysisError("cannot link " + f)
    return ctx, dst


def fns(mod):
    f = FirstFn(mod)
    while f:
        yield f
        f = NextFn(f)


def callees(f, L):
    """defined/declared functions directly called (names)"""
    out = set()
    b = FirstBB(f)
    while b:
        i = FirstInst(b)
        while i:
            if InstOpcode(i) in (45, 5):
                cv = CalledValue(i)
                if cv and ValueKind(cv) == 5:
                    out.add(L.sname(cv))
            i = NextInst(i)
        b = NextBB(b)
    return out


def components(graph):
    """strongly connected components of the call graph that contain a cycle (Tarjan)"""
    sys.setrecursionlimit(100000)
    idx, low, st, on, res, cnt = {}, {}, [], set(), [], [0]

    def go(v):
        idx[v] = low[v] = cnt[0]
        cnt[0] += 1
        st.append(v)
        on.add(v)
        for w in sorted(graph.get(v, ())):
            if w not in graph:
                continue
            if w not in idx:
                go(w)
                low[v] = min(low[v], low[w])
            elif w in on:
                low[v] = min(low[v], idx[w])
        if low[v] == idx[v]:
            comp = []
            while True:
                w = st.pop()
                on.discard(w)
                comp.append(w)
                if w == v:
                    break
            if len(comp) > 1 or v in graph.get(v, ()):
                res.append(comp)
    for v in graph:
        if v not in idx:
            go(v)
    return res


def recursive(graph):
    """functions that stay calls because of recursion: of every cycle the functions it is entered through, until no cycle is left"""
    out = set()
    todo = components(graph)
    while todo:
        comp = set(todo.pop())
        entry = {w for v, c in graph.items() if v not in comp for w in c if w in comp} or {v for v in comp if v in graph[v]} or {min(comp)}
        out |= entry
        todo += components({v: {w for w in graph[v] if w in comp and w not in entry} for v in comp if v not in entry})
    return out


PUSH = re.compile(r"^std::(vector|deque|list)::(push_back|emplace_back|emplace|push|insert)$")


I32T, I64T, DblT = (_f("LLVM%sTypeInContext" % k, P, P) for k in ("Int32", "Int64", "Double"))
SCALARS = {"int": I32T, "unsigned int": I32T, "long": I64T, "unsigned long": I64T, "double": DblT, "long long": I64T, "unsigned long long": I64T}


def param_types(d):
    """scalar types of the reference parameters of a demangled function ([] if not understood)"""
    d = d[:-6] if d.endswith(" const") else d
    if not d.endswith(")"):
        return []
    k, i = 0, len(d)
    while i:
        i -= 1
        k += (d[i] == ")") - (d[i] == "(")
        if not k:
            break
    out, depth, cur = [], 0, ""
    for c in d[i + 1:-1]:
        depth += c in "<(" or 0
        depth -= c in ">)" or 0
        if c == "," and not depth:
            out.append(cur)
            cur = ""
        else:
            cur += c
    out.append(cur)
    return [SCALARS.get(x.replace("const", "").replace("&", "").strip()) if x.rstrip().endswith("&") else None for x in out]


def copy_pushed(mod, L):
    """push_back(const T&) of a scalar local: pass a copy, so that taking the address does not keep the local in memory"""
    from policy import qual
    n = 0
    bld = CreateBuilder(ModCtx(mod))
    for f in fns(mod):
        if IsDecl(f):
            continue
        entry = FirstBB(f)
        b = entry
        while b:
            i = FirstInst(b)
            while i:
                nx = NextInst(i)
                if InstOpcode(i) in (45, 5):
                    cv = CalledValue(i)
                    if cv and ValueKind(cv) == 5 and PUSH.match(qual(demangle(L.sname(cv)))):
                        types = param_types(demangle(L.sname(cv)))
                        for k in range(1, NumArgOps(i)):
                            o = GetOp(i, k)
                            if k <= len(types) and len(types) == NumArgOps(i) - 1 and TypeKind(TypeOf(o)) == 12 and types[k - 1] and not IsAInst(o):
                                t = types[k - 1](ModCtx(mod))
                                PosBefore(bld, FirstInst(entry))
                                tmp = BuildAlloca(bld, t, b"vh.copy")
                                PosBefore(bld, i)
                                BuildStore(bld, BuildLoad(bld, t, o, b"vh.val"), tmp)
                                SetOp(i, k, tmp)
                                n += 1
                                continue
                            if ValueKind(o) == 24 or (TypeKind(TypeOf(o)) == 12 and is_scalar_alloca(o)):
                                if not is_scalar_alloca(o):
                                    continue
                                t = AllocaType(o)
                                PosBefore(bld, FirstInst(entry))
                                tmp = BuildAlloca(bld, t, b"vh.copy")
                                PosBefore(bld, i)
                                BuildStore(bld, BuildLoad(bld, t, o, b"vh.val"), tmp)
                                SetOp(i, k, tmp)
                                n += 1
                i = nx
            b = NextBB(b)
    DisposeBuilder(bld)
    return n


IsAInst = _f("LLVMIsAAllocaInst", P, P)


def is_scalar_alloca(o):
    if not IsAInst(o):
        return False
    return TypeKind(AllocaType(o)) in (2, 3, 8, 12)


def prepare(mod, atomic, passes, lower_invoke=True, extra_noinline=()):
    """mark, inline, simplify."""
    dl = DataLayout(mod)
    L = Loader(mod, dl)
    graph = {}
    fm = {}
    for f in fns(mod):
        n = L.sname(f)
        fm[n] = f
        if not IsDecl(f):
            graph[n] = callees(f, L)
    at = {n for n in graph if n not in extra_noinline and atomic(n, demangle(n))} | set(n for n in graph if n in extra_noinline)
    # outlined OpenMP regions keep their identity (they are passed by address)
    rec = recursive({n: (c if n not in at else set()) for n, c in graph.items()})
    ctx_attr = {}
    for n, f in fm.items():
        RemAttr(f, FNIDX, OPTNONE)
        if n not in graph:
            continue
        ctx = _f("LLVMGetModuleContext", P, P)(mod)
        if n in at or n in rec:
            RemAttr(f, FNIDX, ALWAYS)
            AddAttr(f, FNIDX, CreateAttr(ctx, NOINLINE, 0))
        else:
            RemAttr(f, FNIDX, NOINLINE)
            AddAttr(f, FNIDX, CreateAttr(ctx, ALWAYS, 0))
        # call-site noinline attributes
        b = FirstBB(f)
        while b:
            i = FirstInst(b)
            while i:
                if InstOpcode(i) in (45, 5):
                    RemCallAttr(i, FNIDX, NOINLINE)
                i = NextInst(i)
            b = NextBB(b)
    run_passes(mod, ("function(lowerinvoke,simplifycfg)," if lower_invoke else "") + "always-inline")
    copy_pushed(mod, L)
    run_passes(mod, passes)
    return at, rec


ParseCL = _f("LLVMParseCommandLineOptions", None, I, C.POINTER(S), S)
_args = (S * 4)(b"sa", b"-unroll-threshold=200000", b"-unroll-max-iteration-count-to-analyze=64", b"-unroll-allow-peeling=0")
ParseCL(4, _args, None)

DEFAULT_PASSES = ("function(sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,"
                  "instsimplify,sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,instsimplify,adce)")

# loops with a small constant trip count (the dimensions) are unrolled completely
UNROLL_PASSES = (DEFAULT_PASSES + ",function(loop-simplify,lcssa,loop(loop-rotate),loop(loop-unroll-full),simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,"
                 "instsimplify,sroa<modify-cfg>,early-cse<memssa>,simplifycfg<no-switch-to-lookup;no-sink-common-insts;no-hoist-common-insts>,instsimplify,adce)")


def load(mod):
    dl = DataLayout(mod)
    L = Loader(mod, dl)
    M = Mod()
    M.fns = {}
    M.strings = {}
    M.globals = {}
    g = FirstGlobal(mod)
    while g:
        n = L.sname(g)
        init = GetInit(g)
        M.globals[n] = {"const": bool(IsGlobalConst(g)), "tls": bool(IsTLS(g)), "init": bool(init),
                        "text": PrintVal(init).decode(errors="replace")[:4000] if init and IsGlobalConst(g) else ""}
        if init and ValueKind(init) == 16 and IsConstString(init):
            ln = C.c_size_t()
            p = GetAsString(init, C.byref(ln))
            M.strings[n] = C.string_at(p, ln.value).rstrip(b"\0").decode(errors="replace")
        elif init and PrintVal(init).decode(errors="replace").endswith("zeroinitializer"):
            M.strings[n] = "" if b"x i8]" in PrintVal(init) else None
        g = NextGlobal(g)
    for f in fns(mod):
        fn = load_fn(L, f)
        fn.mod = M
        M.fns[fn.name] = fn
    return M


def print_ll(mod, path):
    e = P()
    WriteLL(mod, path.encode(), C.byref(e))
