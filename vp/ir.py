"""LLVM IR loader: reads the bitcode clang-20 produced from /repo's sources through the LLVM-C API."""
import ctypes as C
import subprocess

_cands = ["/usr/lib/llvm-20/lib/libLLVM.so", "/usr/lib/llvm-20/lib/libLLVM-20.so", "/usr/lib/x86_64-linux-gnu/libLLVM-20.so",
          "/usr/lib/x86_64-linux-gnu/libLLVM.so.20.1"]
for _c in _cands:
    try:
        L = C.CDLL(_c)
        break
    except OSError:
        L = None
P = C.c_void_p


def _sig(name, res, *args):
    f = getattr(L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


U = C.c_uint
U64 = C.c_ulonglong
I = C.c_int
S = C.c_char_p
for n, r, *a in [
    ("LLVMContextCreate", P), ("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(P)),
    ("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(P)),
    ("LLVMGetFirstFunction", P, P), ("LLVMGetNextFunction", P, P), ("LLVMGetFirstGlobal", P, P), ("LLVMGetNextGlobal", P, P),
    ("LLVMGetFirstGlobalAlias", P, P), ("LLVMGetNextGlobalAlias", P, P), ("LLVMAliasGetAliasee", P, P),
    ("LLVMGetValueName2", P, P, C.POINTER(C.c_size_t)), ("LLVMCountParams", U, P), ("LLVMGetParam", P, P, U),
    ("LLVMGetFirstBasicBlock", P, P), ("LLVMGetNextBasicBlock", P, P), ("LLVMGetBasicBlockName", S, P),
    ("LLVMGetFirstInstruction", P, P), ("LLVMGetNextInstruction", P, P), ("LLVMGetInstructionOpcode", I, P),
    ("LLVMGetNumOperands", I, P), ("LLVMGetOperand", P, P, U), ("LLVMTypeOf", P, P), ("LLVMGetTypeKind", I, P),
    ("LLVMGetIntTypeWidth", U, P), ("LLVMGetElementType", P, P), ("LLVMGetArrayLength2", C.c_uint64, P),
    ("LLVMGetVectorSize", U, P),
    ("LLVMCountStructElementTypes", U, P), ("LLVMStructGetTypeAtIndex", P, P, U), ("LLVMGetStructName", S, P),
    ("LLVMABISizeOfType", U64, P, P), ("LLVMABIAlignmentOfType", U, P, P), ("LLVMOffsetOfElement", U64, P, P, U), ("LLVMGetModuleDataLayout", P, P),
    ("LLVMGetICmpPredicate", I, P), ("LLVMGetFCmpPredicate", I, P), ("LLVMGetNUW", I, P), ("LLVMGetNSW", I, P), ("LLVMGetExact", I, P),
    ("LLVMIsConditional", I, P), ("LLVMGetCondition", P, P), ("LLVMGetNumSuccessors", U, P), ("LLVMGetSuccessor", P, P, U),
    ("LLVMCountIncoming", U, P), ("LLVMGetIncomingValue", P, P, U), ("LLVMGetIncomingBlock", P, P, U),
    ("LLVMGetAllocatedType", P, P), ("LLVMGetGEPSourceElementType", P, P), ("LLVMGetNumIndices", U, P), ("LLVMGetIndices", C.POINTER(U), P),
    ("LLVMGetCalledValue", P, P), ("LLVMGetNumArgOperands", U, P), ("LLVMGetNormalDest", P, P), ("LLVMGetUnwindDest", P, P),
    ("LLVMGetNumClauses", U, P), ("LLVMGetClause", P, P, U), ("LLVMIsCleanup", I, P),
    ("LLVMGetDebugLocLine", U, P), ("LLVMGetDebugLocFilename", P, P, C.POINTER(U)), ("LLVMGetValueKind", I, P),
    ("LLVMConstIntGetZExtValue", U64, P), ("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I)),
    ("LLVMGetConstOpcode", I, P), ("LLVMIsNull", I, P), ("LLVMIsConstant", I, P), ("LLVMGetAggregateElement", P, P, U), ("LLVMGetInitializer", P, P),
    ("LLVMIsGlobalConstant", I, P), ("LLVMIsDeclaration", I, P), ("LLVMIsConstantString", I, P), ("LLVMGetAsString", P, P, C.POINTER(C.c_size_t)),
    ("LLVMGlobalGetValueType", P, P), ("LLVMGetEnumAttributeKindForName", U, S, C.c_size_t), ("LLVMGetCallSiteEnumAttribute", P, P, U, U),
    ("LLVMGetEnumAttributeAtIndex", P, P, U, U), ("LLVMGetTypeAttributeValue", P, P), ("LLVMPrintValueToString", P, P), ("LLVMDisposeMessage", None, P),
    ("LLVMPrintTypeToString", P, P), ("LLVMGetReturnType", P, P), ("LLVMIsFunctionVarArg", I, P), ("LLVMGetCalledFunctionType", P, P),
    ("LLVMGetLinkage", I, P), ("LLVMDisposeModule", None, P),
]:
    _sig(n, r, *a)

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub',
       12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr',
       23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load', 28: 'store', 29: 'getelementptr', 30: 'trunc', 31: 'zext', 32: 'sext',
       33: 'fptoui', 34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast',
       60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw',
       58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt', 11: 'uge', 12: 'ult',
        13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ("k", "w", "n", "el", "els", "offs", "size", "align", "name")

    def __init__(s, k, **kw):
        s.k = k
        s.w = s.n = s.el = s.els = s.offs = s.name = None
        s.size = 0
        s.align = 1
        for a, b in kw.items():
            setattr(s, a, b)

    def __repr__(s):
        if s.k == 'int':
            return 'i%d' % s.w
        if s.k == 'array':
            return '[%d x %r]' % (s.n, s.el)
        if s.k == 'struct':
            return s.name or '{%s}' % ', '.join(map(repr, s.els))
        return s.k


class Const:
    """kind: int, fp, null, undef, zero, agg, str, gref (global/function), expr"""
    __slots__ = ("kind", "ty", "v", "ops")

    def __init__(s, kind, ty, v=None, ops=None):
        s.kind, s.ty, s.v, s.ops = kind, ty, v, ops

    def __repr__(s):
        return "C(%s %r)" % (s.kind, s.v)


class Ref:
    __slots__ = ("id", "ty", "name")

    def __init__(s, id, ty, name):
        s.id, s.ty, s.name = id, ty, name


class Ins:
    __slots__ = ("op", "id", "ty", "ops", "name", "line", "file", "x", "fn")

    def __repr__(s):
        return "%s:%s(%s)@%s" % (s.op, s.name, s.id, s.line)


class Block:
    __slots__ = ("name", "ins", "idx", "succs")


class Func:
    __slots__ = ("name", "dem", "params", "pnames", "blocks", "vararg", "rty", "loops", "mod", "byval", "sret", "internal", "lid", "allocnames")


class GVar:
    __slots__ = ("name", "ty", "init", "const", "mod")


def _str(p):
    if not p:
        return ""
    s = C.string_at(p).decode("utf8", "replace")
    L.LLVMDisposeMessage(p)
    return s


class Module:
    def __init__(self, path):
        self.path = path
        self.ctx = L.LLVMContextCreate()
        buf = P()
        msg = P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(msg)):
            raise IOError(_str(msg))
        mod = P()
        if L.LLVMParseIRInContext(self.ctx, buf, C.byref(mod), C.byref(msg)):
            raise IOError(_str(msg))
        self.mod = mod
        self.td = L.LLVMGetModuleDataLayout(mod)
        self.types = {}
        self.funcs = {}
        self.decls = set()
        self.globals = {}
        self.aliases = {}
        self._k_byval = L.LLVMGetEnumAttributeKindForName(b"byval", 5)
        self._k_sret = L.LLVMGetEnumAttributeKindForName(b"sret", 4)
        self._raw = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            nm = self.name(f)
            if L.LLVMIsDeclaration(f):
                self.decls.add(nm)
            else:
                self._raw[nm] = f
            f = L.LLVMGetNextFunction(f)
        g = L.LLVMGetFirstGlobal(mod)
        while g:
            gv = GVar()
            gv.name = self.name(g)
            gv.ty = self.type(L.LLVMGlobalGetValueType(g))
            init = L.LLVMGetInitializer(g)
            gv.init = init
            gv.const = bool(L.LLVMIsGlobalConstant(g))
            gv.mod = self
            self.globals[gv.name] = gv
            g = L.LLVMGetNextGlobal(g)
        a = L.LLVMGetFirstGlobalAlias(mod)
        while a:
            self.aliases[self.name(a)] = self.name(L.LLVMAliasGetAliasee(a))
            a = L.LLVMGetNextGlobalAlias(a)
        names = list(self._raw) + sorted(set(self.decls) | set(self.aliases))
        out = subprocess.run(["llvm-cxxfilt" if __import__("shutil").which("llvm-cxxfilt") else "c++filt"], input="\n".join(names), capture_output=True, text=True).stdout.split("\n")
        self.dem = dict(zip(names, out))

    def ginit(self, gv):
        if isinstance(gv.init, int):
            gv.init = self.const(gv.init)
        return gv.init

    def name(self, v):
        n = C.c_size_t()
        p = L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode() if n.value else ""

    def type(self, t):
        r = self.types.get(t)
        if r is not None:
            return r
        k = L.LLVMGetTypeKind(t)
        if k == 0:
            r = Ty('void')
        elif k == 2:
            r = Ty('float', size=4, align=4)
        elif k == 3:
            r = Ty('double', size=8, align=8)
        elif k == 8:
            w = L.LLVMGetIntTypeWidth(t)
            r = Ty('int', w=w, size=L.LLVMABISizeOfType(self.td, t), align=L.LLVMABIAlignmentOfType(self.td, t))
        elif k == 12:
            r = Ty('ptr', size=8, align=8)
        elif k == 11:
            r = Ty('array', n=L.LLVMGetArrayLength2(t), el=self.type(L.LLVMGetElementType(t)))
            r.size = L.LLVMABISizeOfType(self.td, t)
            r.align = L.LLVMABIAlignmentOfType(self.td, t)
        elif k == 13:
            r = Ty('vector', n=L.LLVMGetVectorSize(t), el=self.type(L.LLVMGetElementType(t)))
            r.size = L.LLVMABISizeOfType(self.td, t)
        elif k == 10:
            n = L.LLVMCountStructElementTypes(t)
            nm = L.LLVMGetStructName(t)
            r = Ty('struct', name=nm.decode() if nm else None)
            self.types[t] = r
            r.els = [self.type(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                r.offs = [L.LLVMOffsetOfElement(self.td, t, i) for i in range(n)]
                r.size = L.LLVMABISizeOfType(self.td, t)
                r.align = L.LLVMABIAlignmentOfType(self.td, t)
            except Exception:
                pass
        elif k == 9:
            r = Ty('func')
        else:
            r = Ty({1: 'half', 4: 'x86_fp80', 5: 'fp128', 7: 'label', 14: 'metadata', 16: 'token'}.get(k, 'k%d' % k))
            if k == 4:
                r.size = 16
        self.types[t] = r
        return r

    def const(self, v):
        vk = L.LLVMGetValueKind(v)
        ty = self.type(L.LLVMTypeOf(v))
        # ValueKind: 3 Function? use names: order Argument0 BasicBlock1 MemoryUse.. ; rely on IsA-ish checks
        if vk in (5, 6, 7, 8):  # Function, GlobalAlias, GlobalIFunc, GlobalVariable
            return Const('gref', ty, self.name(v))
        if L.LLVMIsNull(v):
            if ty.k == 'int':
                return Const('int', ty, 0)
            if ty.k == 'ptr':
                return Const('null', ty)
            if ty.k in ('float', 'double'):
                return Const('fp', ty, 0.0)
            return Const('zero', ty)
        if vk in (14, 25):  # UndefValue, PoisonValue
            return Const('undef', ty)
        if vk == 18:  # ConstantInt
            if ty.w <= 64:
                return Const('int', ty, L.LLVMConstIntGetZExtValue(v))
            s = _str(L.LLVMPrintValueToString(v)).split()[-1]
            return Const('int', ty, int(s) % (1 << ty.w))
        if vk == 19:  # ConstantFP
            loses = I()
            d = L.LLVMConstRealGetDouble(v, C.byref(loses))
            return Const('fp', ty, d)
        if vk == 10:
            op = OPC[L.LLVMGetConstOpcode(v)]
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(L.LLVMGetNumOperands(v))]
            c = Const('expr', ty, op, ops)
            if op == 'getelementptr':
                c.v = ('getelementptr', self.type(L.LLVMGetGEPSourceElementType(v)))
            else:
                c.v = (op,)
            return c
        if ty.k == 'array' and L.LLVMIsConstantString(v):
            n = C.c_size_t()
            p = L.LLVMGetAsString(v, C.byref(n))
            return Const('str', ty, C.string_at(p, n.value))
        if ty.k in ('array', 'struct', 'vector'):
            n = ty.n if ty.k != 'struct' else len(ty.els)
            els = []
            for i in range(n):
                e = L.LLVMGetAggregateElement(v, i)
                if not e:
                    return Const('undef', ty)
                els.append(self.const(e))
            return Const('agg', ty, els)
        raise RuntimeError('constant of value kind %d' % vk)

    def func(self, name):
        name = self.aliases.get(name, name)
        if name in self.funcs:
            return self.funcs[name]
        raw = self._raw.get(name)
        if raw is None:
            return None
        f = Func()
        f.name = name
        f.dem = self.dem.get(name, name)
        f.mod = self
        f.internal = L.LLVMGetLinkage(raw) in (8, 9)
        ids = {}
        np_ = L.LLVMCountParams(raw)
        f.params = []
        f.pnames = []
        f.byval = {}
        f.sret = None
        for i in range(np_):
            pv = L.LLVMGetParam(raw, i)
            ids[pv] = len(ids)
            f.params.append(Ref(ids[pv], self.type(L.LLVMTypeOf(pv)), self.name(pv)))
            f.pnames.append(self.name(pv))
            at = L.LLVMGetEnumAttributeAtIndex(raw, i + 1, self._k_byval)
            if at:
                f.byval[i] = self.type(L.LLVMGetTypeAttributeValue(at))
            at = L.LLVMGetEnumAttributeAtIndex(raw, i + 1, self._k_sret)
            if at:
                f.sret = i
        blocks = []
        bidx = {}
        b = L.LLVMGetFirstBasicBlock(raw)
        while b:
            bidx[b] = len(blocks)
            blocks.append(b)
            i = L.LLVMGetFirstInstruction(b)
            while i:
                ids[i] = len(ids)
                i = L.LLVMGetNextInstruction(i)
            b = L.LLVMGetNextBasicBlock(b)
        f.blocks = []

        def opnd(v):
            if v in ids:
                return Ref(ids[v], self.type(L.LLVMTypeOf(v)), None)
            return self.const(v)
        f.allocnames = {}
        for braw in blocks:
            B = Block()
            B.name = L.LLVMGetBasicBlockName(braw).decode()
            B.idx = bidx[braw]
            B.ins = []
            i = L.LLVMGetFirstInstruction(braw)
            while i:
                n = Ins()
                n.op = OPC[L.LLVMGetInstructionOpcode(i)]
                n.id = ids[i]
                n.ty = self.type(L.LLVMTypeOf(i))
                n.name = self.name(i)
                n.line = L.LLVMGetDebugLocLine(i)
                ln = U()
                fp = L.LLVMGetDebugLocFilename(i, C.byref(ln)) if n.line else None
                n.file = C.string_at(fp, ln.value).decode() if fp else ""
                n.x = None
                n.fn = f
                nops = L.LLVMGetNumOperands(i)
                if n.op == 'br':
                    ns = L.LLVMGetNumSuccessors(i)
                    n.x = [bidx[L.LLVMGetSuccessor(i, k)] for k in range(ns)]
                    n.ops = [opnd(L.LLVMGetCondition(i))] if L.LLVMIsConditional(i) else []
                elif n.op == 'switch':
                    n.ops = [opnd(L.LLVMGetOperand(i, 0))]
                    cases = []
                    for k in range(2, nops, 2):
                        cases.append((L.LLVMConstIntGetZExtValue(L.LLVMGetOperand(i, k)), bidx[L.LLVMGetOperand(i, k + 1)]))
                    n.x = (bidx[L.LLVMGetOperand(i, 1)], cases)
                elif n.op == 'phi':
                    cnt = L.LLVMCountIncoming(i)
                    n.ops = []
                    n.x = [(bidx[L.LLVMGetIncomingBlock(i, k)], opnd(L.LLVMGetIncomingValue(i, k))) for k in range(cnt)]
                elif n.op in ('call', 'invoke'):
                    na = L.LLVMGetNumArgOperands(i)
                    cv = L.LLVMGetCalledValue(i)
                    n.ops = []
                    for k in range(na):
                        ov = L.LLVMGetOperand(i, k)
                        if self.type(L.LLVMTypeOf(ov)).k == 'metadata':
                            n.ops.append(None)
                        else:
                            n.ops.append(opnd(ov))
                    byval = {}
                    for k in range(na):
                        at = L.LLVMGetCallSiteEnumAttribute(i, k + 1, self._k_byval)
                        if at:
                            byval[k] = self.type(L.LLVMGetTypeAttributeValue(at))
                    n.x = dict(callee=opnd(cv), byval=byval)
                    if n.op == 'invoke':
                        n.x['normal'] = bidx[L.LLVMGetNormalDest(i)]
                        n.x['unwind'] = bidx[L.LLVMGetUnwindDest(i)]
                elif n.op == 'landingpad':
                    n.ops = []
                    n.x = (bool(L.LLVMIsCleanup(i)), [self.const(L.LLVMGetClause(i, k)) for k in range(L.LLVMGetNumClauses(i))])
                else:
                    n.ops = [opnd(L.LLVMGetOperand(i, k)) for k in range(nops)]
                    if n.op == 'icmp':
                        n.x = ICMP[L.LLVMGetICmpPredicate(i)]
                    elif n.op == 'fcmp':
                        n.x = FCMP[L.LLVMGetFCmpPredicate(i)]
                    elif n.op in ('add', 'sub', 'mul', 'shl'):
                        n.x = (bool(L.LLVMGetNUW(i)), bool(L.LLVMGetNSW(i)))
                    elif n.op in ('sdiv', 'udiv', 'lshr', 'ashr'):
                        n.x = bool(L.LLVMGetExact(i))
                    elif n.op == 'alloca':
                        n.x = self.type(L.LLVMGetAllocatedType(i))
                        f.allocnames[n.id] = n.name
                    elif n.op == 'getelementptr':
                        n.x = self.type(L.LLVMGetGEPSourceElementType(i))
                    elif n.op in ('extractvalue', 'insertvalue'):
                        ni = L.LLVMGetNumIndices(i)
                        ip = L.LLVMGetIndices(i)
                        n.x = [ip[k] for k in range(ni)]
                B.ins.append(n)
                i = L.LLVMGetNextInstruction(i)
            t = B.ins[-1]
            if t.op == 'br':
                B.succs = list(t.x)
            elif t.op == 'switch':
                B.succs = [t.x[0]] + [c for _, c in t.x[1]]
            elif t.op == 'invoke':
                B.succs = [t.x['normal'], t.x['unwind']]
            else:
                B.succs = []
            f.blocks.append(B)
        f.vararg = False
        f.loops = natural_loops(f)
        self.funcs[name] = f
        return f


def natural_loops(f):
    """header index -> set of block indices (natural loops via dominators)."""
    n = len(f.blocks)
    preds = [[] for _ in range(n)]
    for b in f.blocks:
        for s in b.succs:
            preds[s].append(b.idx)
    # reachable
    seen = set()
    order = []

    st = [(0, iter(f.blocks[0].succs))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(f.blocks[s].succs)))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    full = set(rpo)
    dom = {b: full for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo:
            if b == 0:
                continue
            ps = [dom[p] for p in preds[b] if p in full]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succs:
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                wl = [b]
                while wl:
                    x = wl.pop()
                    if x not in body:
                        body.add(x)
                        wl.extend(p for p in preds[x] if p in full)
    return loops


class Program:
    """Several modules, looked up by mangled name; definitions win over declarations."""

    def __init__(self, paths):
        self.mods = [Module(p) for p in paths]
        self.where = {}
        for m in self.mods:
            for n in list(m._raw) + list(m.aliases):
                self.where.setdefault(n, m)

    def func(self, name, mod=None):
        if mod is not None and (name in mod._raw or name in mod.aliases):
            return mod.func(name)
        m = self.where.get(name)
        return m.func(name) if m else None

    def dem(self, name):
        for m in self.mods:
            if name in m.dem:
                return m.dem[name]
        return name

    def gvar(self, name, mod=None):
        if mod is not None and name in mod.globals and mod.globals[name].init:
            return mod.globals[name]
        for m in self.mods:
            g = m.globals.get(name)
            if g is not None and g.init:
                return g
        for m in self.mods:
            if name in m.globals:
                return m.globals[name]
        return None

    def find(self, pat):
        """all defined mangled names whose demangled name matches the regex."""
        import re
        r = re.compile(pat)
        out = []
        seen = set()
        for m in self.mods:
            for n in m._raw:
                if n not in seen and r.search(m.dem.get(n, n)):
                    seen.add(n)
                    out.append(n)
        return out
