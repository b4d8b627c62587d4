"""LLVM IR loader (through the LLVM-C API of libLLVM-18, by ctypes).

Converts a bitcode/IR file into plain Python objects: Module -> Function -> Block -> Instr.
"""
import ctypes as C
from ctypes import c_void_p as P, c_char_p as S, c_uint as U, c_int as I, c_size_t as Z, c_longlong as LL, c_ulonglong as ULL

_L = None


def _lib():
    global _L
    if _L is not None:
        return _L
    for n in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1"):
        try:
            L = C.CDLL(n)
            break
        except OSError:
            L = None
    if L is None:
        raise RuntimeError("libLLVM-18 not found")

    def f(name, res, *args):
        fn = getattr(L, name)
        fn.restype = res
        fn.argtypes = list(args)

    f("LLVMCreateMemoryBufferWithContentsOfFile", I, S, C.POINTER(P), C.POINTER(P))
    f("LLVMContextCreate", P)
    f("LLVMParseIRInContext", I, P, P, C.POINTER(P), C.POINTER(P))
    for n in ("LLVMGetFirstFunction", "LLVMGetNextFunction", "LLVMGetFirstBasicBlock", "LLVMGetNextBasicBlock",
              "LLVMGetFirstInstruction", "LLVMGetNextInstruction", "LLVMTypeOf", "LLVMGetModuleDataLayout",
              "LLVMGetElementType", "LLVMGetCalledValue", "LLVMGetGEPSourceElementType", "LLVMGetAllocatedType",
              "LLVMGlobalGetValueType", "LLVMGetFirstGlobal", "LLVMGetNextGlobal", "LLVMGetInitializer",
              "LLVMGetSwitchDefaultDest", "LLVMGetNormalDest", "LLVMGetUnwindDest", "LLVMGetFirstParam",
              "LLVMGetNextParam", "LLVMBasicBlockAsValue", "LLVMGetEntryBasicBlock", "LLVMAliasGetAliasee",
              "LLVMGetReturnType", "LLVMGetCalledFunctionType"):
        f(n, P, P)
    f("LLVMGetNumOperands", I, P)
    f("LLVMGetOperand", P, P, U)
    f("LLVMGetInstructionOpcode", I, P)
    f("LLVMGetTypeKind", I, P)
    f("LLVMGetValueKind", I, P)
    f("LLVMConstIntGetSExtValue", LL, P)
    f("LLVMConstIntGetZExtValue", ULL, P)
    f("LLVMGetIntTypeWidth", U, P)
    f("LLVMGetICmpPredicate", I, P)
    f("LLVMGetFCmpPredicate", I, P)
    f("LLVMCountIncoming", U, P)
    f("LLVMGetIncomingValue", P, P, U)
    f("LLVMGetIncomingBlock", P, P, U)
    f("LLVMGetNumSuccessors", U, P)
    f("LLVMGetSuccessor", P, P, U)
    f("LLVMGetNumArgOperands", U, P)
    f("LLVMOffsetOfElement", ULL, P, P, U)
    f("LLVMABISizeOfType", ULL, P, P)
    f("LLVMStoreSizeOfType", ULL, P, P)
    f("LLVMGetNumIndices", U, P)
    f("LLVMGetIndices", C.POINTER(U), P)
    f("LLVMGetValueName2", C.POINTER(C.c_char), P, C.POINTER(Z))
    f("LLVMGetDebugLocLine", U, P)
    f("LLVMGetDebugLocFilename", C.POINTER(C.c_char), P, C.POINTER(U))
    f("LLVMGetDebugLocDirectory", C.POINTER(C.c_char), P, C.POINTER(U))
    f("LLVMGetConstOpcode", I, P)
    f("LLVMCountStructElementTypes", U, P)
    f("LLVMStructGetTypeAtIndex", P, P, U)
    f("LLVMGetArrayLength2", ULL, P)
    f("LLVMGetVectorSize", U, P)
    f("LLVMIsConstantString", I, P)
    f("LLVMGetAsString", C.POINTER(C.c_char), P, C.POINTER(Z))
    f("LLVMGetAggregateElement", P, P, U)
    f("LLVMGetLinkage", I, P)
    f("LLVMIsGlobalConstant", I, P)
    f("LLVMIsDeclaration", I, P)
    f("LLVMGetOrdering", I, P)
    f("LLVMGetAtomicRMWBinOp", I, P)
    f("LLVMIsConditional", I, P)
    f("LLVMIsCleanup", I, P)
    f("LLVMGetNumClauses", U, P)
    f("LLVMGetClause", P, P, U)
    f("LLVMPrintValueToString", C.POINTER(C.c_char), P)
    f("LLVMPrintTypeToString", C.POINTER(C.c_char), P)
    f("LLVMConstRealGetDouble", C.c_double, P, C.POINTER(I))
    f("LLVMGetStringAttributeAtIndex", P, P, U, S, U)
    f("LLVMGetEnumAttributeKindForName", U, S, Z)
    f("LLVMGetEnumAttributeAtIndex", P, P, U, U)
    f("LLVMGetTypeAttributeValue", P, P)
    f("LLVMGetStructName", S, P)
    _L = L
    return L


OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 67: 'callbr', 66: 'fneg',
       8: 'add', 9: 'fadd', 10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv',
       17: 'urem', 18: 'srem', 19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor',
       26: 'alloca', 27: 'load', 28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui',
       34: 'fptosi', 35: 'uitofp', 36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr',
       41: 'bitcast', 60: 'addrspacecast', 42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select',
       50: 'extractelement', 51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue',
       68: 'freeze', 55: 'fence', 56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
PRED = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
ORD = {0: 'na', 1: 'unordered', 2: 'monotonic', 4: 'acquire', 5: 'release', 6: 'acq_rel', 7: 'seq_cst'}
TK = {0: 'void', 1: 'half', 2: 'float', 3: 'double', 4: 'x86fp80', 5: 'fp128', 7: 'label', 8: 'int', 9: 'func',
      10: 'struct', 11: 'array', 12: 'ptr', 13: 'vector', 14: 'metadata', 16: 'token'}
# value kinds
VK_ARG, VK_BB, VK_FUNC, VK_ALIAS, VK_GVAR = 0, 1, 5, 6, 8
VK = {0: 'arg', 1: 'bb', 5: 'func', 6: 'alias', 8: 'gvar', 9: 'blockaddr', 10: 'cexpr', 11: 'carray', 12: 'cstruct',
      13: 'cvector', 14: 'undef', 15: 'caz', 16: 'cda', 17: 'cdv', 18: 'cint', 19: 'cfp', 20: 'cnull', 21: 'ctoken',
      22: 'md', 23: 'inlineasm', 24: 'inst', 25: 'poison'}


class Ty:
    __slots__ = ('kind', 'w', 'elems', 'offs', 'n', 'size', 'name')

    def __repr__(self):
        return f"{self.kind}{self.w or ''}"


class Val:
    """operand: kind in {'reg','int','fp','null','undef','func','gvar','zero','agg','gep','cexpr','bb','other'}"""
    __slots__ = ('kind', 'ty', 'v', 'x')

    def __init__(self, kind, ty, v=None, x=None):
        self.kind, self.ty, self.v, self.x = kind, ty, v, x

    def __repr__(self):
        return f"<{self.kind} {self.v}>"


class Instr:
    __slots__ = ('op', 'id', 'ty', 'ops', 'x', 'line', 'file', 'dir', 'fn', 'blk', 'idx')

    def loc(self):
        f = self.file or '?'
        if self.dir and not f.startswith('/'):
            f = self.dir + '/' + f
        return f"{f}:{self.line}"

    def __repr__(self):
        return f"%{self.id}={self.op} {self.ops} @{self.line}"


class Block:
    __slots__ = ('id', 'instrs', 'succs', 'fn', 'phis')


class Function:
    def __init__(self):
        self.name = ''
        self.params = []
        self.blocks = []
        self.decl = True
        self._loops = None


class Loop:
    __slots__ = ('header', 'blocks', 'parent', 'latches', 'defs')


class Module:
    def __init__(self, path):
        L = _lib()
        self.L = L
        ctx = L.LLVMContextCreate()
        buf, err, mod = P(), P(), P()
        if L.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("cannot read " + path)
        if L.LLVMParseIRInContext(ctx, buf, C.byref(mod), C.byref(err)):
            raise RuntimeError("cannot parse " + path + ": " + str(C.string_at(err)))
        self.mod = mod
        self.dl = L.LLVMGetModuleDataLayout(mod)
        self.tys = {}
        self._fn = {}
        self._fnptr = {}
        self._gv = {}
        f = L.LLVMGetFirstFunction(mod)
        while f:
            n = self.name(f)
            self._fnptr[n] = f
            f = L.LLVMGetNextFunction(f)
        self._sret_kind = L.LLVMGetEnumAttributeKindForName(b"sret", 4)
        self._byval_kind = L.LLVMGetEnumAttributeKindForName(b"byval", 5)

    def name(self, v):
        n = Z()
        p = self.L.LLVMGetValueName2(v, C.byref(n))
        return C.string_at(p, n.value).decode('utf8', 'replace')

    def ty(self, t):
        t0 = self.tys.get(t)
        if t0 is not None:
            return t0
        L = self.L
        k = TK.get(L.LLVMGetTypeKind(t), 'other')
        y = Ty()
        y.kind, y.w, y.elems, y.offs, y.n, y.name = k, None, None, None, None, None
        self.tys[t] = y
        if k == 'int':
            y.w = L.LLVMGetIntTypeWidth(t)
            y.size = (y.w + 7) // 8
        elif k == 'ptr':
            y.size = 8
        elif k == 'struct':
            n = L.LLVMCountStructElementTypes(t)
            y.elems = [self.ty(L.LLVMStructGetTypeAtIndex(t, i)) for i in range(n)]
            try:
                y.size = L.LLVMABISizeOfType(self.dl, t)
                y.offs = [L.LLVMOffsetOfElement(self.dl, t, i) for i in range(n)]
            except Exception:
                y.size = 0
            nm = L.LLVMGetStructName(t)
            y.name = nm.decode() if nm else None
        elif k in ('array', 'vector'):
            y.n = L.LLVMGetArrayLength2(t) if k == 'array' else L.LLVMGetVectorSize(t)
            y.elems = [self.ty(L.LLVMGetElementType(t))]
            y.size = L.LLVMABISizeOfType(self.dl, t)
        elif k in ('float', 'double', 'half', 'x86fp80', 'fp128'):
            y.size = L.LLVMABISizeOfType(self.dl, t)
        else:
            y.size = 0
        return y

    def functions(self):
        return list(self._fnptr)

    def fn(self, name):
        f = self._fn.get(name)
        if f is None:
            p = self._fnptr.get(name)
            if p is None:
                return None
            f = self._load_fn(name, p)
        return f

    def _load_fn(self, name, p):
        L = self.L
        F = Function()
        F.name = name
        F.mod = self
        self._fn[name] = F
        F.decl = bool(L.LLVMIsDeclaration(p))
        ids = {}
        pr = L.LLVMGetFirstParam(p)
        i = 0
        while pr:
            ids[pr] = i
            F.params.append((i, self.ty(L.LLVMTypeOf(pr))))
            i += 1
            pr = L.LLVMGetNextParam(pr)
        if F.decl:
            return F
        bbs = {}
        order = []
        b = L.LLVMGetFirstBasicBlock(p)
        while b:
            B = Block()
            B.id = len(order)
            B.fn = F
            B.instrs = []
            bbs[L.LLVMBasicBlockAsValue(b)] = B.id
            order.append((b, B))
            b = L.LLVMGetNextBasicBlock(b)
        F.blocks = [B for _, B in order]
        for b, B in order:
            x = L.LLVMGetFirstInstruction(b)
            while x:
                ids[x] = i
                i += 1
                x = L.LLVMGetNextInstruction(x)
        self._ids, self._bbs = ids, bbs
        for b, B in order:
            x = L.LLVMGetFirstInstruction(b)
            while x:
                ins = self._instr(x, ids[x], F, B)
                if ins is not None:
                    ins.idx = len(B.instrs)
                    B.instrs.append(ins)
                x = L.LLVMGetNextInstruction(x)
            B.phis = [k for k in B.instrs if k.op == 'phi']
            B.succs = B.instrs[-1].x.get('succs', []) if isinstance(B.instrs[-1].x, dict) else []
        return F

    def val(self, v):
        L = self.L
        k = VK.get(L.LLVMGetValueKind(v), 'other')
        t = self.ty(L.LLVMTypeOf(v))
        if k in ('arg', 'inst'):
            return Val('reg', t, self._ids[v])
        if k == 'bb':
            return Val('bb', t, self._bbs[v])
        return self.const(v, k, t)

    def const(self, v, k=None, t=None):
        L = self.L
        k = k or VK.get(L.LLVMGetValueKind(v), 'other')
        t = t or self.ty(L.LLVMTypeOf(v))
        if k == 'cint':
            if t.w > 64:
                return Val('other', t)
            return Val('int', t, L.LLVMConstIntGetSExtValue(v) if t.w > 1 else L.LLVMConstIntGetZExtValue(v))
        if k == 'cnull':
            return Val('null', t)
        if k in ('undef', 'poison'):
            return Val('undef', t)
        if k == 'func':
            return Val('func', t, self.name(v))
        if k == 'gvar':
            return Val('gvar', t, self.name(v), v)
        if k == 'alias':
            return self.const(L.LLVMAliasGetAliasee(v))
        if k == 'caz':
            return Val('zero', t)
        if k == 'cfp':
            lo = I()
            return Val('fp', t, L.LLVMConstRealGetDouble(v, C.byref(lo)))
        if k in ('cda', 'cdv', 'carray', 'cstruct', 'cvector'):
            n = t.n if t.kind in ('array', 'vector') else len(t.elems)
            if n > 4096:
                return Val('other', t)
            return Val('agg', t, [self.const(L.LLVMGetAggregateElement(v, i)) for i in range(n)])
        if k == 'cexpr':
            op = OPC.get(L.LLVMGetConstOpcode(v))
            n = L.LLVMGetNumOperands(v)
            ops = [self.const(L.LLVMGetOperand(v, i)) for i in range(n)]
            x = None
            if op == 'gep':
                x = self.ty(L.LLVMGetGEPSourceElementType(v))
            return Val('cexpr', t, (op, ops), x)
        return Val('other', t, k)

    def global_init(self, name, v):
        """(type, const Val or None, is_const)"""
        if name in self._gv:
            return self._gv[name]
        L = self.L
        t = self.ty(L.LLVMGlobalGetValueType(v))
        ini = L.LLVMGetInitializer(v)
        r = (t, self.const(ini) if ini else None, bool(L.LLVMIsGlobalConstant(v)))
        self._gv[name] = r
        return r

    def _instr(self, x, id, F, B):
        L = self.L
        op = OPC.get(L.LLVMGetInstructionOpcode(x), 'other')
        R = Instr()
        R.op, R.id, R.fn, R.blk = op, id, F, B.id
        R.ty = self.ty(L.LLVMTypeOf(x))
        R.x = None
        R.line = L.LLVMGetDebugLocLine(x)
        R.file = R.dir = None
        if R.line:
            n = U()
            p = L.LLVMGetDebugLocFilename(x, C.byref(n))
            R.file = C.string_at(p, n.value).decode() if p else None
            p = L.LLVMGetDebugLocDirectory(x, C.byref(n))
            R.dir = C.string_at(p, n.value).decode() if p else None
        if op == 'phi':
            n = L.LLVMCountIncoming(x)
            R.ops = []
            R.x = {}
            for i in range(n):
                bb = self._bbs[L.LLVMBasicBlockAsValue(L.LLVMGetIncomingBlock(x, i))]
                R.x[bb] = self.val(L.LLVMGetIncomingValue(x, i))
            return R
        if op in ('call', 'invoke'):
            cv = L.LLVMGetCalledValue(x)
            kind = VK.get(L.LLVMGetValueKind(cv), 'other')
            nm = self.name(cv) if kind == 'func' else None
            if nm and (nm.startswith('llvm.dbg.') or nm.startswith('llvm.experimental.noalias')):
                return None
            na = L.LLVMGetNumArgOperands(x)
            R.ops = [self.val(L.LLVMGetOperand(x, i)) for i in range(na)]
            R.x = {'callee': self.val(cv) if kind != 'inlineasm' else Val('other', None)}
            if op == 'invoke':
                R.x['normal'] = self._bbs[L.LLVMBasicBlockAsValue(L.LLVMGetNormalDest(x))]
                R.x['unwind'] = self._bbs[L.LLVMBasicBlockAsValue(L.LLVMGetUnwindDest(x))]
                R.x['succs'] = [R.x['normal'], R.x['unwind']]
            return R
        if op in ('br', 'switch'):
            ns = L.LLVMGetNumSuccessors(x)
            succs = [self._bbs[L.LLVMBasicBlockAsValue(L.LLVMGetSuccessor(x, i))] for i in range(ns)]
            R.x = {'succs': succs}
            if op == 'br':
                R.ops = [self.val(L.LLVMGetOperand(x, 0))] if L.LLVMIsConditional(x) else []
            else:
                n = L.LLVMGetNumOperands(x)
                R.ops = [self.val(L.LLVMGetOperand(x, 0))]
                cases = []
                for i in range(2, n, 2):
                    cv = self.val(L.LLVMGetOperand(x, i))
                    cases.append((cv.v, succs[i // 2]))
                R.x['default'] = succs[0]
                R.x['cases'] = cases
            return R
        n = L.LLVMGetNumOperands(x)
        R.ops = [self.val(L.LLVMGetOperand(x, i)) for i in range(n)] if op != 'landingpad' else []
        if op == 'icmp':
            R.x = PRED[L.LLVMGetICmpPredicate(x)]
        elif op == 'fcmp':
            R.x = L.LLVMGetFCmpPredicate(x)
        elif op == 'gep':
            R.x = self.ty(L.LLVMGetGEPSourceElementType(x))
        elif op == 'alloca':
            R.x = self.ty(L.LLVMGetAllocatedType(x))
        elif op in ('extractvalue', 'insertvalue'):
            k = L.LLVMGetNumIndices(x)
            p = L.LLVMGetIndices(x)
            R.x = [p[i] for i in range(k)]
        elif op == 'atomicrmw':
            R.x = {'rmw': L.LLVMGetAtomicRMWBinOp(x), 'ord': ORD.get(L.LLVMGetOrdering(x))}
        elif op == 'cmpxchg':
            R.x = {'ord': ORD.get(L.LLVMGetCmpXchgSuccessOrdering(x))}
        elif op in ('load', 'store'):
            R.x = {'ord': ORD.get(L.LLVMGetOrdering(x))}
        elif op == 'landingpad':
            R.x = {'cleanup': bool(L.LLVMIsCleanup(x)), 'clauses': L.LLVMGetNumClauses(x)}
        return R


def loops_of(F):
    """natural loops of a function; returns dict header-> Loop and block -> innermost loop"""
    if F._loops is not None:
        return F._loops
    n = len(F.blocks)
    succ = [b.succs for b in F.blocks]
    pred = [[] for _ in range(n)]
    for i in range(n):
        for s in succ[i]:
            pred[s].append(i)
    # rpo
    seen, post = set(), []
    stack = [(0, iter(succ[0]))]
    seen.add(0)
    while stack:
        u, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            post.append(u)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            if not ps:
                continue
            d = ps[0]
            for p in ps[1:]:
                a, c = d, p
                while a != c:
                    while num[a] > num[c]:
                        a = idom[a]
                    while num[c] > num[a]:
                        c = idom[c]
                d = a
            if idom.get(b) != d:
                idom[b] = d
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in succ[b]:
            if s in num and dom(s, b):
                L = loops.get(s)
                if L is None:
                    L = Loop()
                    L.header, L.blocks, L.parent, L.latches, L.defs = s, {s}, None, [], None
                    loops[s] = L
                L.latches.append(b)
                st = [b]
                while st:
                    x = st.pop()
                    if x not in L.blocks:
                        L.blocks.add(x)
                        st.extend(pred[x])
    F._loops = loops
    return loops
