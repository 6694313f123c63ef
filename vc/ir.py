"""Loads LLVM bitcode (produced from /repo's sources by clang-18 on every run) through the LLVM-C API."""
import ctypes as C, re, subprocess

_L = C.CDLL("/usr/lib/llvm-18/lib/libLLVM-18.so" if __import__("os").path.exists("/usr/lib/llvm-18/lib/libLLVM-18.so")
            else "libLLVM-18.so.1")
VP = C.c_void_p


def _f(name, res=VP, *args):
    f = getattr(_L, name)
    f.restype = res
    f.argtypes = list(args)
    return f


U, S, CP, LL = C.c_uint, C.c_size_t, C.c_char_p, C.c_longlong
CtxCreate = _f("LLVMContextCreate")
MemBuf = _f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, CP, C.POINTER(VP), C.POINTER(CP))
ParseIR = _f("LLVMParseIRInContext", C.c_int, VP, VP, C.POINTER(VP), C.POINTER(CP))
FirstFn = _f("LLVMGetFirstFunction", VP, VP)
NextFn = _f("LLVMGetNextFunction", VP, VP)
FirstGl = _f("LLVMGetFirstGlobal", VP, VP)
NextGl = _f("LLVMGetNextGlobal", VP, VP)
FirstAlias = _f("LLVMGetFirstGlobalAlias", VP, VP)
NextAlias = _f("LLVMGetNextGlobalAlias", VP, VP)
AliasGetAliasee = _f("LLVMAliasGetAliasee", VP, VP)
ValName = _f("LLVMGetValueName2", CP, VP, C.POINTER(S))
IsDecl = _f("LLVMIsDeclaration", C.c_int, VP)
FirstBB = _f("LLVMGetFirstBasicBlock", VP, VP)
NextBB = _f("LLVMGetNextBasicBlock", VP, VP)
FirstIn = _f("LLVMGetFirstInstruction", VP, VP)
NextIn = _f("LLVMGetNextInstruction", VP, VP)
Opcode = _f("LLVMGetInstructionOpcode", C.c_int, VP)
NumOps = _f("LLVMGetNumOperands", C.c_int, VP)
GetOp = _f("LLVMGetOperand", VP, VP, U)
TypeOf = _f("LLVMTypeOf", VP, VP)
TypeKind = _f("LLVMGetTypeKind", C.c_int, VP)
IntW = _f("LLVMGetIntTypeWidth", U, VP)
StructName = _f("LLVMGetStructName", CP, VP)
NumElts = _f("LLVMCountStructElementTypes", U, VP)
EltTy = _f("LLVMStructGetTypeAtIndex", VP, VP, U)
IsOpaque = _f("LLVMIsOpaqueStruct", C.c_int, VP)
ArrLen = _f("LLVMGetArrayLength2", C.c_uint64, VP)
ElemTy = _f("LLVMGetElementType", VP, VP)
ValKind = _f("LLVMGetValueKind", C.c_int, VP)
ZExtVal = _f("LLVMConstIntGetZExtValue", C.c_ulonglong, VP)
SExtVal = _f("LLVMConstIntGetSExtValue", LL, VP)
ConstOp = _f("LLVMGetConstOpcode", C.c_int, VP)
NumParams = _f("LLVMCountParams", U, VP)
Param = _f("LLVMGetParam", VP, VP, U)
ICmpP = _f("LLVMGetICmpPredicate", C.c_int, VP)
FCmpP = _f("LLVMGetFCmpPredicate", C.c_int, VP)
IncCnt = _f("LLVMCountIncoming", U, VP)
IncVal = _f("LLVMGetIncomingValue", VP, VP, U)
IncBB = _f("LLVMGetIncomingBlock", VP, VP, U)
NumSucc = _f("LLVMGetNumSuccessors", U, VP)
Succ = _f("LLVMGetSuccessor", VP, VP, U)
NumArgOps = _f("LLVMGetNumArgOperands", U, VP)
Called = _f("LLVMGetCalledValue", VP, VP)
CalledTy = _f("LLVMGetCalledFunctionType", VP, VP)
NormDest = _f("LLVMGetNormalDest", VP, VP)
UnwDest = _f("LLVMGetUnwindDest", VP, VP)
GepSrcTy = _f("LLVMGetGEPSourceElementType", VP, VP)
AllocTy = _f("LLVMGetAllocatedType", VP, VP)
NumIdx = _f("LLVMGetNumIndices", U, VP)
Indices = _f("LLVMGetIndices", C.POINTER(U), VP)
NumClauses = _f("LLVMGetNumClauses", U, VP)
Clause = _f("LLVMGetClause", VP, VP, U)
IsCleanup = _f("LLVMIsCleanup", C.c_int, VP)
DLOf = _f("LLVMGetModuleDataLayout", VP, VP)
OffElt = _f("LLVMOffsetOfElement", C.c_ulonglong, VP, VP, U)
ABISize = _f("LLVMABISizeOfType", C.c_ulonglong, VP, VP)
GetMD = _f("LLVMGetMetadata", VP, VP, U)
MDKind = _f("LLVMGetMDKindIDInContext", U, VP, CP, U)
PrintVal = _f("LLVMPrintValueToString", VP, VP)
PrintTy = _f("LLVMPrintTypeToString", VP, VP)
GlobInit = _f("LLVMGetInitializer", VP, VP)
GlobValTy = _f("LLVMGlobalGetValueType", VP, VP)
MDNumOps = _f("LLVMGetMDNodeNumOperands", U, VP)
MDOps = _f("LLVMGetMDNodeOperands", None, VP, C.POINTER(VP))
MDStr = _f("LLVMGetMDString", CP, VP, C.POINTER(U))
RetTy = _f("LLVMGetReturnType", VP, VP)
IsConst = _f("LLVMIsConstant", C.c_int, VP)
IsNull = _f("LLVMIsNull", C.c_int, VP)
RMWOp = _f("LLVMGetAtomicRMWBinOp", C.c_int, VP)
GetSection = _f("LLVMGetLinkage", C.c_int, VP)
IsConstStr = _f("LLVMIsConstantString", C.c_int, VP)
GetAsStr = _f("LLVMGetAsString", VP, VP, C.POINTER(S))
Dispose = _f("LLVMDisposeMessage", None, VP)
ConstRealD = _f("LLVMConstRealGetDouble", C.c_double, VP, C.POINTER(C.c_int))

OPC = {1: 'ret', 2: 'br', 3: 'switch', 4: 'indirectbr', 5: 'invoke', 7: 'unreachable', 66: 'fneg', 8: 'add', 9: 'fadd',
       10: 'sub', 11: 'fsub', 12: 'mul', 13: 'fmul', 14: 'udiv', 15: 'sdiv', 16: 'fdiv', 17: 'urem', 18: 'srem',
       19: 'frem', 20: 'shl', 21: 'lshr', 22: 'ashr', 23: 'and', 24: 'or', 25: 'xor', 26: 'alloca', 27: 'load',
       28: 'store', 29: 'gep', 30: 'trunc', 31: 'zext', 32: 'sext', 33: 'fptoui', 34: 'fptosi', 35: 'uitofp',
       36: 'sitofp', 37: 'fptrunc', 38: 'fpext', 39: 'ptrtoint', 40: 'inttoptr', 41: 'bitcast', 60: 'addrspacecast',
       42: 'icmp', 43: 'fcmp', 44: 'phi', 45: 'call', 46: 'select', 49: 'va_arg', 50: 'extractelement',
       51: 'insertelement', 52: 'shufflevector', 53: 'extractvalue', 54: 'insertvalue', 68: 'freeze', 55: 'fence',
       56: 'cmpxchg', 57: 'atomicrmw', 58: 'resume', 59: 'landingpad'}
ICMP = {32: 'eq', 33: 'ne', 34: 'ugt', 35: 'uge', 36: 'ult', 37: 'ule', 38: 'sgt', 39: 'sge', 40: 'slt', 41: 'sle'}
FCMP = {0: 'false', 1: 'oeq', 2: 'ogt', 3: 'oge', 4: 'olt', 5: 'ole', 6: 'one', 7: 'ord', 8: 'uno', 9: 'ueq', 10: 'ugt',
        11: 'uge', 12: 'ult', 13: 'ule', 14: 'une', 15: 'true'}


class Ty:
    __slots__ = ("kind", "w", "name", "elts", "n", "elt", "size", "offs", "raw")
    # kind: void, int, ptr, struct, array, float, other


class Ins:
    __slots__ = ("op", "ty", "ops", "x", "id", "bb", "fn", "raw", "mod")

    def __repr__(self):
        p = PrintVal(self.raw)
        s = C.string_at(p).decode(errors="replace")
        Dispose(p)
        return s.strip()[:300]


class BB:
    __slots__ = ("ins", "id", "fn", "succs", "preds", "raw", "name")

    def __repr__(self):
        return "bb%d" % self.id


class Fn:
    def __init__(self):
        self.bbs = None

    def __repr__(self):
        return "Fn(%s)" % self.dem


class Const:
    """kind: int,null,undef,zero,global,fn,expr,agg,float,str"""
    __slots__ = ("kind", "ty", "v", "name", "ops", "x")

    def __init__(self, kind, ty, v=None, name=None, ops=None, x=None):
        self.kind, self.ty, self.v, self.name, self.ops, self.x = kind, ty, v, name, ops, x

    def __repr__(self):
        return "C(%s,%s,%s)" % (self.kind, self.v, self.name)


class Arg:
    __slots__ = ("i", "ty")


_demcache = {}


def demangle_many(names):
    todo = [n for n in names if n not in _demcache]
    if todo:
        out = subprocess.run(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], input="\n".join(todo), capture_output=True,
                             text=True).stdout.split("\n")
        for a, b in zip(todo, out):
            _demcache[a] = b
    return [_demcache[n] for n in names]


def strip_templates(s):
    """'std::vector<int, A>::begin()' -> 'std::vector::begin' (arguments, template arguments, abi tags dropped)."""
    s = s.replace("[abi:cxx11]", "").replace("__cxx11::", "").replace("(anonymous namespace)", "_anon_")
    s = re.sub(r"'lambda\d*'\s*\([^)]*\)", "_lambda_", s)
    s = re.sub(r"\{lambda\([^)]*\)#\d+\}", "_lambda_", s)
    s = s.replace("operator()", "operator_call")
    # protect operator<< etc.
    s = re.sub(r"operator<=>", "operator_ss", s)
    s = re.sub(r"operator<<(?=[<( ]|$)", "operator_shl", s)
    s = re.sub(r"operator>>(?=[<( ]|$)", "operator_shr", s)
    s = re.sub(r"operator<=", "operator_le", s)
    s = re.sub(r"operator>=", "operator_ge", s)
    s = re.sub(r"operator->", "operator_arrow", s)
    s = re.sub(r"operator<(?=[(<])", "operator_lt", s, count=1) if re.search(r"operator<(\(|<.*>\()", s) else s
    s = re.sub(r"operator>(?=[(<])", "operator_gt", s)
    out, d = [], 0
    for ch in s:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    # drop the argument list; a '(...)' followed by '::' belongs to an enclosing function (local lambda or class)
    while True:
        i = s.find("(")
        if i < 0:
            break
        d, j = 0, i
        while j < len(s):
            d += (s[j] == '(') - (s[j] == ')')
            j += 1
            if d == 0:
                break
        m = re.match(r"( const)?&*(::.*)", s[j:])
        if m:
            s = s[:i] + m.group(2)
            continue
        s = s[:i]
        break
    s = s.strip()
    # drop return type of templates: take the last space-separated token, but keep 'operator new' etc.
    m = re.search(r"(\S*operator (?:new|delete)(?:\[\])?)$", s)
    if m:
        return m.group(1)
    m = re.search(r"(\S*operator [\w:*& ]+)$", s)
    if m:
        return m.group(1)
    return s.split(" ")[-1]


class Module:
    ctx = None

    def __init__(self, path):
        if Module.ctx is None:
            Module.ctx = CtxCreate()
        buf, err = VP(), CP()
        if MemBuf(path.encode(), C.byref(buf), C.byref(err)):
            raise RuntimeError("membuf %s" % err.value)
        m = VP()
        if ParseIR(Module.ctx, buf, C.byref(m), C.byref(err)):
            raise RuntimeError("parse %s" % err.value)
        self.m = m
        self.dl = DLOf(m)
        self.path = path
        self.tycache = {}
        self.tbaa_kind = MDKind(Module.ctx, b"tbaa", 4)
        self.tbaas_kind = MDKind(Module.ctx, b"tbaa.struct", 11)
        self.fns, self.globals, self.aliases = {}, {}, {}
        f = FirstFn(m)
        while f:
            o = Fn()
            o.raw, o.mod, o.name, o.decl = f, self, self.name(f), bool(IsDecl(f))
            self.fns[o.name] = o
            f = NextFn(f)
        g = FirstGl(m)
        while g:
            self.globals[self.name(g)] = g
            g = NextGl(g)
        g = FirstAlias(m)
        while g:
            self.aliases[self.name(g)] = self.name(AliasGetAliasee(g))
            g = NextAlias(g)
        names = list(self.fns)
        for n, d in zip(names, demangle_many(names)):
            self.fns[n].dem = d
            self.fns[n].short = strip_templates(d)

    def name(self, v):
        n = S()
        return (ValName(v, C.byref(n)) or b"").decode()

    def ty(self, t):
        r = self.tycache.get(t)
        if r is not None:
            return r
        o = Ty()
        self.tycache[t] = o
        k = TypeKind(t)
        o.raw = t
        o.name = None
        o.size = 0
        if k == 8:
            o.kind, o.w = 'int', IntW(t)
            o.size = ABISize(self.dl, t)
        elif k == 12:
            o.kind, o.w, o.size = 'ptr', 64, 8
        elif k == 0:
            o.kind = 'void'
        elif k in (2, 3, 4, 5, 6):
            o.kind = 'float'
            o.size = ABISize(self.dl, t)
        elif k == 10:
            o.kind = 'struct'
            nm = StructName(t)
            o.name = re.sub(r"\.\d+$", "", nm.decode()) if nm else None
            if o.name and o.name.endswith(".base"):
                o.name = o.name[:-5]
            if IsOpaque(t):
                o.elts, o.offs = [], []
            else:
                n = NumElts(t)
                o.elts = [self.ty(EltTy(t, i)) for i in range(n)]
                o.offs = [OffElt(self.dl, t, i) for i in range(n)]
                o.size = ABISize(self.dl, t)
        elif k == 11:
            o.kind = 'array'
            o.n = ArrLen(t)
            o.elt = self.ty(ElemTy(t))
            o.size = o.n * o.elt.size
        else:
            o.kind = 'other'
        return o

    def const(self, v):
        k = ValKind(v)
        t = self.ty(TypeOf(v))
        # LLVMValueKind: 0 Argument 1 BB 2 MemoryUse.. 5 Function 6 GlobalAlias 8 GlobalVariable 9 BlockAddress 10 ConstantExpr
        # 11 ConstArray 12 ConstStruct 13 ConstVector 14 Undef 15 AggZero 16 DataArray 17 DataVector 18 Int 19 FP 20 Null
        if k == 5:
            return Const('fn', t, name=self.name(v))
        if k == 6:
            a = self.name(v)
            tgt = self.aliases.get(a, a)
            if tgt in self.fns:
                return Const('fn', t, name=tgt)
            return Const('global', t, name=a)
        if k == 8:
            return Const('global', t, name=self.name(v))
        if k == 18:
            return Const('int', t, v=ZExtVal(v) if t.w <= 64 else 0)
        if k == 20:
            return Const('null', t)
        if k in (14, 25):
            return Const('undef', t)
        if k == 15:
            return Const('zero', t)
        if k == 19:
            li = C.c_int()
            return Const('float', t, v=ConstRealD(v, C.byref(li)))
        if k == 10:
            op = OPC.get(ConstOp(v), '?')
            ops = [self.const(GetOp(v, i)) for i in range(NumOps(v))]
            x = self.ty(GepSrcTy(v)) if op == 'gep' else None
            return Const('expr', t, name=op, ops=ops, x=x)
        if k in (11, 12):
            return Const('agg', t, ops=[self.const(GetOp(v, i)) for i in range(NumOps(v))])
        if k == 16 and IsConstStr(v):
            n = S()
            p = GetAsStr(v, C.byref(n))
            return Const('str', t, v=C.string_at(p, n.value))
        if IsNull(v):
            return Const('zero', t)
        return Const('other', t, v=k)

    def global_init(self, name):
        g = self.globals.get(name)
        if g is None or IsDecl(g):
            return None
        i = GlobInit(g)
        return self.const(i) if i else None

    def body(self, fn):
        """Decode a function on demand."""
        if fn.bbs is not None:
            return fn
        vals = {}
        fn.args = []
        for i in range(NumParams(fn.raw)):
            p = Param(fn.raw, i)
            a = Arg()
            a.i, a.ty = i, self.ty(TypeOf(p))
            fn.args.append(a)
            vals[p] = a
        fn.bbs, bbmap = [], {}
        b = FirstBB(fn.raw)
        while b:
            o = BB()
            o.raw, o.id, o.fn, o.ins, o.preds, o.succs = b, len(fn.bbs), fn, [], [], []
            bbmap[b] = o
            fn.bbs.append(o)
            b = NextBB(b)
        cnt = 0
        for o in fn.bbs:
            i = FirstIn(o.raw)
            while i:
                ins = Ins()
                ins.raw, ins.id, ins.bb, ins.fn, ins.mod = i, cnt, o, fn, self
                cnt += 1
                ins.op = OPC.get(Opcode(i), '?%d' % Opcode(i))
                ins.ty = self.ty(TypeOf(i))
                ins.x = {}
                vals[i] = ins
                o.ins.append(ins)
                i = NextIn(i)

        def val(v):
            r = vals.get(v)
            if r is not None:
                return r
            if ValKind(v) == 1:
                return bbmap[v]
            if ValKind(v) in (21, 22, 23) or (ValKind(v) not in (5, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 25) and not IsConst(v)):
                p = PrintVal(v)
                s = C.string_at(p).decode(errors="replace")
                Dispose(p)
                return Const('md', None, v=s)
            return self.const(v)

        for o in fn.bbs:
            for ins in o.ins:
                i, op, x = ins.raw, ins.op, ins.x
                if op == 'phi':
                    ins.ops = []
                    x['inc'] = [(bbmap[IncBB(i, k)], val(IncVal(i, k))) for k in range(IncCnt(i))]
                elif op in ('call', 'invoke'):
                    n = NumArgOps(i)
                    ins.ops = [val(GetOp(i, k)) for k in range(n)]
                    x['callee'] = val(Called(i))
                    if op == 'invoke':
                        x['normal'], x['unwind'] = bbmap[NormDest(i)], bbmap[UnwDest(i)]
                elif op == 'br' or op == 'switch':
                    if op == 'br':
                        n = NumOps(i)
                        x['succ'] = [bbmap[Succ(i, k)] for k in range(NumSucc(i))]
                        ins.ops = [val(GetOp(i, 0))] if n == 3 else []
                    else:
                        ins.ops = [val(GetOp(i, 0))]
                        x['default'] = bbmap[Succ(i, 0)]
                        x['cases'] = [(self.const(GetOp(i, 2 + 2 * k)).v, bbmap[Succ(i, k + 1)]) for k in
                                      range(NumSucc(i) - 1)]
                else:
                    ins.ops = [val(GetOp(i, k)) for k in range(NumOps(i))]
                    if op == 'gep':
                        x['src'] = self.ty(GepSrcTy(i))
                    elif op == 'icmp':
                        x['p'] = ICMP[ICmpP(i)]
                    elif op == 'fcmp':
                        x['p'] = FCMP[FCmpP(i)]
                    elif op == 'alloca':
                        x['ty'] = self.ty(AllocTy(i))
                    elif op in ('extractvalue', 'insertvalue'):
                        p = Indices(i)
                        x['idx'] = [p[k] for k in range(NumIdx(i))]
                    elif op == 'landingpad':
                        x['clauses'] = [self.const(Clause(i, k)) for k in range(NumClauses(i))]
                        x['cleanup'] = bool(IsCleanup(i))
                    elif op == 'atomicrmw':
                        x['rmw'] = RMWOp(i)
                if op in ('load', 'store'):
                    x['tbaa'] = self.tbaa(i)
                if op == 'call':
                    x['tbaas'] = self.tbaa_struct(i)
        for o in fn.bbs:
            t = o.ins[-1]
            if t.op == 'br':
                o.succs = t.x['succ']
            elif t.op == 'switch':
                o.succs = [t.x['default']] + [b for _, b in t.x['cases']]
            elif t.op == 'invoke':
                o.succs = [t.x['normal'], t.x['unwind']]
            for s2 in o.succs:
                if o not in s2.preds:
                    s2.preds.append(o)
        return fn

    def _mdname(self, v):
        n = U()
        s = MDStr(v, C.byref(n))
        return s.decode() if s else None

    def _mdops(self, node):
        n = MDNumOps(node)
        arr = (VP * n)()
        MDOps(node, arr)
        return list(arr)

    def tbaa(self, i):
        md = GetMD(i, self.tbaa_kind)
        if not md:
            return None
        ops = self._mdops(md)
        base = self._mdops(ops[0])
        acc = self._mdops(ops[1])
        off = ZExtVal(ops[2])
        return (self._mdname(base[0]), self._mdname(acc[0]), off)

    def tbaa_struct(self, i):
        md = GetMD(i, self.tbaas_kind)
        if not md:
            return None
        ops = self._mdops(md)
        r = []
        for k in range(0, len(ops), 3):
            r.append((ZExtVal(ops[k]), ZExtVal(ops[k + 1])))
        return r
