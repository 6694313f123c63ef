"""Deductive verifier over LLVM IR of the real sources.

Function by function: symbolic execution of every path of the function body from an arbitrary state that
satisfies the function's precondition and the representation invariant; calls to functions under contract use the
callee's contract (precondition becomes an obligation, frame is havocked, postcondition assumed); calls to functions
without a contract are inlined; loops are cut with inductive invariants (Houdini over candidate invariants).
Every path ends in obligations that z3 must discharge for all inputs.
"""
import re, time, os, itertools
import z3
from . import ir

MAX64 = 2 ** 64
MAX63 = 2 ** 63

# z3.MultiPattern objects do not survive being kept in a variable in this z3 release: build them at the point of use
_ForAll, _Exists, _MultiPattern = z3.ForAll, z3.Exists, z3.MultiPattern


def _lazy_mp(*a):
    return tuple(a)


def _patbase(t):
    """a pattern over a store chain never matches: use the base array"""
    if z3.is_select(t):
        a = t.arg(0)
        while z3.is_store(a):
            a = a.arg(0)
        if not a.eq(t.arg(0)):
            return z3.Select(a, t.arg(1))
    return t


_keep = []


def _forall(vs, body, patterns=None, **kw):
    if patterns:
        keep = [[_patbase(x) for x in (p if isinstance(p, tuple) else (p,))] for p in patterns]
        pats = [_MultiPattern(*k) for k in keep]
        try:
            r = _ForAll(vs, body, patterns=pats, **kw)
        except z3.Z3Exception:  # not a legal pattern (conditional term): let the solver choose
            r = _ForAll(vs, body, **kw)
        _keep.append((keep, pats))
        del _keep[:-4]
        return r
    return _ForAll(vs, body, **kw)


z3.MultiPattern = _lazy_mp
z3.ForAll = _forall


class Unsupported(Exception):
    pass


class P:
    """Pointer. Local object: obj=int id (alloca), off concrete. Global: obj=str. Heap: obj None, addr z3 Int.
    s/so/sb: innermost struct type known from address arithmetic, offset in it, address term of its base."""
    __slots__ = ("obj", "off", "addr", "s", "so", "sb", "leaf")

    def __init__(self, obj=None, off=0, addr=None, s=None, so=0, sb=None, leaf=None):
        self.obj, self.off, self.addr, self.s, self.so, self.sb, self.leaf = obj, off, addr, s, so, sb, leaf

    def __repr__(self):
        return "P(%s,%s,%s,%s+%s)" % (self.obj, self.off, self.addr, self.s.name if self.s else None, self.so)


class VT:
    __slots__ = ("p", "cls", "slot")

    def __init__(self, p, cls=None, slot=None):
        self.p, self.cls, self.slot = p, cls, slot


class FnRef:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Exc:
    """An in-flight exception; ty is the mangled typeinfo name or None when unknown."""
    __slots__ = ("ty", "tag")

    def __init__(self, ty=None, tag=None):
        self.ty, self.tag = ty, tag


class Und:
    def __repr__(self):
        return "undef"


UNDEF = Und()


class FloatV:
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t


class VFnBase:
    pass


class State:
    __slots__ = ("heap", "loc", "pc", "g", "caught", "trace", "wr", "allocn")

    def __init__(self):
        self.heap, self.loc, self.pc, self.g, self.caught, self.trace = {}, {}, [], {}, [], []
        self.wr = set()

    def copy(self):
        s = State()
        s.heap, s.loc, s.pc, s.g = dict(self.heap), dict(self.loc), list(self.pc), dict(self.g)
        s.caught, s.trace, s.wr = list(self.caught), list(self.trace), set(self.wr)
        return s

    def assume(self, *fs):
        for f in fs:
            if f is True or (z3.is_expr(f) and z3.is_true(f)):
                continue
            if f is False:
                f = z3.BoolVal(False)
            self.pc.append(f)


class Obl:
    __slots__ = ("label", "pc", "goal", "fn", "trace", "status", "time", "model", "solver", "kind")

    def __init__(self, label, pc, goal, fn, trace, kind="post"):
        self.label, self.pc, self.goal, self.fn, self.trace, self.kind = label, pc, goal, fn, trace, kind
        self.status, self.time, self.model, self.solver = None, 0.0, None, None


_ctr = itertools.count()


def fresh_name(h):
    return "%s!%d" % (h, next(_ctr))


def fint(h="v"):
    return z3.Int(fresh_name(h))


def simp(e):
    return z3.simplify(e) if z3.is_expr(e) else e


def isnum(e):
    return z3.is_int_value(e)


def has_q(e, _cache={}):
    """contains a quantifier?"""
    k = e.get_id()
    r = _cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    stack, seen, res = [e], set(), False
    while stack:
        x = stack.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            res = True
            break
        stack.extend(x.children())
    _cache[k] = (e, res)
    return res


U = {}


def ufun(name, *sorts):
    if name not in U:
        U[name] = z3.Function(name, *sorts)
    return U[name]


I = z3.IntSort()
B = z3.BoolSort()


class IntDom:
    """Machine integers as mathematical integers in [0,2^w) with explicit wrap-around."""

    def c(self, v, w):
        return z3.IntVal(v % (1 << w))

    def wrap(self, e, w):
        return e

    def add(self, a, b, w):
        M = 1 << w
        if isnum(b) and b.as_long() >= M // 2:
            return self.sub(a, z3.IntVal(M - b.as_long()), w)
        if isnum(a) and a.as_long() >= M // 2:
            return self.sub(b, z3.IntVal(M - a.as_long()), w)
        if isnum(b) and b.as_long() == 0:
            return a
        if isnum(a) and a.as_long() == 0:
            return b
        r = a + b
        return simp(z3.If(r >= M, r - M, r))

    def sub(self, a, b, w):
        M = 1 << w
        if isnum(b) and b.as_long() == 0:
            return a
        r = a - b
        return simp(z3.If(r < 0, r + M, r))

    def mul(self, a, b, w):
        M = 1 << w
        for x, y in ((a, b), (b, a)):
            if isnum(x):
                if x.as_long() == 1:
                    return y
                if x.as_long() == 0:
                    return z3.IntVal(0)
        r = a * b
        return simp(z3.If(r < M, r, r % M))

    def signed(self, a, w):
        H = 1 << (w - 1)
        if isnum(a):
            v = a.as_long()
            return z3.IntVal(v if v < H else v - (1 << w))
        return z3.If(a < H, a, a - (1 << w))

    def unsigned(self, a, w):
        if isnum(a):
            return z3.IntVal(a.as_long() % (1 << w))
        return z3.If(a < 0, a + (1 << w), a)

    def divmod(self, ex, st, a, b):
        if isnum(b) and b.as_long() != 0:
            return simp(a / b), simp(a % b)
        for al in ex.pow2:
            if ex.prove_q(st, b == al):
                q = fint("q")
                st.assume(q >= 0, q <= a)
                return q, simp(a - ex.mulfloor(st, al, a, 64))
        q, r = fint("q"), fint("r")
        st.assume(z3.Implies(b > 0, z3.And(a == q * b + r, r >= 0, r < b, q >= 0, q <= a)))
        return q, r

    def binop(self, ex, st, op, a, b, w):
        if op == 'add':
            return self.add(a, b, w)
        if op == 'sub':
            return self.sub(a, b, w)
        if ex.w.scaled is not None and w == 64 and op in ('mul', 'udiv', 'urem', 'sdiv') and not (isnum(a) and isnum(b)):
            r = ex.w.scaled(ex, st, op, a, b)
            if r is not None:
                return r
        if ex.w.bits is not None and w == 32 and op in ('shl', 'and', 'or', 'xor') and not (isnum(a) and isnum(b)):
            r = ex.w.bits(ex, st, op, a, b)
            if r is not None:
                return r
        if op == 'mul':
            return self.mul(a, b, w)
        if op == 'udiv':
            return self.divmod(ex, st, a, b)[0]
        if op == 'urem':
            return self.divmod(ex, st, a, b)[1]
        if op in ('sdiv', 'srem'):
            sa, sb = self.signed(a, w), self.signed(b, w)
            if isnum(b) and simp(sb).as_long() > 0:
                sb = simp(sb)
                q = z3.If(sa >= 0, sa / sb, -((-sa) / sb))
                if op == 'sdiv':
                    return simp(self.unsigned(q, w))
                return simp(self.unsigned(sa - q * sb, w))
            q, r = fint("q"), fint("r")
            st.assume(z3.Implies(z3.And(sb > 0, sa >= 0), z3.And(sa == q * sb + r, r >= 0, r < sb, q >= 0, q <= sa)))
            return self.unsigned(q if op == 'sdiv' else r, w)
        if op in ('and', 'or', 'xor'):
            if isnum(a) and not isnum(b):
                a, b = b, a
            if isnum(a) and isnum(b):
                x, y = a.as_long(), b.as_long()
                return z3.IntVal(x & y if op == 'and' else x | y if op == 'or' else x ^ y)
            full = (1 << w) - 1
            if isnum(b):
                c = b.as_long()
                if op == 'and':
                    if c == 0:
                        return z3.IntVal(0)
                    if c & (c + 1) == 0:
                        return simp(a % (c + 1)) if c != full else a
                    n = full ^ c
                    if n & (n + 1) == 0:
                        return simp(a - a % (n + 1))
                    if c & (c - 1) == 0:
                        return simp(((a / c) % 2) * c)
                if op == 'xor' and c == full:
                    return simp(full - a)
                if op == 'xor' and c == 0 or op == 'or' and c == 0:
                    return a
            if op == 'and' and ex.pow2:
                for al in ex.pow2:
                    for x, y in ((a, b), (b, a)):
                        if ex.prove_q(st, y == (1 << w) - al):
                            return ex.mulfloor(st, al, x, w)
                        if ex.prove_q(st, y == al - 1):
                            return simp(x - ex.mulfloor(st, al, x, w))
            r = ufun("b%s%d" % (op, w), I, I, I)(a, b)
            st.assume(r >= 0, r <= full)
            if op == 'and':
                st.assume(r <= a, r <= b)
            if op == 'or':
                st.assume(r >= a, r >= b, r <= a + b)
            return r
        if op == 'shl':
            if isnum(b):
                return simp((a * (1 << b.as_long())) % (1 << w)) if b.as_long() else a
            r = ufun("shl%d" % w, I, I, I)(a, b)
            st.assume(r >= 0, r < (1 << w))
            return r
        if op == 'lshr':
            if isnum(b):
                return simp(a / (1 << b.as_long()))
            r = ufun("lshr%d" % w, I, I, I)(a, b)
            st.assume(r >= 0, r <= a)
            return r
        if op == 'ashr':
            if isnum(b):
                s = self.signed(a, w)
                return simp(self.unsigned(s / (1 << b.as_long()), w))
            r = fint("ashr")
            st.assume(r >= 0, r < (1 << w))
            return r
        raise Unsupported("binop " + op)

    def icmp(self, p, a, b, w):
        if p == 'eq':
            return a == b
        if p == 'ne':
            return a != b
        if p[0] == 's':
            a, b = self.signed(a, w), self.signed(b, w)
        return {'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[p[1:]]

    def trunc(self, a, w0, w):
        if isnum(a):
            return z3.IntVal(a.as_long() % (1 << w))
        return simp(a % (1 << w))

    def sext(self, a, w0, w):
        return simp(self.unsigned(self.signed(a, w0), w))


def divide(t, n):
    """t / n for a linear term all of whose coefficients are multiples of n, else None"""
    if isnum(t):
        return z3.IntVal(t.as_long() // n) if t.as_long() % n == 0 else None
    if z3.is_add(t):
        ks = [divide(c, n) for c in t.children()]
        return None if any(k is None for k in ks) else simp(z3.Sum(ks))
    if z3.is_mul(t) and isnum(t.arg(0)) and t.arg(0).as_long() % n == 0:
        c = t.arg(0).as_long() // n
        r = t.arg(1) if t.num_args() == 2 else z3.Product(t.children()[1:])
        return simp(c * r)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a, b = divide(t.arg(1), n), divide(t.arg(2), n)
        return None if a is None or b is None else z3.If(t.arg(0), a, b)
    return t if n == 1 else None


class Loop:
    __slots__ = ("header", "blocks")


def find_loops(fn):
    """natural loops by dominators"""
    if hasattr(fn, "loops"):
        return fn.loops
    bbs = fn.bbs
    n = len(bbs)
    # reachable order
    order, seen = [], set()

    def dfs(b0):
        st = [(b0, iter(b0.succs))]
        seen.add(b0.id)
        while st:
            b, it = st[-1]
            adv = False
            for s in it:
                if s.id not in seen:
                    seen.add(s.id)
                    st.append((s, iter(s.succs)))
                    adv = True
                    break
            if not adv:
                order.append(b)
                st.pop()

    dfs(bbs[0])
    rpo = order[::-1]
    idx = {b.id: i for i, b in enumerate(rpo)}
    idom = {bbs[0].id: bbs[0].id}
    byid = {b.id: b for b in bbs}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in b.preds:
                if p.id in idom:
                    if new is None:
                        new = p.id
                    else:
                        a, c = new, p.id
                        while a != c:
                            while idx[a] > idx[c]:
                                a = idom[a]
                            while idx[c] > idx[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b.id) != new:
                idom[b.id] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == idom[b]:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for s in b.succs:
            if dom(s.id, b.id):
                l = loops.get(s.id)
                if l is None:
                    l = Loop()
                    l.header, l.blocks = s.id, {s.id}
                    loops[s.id] = l
                stack = [b.id]
                while stack:
                    x = stack.pop()
                    if x in l.blocks or x not in idx:
                        continue
                    l.blocks.add(x)
                    stack.extend(p.id for p in byid[x].preds)
    fn.loops = loops
    return loops


class LoopCtx:
    """What a candidate-invariant generator sees at a loop head."""

    def __init__(self, ex, fn, loop, names):
        self.ex, self.fn, self.loop, self.names = ex, fn, loop, names


class Executor:
    def __init__(self, world, dom=None):
        self.w = world
        self.dom = dom or IntDom()
        self.obls = []
        self.cur = "?"
        self.nalloca = 1
        self.record = True
        self.feas_cache = {}
        self.npaths = 0
        self.inlined = set()
        self.used_contracts = set()
        self.used_models = set()
        self.houdini_stats = [0, 0]
        self.lmemo = {}
        self.loop_spec = None
        self.deadline = None
        self.globals_addr = {}
        self.nloops = 0
        self.feas_ms = 400

    # ---------- obligations / feasibility
    def oblige(self, st, label, goal, kind="post"):
        if goal is True:
            goal = z3.BoolVal(True)
        if not self.record:
            return
        self.obls.append(Obl(label, list(st.pc), goal, self.cur, list(st.trace), kind))

    def feasible(self, st, *extra):
        s = z3.Solver()
        s.set("timeout", self.feas_ms)
        for f in st.pc:
            if not has_q(f):
                s.add(f)
        for f in extra:
            s.add(f)
        r = s.check()
        return r != z3.unsat

    pow2 = ()  # terms known to be powers of two; masking and remainder by them use the masking lemma (see lemma_masking)

    def mulfloor(self, st, al, x, w):
        """greatest multiple of al not above x (al a power of two below 2^w)"""
        F, Mult = ufun("mulfloor", I, I, I)(al, x), ufun("Mult", I, I, B)
        up = fint("mulup")
        st.assume(F >= 0, F <= x, F > x - al, Mult(al, F), up == F + al, Mult(al, up), z3.Implies(x < (1 << w), F + al <= (1 << w)), z3.Implies(Mult(al, x), F == x))
        return F

    def resolve(self, st, t, n=4):
        """decide conditional subterms (wrap-around cases) of an index by what is known on this path"""
        t = simp(t)
        for _ in range(n):
            todo, seen, hit = [t], set(), None
            while todo and len(seen) < 60:
                x = todo.pop()
                if x.get_id() in seen or not z3.is_app(x):
                    continue
                seen.add(x.get_id())
                if x.decl().kind() == z3.Z3_OP_ITE:
                    hit = x
                todo.extend(x.children())
            if hit is None:
                return t
            if self.prove_q(st, hit.arg(0)):
                v = hit.arg(1)
            elif self.prove_q(st, z3.Not(hit.arg(0))):
                v = hit.arg(2)
            else:
                return t
            t = simp(z3.substitute(t, (hit, v)))
        return t

    def prove_q(self, st, g):
        """cheap proof of a quantifier-free fact"""
        g = simp(g)
        if z3.is_true(g):
            return True
        if z3.is_false(g):
            return False
        s = z3.Solver()
        s.set("timeout", self.feas_ms)
        s.add(*[f for f in st.pc if not has_q(f)])
        s.add(z3.Not(g))
        return s.check() == z3.unsat

    def feasible_q(self, st, *extra):
        """feasibility including the quantified facts (bounded effort; 'unknown' counts as feasible)"""
        if not self.feasible(st, *extra):
            return False
        s = z3.Solver()
        s.set("timeout", self.feas_ms)
        s.set("mbqi", False)
        s.add(*st.pc)
        s.add(*extra)
        return s.check() != z3.unsat

    def prove(self, pc, goal, ms=5000):
        from .world import _solve_one
        return _solve_one(Obl("houdini", pc, goal, None, None), [], ms)[0] == "unsat"

    def prove_weak(self, pc, goal, ms=500):
        from .world import _z3try
        t = time.time()
        s, r = _z3try(Obl("houdini", pc, goal, None, None), [], ms, mbqi=False)
        return r == z3.unsat

    # ---------- memory
    def key_of(self, p, ty, tbaa, mod, st=None):
        """-> (key, index term) for a heap/global access"""
        if isinstance(p.obj, str):
            return ("G", p.obj, p.off), z3.IntVal(0)
        if self.w.regions is not None and st is not None and (p.s is None or p.s.name is None):
            # declared array objects: element i of array `name` is cell i of its own array
            out = []
            for base, stride, count, name in self.w.regions(self, st):
                k = divide(simp(p.addr - base), stride)
                if k is not None:
                    self.oblige(st, "array access inside %s" % name, z3.And(k >= 0, k < count), "pre")
                    return ("A", name, stride), k
                out.append((name, z3.Or(p.addr + max(ty.size, 1) <= base, p.addr >= base + stride * count)))
            for name, f in out:
                self.oblige(st, "memory access outside %s does not reach into it" % name, f, "pre")
        if p.s is not None and p.s.name is not None:
            s, so, sb = p.s, p.so, p.sb
            s, so, sb = self.descend(s, so, sb, ty)
            if s is not None:
                return ("F", s.name, so), sb
        if tbaa is not None and tbaa[0] and tbaa[0].startswith("_ZTS"):
            t = self.w.struct_by_zts(mod, tbaa[0])
            if t is not None:
                s, so, sb = self.descend(t, tbaa[2], simp(p.addr - tbaa[2]) if tbaa[2] else p.addr, ty)
                if s is not None and s.name is not None:
                    return ("F", s.name, so), sb
        # raw memory: one array per access width (pointers and 64-bit integers share one)
        kind = "w64" if ty.kind == 'ptr' or (ty.kind == 'int' and ty.w == 64) else "%s%d" % (ty.kind[0], ty.w if ty.kind == 'int' else 64)
        if tbaa is not None and tbaa[1] in ('omnipotent char', 'bool') and ty.kind == 'int':
            kind = "i8" if tbaa[1] != 'bool' else 'bool'
        return ("R", kind, 0), p.addr

    def descend(self, s, so, sb, ty):
        """innermost struct containing offset so"""
        depth = 0
        while depth < 12:
            depth += 1
            if not s.elts:
                return s, so, sb
            j = None
            for k in range(len(s.elts)):
                if s.offs[k] <= so:
                    j = k
            if j is None:
                return s, so, sb
            e = s.elts[j]
            o = so - s.offs[j]
            while e.kind == 'array' and e.elt.size and o < e.size:
                # arrays inside structs
                if e.elt.kind in ('struct', 'array'):
                    q = o // e.elt.size
                    o2 = o - q * e.elt.size
                    # move base to the array element
                    sbn = simp(sb + (so - o2)) if (so - o2) else sb
                    e = e.elt
                    o = o2
                    if e.kind == 'struct':
                        if e.name is None:
                            return s, so, sb
                        return self.descend(e, o2, sbn, ty)
                    continue
                return s, so, sb
            if e.kind == 'struct' and e.elts and o < max(e.size, 1) and e.name is not None:
                sb = simp(sb + s.offs[j]) if s.offs[j] else sb
                s, so = e, o
                continue
            return s, so, sb
        return s, so, sb

    def arr(self, st, key, w=64):
        a = st.heap.get(key)
        if a is None:
            a = self.fresh_arr(st, key, w)
            st.heap[key] = a
            # same base array in every state derived from the initial one
            self.base_arrays[key] = a
        return a

    base_arrays = None

    def fresh_arr(self, st, key, w=64):
        nm = "_".join(str(x) for x in key).replace("class.", "").replace("struct.", "")
        if self.base_arrays is None:
            self.base_arrays = {}
        if key in self.base_arrays and key not in st.wr:
            return self.base_arrays[key]
        a = z3.Array(fresh_name(nm), I, I)
        self.arr_axiom(st, a, w)
        return a

    def arr_axiom(self, st, a, w):
        x = z3.Int("ax")
        f = z3.ForAll([x], z3.And(a[x] >= 0, a[x] < (1 << w)), patterns=[a[x]])
        self.axioms[a.get_id()] = (a, f)

    axioms = None

    def width_of(self, key):
        return self.keyw.get(key, 64)

    keyw = None

    def load(self, st, p, ty, tbaa=None, mod=None):
        if ty.kind == 'struct':
            return tuple(self.load(st, self.field_ptr(p, ty, k), ty.elts[k], None, mod) for k in range(len(ty.elts)))
        if ty.kind == 'float':
            if isinstance(p, P) and isinstance(p.obj, int) and isinstance(st.loc.get((p.obj, p.off)), FloatV):
                return st.loc[(p.obj, p.off)]
            return FloatV(z3.Real(fresh_name("flt")))
        if ty.kind not in ('int', 'ptr'):
            raise Unsupported("load type " + ty.kind)
        if isinstance(p, (Und,)):
            return self.fresh_val(st, ty)
        if isinstance(p, VT):
            raise Unsupported("load through vtable")
        if isinstance(p.obj, int):
            if p.off is None:
                return self.fresh_val(st, ty)
            v = self.halves(st, p.obj, p.off, ty)
            if v is not None:
                return v
            v = st.loc.get((p.obj, p.off))
            if v is None:
                v = self.fresh_val(st, ty)
                st.loc[(p.obj, p.off)] = v
                self.locty[(p.obj, p.off)] = ty
            return self.coerce(st, v, ty)
        key, idx = self.key_of(p, ty, tbaa, mod, st)
        if key in self.w.guarded:
            self.w.guarded[key](self, st, idx, False)
        if ty.kind == 'int':
            self.keyw.setdefault(key, ty.w)
        a = self.arr(st, key, ty.w if ty.kind == 'int' else 64)
        v = simp(z3.Select(a, idx))
        if ty.kind == 'int' and ty.w == 1:
            return v == 1
        if not isnum(v):
            st.assume(v >= 0, v < (1 << (ty.w if ty.kind == 'int' else 64)))
        if ty.kind == 'ptr':
            return self.mkptr(v)
        return v

    locty = None

    def locw(self, st, o, off):
        t = self.locty.get((o, off))
        if (o, off) not in st.loc or t is None or t.kind != 'int' or not z3.is_expr(st.loc[(o, off)]) or not z3.is_int(st.loc[(o, off)]):
            return None
        return t.w

    def halves(self, st, o, off, ty):
        """two 32-bit members of a local object read as one 64-bit word, or the other way round"""
        if ty.kind != 'int':
            return None
        if ty.w == 64 and self.locw(st, o, off) == 32 and self.locw(st, o, off + 4) == 32:
            return simp(st.loc[(o, off)] + (1 << 32) * st.loc[(o, off + 4)])
        if ty.w == 32:
            if self.locw(st, o, off) == 64:
                return simp(st.loc[(o, off)] % (1 << 32))
            if (o, off) not in st.loc and self.locw(st, o, off - 4) == 64:
                return simp(st.loc[(o, off - 4)] / (1 << 32))
        return None

    def coerce(self, st, v, ty):
        if isinstance(v, Und):
            return self.fresh_val(st, ty)
        if ty.kind == 'ptr':
            if isinstance(v, (P, VT, FnRef)):
                return v
            return self.mkptr(v)
        if ty.kind == 'int':
            if isinstance(v, FloatV):
                return self.fresh_val(st, ty)
            if isinstance(v, P):
                return self.pterm(v)
            if z3.is_bool(v) and ty.w > 1:
                return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            if ty.w == 1 and not z3.is_bool(v):
                return v == 1
        return v

    def fresh_val(self, st, ty, h="v"):
        if ty.kind == 'int':
            if ty.w == 1:
                return z3.Bool(fresh_name(h))
            v = fint(h)
            st.assume(v >= 0, v < (1 << ty.w))
            return v
        if ty.kind == 'ptr':
            v = fint(h)
            st.assume(v >= 0, v < MAX64)
            return P(addr=v)
        if ty.kind == 'struct':
            return tuple(self.fresh_val(st, e, h) for e in ty.elts)
        if ty.kind == 'float':
            return FloatV(z3.Real(fresh_name(h)))
        return UNDEF

    def mkptr(self, t):
        t = simp(t)
        if isnum(t):
            v = t.as_long()
            if v < 0:
                o = (-v + 0xffff) >> 16
                if o in self.addr_glob:
                    return P(obj=self.addr_glob[o], off=v + (o << 16))
                return P(obj=o, off=v + (o << 16))
        return P(addr=t)

    addr_glob = None

    def pterm(self, p):
        """pointer -> Int term"""
        if isinstance(p, P):
            if isinstance(p.obj, int):
                if p.off is None:
                    return fint("lp")
                return z3.IntVal(-(p.obj << 16) + p.off)
            if isinstance(p.obj, str):
                o = self.globals_addr.get(p.obj)
                if o is None:
                    self.nalloca += 1
                    o = self.nalloca
                    self.globals_addr[p.obj] = o
                    self.addr_glob[o] = p.obj
                return z3.IntVal(-(o << 16) + p.off)
            return p.addr
        if isinstance(p, FnRef):
            return self.pterm(P(obj="fn:" + p.name))
        if isinstance(p, VT):
            return fint("vt")
        if isinstance(p, Und):
            return fint("undef")
        if z3.is_bool(p):
            return z3.If(p, z3.IntVal(1), z3.IntVal(0))
        return p

    def store(self, st, p, v, ty, tbaa=None, mod=None):
        if ty.kind == 'struct':
            if isinstance(v, Und):
                return
            for k in range(len(ty.elts)):
                self.store(st, self.field_ptr(p, ty, k), v[k], ty.elts[k], None, mod)
            return
        if isinstance(v, FloatV):
            if isinstance(p, P) and isinstance(p.obj, int) and p.off is not None:
                st.loc[(p.obj, p.off)] = v
                self.locty[(p.obj, p.off)] = ty
                self.wlog.add(("L", p.obj, p.off))
            return
        if isinstance(p, Und):
            raise Unsupported("store to undef")
        if isinstance(p.obj, int):
            if p.off is None:
                for k in list(st.loc):
                    if k[0] == p.obj:
                        del st.loc[k]
                        self.wlog.add(("L",) + k)
                return
            if ty.kind == 'int' and ty.w == 32:
                b = p.off if self.locw(st, p.obj, p.off) == 64 else p.off - 4
                if self.locw(st, p.obj, b) == 64:
                    x = st.loc[(p.obj, b)]
                    for o, h in ((b, x % (1 << 32)), (b + 4, x / (1 << 32))):
                        st.loc[(p.obj, o)] = simp(h)
                        self.locty[(p.obj, o)] = ty
                        self.wlog.add(("L", p.obj, o))
            elif (ty.kind == 'ptr' or ty.kind == 'int' and ty.w == 64) and (p.obj, p.off + 4) in st.loc:
                del st.loc[(p.obj, p.off + 4)]
                self.wlog.add(("L", p.obj, p.off + 4))
            st.loc[(p.obj, p.off)] = v
            self.locty[(p.obj, p.off)] = ty
            self.wlog.add(("L", p.obj, p.off))
            return
        if isinstance(v, (VT,)):
            return
        key, idx = self.key_of(p, ty, tbaa, mod, st)
        if key in self.w.guarded:
            self.w.guarded[key](self, st, idx, True)
        if ty.kind == 'int':
            self.keyw.setdefault(key, ty.w)
        a = self.arr(st, key, ty.w if ty.kind == 'int' else 64)
        st.heap[key] = z3.Store(a, idx, self.pterm(v))
        st.wr.add(key)
        self.wlog.add(("H", key))

    wlog = None

    def field_ptr(self, p, ty, k):
        """pointer to element k of struct ty at p"""
        o = ty.offs[k]
        return self.padd(p, ty, o, ty.elts[k])

    def padd(self, p, s, o, leaf=None):
        if isinstance(p.obj, int):
            return P(obj=p.obj, off=None if p.off is None else p.off + o)
        if isinstance(p.obj, str):
            return P(obj=p.obj, off=p.off + o)
        addr = simp(p.addr + o) if o else p.addr
        if s is not None and s.name is not None:
            return P(addr=addr, s=s, so=o, sb=p.addr, leaf=leaf)
        return P(addr=addr, s=p.s, so=p.so + o, sb=p.sb, leaf=leaf)

    def fld(self, st, key, obj):
        """spec access: field key at object term"""
        return z3.Select(self.arr(st, key, self.keyw.get(key, 64)), obj)

    def setfld(self, st, key, obj, v):
        st.heap[key] = z3.Store(self.arr(st, key, self.keyw.get(key, 64)), obj, v)
        st.wr.add(key)
        self.wlog.add(("H", key))

    def havoc_key(self, st, key):
        st.wr.add(key)
        self.wlog.add(("H", key))
        a = z3.Array(fresh_name("_".join(str(x) for x in key)), I, I)
        self.arr_axiom(st, a, self.keyw.get(key, 64))
        st.heap[key] = a
        return a

    def gset(self, st, name, v):
        st.g[name] = v
        self.gsort[name] = v.sort()
        self.wlog.add(("g", name))

    # ---------- values
    def ev(self, env, st, v, mod):
        if isinstance(v, ir.Ins):
            if v.id not in env:
                raise Unsupported("use of unevaluated value %r" % v)
            return env[v.id]
        if isinstance(v, ir.Arg):
            return env[("a", v.i)]
        if isinstance(v, ir.Const):
            return self.evc(v, mod, st)
        raise Unsupported("value %r" % v)

    def evc(self, c, mod, st=None):
        k = c.kind
        if k == 'int':
            if c.ty.w == 1:
                return z3.BoolVal(bool(c.v))
            return z3.IntVal(c.v)
        if k == 'null':
            return P(addr=z3.IntVal(0))
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(c.ty)
        if k == 'global':
            return P(obj=c.name, off=0)
        if k == 'fn':
            return FnRef(c.name)
        if k == 'float':
            return FloatV(z3.RealVal(repr(c.v)))
        if k == 'expr':
            if c.name == 'gep':
                b = self.evc(c.ops[0], mod, st)
                return self.gep(st, b, c.x, [self.evc(o, mod, st) for o in c.ops[1:]], [o.ty for o in c.ops[1:]])
            if c.name in ('bitcast', 'ptrtoint', 'inttoptr'):
                return self.evc(c.ops[0], mod, st)
        if k == 'agg':
            return tuple(self.evc(o, mod, st) for o in c.ops)
        if k == 'md':
            return c.v
        raise Unsupported("const %r" % c)

    def zero(self, ty):
        if ty.kind == 'int':
            return z3.BoolVal(False) if ty.w == 1 else z3.IntVal(0)
        if ty.kind == 'ptr':
            return P(addr=z3.IntVal(0))
        if ty.kind == 'struct':
            return tuple(self.zero(e) for e in ty.elts)
        if ty.kind == 'float':
            return FloatV(z3.RealVal(0))
        raise Unsupported("zero " + ty.kind)

    def gep(self, st, b, src, idx, itys):
        if isinstance(b, VT):
            i = simp(idx[0])
            if isnum(i):
                sc = 1 if src.kind == 'ptr' else 8
                n = i.as_long() // (1 if src.kind == 'ptr' else 8)
                return VT(b.p, b.cls, n)
            raise Unsupported("vtable gep")
        if isinstance(b, Und):
            return UNDEF
        if isinstance(b, FnRef):
            raise Unsupported("gep on fn")
        i0 = self.dom.signed(idx[0], itys[0].w)
        if not isnum(simp(i0)) and st is not None and self.prove_q(st, idx[0] < (1 << (itys[0].w - 1))):
            i0 = idx[0]
        if st is not None and not isnum(i0):
            i0 = self.resolve(st, i0)
        if len(idx) == 1:
            d = simp(i0 * src.size) if src.size != 1 else simp(i0)
            if isinstance(b.obj, int):
                if isnum(d) and b.off is not None:
                    return P(obj=b.obj, off=b.off + d.as_long())
                return P(obj=b.obj, off=None)
            if isinstance(b.obj, str):
                if isnum(d):
                    return P(obj=b.obj, off=b.off + d.as_long())
                return P(addr=simp(self.pterm(b) + d))
            if isnum(d):
                dv = d.as_long()
                if dv == 0:
                    return b
                if b.s is not None and src.kind == 'int' and src.w == 8 and b.leaf is not None and b.leaf.kind == 'struct':
                    pass
                return P(addr=simp(b.addr + dv))
            return P(addr=simp(b.addr + d))
        # struct / array path
        p = b
        if not (isnum(simp(i0)) and simp(i0).as_long() == 0):
            d = simp(i0 * src.size)
            if isinstance(b.obj, int):
                if isnum(d) and b.off is not None:
                    p = P(obj=b.obj, off=b.off + d.as_long())
                else:
                    return P(obj=b.obj, off=None)
            else:
                p = P(addr=simp(self.pterm(b) + d))
        cur = src
        for j in range(1, len(idx)):
            if cur.kind == 'struct':
                n = simp(idx[j]).as_long()
                p = self.padd(p, cur, cur.offs[n], cur.elts[n])
                cur = cur.elts[n]
            elif cur.kind == 'array':
                ii = simp(self.dom.signed(idx[j], itys[j].w))
                d = simp(ii * cur.elt.size)
                if isinstance(p.obj, int):
                    if isnum(d) and p.off is not None:
                        p = P(obj=p.obj, off=p.off + d.as_long())
                    else:
                        p = P(obj=p.obj, off=None)
                elif isinstance(p.obj, str):
                    p = P(obj=p.obj, off=p.off + d.as_long()) if isnum(d) else P(addr=simp(self.pterm(p) + d))
                else:
                    if isnum(d) and d.as_long() == 0:
                        pass
                    else:
                        p = P(addr=simp(p.addr + d))
                cur = cur.elt
            else:
                raise Unsupported("gep path " + cur.kind)
        return p

    # ---------- execution
    def run(self, fn, args, st, depth=0, top=False):
        """-> list of (state, 'ret'|'exc', value)"""
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this function exhausted")
        if depth > 40:
            raise Unsupported("inline depth at " + fn.short)
        mod = fn.mod
        mod.body(fn)
        loops = find_loops(fn)
        env = {}
        for a, v in zip(fn.args, args):
            env[("a", a.i)] = v
        outs = []
        work = [(fn.bbs[0], None, 0, env, st, ())]
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of this function exhausted")
            bb, prev, i, env, st, act = work.pop()
            if i == 0:
                # loop handling
                lp = loops.get(bb.id)
                # leave loops we are no longer in
                act = tuple(a for a in act if bb.id in a[0].blocks)
                if lp is not None:
                    mine = [a for a in act if a[0] is lp]
                    if mine:
                        ex_ = self.leaves(fn, lp, bb, prev, env, st, mod, depth, act)
                        if ex_ is not None:
                            work.extend(ex_)
                        else:
                            self.loop_back(fn, lp, mine[0], bb, prev, env, st, mod)
                        continue
                    unroll = self.w.unroll_limit(fn)
                    if unroll:
                        cnt = env.get(("unr", bb.id, depth), 0)
                        if cnt > unroll:
                            raise Unsupported("unroll limit in " + fn.short)
                        env = dict(env)
                        env[("unr", bb.id, depth)] = cnt + 1
                        env = self.phis(bb, prev, env, st, mod)
                    elif self.no_repeat(fn, lp, bb, prev, env, st, mod, depth):
                        env = self.phis(bb, prev, env, st, mod)
                        act = act + ((lp, None, None, bb),)
                    else:
                        r = self.loop_enter(fn, lp, bb, prev, env, st, mod, depth)
                        if r is None:
                            continue
                        env, st, info = r
                        act = act + (info,)
                else:
                    env = self.phis(bb, prev, env, st, mod)
                while bb.ins[i].op == 'phi':
                    i += 1
            self.steps(bb, i, env, st, act, work, outs, mod, depth, fn)
        return outs

    def phis(self, bb, prev, env, st, mod):
        if bb.ins[0].op != 'phi':
            return env
        new = {}
        for ins in bb.ins:
            if ins.op != 'phi':
                break
            for pb, v in ins.x['inc']:
                if pb is prev:
                    new[ins.id] = self.ev(env, st, v, mod)
                    break
            else:
                raise Unsupported("phi without incoming")
        env = dict(env)
        env.update(new)
        return env

    def goto(self, work, bb, prev, env, st, act):
        work.append((bb, prev, 0, env, st, act))

    def steps(self, bb, i, env, st, act, work, outs, mod, depth, fn):
        env = dict(env)
        n = len(bb.ins)
        while i < n:
            ins = bb.ins[i]
            op = ins.op
            if op in ('call', 'invoke'):
                res = self.call(ins, env, st, mod, depth, fn)
                if res is None:  # plain single continuation, value already in env
                    i += 1
                    if op == 'invoke':
                        self.goto(work, ins.x['normal'], bb, env, st, act)
                        return
                    continue
                for (s2, kind, v) in res:
                    e2 = dict(env) if len(res) > 1 else env
                    if kind == 'ret':
                        if v is not None:
                            e2[ins.id] = v
                        if op == 'invoke':
                            self.goto(work, ins.x['normal'], bb, e2, s2, act)
                        else:
                            work.append((bb, None, i + 1, e2, s2, act))
                    elif kind == 'exc':
                        if op == 'invoke':
                            self.unwind(ins, bb, e2, s2, act, v, work, outs)
                        else:
                            outs.append((s2, 'exc', v))
                return
            if op == 'br':
                if not ins.ops:
                    self.goto(work, ins.x['succ'][0], bb, env, st, act)
                    return
                c = self.ev(env, st, ins.ops[0], mod)
                if isinstance(c, Und):
                    c = z3.Bool(fresh_name("undefc"))
                c = simp(c)
                t, f = ins.x['succ']
                if z3.is_true(c):
                    self.goto(work, t, bb, env, st, act)
                    return
                if z3.is_false(c):
                    self.goto(work, f, bb, env, st, act)
                    return
                nc = simp(z3.Not(c))
                ft = self.feasible(st, c)
                ff = self.feasible(st, nc) if ft else True
                if ft and ff and fn.short in self.w.merge and self.triangle(bb, t, f, c, env, st, mod, depth, fn):
                    self.goto(work, f, bb, env, st, act)
                    return
                if ft and ff:
                    s2 = st.copy()
                    s2.assume(nc)
                    s2.trace.append((fn.short, bb.id, f.id))
                    self.goto(work, f, bb, env, s2, act)
                    st.assume(c)
                    st.trace.append((fn.short, bb.id, t.id))
                    self.goto(work, t, bb, env, st, act)
                elif ft:
                    st.assume(c)
                    self.goto(work, t, bb, env, st, act)
                else:
                    st.assume(nc)
                    self.goto(work, f, bb, env, st, act)
                return
            if op == 'switch':
                v = self.ev(env, st, ins.ops[0], mod)
                conds = []
                for cv, tb in ins.x['cases']:
                    conds.append((v == cv, tb))
                dc = z3.And([v != cv for cv, _ in ins.x['cases']])
                conds.append((dc, ins.x['default']))
                for c, tb in conds:
                    c = simp(c)
                    if z3.is_false(c) or not self.feasible(st, c):
                        continue
                    s2 = st.copy()
                    s2.assume(c)
                    self.goto(work, tb, bb, env, s2, act)
                return
            if op == 'ret':
                v = self.ev(env, st, ins.ops[0], mod) if ins.ops else None
                outs.append((st, 'ret', v))
                return
            if op == 'unreachable':
                return
            if op == 'resume':
                v = self.ev(env, st, ins.ops[0], mod)
                exc = v[0] if isinstance(v, tuple) and isinstance(v[0], Exc) else Exc()
                outs.append((st, 'exc', exc))
                return
            if op == 'select':
                c = self.ev(env, st, ins.ops[0], mod)
                if isinstance(c, Und):
                    c = z3.Bool(fresh_name("undefc"))
                c = simp(c)
                a, b = self.ev(env, st, ins.ops[1], mod), self.ev(env, st, ins.ops[2], mod)
                if z3.is_true(c):
                    env[ins.id] = a
                elif z3.is_false(c):
                    env[ins.id] = b
                elif isinstance(a, FloatV):
                    env[ins.id] = FloatV(z3.If(c, a.t, b.t))
                elif isinstance(a, (P, Und, tuple, FnRef, VT)) or isinstance(b, (P, Und, tuple)):
                    res = []
                    for cc, vv in ((c, a), (simp(z3.Not(c)), b)):
                        if self.feasible(st, cc):
                            s2 = st.copy()
                            s2.assume(cc)
                            e2 = dict(env)
                            e2[ins.id] = vv
                            work.append((bb, None, i + 1, e2, s2, act))
                    return
                else:
                    env[ins.id] = z3.If(c, a, b)
                i += 1
                continue
            self.simple(ins, env, st, mod)
            i += 1

    def triangle(self, bb, t, f, c, env, st, mod, depth, fn):
        """`if (c) { a few stores }`: one state with conditional values instead of two paths"""
        last = t.ins[-1]
        if last.op != 'br' or last.ops or last.x['succ'][0] is not f or f.ins[0].op == 'phi':
            return False
        if any(i.op not in ('store', 'gep', 'load', 'bitcast', 'call') for i in t.ins[:-1]):
            return False
        s2, e2 = st.copy(), dict(env)
        n = len(st.pc)
        for i in t.ins[:-1]:
            if i.op == 'call':
                # only calls by contract that return in one way and change nothing
                if not self.w.pure_contract(i):
                    return False
                r = self.call(i, e2, s2, mod, depth, fn)
                if r is not None:
                    if len(r) != 1 or r[0][0] is not s2 or r[0][1] != 'ret':
                        return False
                    e2[i.id] = r[0][2]
                continue
            self.simple(i, e2, s2, mod)
        if s2.loc != st.loc or s2.g != st.g:
            return False
        for k in s2.heap:
            if k in st.heap and st.heap[k] is s2.heap[k]:
                continue
            old, ch, b = self.arr(st, k, self.keyw.get(k, 64)), [], s2.heap[k]
            while z3.is_store(b) and not b.eq(old):
                ch.append((b.arg(1), b.arg(2)))
                b = b.arg(0)
            if b.eq(old):
                for i, v in reversed(ch):
                    old = z3.Store(old, i, z3.If(c, v, old[i]))
                st.heap[k] = old
            else:
                st.heap[k] = z3.If(c, s2.heap[k], old)
        st.wr |= s2.wr
        for g in s2.pc[n:]:
            st.assume(z3.Implies(c, g))
        return True

    def simple(self, ins, env, st, mod):
        op = ins.op
        ev = lambda k: self.ev(env, st, ins.ops[k], mod)
        if op == 'alloca':
            self.nalloca += 1
            env[ins.id] = P(obj=self.nalloca, off=0)
            self.alloca_ty[self.nalloca] = ins.x['ty']
        elif op == 'load':
            p = ev(0)
            tb = ins.x.get('tbaa')
            if tb and tb[1] == 'vtable pointer':
                env[ins.id] = VT(p)
                return
            if isinstance(p, VT) and ins.ty.kind == 'int':  # offset of a virtual base: unknown
                v = fint("vbase")
                st.assume(v >= 0, v < 1 << 20)
                env[ins.id] = v
                return
            if isinstance(p, VT):
                env[ins.id] = p  # load of the slot: VT with slot
                return
            if isinstance(p, (P,)) and isinstance(p.obj, str) and p.obj.startswith("_ZTT"):
                env[ins.id] = UNDEF
                return
            v = self.load(st, p, ins.ty, tb, mod)
            env[ins.id] = v
        elif op == 'store':
            v, p = ev(0), ev(1)
            tb = ins.x.get('tbaa')
            if tb and tb[1] == 'vtable pointer':
                return
            t = ins.ops[0].ty
            self.store(st, p, v, t, tb, mod)
        elif op == 'gep':
            env[ins.id] = self.gep(st, ev(0), ins.x['src'], [ev(k) for k in range(1, len(ins.ops))],
                                   [o.ty for o in ins.ops[1:]])
        elif op == 'icmp':
            a, b = ev(0), ev(1)
            t = ins.ops[0].ty
            env[ins.id] = self.icmp(st, ins.x['p'], a, b, t)
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = ev(0), ev(1)
            w = ins.ty.w
            if isinstance(a, Und):
                a = self.fresh_val(st, ins.ty)
            if isinstance(b, Und):
                b = self.fresh_val(st, ins.ty)
            if w == 1:
                a = a if z3.is_bool(a) else a == 1
                b = b if z3.is_bool(b) else b == 1
                env[ins.id] = {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b),
                               'xor': lambda: simp(z3.Xor(a, b))}[op]()
            else:
                a, b = self.pterm(a), self.pterm(b)
                env[ins.id] = self.dom.binop(self, st, op, a, b, w)
        elif op == 'zext':
            a = ev(0)
            if isinstance(a, Und):
                a = self.fresh_val(st, ins.ops[0].ty)
            env[ins.id] = z3.If(a, z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(a) else a
        elif op == 'sext':
            a = ev(0)
            if z3.is_bool(a):
                env[ins.id] = z3.If(a, z3.IntVal((1 << ins.ty.w) - 1), z3.IntVal(0))
            else:
                env[ins.id] = self.dom.sext(a, ins.ops[0].ty.w, ins.ty.w)
        elif op == 'trunc':
            a = ev(0)
            if isinstance(a, Und):
                env[ins.id] = self.fresh_val(st, ins.ty)
            elif ins.ty.w == 1:
                if z3.is_expr(a) and z3.is_app_of(a, z3.Z3_OP_ITE) and isnum(a.arg(1)) and isnum(a.arg(2)) and \
                        a.arg(1).as_long() == 1 and a.arg(2).as_long() == 0:
                    env[ins.id] = a.arg(0)
                else:
                    env[ins.id] = simp(a == 1) if ins.ops[0].ty.w == 8 else (a % 2 == 1)
            else:
                env[ins.id] = self.dom.trunc(self.pterm(a), ins.ops[0].ty.w, ins.ty.w)
        elif op in ('ptrtoint',):
            env[ins.id] = self.pterm(ev(0))
        elif op == 'inttoptr':
            env[ins.id] = self.mkptr(ev(0))
        elif op in ('bitcast', 'freeze'):
            env[ins.id] = ev(0)
        elif op == 'extractvalue':
            v = ev(0)
            for k in ins.x['idx']:
                v = v[k] if isinstance(v, tuple) else UNDEF
            env[ins.id] = v
        elif op == 'insertvalue':
            v, x = ev(0), ev(1)
            if isinstance(v, Und):
                v = tuple(UNDEF for _ in ins.ty.elts)
            if len(ins.x['idx']) != 1:
                raise Unsupported("insertvalue nested")
            l = list(v)
            l[ins.x['idx'][0]] = x
            env[ins.id] = tuple(l)
        elif op == 'landingpad':
            env[ins.id] = env.pop(("lp",))
        elif op == 'fence':
            pass
        elif op == 'atomicrmw':
            p, v = ev(0), ev(1)
            old = self.load(st, p, ins.ty, None, mod)
            r = {0: lambda: v, 1: lambda: self.dom.add(old, v, ins.ty.w), 2: lambda: self.dom.sub(old, v, ins.ty.w)}
            if ins.x['rmw'] not in r:
                raise Unsupported("atomicrmw")
            self.store(st, p, r[ins.x['rmw']](), ins.ty, None, mod)
            env[ins.id] = old
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            a, b = ev(0), ev(1)
            env[ins.id] = FloatV(
                {'fadd': lambda: a.t + b.t, 'fsub': lambda: a.t - b.t, 'fmul': lambda: a.t * b.t,
                 'fdiv': lambda: a.t / b.t}[op]())
        elif op == 'uitofp':
            env[ins.id] = FloatV(z3.ToReal(ev(0)))
        elif op == 'sitofp':
            env[ins.id] = FloatV(z3.ToReal(self.dom.signed(ev(0), ins.ops[0].ty.w)))
        elif op in ('fptoui', 'fptosi'):
            r = z3.ToInt(ev(0).t)
            v = fint("fpi")
            st.assume(z3.Implies(z3.And(ev(0).t >= 0, r < (1 << ins.ty.w)), v == r), v >= 0, v < (1 << ins.ty.w))
            env[ins.id] = v
        elif op in ('fpext', 'fptrunc'):
            env[ins.id] = ev(0)
        elif op == 'fcmp':
            a, b = ev(0).t, ev(1).t
            p = ins.x['p'][1:] if ins.x['p'] not in ('true', 'false', 'ord', 'uno') else ins.x['p']
            env[ins.id] = {'eq': lambda: a == b, 'ne': lambda: a != b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
                           'lt': lambda: a < b, 'le': lambda: a <= b, 'true': lambda: z3.BoolVal(True),
                           'false': lambda: z3.BoolVal(False), 'ord': lambda: z3.BoolVal(True),
                           'uno': lambda: z3.BoolVal(False)}[p]()
        elif op == 'fneg':
            env[ins.id] = FloatV(-ev(0).t)
        else:
            raise Unsupported("instruction %s in %s" % (op, ins.fn.short))

    alloca_ty = None

    def icmp(self, st, p, a, b, t):
        if isinstance(a, Exc) or isinstance(b, Exc):
            raise Unsupported("icmp exc")
        if t.kind == 'ptr':
            if isinstance(a, VT) or isinstance(b, VT):
                return z3.Bool(fresh_name("vtcmp"))
            a, b = self.pterm(a), self.pterm(b)
            if p in ('eq', 'ne'):
                return simp(a == b if p == 'eq' else a != b)
            return self.dom.icmp(p, a, b, 64)
        if isinstance(a, Und):
            a = self.fresh_val(st, t)
        if isinstance(b, Und):
            b = self.fresh_val(st, t)
        if t.w == 1:
            a = a if z3.is_bool(a) else a == 1
            b = b if z3.is_bool(b) else b == 1
            return a == b if p == 'eq' else simp(z3.Xor(a, b))
        return self.dom.icmp(p, self.pterm(a), self.pterm(b), t.w)

    # ---------- exceptions
    def unwind(self, ins, bb, env, st, act, exc, work, outs):
        ub = ins.x['unwind']
        lp = next(x for x in ub.ins if x.op == 'landingpad')
        sels = []
        done = False
        for c in lp.x['clauses']:
            if c.kind == 'null':
                sels.append((z3.IntVal(1), None))
                done = True
                break
            if c.kind in ('agg', 'zero', 'undef') or c.ty.kind == 'array':
                continue
            tn = c.name
            m = self.w.exc_match(exc.ty, tn)
            if m is True:
                sels.append((z3.IntVal(self.w.typeid(tn)), tn))
                done = True
                break
            if m is None:
                sels.append((z3.IntVal(self.w.typeid(tn)), tn))
        if not done and lp.x['cleanup']:
            sels.append((z3.IntVal(0), 'cleanup'))
        elif not done:
            outs.append((st.copy(), 'exc', exc))
        for sel, tn in sels:
            e2, s2 = dict(env), st.copy()
            e = exc
            if tn not in (None, 'cleanup') and exc.ty is None:
                e = Exc(tn, exc.tag)
            e2[("lp",)] = (e, sel)
            self.goto(work, ub, bb, e2, s2, act)

    # ---------- calls
    def call(self, ins, env, st, mod, depth, fn):
        """None: handled in place; else list of outcomes"""
        cal = ins.x['callee']
        args = [self.ev(env, st, a, mod) if not (isinstance(a, ir.Const) and a.kind == 'md') else a.v for a in ins.ops]
        if isinstance(cal, ir.Const) and cal.kind == 'fn':
            name = cal.name
            if name.startswith("llvm."):
                return self.intrinsic(name, ins, args, env, st, mod)
            return self.call_name(name, ins, args, env, st, mod, depth)
        tgt = self.ev(env, st, cal, mod)
        if isinstance(tgt, FnRef):
            return self.call_name(tgt.name, ins, args, env, st, mod, depth)
        if isinstance(tgt, VT):
            h = self.w.virtual(self, tgt, ins, args, st, mod)
            if h is None:
                raise Unsupported("virtual call %s slot %s in %s" % (tgt.cls, tgt.slot, fn.short))
            if isinstance(h, ir.Fn):
                return self.call_name(h.name, ins, args, env, st, mod, depth)
            return h
        h = self.w.indirect(self, tgt, ins, args, st, mod)
        if h is None:
            raise Unsupported("indirect call in %s" % fn.short)
        return h

    def call_name(self, name, ins, args, env, st, mod, depth):
        f = mod.fns.get(name)
        short = f.short if f is not None else ir.strip_templates(ir.demangle_many([name])[0])
        if self.w.ctor_alias.get(name):
            pass
        h = self.w.lookup(short, name, f)
        if h is not None:
            self.cur_call = (short, f)
            r = h(self, st, args, ins)
            if r is NotImplemented:
                pass
            else:
                return r
        d = self.w.definition(name, mod)
        if d is None:
            raise Unsupported("call to external function without contract: " + short)
        if not self.w.may_inline(d):
            raise Unsupported("call to function without contract (not inlined): " + short)
        self.inlined.add(short)
        r = self.run(d, args, st, depth + 1)
        return r

    def intrinsic(self, name, ins, args, env, st, mod):
        n = name.split(".")
        k = n[1]
        if k in ('lifetime', 'dbg', 'assume', 'invariant', 'donothing', 'experimental', 'prefetch', 'var'):
            return None
        if k in ('type', 'public') and 'test' in name:
            v = args[0]
            if isinstance(v, VT):
                m = re.search(r'"(_ZTS[^"]+)"', str(args[1]))
                if m:
                    v.cls = m.group(1)
            env[ins.id] = z3.BoolVal(True)
            return None
        if k == 'expect':
            env[ins.id] = args[0]
            return None
        if k == 'eh' and 'typeid' in name:
            p = args[0]
            env[ins.id] = z3.IntVal(self.w.typeid(p.obj if isinstance(p, P) else "?"))
            return None
        if k in ('umax', 'umin', 'smax', 'smin'):
            a, b = args
            sa, sb = (a, b) if k[0] == 'u' else (self.dom.signed(a, ins.ty.w), self.dom.signed(b, ins.ty.w))
            env[ins.id] = z3.If(sa >= sb, a, b) if k.endswith('max') else z3.If(sa <= sb, a, b)
            return None
        if k in ('memcpy', 'memmove'):
            return self.memcpy(ins, args, st, mod, k)
        if k == 'memset':
            return self.memset(ins, args, st, mod)
        if k == 'trap':
            return []
        if k in ('usub', 'uadd') and 'with' in n:
            a, b = args
            w = ins.ty.elts[0].w
            r = self.dom.add(a, b, w) if k == 'uadd' else self.dom.sub(a, b, w)
            ov = (a + b >= (1 << w)) if k == 'uadd' else a < b
            env[ins.id] = (r, ov)
            return None
        if k == 'umul' and 'with' in n:
            a, b = args
            w = ins.ty.elts[0].w
            env[ins.id] = (self.dom.mul(a, b, w), a * b >= (1 << w))
            return None
        h = self.w.lookup("llvm." + k, name, None)
        if h is not None:
            return h(self, st, args, ins)
        if k in ('cttz', 'ctlz', 'ctpop'):
            v = fint(k)
            st.assume(v >= 0, v <= ins.ty.w)
            env[ins.id] = v
            return None
        if k == 'stacksave':
            env[ins.id] = UNDEF
            return None
        if k == 'stackrestore':
            return None
        if k == 'fabs':
            a = args[0].t
            env[ins.id] = FloatV(z3.If(a >= 0, a, -a))
            return None
        raise Unsupported("intrinsic " + name)

    def memcpy(self, ins, args, st, mod, kind):
        d, s, n = args[0], args[1], simp(args[2])
        h = self.w.lookup("memcpy", "memcpy", None)
        if isnum(n):
            n = n.as_long()
            if isinstance(d, P) and isinstance(s, P):
                if isinstance(d.obj, int) and isinstance(s.obj, int) and d.off is not None and s.off is not None:
                    ents = [(o - s.off, v) for (ob, o), v in st.loc.items() if ob == s.obj and s.off <= o < s.off + n]
                    for k in [k for k in st.loc if k[0] == d.obj and d.off <= k[1] < d.off + n]:
                        del st.loc[k]
                    for o, v in ents:
                        st.loc[(d.obj, d.off + o)] = v
                        self.locty[(d.obj, d.off + o)] = self.locty.get((s.obj, s.off + o))
                        self.wlog.add(("L", d.obj, d.off + o))
                    return None
                if isinstance(s.obj, str) and isinstance(d.obj, int):
                    # constant global -> local
                    c = self.w.global_init(s.obj, mod)
                    flat = self.flatten_const(c) if c is not None else None
                    if flat is not None:
                        for o, v, t in flat:
                            if s.off <= o < s.off + n:
                                st.loc[(d.obj, d.off + o - s.off)] = v
                                self.locty[(d.obj, d.off + o - s.off)] = t
                                self.wlog.add(("L", d.obj, d.off + o - s.off))
                        return None
                ty = None
                for q in (d, s):
                    if isinstance(q.obj, int) and q.off == 0 and self.alloca_ty.get(q.obj) is not None \
                            and self.alloca_ty[q.obj].kind == 'struct' and self.alloca_ty[q.obj].size >= n \
                            and self.alloca_ty[q.obj].name:
                        ty = self.alloca_ty[q.obj]
                    elif q.obj is None and q.leaf is not None and q.leaf.kind == 'struct' and q.leaf.size >= n and q.leaf.name:
                        ty = q.leaf
                    if ty:
                        break
                if ty is None:
                    for q in (d, s):
                        if isinstance(q.obj, int) and self.alloca_ty.get(q.obj) is not None and self.alloca_ty[q.obj].kind == 'struct':
                            ty2 = self.sub_struct(self.alloca_ty[q.obj], q.off, n)
                            if ty2 is not None:
                                ty = ty2
                                break
                if ty is None:
                    for q in (d, s):
                        if q.obj is None and q.s is not None and q.s.name and q.so + n <= q.s.size and q.sb is not None:
                            # a run of members of a known struct (as emitted for implicit copy operations)
                            offs = [(o, t) for o, t in self.scalars(q.s) if q.so <= o < q.so + n]
                            at = lambda z: (lambda o, t: self.padd(P(addr=z.sb), q.s, o, t)) if (z.obj is None and z.s is not None and z.s.name == q.s.name) \
                                else (lambda o, t: self.padd(z, None, o - q.so, t))
                            vals = [(o, t, self.load(st, at(s)(o, t), t, None, mod)) for o, t in offs]
                            for o, t, v in vals:
                                self.store(st, at(d)(o, t), v, t, None, mod)
                            return None
                if ty is None:
                    ty = self.w.memcpy_type(self, ins, d, s, n, mod)
                if ty is not None:
                    self.copy_struct(st, d, s, ty, mod, n)
                    return None
                if n == 0:
                    return None
        if h is not None:
            return h(self, st, [d, s, args[2]], ins)
        raise Unsupported("memcpy in " + ins.fn.short)

    def sub_struct(self, t, off, n):
        while t is not None and t.kind == 'struct':
            if off == 0 and t.size == n and t.name:
                return t
            j = None
            for k in range(len(t.elts)):
                if t.offs[k] <= off:
                    j = k
            if j is None:
                return None
            off -= t.offs[j]
            t = t.elts[j]
        return None

    def flatten_const(self, c, off=0):
        out = []
        k = c.kind
        if k in ('int', 'null', 'fn', 'global', 'float'):
            return [(off, self.evc(c, None), c.ty)]
        if k == 'expr':
            try:
                return [(off, self.evc(c, None), c.ty)]
            except Unsupported:
                return None
        if k == 'agg':
            for j, o in enumerate(c.ops):
                oo = c.ty.offs[j] if c.ty.kind == 'struct' else j * c.ty.elt.size
                r = self.flatten_const(o, off + oo)
                if r is None:
                    return None
                out += r
            return out
        if k == 'zero':
            return self.flat_zero(c.ty, off)
        if k == 'str':
            return [(off + j, z3.IntVal(ch), None) for j, ch in enumerate(c.v)]
        return None

    def flat_zero(self, ty, off):
        if ty.kind == 'struct':
            r = []
            for k in range(len(ty.elts)):
                r += self.flat_zero(ty.elts[k], off + ty.offs[k])
            return r
        if ty.kind == 'array':
            r = []
            for k in range(min(ty.n, 64)):
                r += self.flat_zero(ty.elt, off + k * ty.elt.size)
            return r
        return [(off, self.zero(ty), ty)]

    def scalars(self, ty, off=0):
        if ty.kind == 'struct':
            for k in range(len(ty.elts)):
                yield from self.scalars(ty.elts[k], off + ty.offs[k])
        elif ty.kind == 'array':
            for k in range(min(ty.n, 64)):
                yield from self.scalars(ty.elt, off + k * ty.elt.size)
        else:
            yield off, ty

    def copy_struct(self, st, d, s, ty, mod, n):
        vals = []
        for off, t in self.scalars(ty):
            if off >= n:
                break
            vals.append((off, t, self.load(st, self.padd(s, ty, off, t), t, None, mod)))
        for off, t, v in vals:
            self.store(st, self.padd(d, ty, off, t), v, t, None, mod)

    def memset(self, ins, args, st, mod):
        d, v, n = args[0], simp(args[1]), simp(args[2])
        if isnum(n) and isinstance(d, P) and isinstance(d.obj, int) and d.off is not None:
            n = n.as_long()
            for k in [k for k in st.loc if k[0] == d.obj and d.off <= k[1] < d.off + n]:
                del st.loc[k]
            at = self.alloca_ty.get(d.obj)
            if at is not None and isnum(v) and v.as_long() == 0:
                for o, t in self.scalars(at):
                    if d.off <= o < d.off + n:
                        st.loc[(d.obj, o)] = self.zero(t)
                        self.locty[(d.obj, o)] = t
                        self.wlog.add(("L", d.obj, o))
            return None
        if isnum(n) and isinstance(d, P) and d.obj is None and isnum(v) and v.as_long() == 0 and d.s is not None:
            ty = d.leaf if d.leaf is not None and d.leaf.kind == 'struct' and d.leaf.size == n.as_long() else None
            if ty is not None:
                for off, t in self.scalars(ty):
                    self.store(st, self.padd(d, ty, off, t), self.zero(t), t, None, mod)
                return None
            # fields of the enclosing struct
            if d.s.size >= d.so + n.as_long():
                for off, t in self.scalars(d.s):
                    if d.so <= off < d.so + n.as_long():
                        self.store(st, self.padd(P(addr=d.sb), d.s, off, t), self.zero(t), t, None, mod)
                return None
        h = self.w.lookup("memset", "memset", None)
        if h is not None:
            return h(self, st, [d, args[1], args[2]], ins)
        raise Unsupported("memset in " + ins.fn.short)

    # ---------- loops
    def loopvars(self, bb, env):
        return [i for i in bb.ins if i.op == 'phi']

    def no_repeat(self, fn, lp, bb, prev, env, st, mod, depth):
        """is every back edge unreachable from this entry state? (then the loop needs no invariant)"""
        rec, self.record = self.record, False
        w0, n0 = self.wlog, len(self.loop_info)
        self.wlog = set()
        try:
            e = self.phis(bb, prev, env, st, mod)
            back = self.body_paths(fn, lp, bb, e, st.copy(), mod, depth)
            return all(not self.feasible_q(s2) for _, s2 in back)
        except Unsupported:
            return False
        finally:
            self.record, self.wlog = rec, w0
            del self.loop_info[n0:]

    def loop_enter(self, fn, lp, bb, prev, env, st, mod, depth):
        """cut the loop: infer write set, find inductive invariants, return generic state at the head"""
        self.nloops += 1
        env0 = self.phis(bb, prev, env, st, mod)
        entry = st.copy()
        phis = [i for i in bb.ins if i.op == 'phi']
        gens = self.w.loop_candidates(fn)
        W = set()
        rec, self.record = self.record, False
        try:
            for _ in range(8):
                e1, s1, vars_ = self.havoc_head(bb, env0, entry, W, phis)
                w0, self.wlog = self.wlog, set()
                head = s1.copy()
                back = self.body_paths(fn, lp, bb, e1, s1, mod, depth)
                new = self.wlog
                self.wlog = w0
                # what an iteration that comes back to the head may have changed
                new = {x for x in new if self.relevant_write(x, entry) and any(self.changed(x, head, s2) for _, s2 in back)}
                if new <= W:
                    break
                W |= new
            else:
                raise Unsupported("loop write set does not converge in " + fn.short)
            # candidates
            e1, s1, vars_ = self.havoc_head(bb, env0, entry, W, phis)
            ctx = LoopCtx(self, fn, lp, None)
            ctx.entry, ctx.W = entry, W
            cands = []
            for g in gens:
                cands += g(ctx, [(v[0], v[1]) for v in vars_])
            cands += self.default_cands(ctx, vars_)
            # a candidate: (label, f(state, values) -> Bool), values = list of loop variables
            vals0 = self.head_vals(bb, env0, entry, vars_)
            live = []
            weak = {c[0] for c in cands if len(c) > 2}  # candidates tried with a quick proof only
            cands = [c[:2] for c in cands]
            seen = self.lmemo.get((fn.short, bb.id))  # what an earlier visit of this loop kept
            pv = lambda lab, pc, g, ms: self.prove_weak(pc, g, 300 if seen is None or lab in seen else 60) if lab in weak else self.prove(pc, g, ms)
            for lab, f in cands:
                try:
                    g = f(entry, vals0)
                except (KeyError, Unsupported):
                    continue
                self.houdini_stats[0] += 1
                if pv(lab, entry.pc + self.axs(entry), g, 4000):
                    live.append((lab, f))
            for it in range(12):
                e1, s1, vars_ = self.havoc_head(bb, env0, entry, W, phis)
                vals1 = self.head_vals(bb, e1, s1, vars_)
                for lab, f in live:
                    s1.assume(f(s1, vals1))
                back = self.body_paths(fn, lp, bb, e1, s1, mod, depth)
                drop = set()
                for (e2, s2) in back:
                    v2 = self.head_vals(bb, e2, s2, vars_)
                    for j, (lab, f) in enumerate(live):
                        if j in drop:
                            continue
                        self.houdini_stats[0] += 1
                        goal = f(s2, v2)
                        if not pv(lab, s2.pc + self.axs(s2), goal, 6000):
                            drop.add(j)
                if not drop:
                    break
                live = [c for j, c in enumerate(live) if j not in drop]
            else:
                live = []
        finally:
            self.record = rec
        self.houdini_stats[1] += len(live)
        self.lmemo.setdefault((fn.short, bb.id), set()).update(l for l, _ in live)
        self.loop_info.append((fn.short, bb.id, [l for l, _ in live], [l for l, _ in cands if l not in [x for x, _ in live]]))
        e1, s1, vars_ = self.havoc_head(bb, env0, entry, W, phis)
        vals1 = self.head_vals(bb, e1, s1, vars_)
        for lab, f in live:
            # the two proofs of the invariant are themselves obligations
            self.oblige(entry, "loop@%s: invariant '%s' holds on entry" % (fn.short.split("::")[-1], lab), f(entry, vals0), "loop")
            s1.assume(f(s1, vals1))
        for x in W:
            self.wlog.add(x)
        return e1, s1, (lp, live, vars_, bb)

    loop_info = None
    lmemo = None

    def changed(self, x, a, b):
        def same(u, v):
            if u is v:
                return True
            if z3.is_expr(u) and z3.is_expr(v):
                return u.eq(v)
            if isinstance(u, P) and isinstance(v, P) and u.obj == v.obj and u.off == v.off:
                return isinstance(u.obj, int) or z3.is_expr(u.addr) and z3.is_expr(v.addr) and u.addr.eq(v.addr)
            return False
        if x[0] == "L":
            return not same(a.loc.get(x[1:]), b.loc.get(x[1:]))
        if x[0] == "H":
            return not same(self.arr(a, x[1], self.keyw.get(x[1], 64)), self.arr(b, x[1], self.keyw.get(x[1], 64)))
        if x[0] == "g":
            return not same(a.g.get(x[1]), b.g.get(x[1]))
        return True

    def relevant_write(self, x, entry):
        if x[0] == "L":
            return (x[1], x[2]) in entry.loc or x[1] in self.live_objs(entry)
        return True

    def live_objs(self, st):
        return {k[0] for k in st.loc}

    def havoc_head(self, bb, env0, entry, W, phis):
        st = entry.copy()
        env = dict(env0)
        vars_ = []
        for i in phis:
            v = self.fresh_val(st, i.ty, "phi")
            if isinstance(env0[i.id], (FnRef, VT)):
                v = env0[i.id]
            env[i.id] = v
            vars_.append((("phi", i.id), i.ty))
        if any(x[0] != "L" for x in W):
            for k in [k for k in st.g if k.startswith("sumref_")]:
                del st.g[k]
        for x in sorted(W, key=str):
            if x[0] == "L":
                ty = self.locty.get((x[1], x[2]))
                if ty is None or ty.kind not in ('int', 'ptr'):
                    st.loc.pop((x[1], x[2]), None)
                    continue
                st.loc[(x[1], x[2])] = self.fresh_val(st, ty, "loc")
                vars_.append((("loc", x[1], x[2]), ty))
            elif x[0] == "H":
                a = z3.Array(fresh_name("loop_" + "_".join(str(y) for y in x[1])), I, I)
                self.arr_axiom(st, a, self.keyw.get(x[1], 64))
                st.heap[x[1]] = a
                st.wr.add(x[1])
            elif x[0] == "g":
                st.g[x[1]] = z3.Const(fresh_name("loop_" + x[1]), entry.g[x[1]].sort() if x[1] in entry.g else self.gsort[x[1]])
        return env, st, vars_

    def head_vals(self, bb, env, st, vars_):
        r = []
        for v, ty in vars_:
            if v[0] == "phi":
                x = env[v[1]]
            else:
                x = st.loc.get((v[1], v[2]), UNDEF)
                if isinstance(x, Und):
                    x = self.fresh_val(st, ty)
            r.append((v, ty, self.pterm(x) if ty.kind == 'ptr' else x))
        return r

    def default_cands(self, ctx, vars_):
        return []

    def leaves(self, fn, lp, bb, prev, env, st, mod, depth, act):
        """a path that comes back to the loop head: if it can only leave the loop from there (a flag in the loop condition), the places it
        continues at, otherwise None. Such a path is an exit of the loop, not an iteration the invariant has to cover."""
        rec = self.record
        for record in ((False, True) if rec else (False,)):
            self.record = record
            try:
                r = self.leaves1(fn, lp, bb, prev, env, st.copy(), mod, depth, act)
            finally:
                self.record = rec
            if r is None:
                return None
        return r

    def leaves1(self, fn, lp, bb, prev, env, st, mod, depth, act):
        loops, exits, outs, n = find_loops(fn), [], [], 0
        work = [(bb, prev, 0, env, st, act)]
        while work:
            b2, prev, i, e2, s2, a2 = work.pop()
            if b2.id not in lp.blocks:
                exits.append((b2, prev, i, e2, s2, a2))
                continue
            n += 1
            if i == 0 and b2 is not bb and b2.id in loops or b2 is bb and n > 1 or n > 6:
                return None
            if i == 0 and any(x.op in ('store', 'invoke') for x in b2.ins) or len(b2.ins) > 40:
                if not all(self.is_local_store(x) for x in b2.ins if x.op in ('store', 'invoke')):
                    return None
            if i == 0:
                e2 = self.phis(b2, prev, e2, s2, mod)
                while b2.ins[i].op == 'phi':
                    i += 1
            m = len(outs)
            self.steps(b2, i, e2, s2, a2, work, outs, mod, depth, fn)
            if len(outs) > m:
                return None
        return exits

    def is_local_store(self, ins):
        """a store to a local variable of the function (temporaries of the condition)"""
        if ins.op != 'store':
            return False
        p = ins.ops[1]
        return getattr(p, "op", None) in ("alloca", "gep")

    def body_paths(self, fn, lp, bb, env, st, mod, depth):
        """execute one iteration; returns list of (env, state) at back edges"""
        back = []
        outs = []
        info = (lp, None, None, bb)
        work = []
        i = 0
        while bb.ins[i].op == 'phi':
            i += 1
        self.steps(bb, i, env, st, (info,), work, outs, mod, depth, fn)
        loops = find_loops(fn)
        while work:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported("time budget of this function exhausted")
            b2, prev, i, e2, s2, act = work.pop()
            if i == 0:
                if b2.id not in lp.blocks:
                    continue
                if b2.id == bb.id:
                    if self.leaves(fn, lp, bb, prev, e2, s2, mod, depth, act) is None:
                        back.append((self.phis(b2, prev, e2, s2, mod), s2))
                    continue
                l2 = loops.get(b2.id)
                act = tuple(a for a in act if b2.id in a[0].blocks)
                if l2 is not None:
                    mine = [a for a in act if a[0] is l2]
                    if mine:
                        ex_ = self.leaves(fn, l2, b2, prev, e2, s2, mod, depth, act)
                        if ex_ is not None:
                            work.extend(ex_)
                        continue
                    if self.no_repeat(fn, l2, b2, prev, e2, s2, mod, depth):
                        e2 = self.phis(b2, prev, e2, s2, mod)
                        act = act + ((l2, None, None, b2),)
                    else:
                        r = self.loop_enter(fn, l2, b2, prev, e2, s2, mod, depth)
                        if r is None:
                            continue
                        e2, s2, inf2 = r
                        act = act + (inf2,)
                else:
                    e2 = self.phis(b2, prev, e2, s2, mod)
                while b2.ins[i].op == 'phi':
                    i += 1
            self.steps(b2, i, e2, s2, act, work, outs, mod, depth, fn)
        return back

    def loop_back(self, fn, lp, info, bb, prev, env, st, mod):
        _, live, vars_, _ = info
        if live is None:
            return
        e2 = self.phis(bb, prev, env, st, mod)
        v2 = self.head_vals(bb, e2, st, vars_)
        for lab, f in live:
            self.oblige(st, "loop@%s: invariant '%s' preserved" % (fn.short.split("::")[-1], lab), f(st, v2), "loop")

    def axs(self, st=None):
        return [f for a, f in self.axioms.values()]

    def init(self):
        self.base_arrays, self.axioms, self.keyw, self.locty, self.wlog = {}, {}, {}, {}, set()
        self.addr_glob, self.alloca_ty, self.loop_info, self.gsort = {}, {}, [], {}
        return self
