"""Spec helpers: field accessors, ghost sums, frames."""
import z3
from .engine import *
from .world import *
from .stl import *


class Flds:
    """Flds(w, cls).name(ex, st, obj) -> z3 term of a data member in a state"""

    def __init__(self, w, cls, names):
        self._w, self._cls = w, cls
        for n in names:
            k, adj = w.field(cls, n)
            setattr(self, n, self._mk(k, adj))
            setattr(self, "K_" + n, k)
            setattr(self, "A_" + n, adj)

    def _mk(self, k, adj):
        return lambda ex, st, o: z3.Select(ex.arr(st, k, ex.keyw.get(k, 64)), o + adj if adj else o)


def bfld(ex, st, f, o):
    """boolean data member"""
    return f(ex, st, o) == 1


def store_indices(a, base):
    """index terms written in a Store chain from base to a; None if the chain does not end in base"""
    idx = []
    while not a.eq(base):
        if not z3.is_store(a):
            return None
        idx.append(a.arg(1))
        a = a.arg(0)
    return idx


def collect_stores(a):
    idx = []
    while z3.is_store(a):
        idx.append(a.arg(1))
        a = a.arg(0)
    return idx, a


class Sum:
    """Ghost sum  Sigma_{c} w(st, c)  over an unbounded set; related between states by the update lemma:
    if w is unchanged outside the finite set T of touched objects, the sum changes by the difference over T."""

    def __init__(self, name, weight, keys, ghosts, bound=True):
        self.name, self.weight, self.keys, self.ghosts, self.bound = name, weight, keys, ghosts, bound

    def reset(self, ex, st):
        sg = fint("sum_" + self.name)
        st.assume(sg >= 0)
        if self.bound:
            st.assume(sg < MAX64)
        snap = st.copy()
        for k in self.keys:
            ex.arr(snap, k)
            if k not in st.heap:
                st.heap[k] = snap.heap[k]
        for g in self.ghosts:
            st.g[g] = snap.g[g] = G(st, g, st.g[g].sort() if g in st.g else AIB)
        st.g["sumref_" + self.name] = (snap, sg)
        return sg

    def touched(self, ex, st, snap):
        T = []
        for k in self.keys:
            i, b = collect_stores(ex.arr(st, k))
            i0, b0 = collect_stores(ex.arr(snap, k))
            if not b.eq(b0):
                return None
            T += i[:len(i) - len(i0)] if len(i0) else i
        for g in self.ghosts:
            i, b = collect_stores(st.g[g])
            i0, b0 = collect_stores(snap.g[g])
            if not b.eq(b0):
                return None
            T += i[:len(i) - len(i0)] if len(i0) else i
        U = []
        for t in T:
            t = simp(t)
            if not any(t.eq(u) for u in U):
                U.append(t)
        return U

    def value(self, ex, st):
        """-> (value term, validity formula). The lemma instances are assumed in st."""
        snap, sg = st.g["sumref_" + self.name]
        T = self.touched(ex, st, snap)
        if T is None:
            return fint("sum_unknown"), z3.BoolVal(False)
        d, lower = z3.IntVal(0), z3.IntVal(0)
        for j, t in enumerate(T):
            g = z3.And([t != u for u in T[:j]]) if j else z3.BoolVal(True)
            wn, wo = self.weight(ex, st, t), self.weight(ex, snap, t)
            d = d + z3.If(g, wn - wo, 0)
            lower = lower + z3.If(g, wo, 0)
        c = z3.Int("sc")
        frame = z3.ForAll([c], z3.Implies(z3.And([c != t for t in T]), self.weight(ex, st, c) == self.weight(ex, snap, c))) \
            if T else z3.BoolVal(True)
        val = sg + d
        st.assume(sg >= lower)
        if self.bound:
            st.assume(z3.Implies(frame, z3.And(val >= 0, val < MAX64)))
        return val, frame


def disjoint(a, n, b, m):
    return z3.Or(a + n <= b, b + m <= a)


def frame_except(ex, st0, st, key, addrs):
    """array `key` equal in both states except at addrs"""
    a0, a1 = ex.arr(st0, key), ex.arr(st, key)
    if a0.eq(a1):
        return z3.BoolVal(True)
    x = z3.Int("fx")
    return z3.ForAll([x], z3.Implies(z3.And([x != a for a in addrs]), a0[x] == a1[x]), patterns=[a1[x]])


def name_arrays(st):
    """give the current value of every ghost array a name (quantifier patterns cannot match store terms)"""
    n = z3.Int("nmi")
    for g, a in list(st.g.items()):
        if z3.is_expr(a) and z3.is_store(a):
            c = z3.Const(fresh_name("nm_" + g), a.sort())
            idx, vals, b = [], [], a
            while z3.is_store(b):
                idx.append(b.arg(1))
                vals.append(b.arg(2))
                b = b.arg(0)
            e = b[n]
            for i, v in reversed(list(zip(idx, vals))):
                e = z3.If(n == i, v, e)
            st.assume(z3.ForAll([n], c[n] == e, patterns=[c[n], b[n]]))
            st.assume(*[c[i] == a[i] for i in idx])
            st.g[g] = c
    for k in [k for k in st.g if k.startswith("sumref_")]:
        del st.g[k]


class Method:
    """A contract: used to verify the function's body and, at call sites, instead of the body."""

    def __init__(self, name, pre, post, post_exc=None, havoc=None, ret=None, key=None):
        self.name, self.pre, self.post, self.post_exc, self.havoc, self.retf = name, pre, post, post_exc, havoc, ret

    def handler(self):
        def h(ex, st, args, ins):
            ex.used_contracts.add(self.name)
            for lab, f in self.pre(ex, st, args):
                ex.oblige(st, "call of %s: %s" % (self.name.split("::")[-1], lab), f, "pre")
                st.assume(f)
            name_arrays(st)
            st0 = st.copy()
            outs = []
            if self.post_exc is not None:
                s2 = st.copy()
                self.havoc(ex, s2)
                for lab, f in self.post_exc(ex, st0, s2, args):
                    s2.assume(f)
                s2.trace.append((self.name.split("::")[-1] + " throws",))
                outs.append((s2, 'exc', Exc()))
            self.havoc(ex, st)
            r = self.retf(ex, st) if self.retf else (None if ins.ty.kind == 'void' else ex.fresh_val(st, ins.ty, "cret"))
            for lab, f in self.post(ex, st0, st, r, args):
                st.assume(f)
            outs.append((st, 'ret', r))
            return outs
        return h

    def verify(self, w, setup, extra_ret=None, **kw):
        def post(ex, st0, st, ret, args):
            for lab, f in self.post(ex, st0, st, ret, args):
                ex.oblige(st, "%s: %s" % (self.name.split("::")[-1], lab), f)

        def post_exc(ex, st0, st, e, args):
            tag = self.name.split("::")[-1]
            if self.post_exc is None:
                ex.oblige(st, "%s: does not throw" % tag, z3.BoolVal(False))
            else:
                for lab, f in self.post_exc(ex, st0, st, args):
                    ex.oblige(st, "%s (throwing): %s" % (tag, lab), f)
        return verify(w, self.name, setup, post, post_exc=post_exc, **kw)


def never_throws(tag):
    def h(ex, st0, st, e, args):
        ex.oblige(st, "%s: does not throw" % tag, z3.BoolVal(False))
    return h


def named(n, f):
    f.__name__ = n
    return f
