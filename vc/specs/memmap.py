"""MemoryMap<V>: a map from addresses to values kept in a Judy array and a FixedMallocPool, over the assumed contract of the Judy array
and the contract of FixedMallocPool (P05)."""
import os
from ..lib import *
from .allocmap import install_judy, jin, jcell, jpos, RAW

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
MM = "umpire::util::MemoryMap<vc::Val>"
FMP = "umpire::util::FixedMallocPool"
TUS = [HERE + "/vc/tu/memmap.cpp"]
MN = "umpire::util::MemoryMap::"


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_judy(w, True)
        w.memcpy_type = lambda ex, ins, d, s, n, mod: {16: w.struct("vc::Val"), 24: w.struct("umpire::util::MemoryMap<vc::Val>::Iterator_<>")}.get(n)
        self.this = z3.Int("this")
        self.m = Flds(w, MM, ["m_last", "m_oper", "m_size", "m_array"])
        self.pool = simp(self.this + w.off(MM, "m_pool"))
        self.v = Flds(w, "vc::Val", ["a", "b"])
        self.ksec, self.asec = ("F", "struct.std::pair", 24), 0
        self.kmap, self.amap = w.field("umpire::util::MemoryMap<vc::Val>::Iterator_<>", "m_map")
        self.S = Sum("keys", lambda ex, st, o: z3.If(jin(st)[o], 1, 0), [], ["jin"])
        self.install()
        w.all_cands.append(self.cands)

    def isV(self, st):
        return G(st, "isV", AIB)

    def kOf(self, st):
        return G(st, "kOf")

    def val(self, ex, st, k):
        return ex.arr(st, RAW)[jcell(st)[k]]

    def install(self):
        C, sp = self.w.contracts, self

        def alloc(ex, st, args, ins):
            ex.used_contracts.add(FMP + "::allocate")
            ex.oblige(st, "values come from the map's own pool", T(ex, args[0]) == sp.pool, "pre")
            p = fint("val")
            s = sp.isV(st)
            st.assume(p > 0, p < MAX64 - 4096, z3.Not(s[p]))
            for o in st.g.get("foreign", ()):
                st.assume(p != o)
            ex.gset(st, "isV", z3.Store(s, p, z3.BoolVal(True)))
            ex.gset(st, "kOf", z3.Store(sp.kOf(st), p, jpos(st)))  # ghost: the value belongs to the key being inserted
            return [(st, 'ret', P(addr=p))]

        def dealloc(ex, st, args, ins):
            ex.used_contracts.add(FMP + "::deallocate")
            ex.oblige(st, "values go back to the map's own pool", T(ex, args[0]) == sp.pool, "pre")
            p, s = T(ex, args[1]), sp.isV(st)
            ex.oblige(st, "a value is returned to the pool exactly once", s[p], "pre")
            ex.gset(st, "isV", z3.Store(s, p, z3.BoolVal(False)))
            return [(st, 'ret', None)]
        C[FMP + "::allocate"], C[FMP + "::deallocate"] = alloc, dealloc

        def mkpool(ex, st, args, ins):
            ex.oblige(st, "constructor: the pool holds objects of the value's size", args[1] == self.w.sizeof("vc::Val"), "pre")
            ex.gset(st, "pools", G(st, "pools", I) + 1)
            return [(st, 'ret', None)]
        C[FMP + "::FixedMallocPool"] = mkpool

        def rmpool(ex, st, args, ins):
            ex.gset(st, "pools", G(st, "pools", I) - 1)
            return [(st, 'ret', None)]
        C[FMP + "::~FixedMallocPool"] = rmpool

        def jopen(ex, st, args, ins):
            a = fint("judy")
            k = z3.Int("jok")
            st.assume(a > 0, a < MAX64)
            j = z3.Const(fresh_name("jin"), AIB)
            st.assume(z3.ForAll([k], z3.Not(j[k]), patterns=[j[k]]))
            ex.gset(st, "jin", j)
            ex.gset(st, "opened", a)
            ex.oblige(st, "constructor: keys of the Judy array are whole pointers compared as integers", z3.And(args[0] == 8, args[1] == 1), "pre")
            return [(st, 'ret', P(addr=a))]

        def jclose(ex, st, args, ins):
            k = z3.Int("jck")
            ex.oblige(st, "destructor: the array closed is the one opened, once", z3.And(T(ex, args[0]) == G(st, "opened", I), G(st, "opened", I) > 0), "pre")
            ex.gset(st, "opened", z3.IntVal(0))
            return [(st, 'ret', None)]
        C["judy_open"], C["judy_close"] = jopen, jclose

    def inv(self, ex, st, sums=True):
        k, x, y = z3.Ints("mk mx my")
        J, V, kof = jin(st), self.isV(st), self.kOf(st)
        val = lambda q: self.val(ex, st, q)
        r = [("every key leads to its own value", z3.ForAll([k], z3.Implies(J[k], z3.And(k > 0, V[val(k)], kof[val(k)] == k)), patterns=[J[k]])),
             ("every value is reachable under its key", z3.ForAll([x], z3.Implies(V[x], z3.And(x > 0, J[kof[x]], val(kof[x]) == x)), patterns=[V[x]])),
             ("cells are distinct", z3.ForAll([x, y], z3.Implies(z3.And(J[x], J[y], x != y), jcell(st)[x] != jcell(st)[y]), patterns=[z3.MultiPattern(J[x], J[y])]))]
        if sums:
            if "sumref_keys" not in st.g:
                self.S.reset(ex, st)
            v, ok = self.S.value(ex, st)
            r.append(("size() equals the number of keys", z3.And(ok, self.m.m_size(ex, st, self.this) == v)))
        return r

    def cands(self, ctx, vars_):
        ex = ctx.ex
        out = [("invariant %d" % i, lambda st, vals, i=i: self.inv(ex, st, False)[i][1]) for i in range(3)]
        out.append(("position is the cell last found", lambda st, vals: z3.Or(self.m.m_last(ex, st, self.this) == 0,
                   z3.And(jpos(st) > 0, jin(st)[jpos(st)], self.m.m_last(ex, st, self.this) == jcell(st)[jpos(st)]))))
        out.append(("nothing found only if empty", lambda st, vals: z3.Or(self.m.m_last(ex, st, self.this) != 0, self.empty(st))))
        out.append(("array stays", lambda st, vals: self.m.m_array(ex, st, self.this) == self.m.m_array(ex, ctx.entry, self.this)))
        k = z3.Int("ck")
        out.append(("no key is added", lambda st, vals: z3.ForAll([k], z3.Implies(jin(st)[k], jin(ctx.entry)[k]), patterns=[jin(st)[k]])))
        return out

    def empty(self, st):
        k = z3.Int("ek")
        return z3.ForAll([k], z3.Not(jin(st)[k]), patterns=[jin(st)[k]])

    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        for g, s in (("isV", AIB), ("kOf", AII), ("jin", AIB), ("jcell", AII), ("jpos", I), ("opened", I), ("pools", I)):
            G(st, g, s)

    def pre(self, ex, st):
        self.base(ex, st)
        x = z3.Int("bx")
        V = self.isV(st)
        st.assume(z3.Not(V[0]), z3.Not(jin(st)[0]), jpos(st) >= 0, jpos(st) < MAX64)
        st.assume(z3.ForAll([x], z3.Implies(V[x], z3.And(x > 0, x < MAX64 - 4096)), patterns=[V[x]]))
        for _, f in self.inv(ex, st):
            st.assume(f)
        st.assume(self.m.m_array(ex, st, self.this) > 0, G(st, "opened", I) == self.m.m_array(ex, st, self.this))
        # address-space lemma: every entry occupies memory, so there are fewer than 2^58
        st.assume(self.m.m_size(ex, st, self.this) < 2 ** 58)

    def arg(self, st, n, lo=1):
        v = z3.Int(n)
        st.assume(v >= lo, v < MAX64 - 4096)
        return v

    # iterator at address a
    def imap(self, ex, st, a):
        return ex.fld(st, self.kmap, simp(a + self.amap) if self.amap else a)

    def ikey(self, ex, st, a):
        return ex.fld(st, PAIR1, simp(a + 8))

    def ival(self, ex, st, a):
        return ex.fld(st, PAIR2, simp(a + 8))

    def at(self, ex, st, a, k):
        """the iterator at a designates key k of this map"""
        return z3.And(self.imap(ex, st, a) == self.this, self.ikey(ex, st, a) == k, jin(st)[k], self.ival(ex, st, a) == self.val(ex, st, k))

    def isend(self, ex, st, a):
        return z3.And(self.imap(ex, st, a) == self.this, self.ikey(ex, st, a) == 0)

    def frame(self, ex, st0, st, k=None):
        """keys other than k keep their value object, and value objects their contents"""
        q, x = z3.Ints("fq fx")
        J0, J1, V0 = jin(st0), jin(st), self.isV(st0)
        ne = z3.BoolVal(True) if k is None else q != k
        return z3.And(z3.ForAll([q], z3.Implies(ne, z3.And(J1[q] == J0[q], z3.Implies(J0[q], self.val(ex, st, q) == self.val(ex, st0, q)))), patterns=[J0[q], J1[q]]),
                      z3.ForAll([x], z3.Implies(z3.And(V0[x], self.isV(st)[x]), z3.And(self.v.a(ex, st, x) == self.v.a(ex, st0, x), self.v.b(ex, st, x) == self.v.b(ex, st0, x))), patterns=[V0[x]]))

    def keep(self, ex, st0, st, tag, k=None):
        for lab, f in self.inv(ex, st):
            ex.oblige(st, tag + ": " + lab, f)
        ex.oblige(st, tag + ": other entries keep their values", self.frame(ex, st0, st, k))

    def same(self, ex, st0, st, tag):
        self.keep(ex, st0, st, tag)
        ex.oblige(st, tag + ": nothing is added or removed", self.m.m_size(ex, st, self.this) == self.m.m_size(ex, st0, self.this))

    def v_insert(self, fn, kind):
        def setup(ex, st):
            self.pre(ex, st)
            out, k = self.arg(st, "out"), self.arg(st, "ptr")
            V = self.isV(st)
            x = z3.Int("rx")
            if kind == "args":
                a, b = z3.Ints("x y")
                st.assume(a >= 0, a < MAX64, b >= 0, b < MAX64)
                st.g["want"] = (a, b)
                return [P(addr=out), P(addr=self.this), P(addr=k), a, b]
            src = self.arg(st, "src")
            o = src if kind == "val" else simp(src + 8)
            st.assume(z3.ForAll([x], z3.Implies(V[x], x != o), patterns=[V[x]]), out + 100 < src)
            st.g["foreign"] = (o,)
            st.g["want"] = (self.v.a(ex, st, o), self.v.b(ex, st, o))
            if kind == "pair":
                st.assume(ex.fld(st, PAIR1, src) == k)
                return [P(addr=out), P(addr=self.this), P(addr=src)]
            return [P(addr=out), P(addr=self.this), P(addr=k), P(addr=src)]

        def post(ex, st0, st, ret, args):
            out, k = args[0].addr, z3.Int("ptr")
            a, b = st0.g["want"]
            new = z3.Not(jin(st0)[k])
            self.keep(ex, st0, st, "insert", k)
            ex.oblige(st, "insert: the result is at the key", self.at(ex, st, out, k))
            ex.oblige(st, "insert: reports whether an entry was added", ex.fld(st, self.ksec, simp(out + self.asec)) == z3.If(new, 1, 0))
            vv = self.val(ex, st, k)
            ex.oblige(st, "insert: a new entry holds the value given", z3.Implies(new, z3.And(self.v.a(ex, st, vv) == a, self.v.b(ex, st, vv) == b)))
            ex.oblige(st, "insert: an existing entry keeps its value", z3.Implies(z3.Not(new), vv == self.val(ex, st0, k)))
            ex.oblige(st, "insert: size grows by one exactly when an entry is added", self.m.m_size(ex, st, self.this) == self.m.m_size(ex, st0, self.this) + z3.If(new, 1, 0))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws("insert"), label=MN + "insert (%s)" % kind)

    def v_find(self, fn, before):
        tag = "findOrBefore" if before else "find"

        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.arg(st, "out")), P(addr=self.this), P(addr=self.arg(st, "ptr"))]

        def post(ex, st0, st, ret, args):
            out, p = args[0].addr, args[2].addr
            J, q = jin(st0), z3.Int("gq")
            self.same(ex, st0, st, tag)
            if before:
                k = self.ikey(ex, st, out)
                none = z3.ForAll([q], z3.Implies(J[q], q > p), patterns=[J[q]])
                ex.oblige(st, "findOrBefore: the nearest entry at or below the pointer, or no value if there is none",
                          z3.If(self.ival(ex, st, out) == 0, none, z3.And(self.at(ex, st, out, k), k <= p, z3.ForAll([q], z3.Implies(z3.And(J[q], q <= p), q <= k), patterns=[J[q]]))))
            else:
                ex.oblige(st, "find: the entry of the pointer, or end if there is none", z3.If(J[p], self.at(ex, st, out, p), self.isend(ex, st, out)))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws(tag), label=MN + tag)

    def v_erase(self, fn, it):
        def setup(ex, st):
            self.pre(ex, st)
            k = self.arg(st, "ptr")
            if it:
                i = self.arg(st, "iter")
                st.assume(self.ikey(ex, st, i) == k, self.imap(ex, st, i) == self.this)
                return [P(addr=self.this), P(addr=i)]
            return [P(addr=self.this), P(addr=k)]

        def post(ex, st0, st, ret, args):
            k = z3.Int("ptr")
            self.keep(ex, st0, st, "erase", k)
            ex.oblige(st, "erase: returns normally only for a present key", jin(st0)[k])
            ex.oblige(st, "erase: the entry is gone and its value returned to the pool", z3.And(z3.Not(jin(st)[k]), z3.Not(self.isV(st)[self.val(ex, st0, k)])))
            ex.oblige(st, "erase: size shrinks by one", self.m.m_size(ex, st, self.this) == self.m.m_size(ex, st0, self.this) - 1)

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "erase throws only for an absent key", z3.Not(jin(st0)[z3.Int("ptr")]))
            self.same(ex, st0, st, "erase (throwing)")
        return verify(self.w, "vc::" + fn, setup, post, post_exc=post_exc, label=MN + "erase")

    def v_clear(self, fn, dtor=False):
        tag = "destructor" if dtor else "clear"

        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            x = z3.Int("zx")
            V = self.isV(st)
            ex.oblige(st, tag + ": no entry is left", self.empty(st))
            ex.oblige(st, tag + ": every value is returned to the pool", z3.ForAll([x], z3.Not(V[x]), patterns=[V[x]]))
            if dtor:
                ex.oblige(st, "destructor: the array is closed and the pool destroyed", z3.And(G(st, "opened", I) == 0, G(st, "pools", I) == G(st0, "pools", I) - 1))
            else:
                ex.oblige(st, "clear: size is zero", self.m.m_size(ex, st, self.this) == 0)
                ex.oblige(st, "clear: the array stays", self.m.m_array(ex, st, self.this) == self.m.m_array(ex, st0, self.this))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws(tag), label=MN + tag)

    def v_size(self):
        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "size: the number of entries", ret == self.m.m_size(ex, st0, self.this))
            self.same(ex, st0, st, "size")
        return verify(self.w, "vc::s1", setup, post, post_exc=never_throws("size"), label=MN + "size")

    def nearest(self, ex, st, out, lo):
        """the iterator at out designates the smallest key above lo, or is the end"""
        J, q, k = jin(st), z3.Int("hq"), self.ikey(ex, st, out)
        return z3.If(k == 0, z3.And(self.imap(ex, st, out) == self.this, z3.ForAll([q], z3.Implies(J[q], q <= lo), patterns=[J[q]])),
                     z3.And(self.at(ex, st, out, k), k > lo, z3.ForAll([q], z3.Implies(z3.And(J[q], q > lo), q >= k), patterns=[J[q]])))

    def v_begin(self, fn, end):
        tag = "end" if end else "begin"

        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.arg(st, "out")), P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            out = args[0].addr
            self.same(ex, st0, st, tag)
            if end:
                ex.oblige(st, "end: the end", self.isend(ex, st, out))
            else:
                ex.oblige(st, "begin: the entry with the smallest key, or end if there is none", self.nearest(ex, st, out, z3.IntVal(0)))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws(tag), label=MN + tag)

    def v_next(self, fn, postfix=False):
        def setup(ex, st):
            self.pre(ex, st)
            i, k = self.arg(st, "iter"), z3.Int("k0")
            st.assume(self.imap(ex, st, i) == self.this, self.ikey(ex, st, i) == k, jin(st)[k], self.ival(ex, st, i) == self.val(ex, st, k))
            if postfix:
                out = self.arg(st, "out")
                st.assume(disjoint(out, 32, i, 32))
                return [P(addr=out), P(addr=i)]
            return [P(addr=i)]

        def post(ex, st0, st, ret, args):
            i, k = z3.Int("iter"), z3.Int("k0")
            self.same(ex, st0, st, "operator++")
            ex.oblige(st, "operator++: moves to the entry with the next larger key, or to the end", self.nearest(ex, st, i, k))
            if postfix:
                ex.oblige(st, "operator++(int): returns the old position", self.at(ex, st, args[0].addr, k))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws("operator++"), label=MN + "Iterator_::operator++" + ("(int)" if postfix else ""))

    def v_eq(self, fn, neg):
        def setup(ex, st):
            self.pre(ex, st)
            i, j = self.arg(st, "i"), self.arg(st, "j")
            return [P(addr=i), P(addr=j)]

        def post(ex, st0, st, ret, args):
            i, j = args[0].addr, args[1].addr
            same = z3.And(self.imap(ex, st0, i) == self.imap(ex, st0, j), self.ikey(ex, st0, i) == self.ikey(ex, st0, j))
            r = ret if z3.is_bool(ret) else ret != 0
            ex.oblige(st, "iterators are equal exactly when they are at the same key of the same map", r == (z3.Not(same) if neg else same))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws("comparison"), label=MN + "Iterator_::operator" + ("!=" if neg else "=="))

    def v_ctor(self):
        def setup(ex, st):
            self.base(ex, st)
            x = z3.Int("nx")
            V = self.isV(st)
            st.assume(z3.ForAll([x], z3.Not(V[x]), patterns=[V[x]]))
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            for lab, f in self.inv(ex, st, False):
                ex.oblige(st, "constructor: " + lab, f)
            ex.oblige(st, "constructor: empty", z3.And(self.empty(st), self.m.m_size(ex, st, self.this) == 0, self.m.m_array(ex, st, self.this) == G(st, "opened", I), self.m.m_array(ex, st, self.this) > 0))
            ex.oblige(st, "constructor: one pool", G(st, "pools", I) == G(st0, "pools", I) + 1)
        return verify(self.w, MN + "MemoryMap", setup, post)

    def all(self):
        N = named
        return [N("insert_value", lambda: self.v_insert("i1", "val")), N("insert_args", lambda: self.v_insert("i2", "args")), N("insert_pair", lambda: self.v_insert("i3", "pair")),
                N("find", lambda: self.v_find("f1", False)), N("find_const", lambda: self.v_find("f2", False)), N("before", lambda: self.v_find("b1", True)), N("before_const", lambda: self.v_find("b2", True)),
                N("erase_key", lambda: self.v_erase("e1", False)), N("erase_iter", lambda: self.v_erase("e2", True)), N("erase_citer", lambda: self.v_erase("e3", True)),
                N("clear", lambda: self.v_clear("c1")), N("dtor", lambda: self.v_clear("x1", True)), self.v_size,
                N("begin", lambda: self.v_begin("g1", False)), N("begin_const", lambda: self.v_begin("g2", False)), N("end", lambda: self.v_begin("h1", True)), N("end_const", lambda: self.v_begin("h2", True)),
                N("next", lambda: self.v_next("n1")), N("next_const", lambda: self.v_next("n2")), N("next_post", lambda: self.v_next("n3", True)),
                N("eq", lambda: self.v_eq("q1", False)), N("ne", lambda: self.v_eq("q2", True)), N("eq_const", lambda: self.v_eq("q3", False)), self.v_ctor]
