"""TypedAllocator over the contract of Allocator (P16); relative fragmentation of a list of records."""
from ..lib import *

AL = "umpire::Allocator"
TUS = [HERE + "/vc/tu/heur.cpp", "umpire/util/allocation_statistics.cpp"]
SIZE = {"t_allocate": 24, "t_allocate1": 1}  # sizeof the element types of vc/tu/heur.cpp


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        self.f = Flds(w, AL, ["m_allocator", "m_thread_safe", "m_tracking", "m_thread_safe_mutex"])
        self.live = lambda st: G(st, "live", AII)  # address -> size + 1 of each live result, 0 if none
        C = w.contracts

        def alloc(ex, st, args, ins):
            ex.used_contracts.add(AL + "::allocate")
            a, b = T(ex, args[0]), args[1]
            s2 = st.copy()
            p = fint("mem")
            st.assume(p > 0, p < MAX64, self.live(st)[p] == 0)
            ex.gset(st, "live", z3.Store(self.live(st), p, b + 1))
            ex.gset(st, "who", z3.Store(G(st, "who", AII), p, a))
            ex.gset(st, "calls", G(st, "calls", I) + 1)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=p))]

        def dealloc(ex, st, args, ins):
            ex.used_contracts.add(AL + "::deallocate")
            a, p = T(ex, args[0]), T(ex, args[1])
            ex.gset(st, "gone", p)
            ex.gset(st, "goneto", a)
            ex.gset(st, "calls", G(st, "calls", I) + 1)
            s2 = st.copy()
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        self.idof = ufun("allocator_id", I, I)
        C[AL + "::allocate"], C[AL + "::deallocate"] = alloc, dealloc
        C[AL + "::getId"] = lambda ex, st, args, ins: (ex.used_contracts.add(AL + "::getId"), st.assume(self.idof(T(ex, args[0])) >= -2 ** 31, self.idof(T(ex, args[0])) < 2 ** 31), [(st, 'ret', simp(self.idof(T(ex, args[0])) % 2 ** 32))])[2]

    def base(self, ex, st):
        for g in ("calls", "gone", "goneto"):
            ex.gset(st, g, z3.IntVal(0))
        self.live(st), G(st, "who", AII)

    def v_allocate(self, fn):
        n, a = z3.Int("count"), z3.Int("allocator")
        sz = SIZE[fn]

        def setup(ex, st):
            self.base(ex, st)
            st.assume(n >= 0, n < MAX64, a > 0, a < MAX63)
            return [P(addr=a), n]

        def post(ex, st0, st, ret, args):
            p = T(ex, ret)
            ex.oblige(st, "allocate: the result is new memory of exactly count elements from this allocator", z3.And(p > 0, self.live(st0)[p] == 0, self.live(st)[p] == n * sz + 1, G(st, "who", AII)[p] == a, G(st, "calls", I) == 1))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "allocate (throwing): nothing is allocated", z3.And(st.g["live"] == st0.g["live"], G(st, "calls", I) == 0))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=post_exc, label="umpire::TypedAllocator::allocate (%d byte elements)" % sz)

    def v_deallocate(self):
        p, n, a = z3.Int("ptr"), z3.Int("count"), z3.Int("allocator")

        def setup(ex, st):
            self.base(ex, st)
            st.assume(n >= 0, n < MAX64, a > 0, a < MAX63, p >= 0, p < MAX64)
            return [P(addr=a), P(addr=p), n]
        good = lambda st: z3.And(G(st, "calls", I) == 1, G(st, "gone", I) == p, G(st, "goneto", I) == a)

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "deallocate: the pointer goes back once to this allocator", good(st))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "deallocate (throwing): only the allocator rejects a pointer", good(st))
        return verify(self.w, "vc::t_deallocate", setup, post, post_exc=post_exc, label="umpire::TypedAllocator::deallocate")

    def v_eq(self, fn):
        a, b = z3.Int("a"), z3.Int("b")

        def setup(ex, st):
            self.base(ex, st)
            st.assume(a > 0, a < MAX63, b > 0, b < MAX63)
            return [P(addr=a), P(addr=b)]

        def post(ex, st0, st, ret, args):
            r = ret if z3.is_bool(ret) else ret != 0
            same = self.idof(a) == self.idof(b)
            ex.oblige(st, "%s: two typed allocators are equal exactly when they use the same allocator" % fn, r == (same if fn == "t_eq" else z3.Not(same)))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws(fn), label="umpire::operator%s(TypedAllocator, TypedAllocator)" % ("==" if fn == "t_eq" else "!="))

    def v_copy(self, fn):
        a, b = z3.Int("out"), z3.Int("from")

        def setup(ex, st):
            self.base(ex, st)
            st.assume(a > 0, a < MAX63, b > 0, b < MAX63, z3.Or(a + 64 <= b, b + 64 <= a))
            return [P(addr=a), P(addr=b)]

        def post(ex, st0, st, ret, args):
            for n in ("m_allocator", "m_thread_safe", "m_tracking", "m_thread_safe_mutex"):
                g = getattr(self.f, n)
                ex.oblige(st, "%s: uses the allocator it was made from (%s)" % (fn, n), g(ex, st, a) == g(ex, st0, b))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws(fn), label="umpire::TypedAllocator::TypedAllocator (%s)" % fn)

    def all(self):
        r = []
        for fn in SIZE:
            r.append(named("allocate_" + fn, lambda fn=fn: self.v_allocate(fn)))
        r.append(named("deallocate", lambda: self.v_deallocate()))
        for fn in ("t_eq", "t_ne"):
            r.append(named(fn, lambda fn=fn: self.v_eq(fn)))
        for fn in ("t_ctor", "t_convert"):
            r.append(named(fn, lambda fn=fn: self.v_copy(fn)))
        return r
