"""Allocator front end: registration, statistics, zero-byte allocations, lock discipline; AllocationStrategy's internal accounting."""
from ..lib import *

AS = "umpire::strategy::AllocationStrategy"
ALC = "umpire::Allocator"
INS = "umpire::strategy::mixins::Inspector"
AN = "umpire::strategy::mixins::AllocateNull"
RM = "umpire::ResourceManager"
AR = "umpire::util::AllocationRecord"
TUS = [HERE + "/vc/tu/front.cpp", "umpire/Allocator.cpp", "umpire/strategy/AllocationStrategy.cpp", "umpire/strategy/mixins/Inspector.cpp", "umpire/strategy/mixins/AllocateNull.cpp", "umpire/strategy/NamedAllocationStrategy.cpp", "umpire/strategy/ThreadSafeAllocator.cpp"]
AAI = z3.ArraySort(I, AII)


class _I64:
    kind, w, size, name, elts = 'int', 64, 8, None, None


class _PTR:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


def rn(st):
    return G(st, "rn", AII)


def rsz(st):
    return G(st, "rsz", AAI)


def rst(st):
    return G(st, "rst", AAI)


def zb(st):
    return G(st, "zb", AIB)


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        self.s = Flds(w, AS, ["m_current_size", "m_high_watermark", "m_allocation_count"])
        self.a = Flds(w, ALC, ["m_allocator", "m_tracking", "m_thread_safe", "m_thread_safe_mutex"])
        self.this = z3.Int("this")
        self.o = {n: w.off(AR, n) for n in ("ptr", "size", "strategy")}
        self.install()

    def rec_load(self, ex, st, p, n):
        q = ex.padd(p, None, self.o[n]) if isinstance(p.obj, int) else P(addr=simp(p.addr + self.o[n]), s=self.w.struct(AR), so=self.o[n], sb=p.addr)
        return T(ex, ex.load(st, q, _I64))

    def rec_store(self, ex, st, p, n, v):
        q = ex.padd(p, None, self.o[n]) if isinstance(p.obj, int) else P(addr=simp(p.addr + self.o[n]), s=self.w.struct(AR), so=self.o[n], sb=p.addr)
        ex.store(st, q, v if n == "size" else P(addr=v), _I64 if n == "size" else _PTR)

    def push(self, ex, st, p, size, strat):
        d = rn(st)[p]
        st.assume(d >= 0)
        ex.gset(st, "rsz", z3.Store(rsz(st), p, z3.Store(rsz(st)[p], d, size)))
        ex.gset(st, "rst", z3.Store(rst(st), p, z3.Store(rst(st)[p], d, strat)))
        ex.gset(st, "rn", z3.Store(rn(st), p, d + 1))

    def install(self):
        w, C, sp = self.w, self.w.contracts, self
        rm = z3.Int("the_resource_manager")
        C[RM + "::getInstance"] = lambda ex, st, args, ins: (st.assume(rm > 0), [(st, 'ret', P(addr=rm))])[1]

        def reg(ex, st, args, ins):
            ex.used_contracts.add(RM + "::registerAllocation")
            p = T(ex, args[1])
            rp, size, strat = [sp.rec_load(ex, st, args[2], n) for n in ("ptr", "size", "strategy")]
            ex.oblige(st, "the record registered for an address holds that address", rp == p, "pre")
            s2 = st.copy()
            s2.assume(p == 0)
            outs = [(s2, 'exc', Exc())] if ex.feasible(s2) else []
            st.assume(p != 0)
            sp.push(ex, st, p, size, strat)
            return outs + [(st, 'ret', None)]

        def dereg(ex, st, args, ins):
            ex.used_contracts.add(RM + "::deregisterAllocation")
            out, p = args[0], T(ex, args[2])
            d = rn(st)[p]
            s2 = st.copy()
            s2.assume(d <= 0)
            outs = [(s2, 'exc', Exc())] if ex.feasible(s2) else []
            st.assume(d > 0)
            sz, stg = rsz(st)[p][d - 1], rst(st)[p][d - 1]
            st.assume(sz >= 0, sz < MAX64, stg >= 0, stg < MAX64)
            sp.rec_store(ex, st, out, "ptr", p)
            sp.rec_store(ex, st, out, "size", sz)
            sp.rec_store(ex, st, out, "strategy", stg)
            ex.gset(st, "rn", z3.Store(rn(st), p, d - 1))
            return outs + [(st, 'ret', None)]

        C[RM + "::registerAllocation"] = reg
        C[RM + "::deregisterAllocation"] = dereg

        def zpool(ex, st, args, ins):
            return [(st, 'ret', P(addr=z3.Int("zero_byte_pool")))]
        C[RM + "::getZeroByteAllocator"] = zpool

        def znull(ex, st, args, ins):
            ex.used_contracts.add(AN + "::allocateNull")
            p = fint("zptr")
            st.assume(p > 0, p < MAX64, z3.Not(zb(st)[p]), z3.Not(upb(st)[p]))
            x = z3.Int("zx")
            st.assume(z3.ForAll([x], z3.Implies(upb(st)[x], z3.Or(p < x, p >= x + ups(st)[x])), patterns=[upb(st)[x]]))
            ex.gset(st, "zb", z3.Store(zb(st), p, z3.BoolVal(True)))
            ex.gset(st, "nzb", G(st, "nzb", I) + 1)
            return [(st, 'ret', P(addr=p))]

        def zdealloc(ex, st, args, ins):
            ex.used_contracts.add(AN + "::deallocateNull")
            p = T(ex, args[1])
            s2 = st.copy()
            outs = []
            st.assume(zb(st)[p])
            if ex.feasible_q(st):
                ex.gset(st, "zb", z3.Store(zb(st), p, z3.BoolVal(False)))
                outs.append((st, 'ret', z3.BoolVal(True)))
            s2.assume(z3.Not(zb(s2)[p]))
            if ex.feasible_q(s2):
                outs.append((s2, 'ret', z3.BoolVal(False)))
            return outs
        self.znull, self.zdealloc = znull, zdealloc
        trust("zero-byte pool (interface contract)", "FixedPool over the null resource: allocate(1) returns an address not handed out before and in no other "
              "block; pointerIsFromPool is exact; FixedPool itself is decided by P04")

        up_alloc, up_dealloc = w.virt[AS + "::allocate"], w.virt[AS + "::deallocate"]

        def others_change(ex, st, s):
            """the callee may change the statistics of other strategies (its upstream), not those of s"""
            for n in ("m_current_size", "m_high_watermark", "m_allocation_count"):
                k, a0 = getattr(sp.s, "K_" + n), ex.arr(st, getattr(sp.s, "K_" + n))
                a1 = ex.havoc_key(st, k)
                st.assume(a1[s + getattr(sp.s, "A_" + n)] == a0[s + getattr(sp.s, "A_" + n)])

        def locked(ex, st):
            c = st.g.get("need_lock")
            if c is not None:
                ex.oblige(st, "a thread-safe allocator's strategy is entered only while its mutex is held", z3.Implies(c[0], G(st, "held", AII)[c[1]] == 1), "pre")

        def valloc(ex, st, args, ins):
            s = T(ex, args[0])
            locked(ex, st)
            b = args[-1]
            ex.gset(st, "vcalls", G(st, "vcalls", I) + 1)
            if "the_strategy" in st.g:
                ex.oblige(st, "the request goes to this allocator's strategy", s == st.g["the_strategy"], "pre")
            outs = up_alloc(ex, st, args, ins)
            for s2, kind, v in outs:
                if st.g.get("stat_frame"):
                    others_change(ex, s2, s)
                if kind == 'ret':
                    s2.assume(z3.Not(zb(s2)[T(ex, v)]))
            # a strategy may also answer with null (no memory): nothing is obtained
            s3 = [x for x in outs if x[1] == 'exc']
            if s3:
                sn = s3[0][0].copy()
                outs.append((sn, 'ret', P(addr=z3.IntVal(0))))
            return outs

        def vdealloc(ex, st, args, ins):
            locked(ex, st)
            s = T(ex, args[0])
            if "the_strategy" in st.g:
                ex.oblige(st, "the memory goes back to the strategy it came from", s == st.g["the_strategy"], "pre")
            ex.gset(st, "vcalls", G(st, "vcalls", I) + 1)
            outs = up_dealloc(ex, st, args, ins)
            for s2, kind, v in outs:
                if st.g.get("stat_frame"):
                    others_change(ex, s2, s)
            return outs
        self.vdealloc_untracked = vdealloc
        w.virt[AS + "::allocate"] = valloc
        w.virt[AS + "::allocate_named"] = valloc
        w.virt[AS + "::deallocate"] = vdealloc
        for n in ("allocate_internal", "allocate_named_internal", "deallocate_internal"):
            C.pop(AS + "::" + n, None)
        for n in ("getHighWatermark", "getCurrentSize", "getActualSize", "getAllocationCount", "getName", "getStrategyName", "release", "getParent"):
            w.virt[AS + "::" + n] = fresh_ret
        C.pop(AS + "::getName", None)
        C.pop(AS + "::getId", None)
        C[AS + "::getName"] = C[AS + "::getStrategyName"] = fresh_ret

    # ---- state
    def stat(self, ex, st, n, s):
        return getattr(self.s, n)(ex, st, s)

    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        upb(st), ups(st), rn(st), rsz(st), rst(st), zb(st), G(st, "nthrow", I), G(st, "nup", I), G(st, "vcalls", I), G(st, "nzb", I), G(st, "held", AII)
        x = z3.Int("bx")
        st.assume(z3.Not(upb(st)[0]), z3.Not(zb(st)[0]), rn(st)[0] == 0, *up_wf(st))
        st.assume(z3.ForAll([x], rn(st)[x] >= 0, patterns=[rn(st)[x]]))
        st.assume(z3.ForAll([x], z3.Implies(zb(st)[x], z3.Not(upb(st)[x])), patterns=[zb(st)[x], upb(st)[x]]))
        h = st.g["held"]
        st.assume(z3.ForAll([x], h[x] == 0, patterns=[h[x]]))

    def stats_room(self, ex, st, s, b):
        """the sums stay below 2^64 (they are sums of sizes of disjoint blocks)"""
        st.assume(self.stat(ex, st, "m_current_size", s) + b < MAX64, self.stat(ex, st, "m_allocation_count", s) + 1 < MAX64)

    def added(self, ex, st0, st, s, b):
        """statistics of s grow by one allocation of b bytes; those of every other strategy stay"""
        c, h, n = "m_current_size", "m_high_watermark", "m_allocation_count"
        f = lambda x, m: self.stat(ex, x, m, s)
        return [("current size grows by exactly the request", f(st, c) == f(st0, c) + b),
                ("allocation count grows by one", f(st, n) == f(st0, n) + 1),
                ("high watermark becomes the largest current size reached", f(st, h) == z3.If(f(st0, h) >= f(st, c), f(st0, h), f(st, c)))]

    def removed(self, ex, st0, st, s, b):
        c, h, n = "m_current_size", "m_high_watermark", "m_allocation_count"
        f = lambda x, m: self.stat(ex, x, m, s)
        return [("current size shrinks by exactly the allocation's size", f(st, c) == f(st0, c) - b),
                ("allocation count shrinks by one", f(st, n) == f(st0, n) - 1), ("high watermark is kept", f(st, h) == f(st0, h))]

    def others(self, ex, st0, st, s):
        x = z3.Int("otx")
        fs = []
        for n in ("m_current_size", "m_high_watermark", "m_allocation_count"):
            a0, a1 = ex.arr(st0, getattr(self.s, "K_" + n)), ex.arr(st, getattr(self.s, "K_" + n))
            if not a0.eq(a1):
                fs.append(z3.ForAll([x], z3.Implies(x != s + getattr(self.s, "A_" + n), a0[x] == a1[x]), patterns=[a1[x]]))
        return z3.And(fs) if fs else z3.BoolVal(True)

    def reg_same(self, st0, st, exc=None):
        """registry unchanged (except at address exc)"""
        x, d = z3.Ints("rgx rgd")
        n0, n1, z0, z1, t0, t1 = rn(st0), rn(st), rsz(st0), rsz(st), rst(st0), rst(st)
        c = z3.BoolVal(True) if exc is None else x != exc
        return z3.ForAll([x], z3.Implies(c, z3.And(n1[x] == n0[x], z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n0[x]), z3.And(z1[x][d] == z0[x][d], t1[x][d] == t0[x][d]))))))

    def reg_pushed(self, st0, st, p, b, s):
        d = z3.Int("rpd")
        n = rn(st0)[p]
        return z3.And(rn(st)[p] == n + 1, rsz(st)[p][n] == b, rst(st)[p][n] == s,
                      z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n), z3.And(rsz(st)[p][d] == rsz(st0)[p][d], rst(st)[p][d] == rst(st0)[p][d]))))

    def reg_popped(self, st0, st, p):
        d = z3.Int("rqd")
        n = rn(st0)[p]
        return z3.And(rn(st)[p] == n - 1,
                      z3.ForAll([d], z3.Implies(z3.And(d >= 0, d < n - 1), z3.And(rsz(st)[p][d] == rsz(st0)[p][d], rst(st)[p][d] == rst(st0)[p][d]))))

    # ---- AllocationStrategy
    def v_internal(self, name, named_):
        def setup(ex, st):
            self.base(ex, st)
            st.g["stat_frame"] = True
            b = z3.Int("bytes")
            st.assume(b >= 0, b < MAX64)
            self.stats_room(ex, st, self.this, b)
            return [P(addr=self.this)] + ([P(addr=z3.Int("name"))] if named_ else []) + [b]

        def post(ex, st0, st, ret, args):
            for lab, f in self.added(ex, st0, st, self.this, args[-1]):
                ex.oblige(st, "%s: %s" % (name, lab), f)
            r = T(ex, ret)
            ex.oblige(st, name + ": returns what the strategy returned", z3.Or(r == 0, z3.And(upb(st)[r], ups(st)[r] == args[-1], z3.Not(upb(st0)[r]))))
            ex.oblige(st, name + ": calls the strategy once", G(st, "vcalls", I) == G(st0, "vcalls", I) + 1)

        def post_exc(ex, st0, st, e, args):
            f = lambda x, m: self.stat(ex, x, m, self.this)
            ex.oblige(st, name + " (throwing): statistics unchanged", z3.And([f(st, m) == f(st0, m) for m in ("m_current_size", "m_high_watermark", "m_allocation_count")]))
            ex.oblige(st, name + " throws only if the strategy throws", G(st, "nthrow", I) > G(st0, "nthrow", I))
        return verify(self.w, AS + "::" + name, setup, post, post_exc=post_exc)

    def v_dealloc_internal(self):
        def setup(ex, st):
            self.base(ex, st)
            st.g["stat_frame"] = True
            p, n = z3.Int("ptr"), z3.Int("size")
            st.assume(p > 0, p < MAX64, n >= 0, n < MAX64, upb(st)[p], ups(st)[p] == n)
            st.assume(self.stat(ex, st, "m_current_size", self.this) >= n, self.stat(ex, st, "m_allocation_count", self.this) >= 1)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            for lab, f in self.removed(ex, st0, st, self.this, args[2]):
                ex.oblige(st, "deallocate_internal: " + lab, f)
            ex.oblige(st, "deallocate_internal: the block goes back to the strategy", z3.Not(upb(st)[args[1].addr]))
        return verify(self.w, AS + "::deallocate_internal", setup, post, post_exc=never_throws("deallocate_internal"))

    def v_getter(self, name, field):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "%s reports the %s" % (name, field), ret == self.stat(ex, st0, field, self.this))
        self.w.virt.pop(AS + "::" + name, None)
        self.w.virt.pop(AS + "::getCurrentSize", None)
        return verify(self.w, AS + "::" + name, setup, post)

    def v_getter_actual(self):
        self.w.virt[AS + "::getCurrentSize"] = lambda ex, st, args, ins: [(st, 'ret', self.stat(ex, st, "m_current_size", T(ex, args[0])))]

        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "getActualSize of a strategy that keeps no memory of its own is its current size", ret == self.stat(ex, st0, "m_current_size", self.this))
        return verify(self.w, AS + "::getActualSize", setup, post)

    # ---- Inspector
    def v_register(self, with_name):
        s = z3.Int("strategy")

        def setup(ex, st):
            self.base(ex, st)
            p, b = z3.Int("ptr"), z3.Int("size")
            st.assume(p >= 0, p < MAX64, b >= 0, b < MAX64, s > 0, s < MAX64 - 4096)
            self.stats_room(ex, st, s, b)
            return [P(addr=self.this), P(addr=p), b, P(addr=s)] + ([P(addr=z3.Int("name"))] if with_name else [])

        def post(ex, st0, st, ret, args):
            p, b = args[1].addr, args[2]
            for lab, f in self.added(ex, st0, st, s, b):
                ex.oblige(st, "registerAllocation: " + lab, f)
            ex.oblige(st, "registerAllocation: statistics of other strategies are kept", self.others(ex, st0, st, s))
            ex.oblige(st, "registerAllocation: exactly the record (pointer, size, strategy) is added", z3.And(self.reg_pushed(st0, st, p, b, s), self.reg_same(st0, st, p)))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "registerAllocation (throwing): nothing changes", z3.And(self.others(ex, st0, st, z3.IntVal(-10 ** 6)), self.reg_same(st0, st)))
            ex.oblige(st, "registerAllocation throws only for a null pointer", args[1].addr == 0)
        fs = [f for f in self.w.fns(INS + "::registerAllocation") if len(self.params(f)) == (5 if with_name else 4)]
        if not fs:
            raise ExtractError("function not found: registerAllocation")
        return verify(self.w, INS + "::registerAllocation", setup, post, post_exc=post_exc, fn=fs[0], label=INS + "::registerAllocation" + (" (named)" if with_name else ""))

    def params(self, f):
        return range(ir.NumParams(f.raw))

    def v_deregister(self):
        s = z3.Int("strategy")

        def setup(ex, st):
            self.base(ex, st)
            p, out = z3.Int("ptr"), z3.Int("out")
            st.assume(p > 0, p < MAX64, s > 0, s < MAX64 - 4096, out > 0, out < MAX64 - 4096)
            d = rn(st)[p]
            st.assume(z3.Implies(z3.And(d > 0, rst(st)[p][d - 1] == s), z3.And(self.stat(ex, st, "m_current_size", s) >= rsz(st)[p][d - 1], self.stat(ex, st, "m_allocation_count", s) >= 1)))
            return [P(addr=out), P(addr=self.this), P(addr=p), P(addr=s)]

        def post(ex, st0, st, ret, args):
            p = args[2].addr
            d = rn(st0)[p]
            b = rsz(st0)[p][d - 1]
            ex.oblige(st, "deregisterAllocation: returns only for a pointer whose newest record belongs to the strategy", z3.And(d > 0, rst(st0)[p][d - 1] == s))
            for lab, f in self.removed(ex, st0, st, s, b):
                ex.oblige(st, "deregisterAllocation: " + lab, f)
            ex.oblige(st, "deregisterAllocation: statistics of other strategies are kept", self.others(ex, st0, st, s))
            ex.oblige(st, "deregisterAllocation: exactly the newest record is removed", z3.And(self.reg_popped(st0, st, p), self.reg_same(st0, st, p)))
            ex.oblige(st, "deregisterAllocation: returns the removed record", z3.And(self.rec_load(ex, st, args[0], "ptr") == p, self.rec_load(ex, st, args[0], "size") == b,
                      self.rec_load(ex, st, args[0], "strategy") == s))

        def post_exc(ex, st0, st, e, args):
            p = args[2].addr
            d = rn(st0)[p]
            ex.oblige(st, "deregisterAllocation throws only for an unknown pointer or one of another strategy", z3.Or(d <= 0, rst(st0)[p][d - 1] != s))
            ex.oblige(st, "deregisterAllocation (throwing): records and statistics are as before", z3.And(self.others(ex, st0, st, z3.IntVal(-10 ** 6)), self.reg_same(st0, st)))
        return verify(self.w, INS + "::deregisterAllocation", setup, post, post_exc=post_exc)

    # ---- Allocator
    def alloc_state(self, ex, st):
        self.base(ex, st)
        self.w.contracts[AN + "::allocateNull"] = self.znull
        self.w.contracts[AN + "::deallocateNull"] = self.zdealloc
        t = self.this
        s = simp(self.a.m_allocator(ex, st, t))
        mx = simp(self.a.m_thread_safe_mutex(ex, st, t))
        ex.keyw[self.a.K_m_thread_safe] = ex.keyw[self.a.K_m_tracking] = 8
        ts, tr = self.a.m_thread_safe(ex, st, t), self.a.m_tracking(ex, st, t)
        st.assume(s > 0, s < MAX64 - 4096, z3.Or(ts == 0, ts == 1), z3.Or(tr == 0, tr == 1), z3.Implies(ts == 1, mx > 0))
        st.g["the_strategy"] = s
        st.g["stat_frame"] = True
        # front-end invariant: the records of this strategy are its outstanding allocations
        for _, f in self.inv(ex, st):
            st.assume(f)
        return s, ts, tr, mx

    def inv(self, ex, st):
        p, d, e = z3.Ints("ip id ie")
        s = st.g["the_strategy"]
        n, z, t = rn(st), rsz(st), rst(st)
        mine = lambda d: z3.And(d >= 0, d < n[p], t[p][d] == s)
        return [("a record of this strategy is an outstanding allocation of its size, or a zero-byte allocation",
                 z3.ForAll([p, d], z3.Implies(mine(d), z3.If(z[p][d] == 0, z3.And(zb(st)[p], z3.Not(upb(st)[p])), z3.And(z[p][d] > 0, upb(st)[p], ups(st)[p] == z[p][d], z3.Not(zb(st)[p])))), patterns=[t[p][d]])),
                ("an address carries at most one record of this strategy",
                 z3.ForAll([p, d, e], z3.Implies(z3.And(mine(d), mine(e)), d == e), patterns=[z3.MultiPattern(t[p][d], t[p][e])]))]

    def v_alloc(self, name, with_name, top):
        """top: the public entry (takes the lock when the strategy is thread safe); else do_*"""
        def setup(ex, st):
            s, ts, tr, mx = self.alloc_state(ex, st)
            b = z3.Int("bytes")
            st.assume(b >= 0, b < MAX64)
            self.stats_room(ex, st, s, b)
            if top:
                st.g["need_lock"] = (ts == 1, mx)
            return [P(addr=self.this)] + ([P(addr=z3.Int("name"))] if with_name else []) + [b]

        def post(ex, st0, st, ret, args):
            r, b = T(ex, ret), args[-1]
            s, tr = st0.g["the_strategy"], self.a.m_tracking(ex, st0, self.this)
            ex.oblige(st, name + ": the strategy is asked exactly once for a non-zero request and never for zero bytes",
                      G(st, "vcalls", I) - G(st0, "vcalls", I) == z3.If(b == 0, 0, 1))
            ex.oblige(st, name + ": a non-zero request yields new memory of exactly that size from the strategy (or null when the strategy has none and does not track)",
                      z3.Implies(b > 0, z3.Or(z3.And(r == 0, tr == 0), z3.And(upb(st)[r], ups(st)[r] == b, z3.Not(upb(st0)[r])))))
            ex.oblige(st, name + ": zero bytes yield a new unique non-null pointer", z3.Implies(b == 0, z3.And(r != 0, zb(st)[r], z3.Not(zb(st0)[r]), z3.Not(upb(st)[r]))))
            ex.oblige(st, name + ": a tracked result is registered with its size and strategy, and nothing else is",
                      z3.If(tr == 1, z3.And(self.reg_pushed(st0, st, r, b, s), self.reg_same(st0, st, r)), self.reg_same(st0, st)))
            c, h, n = "m_current_size", "m_high_watermark", "m_allocation_count"
            for lab, f in self.added(ex, st0, st, s, b):
                ex.oblige(st, "%s: tracked: %s" % (name, lab), z3.Implies(tr == 1, f))
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "%s: %s" % (name, lab), f)
            self.unlocked(ex, st, name)

        def post_exc(ex, st0, st, e, args):
            s = st0.g["the_strategy"]
            f = lambda x, m: self.stat(ex, x, m, s)
            ex.oblige(st, name + " (throwing): no record and no statistics change", z3.And([self.reg_same(st0, st)] + [f(st, m) == f(st0, m) for m in ("m_current_size", "m_high_watermark", "m_allocation_count")]))
            ex.oblige(st, name + " (throwing): no memory stays allocated", z3.And(upb(st) == upb(st0), zb(st) == zb(st0)))
            self.unlocked(ex, st, name + " (throwing)")
        return verify(self.w, ALC + "::" + name, setup, post, post_exc=post_exc, fn=self.pick(name, 3 if with_name else 2), label=ALC + "::" + name + (" (named)" if with_name and top else ""))

    def pick(self, name, n):
        fs = [f for f in self.w.fns(ALC + "::" + name) if ir.NumParams(f.raw) == n]
        if not fs:
            raise ExtractError("function not found: %s::%s" % (ALC, name))
        return fs[0]

    def unlocked(self, ex, st, name):
        x = z3.Int("ulx")
        h = G(st, "held", AII)
        ex.oblige(st, name + ": every lock taken is released", z3.ForAll([x], h[x] == 0))

    def v_dealloc(self, name, top, tracked):
        def setup(ex, st):
            s, ts, tr, mx = self.alloc_state(ex, st)
            p = z3.Int("ptr")
            st.assume(p >= 0, p < MAX64, tr == (1 if tracked else 0))
            if top:
                st.g["need_lock"] = (ts == 1, mx)
            if tracked:
                d = rn(st)[p]
                st.assume(z3.Implies(z3.And(d > 0, rst(st)[p][d - 1] == s), z3.And(self.stat(ex, st, "m_current_size", s) >= rsz(st)[p][d - 1], self.stat(ex, st, "m_allocation_count", s) >= 1)))
            else:
                # an untracked strategy is told no size
                st.assume(z3.Or(p == 0, zb(st)[p], upb(st)[p]))
                self.check_size(False)
            return [P(addr=self.this), P(addr=p)]

        def post(ex, st0, st, ret, args):
            p, s = args[1].addr, st0.g["the_strategy"]
            x = z3.Int("ddx")
            d = rn(st0)[p]
            ex.oblige(st, name + ": a null pointer is ignored", z3.Implies(p == 0, z3.And(upb(st) == upb(st0), zb(st) == zb(st0), self.reg_same(st0, st), G(st, "vcalls", I) == G(st0, "vcalls", I))))
            ex.oblige(st, name + ": the memory is given back exactly once, to the zero-byte pool or to the strategy",
                      z3.Implies(p != 0, z3.And(z3.If(zb(st0)[p], z3.And(z3.Not(zb(st)[p]), G(st, "vcalls", I) == G(st0, "vcalls", I)),
                                                      z3.And(upb(st0)[p], z3.Not(upb(st)[p]), G(st, "vcalls", I) == G(st0, "vcalls", I) + 1)))))
            ex.oblige(st, name + ": no other memory is given back", z3.ForAll([x], z3.Implies(x != p, z3.And(upb(st)[x] == upb(st0)[x], zb(st)[x] == zb(st0)[x]))))
            if tracked:
                ex.oblige(st, name + ": succeeds only for an allocation of this allocator", z3.Implies(p != 0, z3.And(d > 0, rst(st0)[p][d - 1] == s)))
                for lab, f in self.removed(ex, st0, st, s, rsz(st0)[p][d - 1]):
                    ex.oblige(st, name + ": " + lab, z3.Implies(p != 0, f))
                ex.oblige(st, name + ": exactly the allocation's record is removed", z3.Implies(p != 0, z3.And(self.reg_popped(st0, st, p), self.reg_same(st0, st, p))))
                for lab, f in self.inv(ex, st):
                    ex.oblige(st, "%s: %s" % (name, lab), f)
            else:
                ex.oblige(st, name + ": an untracked allocator changes no record", self.reg_same(st0, st))
            self.unlocked(ex, st, name)

        def post_exc(ex, st0, st, e, args):
            p, s = args[1].addr, st0.g["the_strategy"]
            d = rn(st0)[p]
            if not tracked:
                ex.oblige(st, name + ": does not throw for an untracked allocator", z3.BoolVal(False))
                return
            f = lambda x, m: self.stat(ex, x, m, s)
            ex.oblige(st, name + " throws only for a pointer that is not an allocation of this allocator", z3.And(p != 0, z3.Or(d <= 0, rst(st0)[p][d - 1] != s)))
            ex.oblige(st, name + " (throwing): nothing is given back, no record or statistic changes", z3.And([self.reg_same(st0, st), upb(st) == upb(st0), zb(st) == zb(st0)] +
                      [f(st, m) == f(st0, m) for m in ("m_current_size", "m_high_watermark", "m_allocation_count")]))
            self.unlocked(ex, st, name + " (throwing)")
        try:
            return verify(self.w, ALC + "::" + name, setup, post, post_exc=post_exc, label=ALC + "::" + name + ("" if tracked else " (untracked)"))
        finally:
            self.check_size(True)

    def check_size(self, on):
        w = self.w
        save = w.virt[AS + "::allocate"], w.virt[AS + "::deallocate"], dict(w.contracts), dict(w.virt)
        if on:
            w.virt[AS + "::deallocate"] = self.vdealloc_untracked
            return
        vd = self.vdealloc_untracked

        def h(ex, st, args, ins):
            # size argument of an untracked deallocation is 0 by design: accepted
            p = T(ex, args[1])
            return vd(ex, st, [args[0], args[1], ups(st)[p]], ins)
        w.virt[AS + "::deallocate"] = h

    # ---- Allocator constructor and delegating queries
    def v_ctor(self):
        w = self.w
        TSA = "umpire::strategy::ThreadSafeAllocator"
        is_ts = z3.Function("is_thread_safe_strategy", I, z3.BoolSort())
        off = w.off(TSA, "m_mutex")

        def dyn(ex, st, args, ins):
            dst = args[2]
            if not (isinstance(dst, P) and isinstance(dst.obj, str) and dst.obj.strip("@").endswith("ThreadSafeAllocatorE")):
                raise Unsupported("dynamic_cast to %s" % (dst,))
            p = T(ex, args[0])
            return [(st, 'ret', P(addr=z3.If(z3.And(p != 0, is_ts(p)), p, z3.IntVal(0))))]
        w.contracts["__dynamic_cast"] = dyn
        trk = Flds(w, AS, ["m_tracked"])
        w.virt.pop(AS + "::isTracked", None)
        w.contracts.pop(AS + "::isTracked", None)
        w.contracts.pop(TSA + "::get_mutex", None)

        def setup(ex, st):
            self.base(ex, st)
            s = z3.Int("strategy")
            st.assume(s > 0, s < MAX64 - 100000, z3.Or(s >= self.this + 4096, s + 8192 <= self.this))
            ex.keyw[self.a.K_m_thread_safe] = ex.keyw[self.a.K_m_tracking] = ex.keyw[trk.K_m_tracked] = 8
            t = trk.m_tracked(ex, st, s)
            st.assume(z3.Or(t == 0, t == 1))
            return [P(addr=self.this), P(addr=s)]

        def post(ex, st0, st, ret, args):
            s, t = args[1].addr, self.this
            ex.oblige(st, "constructor: the allocator uses the given strategy", self.a.m_allocator(ex, st, t) == s)
            ex.oblige(st, "constructor: tracking follows the strategy", self.a.m_tracking(ex, st, t) == trk.m_tracked(ex, st0, s))
            ex.oblige(st, "constructor: operations take the mutex exactly when the strategy is thread safe, and it is that strategy's mutex",
                      z3.And((self.a.m_thread_safe(ex, st, t) == 1) == is_ts(s), z3.Implies(is_ts(s), self.a.m_thread_safe_mutex(ex, st, t) == s + off)))
        f = [x for x in w.fns(ALC + "::Allocator") if ir.NumParams(x.raw) == 2]
        f = [x for x in f if "C2E" in x.name and "AllocationStrategy" in x.name] or f
        return verify(w, ALC + "::Allocator", setup, post, post_exc=never_throws("constructor"), fn=f[0])

    def v_query(self, name, ptr=False):
        w = self.w
        uf = z3.Function("reported_" + name, I, I)

        def h(ex, st, args, ins):
            ex.oblige(st, "%s asks this allocator's strategy" % name, T(ex, args[0]) == st.g["the_strategy"], "pre")
            v = uf(T(ex, args[0]))
            st.assume(v >= 0, v < (MAX64 if ins.ty.kind == 'ptr' else 2 ** ins.ty.w))
            return [(st, 'ret', P(addr=v) if ins.ty.kind == 'ptr' else v)]
        w.virt[AS + "::" + name] = h
        w.contracts[AS + "::" + name] = h

        def setup(ex, st):
            self.alloc_state(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "Allocator::%s reports its strategy's value" % name, T(ex, ret) == uf(st0.g["the_strategy"]))
        return verify(w, ALC + "::" + name, setup, post, post_exc=never_throws(name))

    def v_release(self):
        w = self.w

        def h(ex, st, args, ins):
            ex.oblige(st, "release reaches this allocator's strategy", T(ex, args[0]) == st.g["the_strategy"], "pre")
            ex.gset(st, "vcalls", G(st, "vcalls", I) + 1)
            return [(st, 'ret', None)]
        w.virt[AS + "::release"] = h

        def setup(ex, st):
            self.alloc_state(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "release is passed on exactly once", G(st, "vcalls", I) == G(st0, "vcalls", I) + 1)
        return verify(w, ALC + "::release", setup, post, post_exc=never_throws("release"))

    # ---- AllocateNull
    def v_null(self):
        w = self.w
        for n in ("allocateNull", "deallocateNull"):
            w.contracts.pop(AN + "::" + n, None)
        zp = z3.Int("zero_byte_pool")
        fld = Flds(w, AN, ["m_zero_byte_pool"])

        def fp_alloc(ex, st, args, ins):
            ex.oblige(st, "the zero-byte pool is asked for one byte", z3.And(T(ex, args[0]) == zp, args[1] == 1), "pre")
            return self.znull(ex, st, args, ins)
        w.contracts["umpire::strategy::FixedPool::allocate"] = fp_alloc
        w.virt["umpire::strategy::FixedPool::allocate"] = fp_alloc

        def setup(ex, st):
            self.base(ex, st)
            z = fld.m_zero_byte_pool(ex, st, self.this)
            st.assume(zp > 0, z3.Or(z == 0, z == zp))
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            r = T(ex, ret)
            ex.oblige(st, "allocateNull: a new unique non-null pointer from the zero-byte pool", z3.And(r != 0, zb(st)[r], z3.Not(zb(st0)[r]), z3.Not(upb(st)[r])))
            ex.oblige(st, "allocateNull: one zero-byte object is taken", G(st, "nzb", I) == G(st0, "nzb", I) + 1)
        return verify(w, AN + "::allocateNull", setup, post)

    def v_dnull(self):
        w = self.w
        for n in ("allocateNull", "deallocateNull"):
            w.contracts.pop(AN + "::" + n, None)
        zp = z3.Int("zero_byte_pool")
        fld = Flds(w, AN, ["m_zero_byte_pool"])

        def is_from(ex, st, args, ins):
            ex.oblige(st, "the zero-byte pool is asked", T(ex, args[0]) == zp, "pre")
            return [(st, 'ret', zb(st)[T(ex, args[1])])]

        def fp_dealloc(ex, st, args, ins):
            p = T(ex, args[1])
            ex.oblige(st, "only a pointer of the zero-byte pool is given back to it", z3.And(T(ex, args[0]) == zp, zb(st)[p]), "pre")
            ex.gset(st, "zb", z3.Store(zb(st), p, z3.BoolVal(False)))
            return [(st, 'ret', None)]
        w.contracts["umpire::strategy::FixedPool::pointerIsFromPool"] = is_from
        w.virt["umpire::strategy::FixedPool::pointerIsFromPool"] = is_from
        w.contracts["umpire::strategy::FixedPool::deallocate"] = fp_dealloc
        w.virt["umpire::strategy::FixedPool::deallocate"] = fp_dealloc

        def setup(ex, st):
            self.base(ex, st)
            z = fld.m_zero_byte_pool(ex, st, self.this)
            p = z3.Int("ptr")
            st.assume(zp > 0, z3.Or(z == 0, z == zp), p > 0, p < MAX64)
            return [P(addr=self.this), P(addr=p)]

        def post(ex, st0, st, ret, args):
            p, x = args[1].addr, z3.Int("dnx")
            ex.oblige(st, "deallocateNull: reports whether the pointer is a zero-byte allocation", ret == zb(st0)[p])
            ex.oblige(st, "deallocateNull: gives back exactly that one", z3.And(z3.Not(zb(st)[p]), z3.ForAll([x], z3.Implies(x != p, zb(st)[x] == zb(st0)[x])), upb(st) == upb(st0)))
        return verify(w, AN + "::deallocateNull", setup, post, post_exc=never_throws("deallocateNull"))

    def all(self):
        r = [named("stats_" + n, lambda n=n, k=k: self.v_internal(n, k)) for n, k in (("allocate_internal", False), ("allocate_named_internal", True))]
        r += [named("stats_dealloc_internal", lambda: self.v_dealloc_internal())]
        r += [named("stats_getter", lambda n=n, f=f: self.v_getter(n, f)) for n, f in (("getCurrentSize", "m_current_size"), ("getHighWatermark", "m_high_watermark"), ("getAllocationCount", "m_allocation_count"))]
        r += [named("stats_getter_actual", lambda: self.v_getter_actual())]
        r += [named("stats_register", lambda k=k: self.v_register(k)) for k in (False, True)]
        r += [named("stats_deregister", lambda: self.v_deregister())]
        r += [named("front_" + n, lambda n=n, k=k, t=t: self.v_alloc(n, k, t)) for n, k, t in
              (("do_allocate", False, False), ("do_named_allocate", True, False), ("allocate", False, True), ("allocate", True, True))]
        r += [named("front_" + n, lambda n=n, t=t, k=k: self.v_dealloc(n, t, k)) for n, t in (("do_deallocate", False), ("deallocate", True)) for k in (True, False)]
        r += [named("front_null", lambda: self.v_null()), named("front_dnull", lambda: self.v_dnull())]
        r += [named("front_ctor_alloc", lambda: self.v_ctor()), named("front_release", lambda: self.v_release())]
        r += [named("front_query", lambda n=n: self.v_query(n)) for n in ("getCurrentSize", "getHighWatermark", "getActualSize", "getAllocationCount", "getId", "getParent")]
        return r
