"""Coalescing heuristics: what each one suggests for a pool, called through the std::function it is returned in; explicit coalesce requests."""
from ..lib import *

QP, DP = "umpire::strategy::QuickPool", "umpire::strategy::DynamicPoolList"
TUS = [HERE + "/vc/tu/heur.cpp", "umpire/strategy/QuickPool.cpp", "umpire/strategy/DynamicPoolList.cpp", "umpire/Umpire.cpp"]


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        for n in ("operator_call", "function"):
            del w.contracts["std::function::" + n]
        w.contracts["std::_Function_base::~_Function_base"] = fresh_ret
        self.act, self.rel, self.blk, self.hwm, self.cur = z3.Ints("actual_size releasable_size releasable_blocks aligned_hwm current_size")
        for c in (QP, DP):
            for n, v in (("getActualSize", self.act), ("getReleasableSize", self.rel), ("getReleasableBlocks", self.blk), ("getAlignedHighwaterMark", self.hwm)):
                w.contracts[c + "::" + n] = w.virt[c + "::" + n] = lambda ex, st, args, ins, v=v: [(st, 'ret', v)]
        cs = lambda ex, st, args, ins: [(st, 'ret', self.cur)]
        w.contracts["umpire::strategy::AllocationStrategy::getCurrentSize"] = w.virt["umpire::strategy::AllocationStrategy::getCurrentSize"] = cs

    def setup_pool(self, st):
        p = z3.Int("pool")
        st.assume(p > 0, p < MAX63)
        for v in (self.act, self.rel, self.blk, self.hwm, self.cur):
            st.assume(v >= 0, v < 2 ** 63)
        st.assume(self.rel <= self.act)
        return P(addr=p)

    def v_blocks(self, fn, want):
        def setup(ex, st):
            n = z3.Int("nblocks")
            st.assume(n >= 0, n < MAX64)
            return [n, self.setup_pool(st)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "suggests %s exactly when at least that many blocks are releasable" % ("the high watermark" if want is self.hwm else "the actual size"), ret == z3.If(self.blk >= args[0], want, 0))
        return verify(self.w, "vc::" + fn, setup, post, post_exc=never_throws(fn), label={"q": QP, "d": DP}[fn[0]] + "::blocks_releasable" + ("_hwm" if want is self.hwm else ""))

    def v_percent(self, fn, want):
        def setup(ex, st):
            p = z3.Int("percentage")
            st.assume(p >= 0, p < 2 ** 32)
            return [p, self.setup_pool(st)]

        def post(ex, st0, st, ret, args):
            p = args[0]
            word = "the high watermark" if want is self.hwm else "the actual size"
            ex.oblige(st, "percentage 0 never suggests coalescing", z3.Implies(p == 0, ret == 0))
            ex.oblige(st, "percentage 100 suggests %s exactly when everything is releasable" % word, z3.Implies(p == 100, ret == z3.If(self.act == self.rel, want, 0)))
            ex.oblige(st, "suggests nothing or %s" % word, z3.Or(ret == 0, ret == want))
            ex.oblige(st, "a percentage between suggests %s when at least that part is releasable" % word, z3.Implies(z3.And(p > 0, p < 100, self.rel * 100 >= p * self.act), ret == want))
            ex.oblige(st, "a percentage between suggests nothing when less than that part is releasable", z3.Implies(z3.And(p > 0, p < 100, (self.rel + 1) * 100 <= p * self.act), ret == 0))
            ex.oblige(st, "the percentage lies between 0 and 100", z3.And(p >= 0, p <= 100))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "only a percentage outside 0 to 100 is rejected", args[0] > 100)
        return verify(self.w, "vc::" + fn, setup, post, post_exc=post_exc, label={"q": QP, "d": DP}[fn[0]] + "::percent_releasable" + ("_hwm" if want is self.hwm else ""))

    # ---- explicit requests
    def v_request(self, cls, worker):
        """coalesce() of a pool asks the heuristic and coalesces to the size it suggests, if any"""
        C, sug = self.w.contracts, z3.Int("suggested")
        this = z3.Int("this")

        def ask(ex, st, args, ins):
            ex.oblige(st, "coalesce: the heuristic is asked about this pool", T(ex, args[1]) == this, "pre")
            ex.gset(st, "asked", G(st, "asked", I) + 1)
            return [(st, 'ret', sug)]

        def work(ex, st, args, ins):
            ex.oblige(st, "coalesce: coalesces to the size suggested", args[1] == sug, "pre")
            ex.gset(st, "worked", G(st, "worked", I) + 1)
            return [(st, 'ret', None)]

        def setup(ex, st):
            st.assume(this > 0, this < MAX63, sug >= 0, sug < MAX64)
            ex.gset(st, "asked", z3.IntVal(0))
            ex.gset(st, "worked", z3.IntVal(0))
            return [P(addr=this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "coalesce: coalesces exactly when the heuristic suggests a size", z3.And(G(st, "asked", I) > 0, G(st, "worked", I) == z3.If(sug != 0, 1, 0)))
        C["std::function::operator_call"], C[worker] = ask, work
        try:
            return verify(self.w, cls + "::coalesce", setup, post, post_exc=never_throws("coalesce"))
        finally:
            del C["std::function::operator_call"], C[worker]

    def v_free(self, fn):
        C, kind = self.w.contracts, ufun("strategy_kind", I, I)
        strat = z3.Int("strategy")

        def cast(ex, st, args, ins):
            to = args[2].obj if isinstance(args[2], P) else ""
            v = T(ex, args[0])
            k = 1 if "QuickPool" in str(to) else 2 if "DynamicPoolList" in str(to) else 3
            return [(st, 'ret', P(addr=simp(z3.If(kind(v) == k, v, 0))))]

        def work(k):
            def h(ex, st, args, ins):
                ex.oblige(st, fn + ": the pool coalesced is the allocator's own", z3.And(T(ex, args[0]) == strat, kind(strat) == k), "pre")
                ex.gset(st, "worked", G(st, "worked", I) + 1)
                return [(st, 'ret', None)]
            return h

        def setup(ex, st):
            st.assume(strat > 0, strat < MAX63, kind(strat) >= 0, kind(strat) <= 3)
            ex.gset(st, "worked", z3.IntVal(0))
            a = z3.Int("allocator")
            st.assume(a > 0, a < MAX63)
            return [P(addr=a)]

        def post(ex, st0, st, ret, args):
            pool = z3.Or(kind(strat) == 1, kind(strat) == 2)
            ex.oblige(st, fn + ": coalesces the pool exactly once if it is one", G(st, "worked", I) == z3.If(pool, 1, 0))
            if fn == "try_coalesce":
                ex.oblige(st, fn + ": reports whether the allocator is a pool that coalesces", (ret if z3.is_bool(ret) else ret != 0) == pool)
            else:
                ex.oblige(st, fn + ": returns only for a pool that coalesces", pool)

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, fn + ": throws only for an allocator that is no such pool", z3.And(z3.BoolVal(fn == "coalesce"), z3.Not(z3.Or(kind(strat) == 1, kind(strat) == 2)), G(st, "worked", I) == 0))
        save = {k: C.get(k) for k in ("__dynamic_cast", QP + "::coalesce", DP + "::coalesce", "umpire::Allocator::getAllocationStrategy")}
        C["__dynamic_cast"] = cast
        C[QP + "::coalesce"], C[DP + "::coalesce"] = work(1), work(2)
        C["umpire::Allocator::getAllocationStrategy"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=strat))]
        C["umpire::Allocator::Allocator"] = fresh_ret
        C["umpire::Allocator::~Allocator"] = fresh_ret
        C["umpire::Allocator::getName"] = fresh_ret
        try:
            return verify(self.w, "umpire::" + fn, setup, post, post_exc=post_exc)
        finally:
            for k, v in save.items():
                if v is None:
                    C.pop(k, None)
                else:
                    C[k] = v

    def all(self):
        out = []
        for c in "qd":
            for h, v in (("", self.act), ("_hwm", self.hwm)):
                out.append(named(c + "_blocks" + h, lambda c=c, h=h, v=v: self.v_blocks(c + "_blocks" + h, v)))
                out.append(named(c + "_percent" + h, lambda c=c, h=h, v=v: self.v_percent(c + "_percent" + h, v)))
        out.append(named("q_request", lambda: self.v_request(QP, QP + "::do_coalesce")))
        out.append(named("d_request", lambda: self.v_request(DP, "DynamicSizePool::coalesce")))
        out.append(named("try_coalesce", lambda: self.v_free("try_coalesce")))
        out.append(named("coalesce", lambda: self.v_free("coalesce")))
        return out
