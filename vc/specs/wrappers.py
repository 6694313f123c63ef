"""Thin strategies over one upstream strategy: SizeLimiter, MonotonicAllocationStrategy, NamedAllocationStrategy, NamingShim,
ThreadSafeAllocator. The allocations a wrapper hands out are exactly the blocks it holds from upstream (ghost up/upsz)."""
from ..lib import *

N = "umpire::strategy::"
TUS = ["umpire/strategy/%s.cpp" % n for n in ("SizeLimiter", "MonotonicAllocationStrategy", "NamedAllocationStrategy", "NamingShim", "ThreadSafeAllocator")]


def unchanged_up(st0, st):
    return z3.And(upb(st) == upb(st0), z3.BoolVal(True) if ups(st).eq(ups(st0)) else ups(st) == ups(st0))


def only_new(st0, st, p, b):
    """exactly one more block is held: p with b bytes, disjoint from all others"""
    x = z3.Int("onx")
    u0, u1, s0, s1 = upb(st0), upb(st), ups(st0), ups(st)
    return z3.And(p > 0, u1[p], z3.Not(u0[p]), s1[p] == b, z3.ForAll([x], z3.Implies(x != p, z3.And(u1[x] == u0[x], s1[x] == s0[x])), patterns=[u1[x]]),
                  z3.ForAll([x], z3.Implies(u0[x], disjoint(p, b, x, s0[x])), patterns=[u0[x]]))


def only_gone(st0, st, p):
    x = z3.Int("ogx")
    u0, u1, s0, s1 = upb(st0), upb(st), ups(st0), ups(st)
    return z3.And(u0[p], z3.Not(u1[p]), z3.ForAll([x], z3.Implies(x != p, z3.And(u1[x] == u0[x], s1[x] == s0[x])), patterns=[u1[x]]))


def install_allocator(w):
    f = ufun("strategy_of", I, I)
    w.contracts["umpire::Allocator::getAllocationStrategy"] = lambda ex, st, args, ins: (st.assume(f(T(ex, args[0])) > 0, f(T(ex, args[0])) < MAX64), [(st, 'ret', P(addr=f(T(ex, args[0]))))])[1]
    w.contracts["umpire::Allocator::Allocator"] = fresh_ret
    w.contracts["umpire::Allocator::~Allocator"] = fresh_ret


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_allocator(w)
        self.this = z3.Int("this")
        self.lim = Flds(w, N + "SizeLimiter", ["m_size_limit", "m_total_size", "m_allocator"])
        self.mono = Flds(w, N + "MonotonicAllocationStrategy", ["m_block", "m_size", "m_capacity", "m_allocator"])
        self.S = Sum("outstanding", lambda ex, st, o: z3.If(upb(st)[o], ups(st)[o], 0), [], ["up", "upsz"])

    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        upb(st), ups(st), G(st, "nthrow", I)
        st.assume(z3.Not(upb(st)[0]), *up_wf(st))

    # ---- SizeLimiter
    def lim_inv(self, ex, st):
        if "sumref_outstanding" not in st.g:
            self.S.reset(ex, st)
        v, ok = self.S.value(ex, st)
        t, l = self.lim.m_total_size(ex, st, self.this), self.lim.m_size_limit(ex, st, self.this)
        return [("accounted total equals the sum of the outstanding sizes", z3.And(ok, t == v)), ("outstanding total never exceeds the limit", t <= l)]

    def lim_setup(self, *names):
        def setup(ex, st):
            self.base(ex, st)
            for _, f in self.lim_inv(ex, st):
                st.assume(f)
            vs = []
            for n in names:
                v = z3.Int(n)
                st.assume(v >= 0, v < MAX64)
                vs.append(v)
            return vs
        return setup

    def v_limiter_allocate(self):
        s = self.lim_setup("bytes")

        def setup(ex, st):
            b, = s(ex, st)
            return [P(addr=self.this), b]

        def post(ex, st0, st, ret, args):
            for lab, f in self.lim_inv(ex, st):
                ex.oblige(st, "allocate: " + lab, f)
            ex.oblige(st, "allocate: the result is one new upstream block of the requested size", only_new(st0, st, T(ex, ret), args[1]))
            ex.oblige(st, "allocate: the limit is unchanged", self.lim.m_size_limit(ex, st, self.this) == self.lim.m_size_limit(ex, st0, self.this))

        def post_exc(ex, st0, st, e, args):
            t, l = self.lim.m_total_size, self.lim.m_size_limit
            ex.oblige(st, "allocate (throwing): nothing changes", z3.And(unchanged_up(st0, st), t(ex, st, self.this) == t(ex, st0, self.this), l(ex, st, self.this) == l(ex, st0, self.this)))
            ex.oblige(st, "allocate throws only if the limit would be exceeded or upstream throws",
                      z3.Or(G(st, "nthrow", I) > G(st0, "nthrow", I), t(ex, st0, self.this) + args[1] > l(ex, st0, self.this)))
        return verify(self.w, N + "SizeLimiter::allocate", setup, post, post_exc=post_exc)

    def v_limiter_deallocate(self):
        s = self.lim_setup("ptr", "size")

        def setup(ex, st):
            p, n = s(ex, st)
            st.assume(p > 0, upb(st)[p], ups(st)[p] == n)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            for lab, f in self.lim_inv(ex, st):
                ex.oblige(st, "deallocate: " + lab, f)
            ex.oblige(st, "deallocate: exactly this block is returned upstream", only_gone(st0, st, args[1].addr))
            ex.oblige(st, "deallocate: the limit is unchanged", self.lim.m_size_limit(ex, st, self.this) == self.lim.m_size_limit(ex, st0, self.this))
        return verify(self.w, N + "SizeLimiter::deallocate", setup, post, post_exc=never_throws("deallocate"))

    def ctor_args(self, ex, st, extra):
        self.base(ex, st)
        x = z3.Int("cux")
        st.assume(z3.ForAll([x], z3.Not(upb(st)[x]), patterns=[upb(st)[x]]))
        n, a, e = z3.Int("name"), z3.Int("allocator"), z3.Int(extra)
        for v in (n, a):
            st.assume(v > 0, v < MAX64 - 4096)
        st.assume(e >= 0, e < MAX64)
        return [P(addr=self.this), P(addr=n), z3.Int("id"), P(addr=a), e]

    def v_limiter_ctor(self):
        def post(ex, st0, st, ret, args):
            ex.oblige(st, "constructor: nothing outstanding, limit as requested",
                      z3.And(self.lim.m_total_size(ex, st, self.this) == 0, self.lim.m_size_limit(ex, st, self.this) == args[4], unchanged_up(st0, st)))
            ex.oblige(st, "constructor: allocates from the given allocator", self.lim.m_allocator(ex, st, self.this) == ufun("strategy_of", I, I)(args[3].addr))
        return verify(self.w, N + "SizeLimiter::SizeLimiter", lambda ex, st: self.ctor_args(ex, st, "size_limit"), post)

    # ---- MonotonicAllocationStrategy
    def mono_inv(self, ex, st):
        m, t = self.mono, self.this
        b, s, c = m.m_block(ex, st, t), m.m_size(ex, st, t), m.m_capacity(ex, st, t)
        return [("the buffer is held from upstream with the capacity as its size", z3.And(b > 0, upb(st)[b], ups(st)[b] == c)), ("used size never exceeds the capacity", s <= c)]

    def mono_setup(self, ex, st):
        self.base(ex, st)
        for _, f in self.mono_inv(ex, st):
            st.assume(f)
        b = z3.Int("bytes")
        st.assume(b >= 0, b < MAX64)
        return b

    def mono_same(self, ex, st0, st, fields):
        return z3.And([getattr(self.mono, f)(ex, st, self.this) == getattr(self.mono, f)(ex, st0, self.this) for f in fields])

    def v_mono_allocate(self):
        def post(ex, st0, st, ret, args):
            m, t = self.mono, self.this
            for lab, f in self.mono_inv(ex, st):
                ex.oblige(st, "allocate: " + lab, f)
            s0, r = m.m_size(ex, st0, t), T(ex, ret)
            ex.oblige(st, "allocate: the result starts at or after the end of the used part", r >= m.m_block(ex, st0, t) + s0)
            ex.oblige(st, "allocate: the whole result becomes part of the used part", r + args[1] <= m.m_block(ex, st0, t) + m.m_size(ex, st, t))
            ex.oblige(st, "allocate: buffer and capacity stay", z3.And(self.mono_same(ex, st0, st, ["m_block", "m_capacity"]), unchanged_up(st0, st)))

        def post_exc(ex, st0, st, e, args):
            m, t = self.mono, self.this
            ex.oblige(st, "allocate (throwing): nothing changes", z3.And(self.mono_same(ex, st0, st, ["m_block", "m_capacity", "m_size"]), unchanged_up(st0, st)))
            ex.oblige(st, "allocate throws only if the request does not fit", m.m_size(ex, st0, t) + args[1] > m.m_capacity(ex, st0, t))

        def setup(ex, st):
            return [P(addr=self.this), self.mono_setup(ex, st)]
        return verify(self.w, N + "MonotonicAllocationStrategy::allocate", setup, post, post_exc=post_exc)

    def v_mono_deallocate(self):
        def setup(ex, st):
            self.mono_setup(ex, st)
            p, n = z3.Int("ptr"), z3.Int("size")
            st.assume(p > 0, p < MAX64, n >= 0, n < MAX64)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "deallocate: never makes handed-out memory available again", z3.And(self.mono_same(ex, st0, st, ["m_block", "m_capacity"]), unchanged_up(st0, st),
                      self.mono.m_size(ex, st, self.this) >= self.mono.m_size(ex, st0, self.this)))
            for lab, f in self.mono_inv(ex, st):
                ex.oblige(st, "deallocate: " + lab, f)
        return verify(self.w, N + "MonotonicAllocationStrategy::deallocate", setup, post, post_exc=never_throws("deallocate"))

    def v_mono_ctor(self):
        def post(ex, st0, st, ret, args):
            for lab, f in self.mono_inv(ex, st):
                ex.oblige(st, "constructor: " + lab, f)
            ex.oblige(st, "constructor: the capacity is the requested one and nothing is used",
                      z3.And(self.mono.m_capacity(ex, st, self.this) == args[4], self.mono.m_size(ex, st, self.this) == 0))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "constructor (throwing): holds nothing", unchanged_up(st0, st))
        return verify(self.w, N + "MonotonicAllocationStrategy::MonotonicAllocationStrategy", lambda ex, st: self.ctor_args(ex, st, "capacity"), post, post_exc=post_exc)

    def v_mono_dtor(self):
        def setup(ex, st):
            self.mono_setup(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "destructor: the buffer is returned upstream", only_gone(st0, st, self.mono.m_block(ex, st0, self.this)))
        return verify(self.w, N + "MonotonicAllocationStrategy::~MonotonicAllocationStrategy", setup, post)

    def v_mono_getters(self, name, field):
        def setup(ex, st):
            self.mono_setup(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "%s: reports the %s" % (name, field), ret == getattr(self.mono, field)(ex, st0, self.this))
        return verify(self.w, N + "MonotonicAllocationStrategy::" + name, setup, post)

    # ---- pass-through strategies
    def v_pass_allocate(self, cls):
        def setup(ex, st):
            self.base(ex, st)
            b = z3.Int("bytes")
            st.assume(b >= 0, b < MAX64)
            return [P(addr=self.this), b]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "%s::allocate: the result is one new upstream block of the requested size" % cls, only_new(st0, st, T(ex, ret), args[1]))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "%s::allocate (throwing): nothing changes" % cls, unchanged_up(st0, st))
            ex.oblige(st, "%s::allocate throws only if upstream throws" % cls, G(st, "nthrow", I) > G(st0, "nthrow", I))
        return verify(self.w, N + cls + "::allocate", setup, post, post_exc=post_exc)

    def v_pass_deallocate(self, cls):
        def setup(ex, st):
            self.base(ex, st)
            p, n = z3.Int("ptr"), z3.Int("size")
            st.assume(p > 0, p < MAX64, upb(st)[p], ups(st)[p] == n, n >= 0)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "%s::deallocate: exactly this block is returned upstream" % cls, only_gone(st0, st, args[1].addr))
        return verify(self.w, N + cls + "::deallocate", setup, post, post_exc=never_throws(cls + "::deallocate"))

    def all(self):
        r = [self.v_limiter_allocate, self.v_limiter_deallocate, self.v_limiter_ctor, self.v_mono_allocate, self.v_mono_deallocate, self.v_mono_ctor, self.v_mono_dtor]
        r += [named("mono_getters", lambda n=n, f=f: self.v_mono_getters(n, f)) for n, f in (("getCurrentSize", "m_size"), ("getHighWatermark", "m_capacity"))]
        for c in ("NamedAllocationStrategy", "NamingShim", "ThreadSafeAllocator"):
            r += [named("pass_allocate", lambda c=c: self.v_pass_allocate(c)), named("pass_deallocate", lambda c=c: self.v_pass_deallocate(c))]
        return r
