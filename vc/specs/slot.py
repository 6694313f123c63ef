"""SlotPool: two parallel arrays of slots (pointer, signed length: negative = in use, 0 = never used)."""
from ..lib import *
from .wrappers import unchanged_up, install_allocator

SP = "umpire::strategy::SlotPool"
TUS = ["umpire/strategy/SlotPool.cpp"]
PT, LN = ("A", "m_pointers", 8), ("A", "m_lengths", 8)


def sg(x):
    return z3.If(x < MAX63, x, x - MAX64)


def ctx0(ex):
    return ex.st0


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_allocator(w)
        self.this = z3.Int("this")
        self.f = Flds(w, SP, ["m_pointers", "m_lengths", "m_slots", "m_allocator"])
        w.regions = self.regions
        w.all_cands.append(self.cands)

    def regions(self, ex, st):
        n = self.f.m_slots(ex, st, self.this)
        return [(simp(self.f.m_pointers(ex, st, self.this)), 8, n, "m_pointers"), (simp(self.f.m_lengths(ex, st, self.this)), 8, n, "m_lengths")]

    def slots(self, ex, st):
        return self.f.m_slots(ex, st, self.this)

    def pt(self, ex, st, i):
        return ex.arr(st, PT)[i]

    def ln(self, ex, st, i):
        return sg(ex.arr(st, LN)[i])

    def absln(self, ex, st, i):
        l = self.ln(ex, st, i)
        return z3.If(l < 0, -l, l)

    def rng(self, ex, st, i):
        return z3.And(i >= 0, i < self.slots(ex, st))

    def inv(self, ex, st):
        i, j = z3.Ints("si sj")
        p, l = ex.arr(st, PT), ex.arr(st, LN)
        u, us = upb(st), ups(st)
        return [("a slot is unused or holds its own upstream block of the recorded length",
                 z3.ForAll([i], z3.Implies(self.rng(ex, st, i), z3.If(l[i] == 0, p[i] == 0, z3.And(u[p[i]], us[p[i]] == self.absln(ex, st, i)))), patterns=[l[i], p[i]])),
                ("no two slots hold the same block", z3.ForAll([i, j], z3.Implies(z3.And(self.rng(ex, st, i), self.rng(ex, st, j), i != j, p[i] != 0), p[i] != p[j]),
                                                               patterns=[z3.MultiPattern(p[i], p[j])]))]

    def base(self, ex, st):
        t = self.this
        st.assume(t > 0, t < MAX64 - 100000)
        upb(st), ups(st), G(st, "nthrow", I)
        st.assume(z3.Not(upb(st)[0]), *up_wf(st))
        ex.keyw.setdefault(PT, 64)
        ex.keyw.setdefault(LN, 64)
        ex.arr(st, PT), ex.arr(st, LN)

    def pre(self, ex, st):
        self.base(ex, st)
        t = self.this
        n = self.slots(ex, st)
        a, b = self.f.m_pointers(ex, st, t), self.f.m_lengths(ex, st, t)
        st.assume(n >= 0, n < 2 ** 58, a > 0, b > 0, a + 8 * n < MAX64, b + 8 * n < MAX64, disjoint(a, 8 * n, b, 8 * n))
        for _, f in self.inv(ex, st):
            st.assume(f)

    def same(self, ex, st0, st):
        return z3.And([getattr(self.f, n)(ex, st, self.this) == getattr(self.f, n)(ex, st0, self.this) for n in ("m_pointers", "m_lengths", "m_slots", "m_allocator")])

    def others(self, ex, st0, st, k):
        i = z3.Int("oi")
        return z3.ForAll([i], z3.Implies(z3.And(self.rng(ex, st0, i), i != k), z3.And(ex.arr(st, PT)[i] == ex.arr(st0, PT)[i], ex.arr(st, LN)[i] == ex.arr(st0, LN)[i])),
                         patterns=[ex.arr(st, LN)[i]])

    def cands(self, ctx, vars_):
        ex, entry = ctx.ex, ctx.entry
        out = []
        for j, (nm, ty) in enumerate(vars_):
            if ty.kind != 'int' or ty.w != 64:
                continue
            v = lambda vals, j=j: vals[j][2]
            out.append(("index %d at most the number of slots" % j, lambda st, vals, v=v: z3.And(v(vals) >= 0, v(vals) <= self.slots(ex, st))))
            out.append(("index %d at least zero" % j, lambda st, vals, v=v: v(vals) >= 0))
            for nmc, con in getattr(self, "facts", []):
                out.append(("%s below index %d" % (nmc, j), lambda st, vals, v=v, con=con: self.below(ex, st, v(vals), con)))
            def above(st, vals, v=v):
                i = z3.Int("abv")
                a, a0 = ex.arr(st, PT), ex.arr(ctx0(ex), PT)
                return z3.ForAll([i], z3.Implies(z3.And(i >= v(vals), i < self.slots(ex, st)), a[i] == a0[i]), patterns=[a[i], a0[i]])
            out.append(("slots from index %d on are as at the start" % j, above))
            def held(st, vals, v=v):
                i = z3.Int("hld")
                a0, l0, s0 = ex.arr(ctx0(ex), PT), ex.arr(ctx0(ex), LN), ctx0(ex)
                return z3.ForAll([i], z3.Implies(z3.And(i >= v(vals), i < self.slots(ex, st), l0[i] != 0), z3.And(upb(st)[a0[i]], ups(st)[a0[i]] == self.absln(ex, s0, i))), patterns=[l0[i], a0[i]])
            if getattr(self, "dtor", False):
                out.append(("slots from index %d on hold their blocks" % j, held))
                out.append(("arrays as at the start", lambda st, vals: z3.And(ex.arr(st, PT) == ex.arr(ctx0(ex), PT), ex.arr(st, LN) == ex.arr(ctx0(ex), LN)), "weak"))
        i = z3.Int("ci")
        out.append(("configuration unchanged", lambda st, vals: self.same(ex, entry, st)))
        for lab, f in self.inv(ex, entry.copy()):
            pass
        for k in range(2):
            out.append((["slots hold blocks", "slots distinct"][k], lambda st, vals, k=k: self.inv(ex, st)[k][1]))
        out.append(("null is no block", lambda st, vals: z3.Not(upb(st)[0])))
        out.append(("upstream blocks well-formed", lambda st, vals: z3.And(*up_wf(st))))
        return out

    def below(self, ex, st, k, con):
        i = z3.Int("bi")
        a0 = ex.arr(ctx0(ex), PT)
        return z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < k), con(ex, st, i)), patterns=[ex.arr(st, LN)[i], ex.arr(st, PT)[i], a0[i]])

    def v_allocate(self):
        b = z3.Int("bytes")
        self.facts = [("slots do not fit the request", lambda ex, st, i: z3.And(self.ln(ex, st, i) != 0, self.ln(ex, st, i) != b))]

        def setup(ex, st):
            self.pre(ex, st)
            st.assume(b > 0, b < MAX64)
            return [P(addr=self.this), b]

        def post(ex, st0, st, ret, args):
            r = T(ex, ret)
            i, j = z3.Ints("pi pj")
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "allocate: " + lab, f)
            ex.oblige(st, "allocate: configuration unchanged", self.same(ex, st0, st))
            free = lambda s, k: z3.Or(self.ln(ex, s, k) == 0, self.ln(ex, s, k) == b)
            ex.oblige(st, "allocate: a null result only if no slot is free for this size",
                      z3.Implies(r == 0, z3.ForAll([i], z3.Implies(self.rng(ex, st0, i), z3.Not(free(st0, i))), patterns=[ex.arr(st0, LN)[i]])))
            w = st.g.get("witness")
            took = lambda k: z3.And(self.rng(ex, st0, k), free(st0, k), self.ln(ex, st, k) == -b, self.pt(ex, st, k) == r, self.others(ex, st0, st, k))
            ex.oblige(st, "allocate: a non-null result is the block of a slot that was free, now marked in use with the requested length; other slots unchanged",
                      z3.Or(r == 0, z3.Exists([i], took(i), patterns=[ex.arr(st, LN)[i]]) if not self.wit(ex, st) else z3.Or([took(k) for k in self.wit(ex, st)])))
            ex.oblige(st, "allocate: the result is a held upstream block of the requested size", z3.Or(r == 0, z3.And(upb(st)[r], ups(st)[r] == b)))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "allocate (throwing): nothing changes", z3.And(unchanged_up(st0, st), self.same(ex, st0, st), self.others(ex, st0, st, z3.IntVal(-1))))
            ex.oblige(st, "allocate throws only if the size is not representable or upstream throws", z3.Or(args[1] >= MAX63, G(st, "nthrow", I) > G(st0, "nthrow", I)))
        return verify(self.w, SP + "::allocate", setup, post, post_exc=post_exc)

    def wit(self, ex, st):
        """indices written on this path"""
        idx, _ = collect_stores(ex.arr(st, LN))
        return idx

    def v_deallocate(self):
        p = z3.Int("ptr")
        self.facts = [("slots do not hold the pointer", lambda ex, st, i: self.pt(ex, st, i) != p)]
        s = z3.Int("slot")

        def setup(ex, st):
            self.pre(ex, st)
            n = z3.Int("size")
            st.assume(p > 0, p < MAX64, n >= 0, n < MAX64)
            st.assume(self.rng(ex, st, s), self.pt(ex, st, s) == p, self.ln(ex, st, s) < 0)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "deallocate: " + lab, f)
            ex.oblige(st, "deallocate: the slot of the pointer is free again with its length, its block kept", z3.And(self.ln(ex, st, s) == -self.ln(ex, st0, s), self.pt(ex, st, s) == p))
            ex.oblige(st, "deallocate: other slots unchanged", self.others(ex, st0, st, s))
            ex.oblige(st, "deallocate: holds the same blocks", z3.And(unchanged_up(st0, st), self.same(ex, st0, st)))
        return verify(self.w, SP + "::deallocate", setup, post, post_exc=never_throws("deallocate"))

    def v_ctor(self):
        self.facts = [("slots are unused", lambda ex, st, i: z3.And(ex.arr(st, LN)[i] == 0, ex.arr(st, PT)[i] == 0))]

        def setup(ex, st):
            self.base(ex, st)
            n, a, e = z3.Int("name"), z3.Int("allocator"), z3.Int("slots")
            st.assume(n > 0, n < MAX64, a > 0, a < MAX64 - 4096, e >= 0, e < 2 ** 58)
            return [P(addr=self.this), P(addr=n), z3.Int("id"), P(addr=a), e]

        def post(ex, st0, st, ret, args):
            i = z3.Int("xi")
            ex.oblige(st, "constructor: the requested number of slots, all unused", z3.And(self.slots(ex, st) == args[4],
                      z3.ForAll([i], z3.Implies(self.rng(ex, st, i), z3.And(ex.arr(st, LN)[i] == 0, ex.arr(st, PT)[i] == 0)), patterns=[ex.arr(st, LN)[i]])))
            ex.oblige(st, "constructor: holds nothing", unchanged_up(st0, st))
        return verify(self.w, SP + "::SlotPool", setup, post)

    def v_dtor(self):
        self.dtor = True
        self.facts = [("slots hold nothing any more", lambda ex, st, i: z3.Not(upb(st)[ex.arr(ex.st0, PT)[i]])),
                      ("slots are cleared", lambda ex, st, i: ex.arr(st, PT)[i] == 0)]

        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            i = z3.Int("yi")
            ex.oblige(st, "destructor: every block held in a slot is returned upstream",
                      z3.ForAll([i], z3.Implies(self.rng(ex, st0, i), z3.Not(upb(st)[ex.arr(st0, PT)[i]])), patterns=[ex.arr(st0, PT)[i], ex.arr(st0, LN)[i]]))
        return verify(self.w, SP + "::~SlotPool", setup, post)

    def all(self):
        return [self.v_allocate, self.v_deallocate, self.v_ctor, self.v_dtor]
