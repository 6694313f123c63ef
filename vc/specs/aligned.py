"""AlignedAllocator and the AlignedAllocation mixin of the pools, for every power-of-two alignment."""
from ..lib import *
from .wrappers import unchanged_up, install_allocator

N = "umpire::strategy::"
AL = N + "AlignedAllocator"
MX = N + "mixins::AlignedAllocation"
TUS = ["umpire/strategy/AlignedAllocator.cpp", "umpire/strategy/QuickPool.cpp", "umpire/strategy/mixins/AlignedAllocation.cpp"]
RAW = ("R", "w64", 0)
Mult = ufun("Mult", I, I, B)


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_allocator(w)
        self.this = z3.Int("this")
        w.node_size = 24
        self.a = Flds(w, AL, ["m_alignment", "m_mask", "m_allocator"])
        self.m = Flds(w, MX, ["m_alignment", "m_mask", "m_allocator"])
        self.bm = self.this + w.off(MX, "base_pointer_map")

    def base(self, ex, st, f, least):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        upb(st), ups(st), G(st, "nthrow", I)
        st.assume(z3.Not(upb(st)[0]), *up_wf(st))
        al = f.m_alignment(ex, st, self.this)
        st.assume(al >= least, al <= MAX63, f.m_mask(ex, st, self.this) == MAX64 - al, Mult(al, al), Mult(al, z3.IntVal(0)))
        ex.pow2 = (simp(al),)
        return al

    # ---- AlignedAllocator: ghost live allocations (address -> base, size); the word below an allocation holds its base
    def gh(self, st):
        return G(st, "lv", AIB), G(st, "lvsz", AII), G(st, "lvb", AII)

    def inv(self, ex, st):
        al = self.a.m_alignment(ex, st, self.this)
        lv, sz, bs = self.gh(st)
        u, us, raw = upb(st), ups(st), ex.arr(st, RAW)
        x, y = z3.Ints("ax_ ay_")
        return [("the word below every live allocation holds its upstream block", z3.ForAll([x], z3.Implies(lv[x], raw[x - 8] == bs[x]), patterns=[lv[x]])),
                ("every live allocation lies, with its header word, inside its upstream block",
                 z3.ForAll([x], z3.Implies(lv[x], z3.And(u[bs[x]], bs[x] <= x - 8, sz[x] >= 0, x + sz[x] <= bs[x] + us[bs[x]], us[bs[x]] == sz[x] + 8 + al - 1)), patterns=[lv[x]])),
                ("every live allocation is aligned", z3.ForAll([x], z3.Implies(lv[x], Mult(al, x)), patterns=[lv[x]])),
                ("different allocations have different upstream blocks", z3.ForAll([x, y], z3.Implies(z3.And(lv[x], lv[y], x != y), bs[x] != bs[y]), patterns=[z3.MultiPattern(lv[x], lv[y])]))]

    def same_cfg(self, ex, st0, st, f):
        return z3.And([getattr(f, n)(ex, st, self.this) == getattr(f, n)(ex, st0, self.this) for n in ("m_alignment", "m_mask", "m_allocator")])

    def v_allocate(self):
        def setup(ex, st):
            self.base(ex, st, self.a, 16)
            for _, f in self.inv(ex, st):
                st.assume(f)
            b = z3.Int("bytes")
            st.assume(b >= 0, b < MAX64)
            return [P(addr=self.this), b]

        def post(ex, st0, st, ret, args):
            r, b = T(ex, ret), args[1]
            al = self.a.m_alignment(ex, st0, self.this)
            lv, sz, bs = self.gh(st)
            x = z3.Int("nx")
            nb = fint("newblock")
            # ghost: the block obtained in this call
            idx, _ = collect_stores(upb(st))
            ex.oblige(st, "allocate: obtains exactly one upstream block", z3.BoolVal(len(idx) == 1))
            if len(idx) != 1:
                return
            nb = idx[0]
            raw0, raw1 = ex.arr(st0, RAW), ex.arr(st, RAW)
            ex.oblige(st, "allocate: the result is aligned", Mult(al, r))
            ex.oblige(st, "allocate: the result was not live before", z3.Not(lv[r]))
            ex.oblige(st, "allocate: writes only inside the new upstream block", z3.ForAll([x], z3.Implies(raw1[x] != raw0[x], z3.And(nb <= x, x + 8 <= nb + ups(st)[nb]))))
            ex.gset(st, "lv", z3.Store(lv, r, z3.BoolVal(True)))
            ex.gset(st, "lvsz", z3.Store(sz, r, b))
            ex.gset(st, "lvb", z3.Store(bs, r, nb))
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "allocate: " + lab, f)
            ex.oblige(st, "allocate: the result is disjoint from every live allocation", z3.ForAll([x], z3.Implies(lv[x], disjoint(r, b, x - 8, sz[x] + 8)), patterns=[lv[x]]))
            ex.oblige(st, "allocate: configuration unchanged", self.same_cfg(ex, st0, st, self.a))

        def post_exc(ex, st0, st, e, args):
            al = self.a.m_alignment(ex, st0, self.this)
            ex.oblige(st, "allocate (throwing): nothing changes", z3.And(unchanged_up(st0, st), self.same_cfg(ex, st0, st, self.a), ex.arr(st, RAW) == ex.arr(st0, RAW)))
            ex.oblige(st, "allocate throws only if the padded size overflows or upstream throws",
                      z3.Or(G(st, "nthrow", I) > G(st0, "nthrow", I), args[1] + 8 + al - 1 >= MAX64))
        return verify(self.w, AL + "::allocate", setup, post, post_exc=post_exc)

    def v_deallocate(self):
        def setup(ex, st):
            self.base(ex, st, self.a, 16)
            for _, f in self.inv(ex, st):
                st.assume(f)
            p, n = z3.Int("ptr"), z3.Int("size")
            lv, sz, bs = self.gh(st)
            st.assume(p > 0, p < MAX64, lv[p], sz[p] == n)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            p = args[1].addr
            lv, sz, bs = self.gh(st)
            x = z3.Int("dx")
            ex.oblige(st, "deallocate: returns the allocation's upstream block and no other", z3.And(z3.Not(upb(st)[bs[p]]), z3.ForAll([x], z3.Implies(x != bs[p], upb(st)[x] == upb(st0)[x]))))
            ex.gset(st, "lv", z3.Store(lv, p, z3.BoolVal(False)))
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "deallocate: " + lab, f)
            ex.oblige(st, "deallocate: configuration unchanged", self.same_cfg(ex, st0, st, self.a))
        return verify(self.w, AL + "::deallocate", setup, post, post_exc=never_throws("deallocate"))

    def v_ctor(self):
        plat, host = ufun("platform_of", I, I), 1
        band = ufun("band64", I, I, I)
        so = ufun("strategy_of", I, I)
        # at least 16, and no bit shared with its predecessor
        ok = lambda e: z3.And(e >= 16, band(e, e - 1) == 0)

        def getplat(ex, st, args, ins):
            v = plat(T(ex, args[0]))
            st.assume(v >= 0, v < 2 ** 31)
            return [(st, 'ret', v)]

        def setup(ex, st):
            st.assume(self.this > 0, self.this < MAX64 - 100000)
            upb(st), ups(st)
            n, a, e = z3.Int("name"), z3.Int("allocator"), z3.Int("alignment")
            st.assume(n > 0, n < MAX64, a > 0, a < MAX64 - 4096, e >= 0, e < MAX64)
            st.assume(band(e, e - 1) == band(e - 1, e))
            return [P(addr=self.this), P(addr=n), z3.Int("id"), P(addr=a), e]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "constructor: alignment stored, mask is its complement", z3.And(self.a.m_alignment(ex, st, self.this) == args[4], args[4] >= 16,
                      self.a.m_mask(ex, st, self.this) == MAX64 - args[4], self.a.m_allocator(ex, st, self.this) == so(args[3].addr)))
            ex.oblige(st, "constructor: accepts only a power of two of at least 16 and a host allocator", z3.And(ok(args[4]), plat(so(args[3].addr)) == host))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "constructor rejects only a bad alignment or an allocator that is not on the host", z3.Or(z3.Not(ok(args[4])), plat(so(args[3].addr)) != host))
        v = self.w.virt
        old = v.get(N + "AllocationStrategy::getPlatform")
        v[N + "AllocationStrategy::getPlatform"] = getplat
        try:
            return verify(self.w, AL + "::AlignedAllocator", setup, post, post_exc=post_exc)
        finally:
            v[N + "AllocationStrategy::getPlatform"] = old

    # ---- AlignedAllocation mixin
    def tuple_keys(self, ex):
        k = [x for x in self.w.layouts if x.startswith("std::_Head_base<0, void *") or x.startswith("std::_Head_base<0, void*")]
        k2 = [x for x in self.w.layouts if x.startswith("std::_Head_base<1, unsigned long")]
        if not k or not k2:
            raise ExtractError("layout of the base pointer map's value type changed")
        return k[0], k2[0]

    def tup(self, ex, st, n):
        """(base, total) stored at map node n"""
        lay = self.w.layouts
        a, b = self.tuple_keys(ex)
        ka, aa = self.w.field(a, "_M_head_impl")
        kb, ab = self.w.field(b, "_M_head_impl")
        # libstdc++ stores the last tuple element first
        return ex.arr(st, ka)[n + 8 + 8 + aa], ex.arr(st, kb)[n + 8 + ab]

    def minv(self, ex, st):
        o, k = own(st), ex.arr(st, PAIR1)
        asz, u, us = G(st, "asz", AII), upb(st), ups(st)
        al = self.m.m_alignment(ex, st, self.this)
        n, m = z3.Ints("mn mm")
        tb = lambda x: self.tup(ex, st, x)
        return [("every aligned block lies inside the upstream block recorded for it",
                 z3.ForAll([n], z3.Implies(o[n] == self.bm, z3.And(u[tb(n)[0]], us[tb(n)[0]] == tb(n)[1], tb(n)[0] <= k[n], k[n] < tb(n)[0] + tb(n)[1], asz[k[n]] >= 0, k[n] + asz[k[n]] <= tb(n)[0] + tb(n)[1])), patterns=[o[n]])),
                ("aligned blocks are aligned", z3.ForAll([n], z3.Implies(o[n] == self.bm, Mult(al, k[n])), patterns=[o[n]])),
                ("different aligned blocks have different upstream blocks",
                 z3.ForAll([n, m], z3.Implies(z3.And(o[n] == self.bm, o[m] == self.bm, n != m), tb(n)[0] != tb(m)[0]), patterns=[z3.MultiPattern(o[n], o[m])]))]

    def msetup(self, ex, st):
        al = self.base(ex, st, self.m, 1)
        G(st, "asz", AII)
        for f in cont_wf(ex, st, self.bm, True, False):
            st.assume(f)
        for _, f in self.minv(ex, st):
            st.assume(f)
        return al

    def frame_nodes(self, ex, st0, st, except_key):
        n = z3.Int("fn_")
        o0, o1, k0, k1 = own(st0), own(st), ex.arr(st0, PAIR1), ex.arr(st, PAIR1)
        return z3.And(z3.ForAll([n], z3.Implies(z3.And(o0[n] == self.bm, k0[n] != except_key), z3.And(o1[n] == self.bm, k1[n] == k0[n])), patterns=[o0[n]]),
                      z3.ForAll([n], z3.Implies(z3.And(o1[n] == self.bm, k1[n] != except_key), z3.And(o0[n] == self.bm, k1[n] == k0[n])), patterns=[o1[n]]))

    def v_round_up(self):
        def setup(ex, st):
            self.msetup(ex, st)
            s = z3.Int("size")
            st.assume(s >= 0, s < MAX64)
            return [P(addr=self.this), s]

        def post(ex, st0, st, ret, args):
            al = self.m.m_alignment(ex, st0, self.this)
            ex.oblige(st, "aligned_round_up: a multiple of the alignment, at least the size", z3.And(Mult(al, ret), ret >= args[1], ret < MAX64))
            ex.oblige(st, "aligned_round_up: no more than one alignment step larger", ret - args[1] < al)
            ex.oblige(st, "aligned_round_up: changes nothing", unchanged_up(st0, st))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "aligned_round_up throws only on overflow", args[1] + self.m.m_alignment(ex, st0, self.this) - 1 >= MAX64)
        return verify(self.w, MX + "::aligned_round_up", setup, post, post_exc=post_exc)

    def v_malloc(self):
        def setup(ex, st):
            self.msetup(ex, st)
            s = z3.Int("size")
            st.assume(s > 0, s < MAX64)
            return [P(addr=self.this), s]

        def post(ex, st0, st, ret, args):
            r, s = T(ex, ret), args[1]
            al = self.m.m_alignment(ex, st0, self.this)
            n = z3.Int("an_")
            o0, k0, a0 = own(st0), ex.arr(st0, PAIR1), G(st0, "asz", AII)
            ex.oblige(st, "aligned_allocate: the result is aligned and non-null", z3.And(r > 0, Mult(al, r)))
            ex.oblige(st, "aligned_allocate: the result is recorded", z3.Exists([n], z3.And(own(st)[n] == self.bm, ex.arr(st, PAIR1)[n] == r)))
            ex.oblige(st, "aligned_allocate: the result is disjoint from every block still held",
                      z3.ForAll([n], z3.Implies(o0[n] == self.bm, disjoint(r, s, k0[n], a0[k0[n]])), patterns=[o0[n]]))
            ex.oblige(st, "aligned_allocate: other blocks stay recorded", self.frame_nodes(ex, st0, st, r))
            ex.gset(st, "asz", z3.Store(a0, r, s))
            for lab, f in self.minv(ex, st):
                ex.oblige(st, "aligned_allocate: " + lab, f)
            ex.oblige(st, "aligned_allocate: configuration unchanged", self.same_cfg(ex, st0, st, self.m))

        def post_exc(ex, st0, st, e, args):
            al = self.m.m_alignment(ex, st0, self.this)
            ex.oblige(st, "aligned_allocate (throwing): nothing changes", z3.And(unchanged_up(st0, st), self.frame_nodes(ex, st0, st, z3.IntVal(-1)), self.same_cfg(ex, st0, st, self.m)))
            ex.oblige(st, "aligned_allocate throws only on overflow or if upstream throws", z3.Or(G(st, "nthrow", I) > G(st0, "nthrow", I), args[1] + al >= MAX64))
        return verify(self.w, MX + "::aligned_allocate", setup, post, post_exc=post_exc)

    def v_mdealloc(self):
        def setup(ex, st):
            self.msetup(ex, st)
            p, n = z3.Int("ptr"), z3.Int("pn")
            st.assume(p > 0, p < MAX64, own(st)[n] == self.bm, ex.arr(st, PAIR1)[n] == p)
            return [P(addr=self.this), P(addr=p)]

        def post(ex, st0, st, ret, args):
            p, n, x = args[1].addr, z3.Int("pn"), z3.Int("mdx")
            b = self.tup(ex, st0, n)[0]
            ex.oblige(st, "aligned_deallocate: the upstream block of this pointer and no other is returned",
                      z3.And(z3.Not(upb(st)[b]), z3.ForAll([x], z3.Implies(x != b, upb(st)[x] == upb(st0)[x]))))
            ex.oblige(st, "aligned_deallocate: the pointer is forgotten", z3.ForAll([x], z3.Implies(own(st)[x] == self.bm, ex.arr(st, PAIR1)[x] != p)))
            ex.oblige(st, "aligned_deallocate: other blocks stay recorded", self.frame_nodes(ex, st0, st, p))
            for lab, f in self.minv(ex, st):
                ex.oblige(st, "aligned_deallocate: " + lab, f)
            ex.oblige(st, "aligned_deallocate: configuration unchanged", self.same_cfg(ex, st0, st, self.m))
        return verify(self.w, MX + "::aligned_deallocate", setup, post, post_exc=never_throws("aligned_deallocate"))

    def v_mctor(self):
        def setup(ex, st):
            st.assume(self.this > 0, self.this < MAX64 - 100000)
            upb(st), ups(st)
            al, s = z3.Int("alignment"), z3.Int("strategy")
            st.assume(al >= 1, al <= MAX63, s > 0, s < MAX64)
            return [P(addr=self.this), al, P(addr=s)]

        def post(ex, st0, st, ret, args):
            x = z3.Int("cx_")
            ex.oblige(st, "constructor: alignment, complement mask and upstream stored, no blocks recorded",
                      z3.And(self.m.m_alignment(ex, st, self.this) == args[1], self.m.m_mask(ex, st, self.this) == MAX64 - args[1],
                             self.m.m_allocator(ex, st, self.this) == args[2].addr, z3.ForAll([x], own(st)[x] != self.bm)))
        return verify(self.w, MX + "::AlignedAllocation", setup, post)

    def v_lemma(self):
        """masking lemma, for each of the 64 alignments, in bit-vector arithmetic"""
        v = Verified("lemma: masking with a power of two (64 cases)")
        x = z3.BitVec("x", 64)
        v.items, v.canary = [], []
        for k in range(64):
            a = z3.BitVecVal(1 << k, 64)
            o = Obl("lemma: x & ~(2^%d - 1) is the greatest multiple of 2^%d not above x" % (k, k), [],
                    z3.And((x & ~(a - 1)) == x - z3.URem(x, a), z3.ULE(x & ~(a - 1), x), z3.URem(x & ~(a - 1), a) == 0, (x & (a - 1)) == z3.URem(x, a)), v.name, [], "lemma")
            v.obls.append(o)
            v.items.append((o, [], 5000))
        return v

    def all(self):
        return [self.v_allocate, self.v_deallocate, self.v_ctor, named("mixin_round_up", lambda: self.v_round_up()), named("mixin_allocate", lambda: self.v_malloc()),
                named("mixin_deallocate", lambda: self.v_mdealloc()), named("mixin_ctor", lambda: self.v_mctor()), self.v_lemma]
