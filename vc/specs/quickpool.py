"""QuickPool: representation invariant, contracts of allocate/deallocate/release/do_coalesce and the accessors."""
from ..lib import *

Q = "umpire::strategy::QuickPool"
CH = Q + "::Chunk"
AA = "umpire::strategy::mixins::AlignedAllocation"
FMP = "umpire::util::FixedMallocPool"
TUS = ["umpire/strategy/QuickPool.cpp"]

Al = ufun("AlignedMult", I, B)  # "is a multiple of the pool's alignment"


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        self.c = Flds(w, CH, ["data", "size", "chunk_size", "free", "prev", "next", "size_map_it"])
        self.counters = ["m_total_blocks", "m_releasable_blocks", "m_aligned_bytes", "m_aligned_highwatermark",
                         "m_actual_bytes", "m_releasable_bytes", "m_actual_highwatermark"]
        self.q = Flds(w, Q, self.counters)
        self.this = z3.Int("this")
        self.pm = self.this + w.off(Q, "m_pointer_map")
        self.sm = self.this + w.off(Q, "m_size_map")
        c = self.c
        ck = [c.K_size, c.K_free, c.K_chunk_size]
        rel = lambda ex, st, o: z3.And(self.isC(st)[o], c.free(ex, st, o) == 1, c.size(ex, st, o) == c.chunk_size(ex, st, o))
        self.rel = rel
        self.S_al = Sum("aligned", lambda ex, st, o: z3.If(z3.And(self.isC(st)[o], c.free(ex, st, o) != 1), c.size(ex, st, o), 0), ck, ["isC"])
        self.S_rb = Sum("relbytes", lambda ex, st, o: z3.If(rel(ex, st, o), c.chunk_size(ex, st, o), 0), ck, ["isC"])
        self.S_rn = Sum("relcount", lambda ex, st, o: z3.If(rel(ex, st, o), 1, 0), ck, ["isC"])
        self.S_ab = Sum("actual", lambda ex, st, o: z3.If(upb(st)[o], ups(st)[o], 0), [], ["up", "upsz"])
        self.S_nb = Sum("blocks", lambda ex, st, o: z3.If(upb(st)[o], 1, 0), [], ["up"])
        self.sums = [(self.S_al, "m_aligned_bytes", "aligned size equals the sum of the sizes of live chunks"),
                     (self.S_rb, "m_releasable_bytes", "releasable size equals the sum over wholly free blocks"),
                     (self.S_rn, "m_releasable_blocks", "releasable block count equals the number of wholly free blocks"),
                     (self.S_ab, "m_actual_bytes", "actual size equals the bytes held from upstream"),
                     (self.S_nb, "m_total_blocks", "total blocks equals the number of blocks held from upstream")]
        self.install_callees()
        self.methods()

    def isC(self, st):
        return G(st, "isC", AIB)

    def blk(self, st):
        return G(st, "blk", AII)

    # ---- contracts of callees
    def install_callees(self):
        w, C = self.w, self.w.contracts

        def aligned_closure(ex, st):
            """sums of multiples of the alignment are multiples of it (lemma of arithmetic), instantiated"""
            x = z3.Int("alx")
            isC = self.isC(st)
            for r in st.g.get("rounded", ()):
                st.assume(z3.ForAll([x], z3.Implies(z3.And(isC[x], Al(self.c.data(ex, st, x))), Al(self.c.data(ex, st, x) + r)), patterns=[isC[x]]))
                for p in st.g.get("newblk", ()):
                    st.assume(z3.Implies(Al(p), Al(p + r)))

        def round_up(ex, st, args, ins):
            ex.used_contracts.add(AA + "::aligned_round_up")
            s = args[1]
            r = fint("rounded")
            s2 = st.copy()
            st.assume(r >= s, r < MAX64, Al(r), z3.Implies(s > 0, r > 0))
            st.g["rounded"] = st.g.get("rounded", ()) + (r,)
            aligned_closure(ex, st)
            return [(s2, 'exc', Exc()), (st, 'ret', r)]

        def al_alloc(ex, st, args, ins):
            ex.used_contracts.add(AA + "::aligned_allocate")
            b = args[1]
            s2 = st.copy()
            s2.trace.append(("upstream throws",))
            p = fint("blk")
            u, s = upb(st), ups(st)
            x = z3.Int("x")
            st.assume(p > 0, b < MAX63, p + b < MAX64, z3.Not(u[p]), Al(p))
            st.assume(z3.ForAll([x], z3.Implies(u[x], disjoint(p, b, x, s[x])), patterns=[u[x]]))
            ex.gset(st, "up", z3.Store(u, p, z3.BoolVal(True)))
            ex.gset(st, "upsz", z3.Store(s, p, b))
            st.g["newblk"] = st.g.get("newblk", ()) + (p,)
            aligned_closure(ex, st)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=p))]

        def al_dealloc(ex, st, args, ins):
            ex.used_contracts.add(AA + "::aligned_deallocate")
            p = T(ex, args[1])
            u = upb(st)
            ex.oblige(st, "a block is returned upstream only while it is held (never twice, never an interior pointer)", u[p], "pre")
            x = z3.Int("n")
            isC = self.isC(st)
            ex.oblige(st, "no live allocation lies in a block returned upstream",
                      z3.ForAll([x], z3.Implies(z3.And(isC[x], self.c.free(ex, st, x) != 1), self.blk(st)[x] != p)), "pre")
            st.assume(u[p])
            ex.gset(st, "up", z3.Store(u, p, z3.BoolVal(False)))
            return [(st, 'ret', None)]

        def cp_alloc(ex, st, args, ins):
            ex.used_contracts.add(FMP + "::allocate")
            p, g = fint("chunk"), fint("gblk")
            st.assume(p > 0, p < MAX64, z3.Not(self.isC(st)[p]))
            ex.gset(st, "isC", z3.Store(self.isC(st), p, z3.BoolVal(True)))
            ex.gset(st, "blk", z3.Store(self.blk(st), p, g))
            st.g["pending"] = st.g.get("pending", ()) + ((p, g),)
            return [(st, 'ret', P(addr=p))]

        def cp_dealloc(ex, st, args, ins):
            ex.used_contracts.add(FMP + "::deallocate")
            p = T(ex, args[1])
            ex.oblige(st, "a chunk record is freed exactly once", self.isC(st)[p], "pre")
            ex.gset(st, "isC", z3.Store(self.isC(st), p, z3.BoolVal(False)))
            # the memory is no longer the caller's: its contents are arbitrary from here on
            for f in ("data", "size", "chunk_size", "free", "prev", "next", "size_map_it"):
                v = fint("freed")
                st.assume(v >= 0, v < (256 if f == "free" else MAX64))
                ex.setfld(st, getattr(self.c, "K_" + f), p + getattr(self.c, "A_" + f), v)
            return [(st, 'ret', None)]

        C[AA + "::aligned_round_up"] = round_up
        C[AA + "::aligned_allocate"] = al_alloc
        C[AA + "::aligned_deallocate"] = al_dealloc
        C[FMP + "::allocate"] = cp_alloc
        C[FMP + "::deallocate"] = cp_dealloc

    def fix_ghost(self, ex, st):
        """ghost code: a chunk created in this call belongs to the block of the chunk it was split from, or else to the
        block that starts at its data (definition of the fresh ghost value)"""
        for p, g in st.g.get("pending", ()):
            pv = self.c.prev(ex, st, p)
            st.assume(g == z3.If(pv == 0, self.c.data(ex, st, p), z3.If(pv == p, g, self.blk(st)[pv])))
        st.g.pop("pending", None)

    # ---- representation invariant
    def inv(self, ex, st, sums=True):
        """list of (label, formula); structural part is quantified over all chunks"""
        self.fix_ghost(ex, st)
        c = self.c
        x, y, n = z3.Ints("cx cy cn")
        isC, u, us, bk = self.isC(st), upb(st), ups(st), self.blk(st)
        D, S, CS, F, PV, NX = (lambda o, f=f: f(ex, st, o) for f in (c.data, c.size, c.chunk_size, c.free, c.prev, c.next))
        IT = lambda o: c.size_map_it(ex, st, o)
        o, k, v = own(st), ex.arr(st, PAIR1), ex.arr(st, PAIR2)
        al = lambda f: z3.ForAll([x], z3.Implies(isC[x], f), patterns=[isC[x]])
        r = [
            ("chunks are non-empty and non-null", al(z3.And(x > 0, S(x) > 0, D(x) > 0, z3.Or(F(x) == 0, F(x) == 1)))),
            ("chunk starts are aligned", al(Al(D(x)))),
            ("every chunk lies inside a block held from upstream",
             al(z3.And(u[bk[x]], us[bk[x]] == CS(x), D(x) >= bk[x], D(x) + S(x) <= bk[x] + CS(x)))),
            ("chunks never overlap", z3.ForAll([x, y], z3.Implies(z3.And(isC[x], isC[y], x != y), disjoint(D(x), S(x), D(y), S(y))),
                                               patterns=[z3.MultiPattern(isC[x], isC[y])])),
            ("next link", al(z3.If(NX(x) == 0, D(x) + S(x) == bk[x] + CS(x),
                                   z3.And(isC[NX(x)], PV(NX(x)) == x, D(NX(x)) == D(x) + S(x), bk[NX(x)] == bk[x])))),
            ("prev link", al(z3.If(PV(x) == 0, D(x) == bk[x], z3.And(isC[PV(x)], NX(PV(x)) == x)))),
            ("no two adjacent chunks are free", al(z3.Implies(z3.And(F(x) == 1, NX(x) != 0), F(NX(x)) == 0))),
            ("free chunks are in the free map under their size",
             al(z3.Implies(F(x) == 1, z3.And(o[IT(x)] == self.sm, v[IT(x)] == x, k[IT(x)] == S(x))))),
            ("free map holds only free chunks", z3.ForAll([n], z3.Implies(o[n] == self.sm, z3.And(isC[v[n]], F(v[n]) == 1, IT(v[n]) == n)), patterns=[o[n]])),
            ("live map holds only live chunks at their start", z3.ForAll([n], z3.Implies(o[n] == self.pm, z3.And(isC[v[n]], F(v[n]) == 0, D(v[n]) == k[n])), patterns=[o[n]])),
            ("blocks held are disjoint", z3.And(*up_wf(st))),
        ]
        q = self.q
        t = self.this
        r.append(("actual high watermark is at least the actual size", q.m_actual_highwatermark(ex, st, t) >= q.m_actual_bytes(ex, st, t)))
        r.append(("aligned high watermark is at least the aligned size", q.m_aligned_highwatermark(ex, st, t) >= q.m_aligned_bytes(ex, st, t)))
        if sums:
            for S_, fld, lab in self.sums:
                if ("sumref_" + S_.name) not in st.g:
                    S_.reset(ex, st)
                val, ok = S_.value(ex, st)
                r.append((lab, z3.And(ok, getattr(q, fld)(ex, st, t) == val)))
        return r

    def wf(self, ex, st):
        return cont_wf(ex, st, self.pm, True, False) + cont_wf(ex, st, self.sm, False, True)

    def pre_state(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        for f in self.wf(ex, st):
            st.assume(f)
        self.isC(st), self.blk(st), upb(st), ups(st)
        st.assume(z3.Not(self.isC(st)[0]), z3.Not(upb(st)[0]))
        for lab, f in self.inv(ex, st):
            st.assume(f)
        return st

    def havoc(self, ex, st):
        c = self.c
        for f in ("data", "size", "chunk_size", "free", "prev", "next", "size_map_it"):
            ex.havoc_key(st, getattr(c, "K_" + f))
        for k in (PAIR1, PAIR2):
            ex.havoc_key(st, k)
        for f in self.counters:
            k = getattr(self.q, "K_" + f)
            ex.setfld(st, k, self.this + getattr(self.q, "A_" + f), fint(f))
            st.assume(getattr(self.q, f)(ex, st, self.this) >= 0, getattr(self.q, f)(ex, st, self.this) < MAX64)
        for g in ("own", "csz", "rank", "isC", "blk", "up", "upsz"):
            s = st.g[g].sort() if g in st.g else AII
            ex.gset(st, g, z3.Const(fresh_name("h_" + g), s))
        for k in [k for k in st.g if k.startswith("sumref_")] + ["pending"]:
            st.g.pop(k, None)
        st.assume(z3.Not(self.isC(st)[0]), z3.Not(upb(st)[0]))
        for f in self.wf(ex, st):
            st.assume(f)

    # ---- relations between two states
    def live_frame(self, ex, st0, st, except_ptr=None):
        """allocations that were live stay live, at the same place, with the same extent"""
        n = z3.Int("lf")
        o0, o1, k0, k1, v0, v1 = own(st0), own(st), ex.arr(st0, PAIR1), ex.arr(st, PAIR1), ex.arr(st0, PAIR2), ex.arr(st, PAIR2)
        c = self.c
        keep = z3.And(o1[n] == self.pm, k1[n] == k0[n], v1[n] == v0[n], c.size(ex, st, v0[n]) == c.size(ex, st0, v0[n]))
        h = o0[n] == self.pm
        if except_ptr is not None:
            h = z3.And(h, k0[n] != except_ptr)
        return z3.ForAll([n], z3.Implies(h, keep), patterns=[o0[n]])

    def live_only(self, ex, st0, st, new_ptr=None):
        """nothing else became live"""
        n = z3.Int("lo")
        o0, o1, k0, k1 = own(st0), own(st), ex.arr(st0, PAIR1), ex.arr(st, PAIR1)
        g = z3.And(o0[n] == self.pm, k1[n] == k0[n])
        if new_ptr is not None:
            g = z3.Or(g, k1[n] == new_ptr)
        return z3.ForAll([n], z3.Implies(o1[n] == self.pm, g), patterns=[o1[n]])

    def no_releasable(self, ex, st):
        x = z3.Int("nr")
        isC = self.isC(st)
        return z3.ForAll([x], z3.Implies(isC[x], z3.Not(self.rel(ex, st, x))), patterns=[isC[x]])

    # ---- the contracts
    def methods(self):
        C = self.w.contracts
        sp = self

        def a_pre(ex, st, args):
            return [("size is positive", args[1] > 0)] + sp.inv(ex, st)

        def a_post(ex, st0, st, ret, args):
            b, p = args[1], ex.pterm(ret)
            n = z3.Int("an")
            o, k, v = own(st), ex.arr(st, PAIR1), ex.arr(st, PAIR2)
            return sp.inv(ex, st) + [
                ("result is recorded live with at least the requested size", z3.Exists([n], z3.And(o[n] == sp.pm, k[n] == p, sp.c.size(ex, st, v[n]) >= b))),
                ("result is aligned and non-null", z3.And(p > 0, Al(p))),
                ("result was not live before", z3.ForAll([n], z3.Implies(own(st0)[n] == sp.pm, ex.arr(st0, PAIR1)[n] != p), patterns=[own(st0)[n]])),
                ("other live allocations keep their place and extent", sp.live_frame(ex, st0, st)),
                ("nothing else becomes live", sp.live_only(ex, st0, st, p))]

        def a_exc(ex, st0, st, args):
            return sp.inv(ex, st) + [("live allocations keep their place and extent", sp.live_frame(ex, st0, st)),
                                     ("nothing becomes live", sp.live_only(ex, st0, st))]

        self.m_alloc = Method(Q + "::allocate", a_pre, a_post, a_exc, sp.havoc)

        def d_pre(ex, st, args):
            n = z3.Int("pn")
            p = ex.pterm(args[1])
            return sp.inv(ex, st) + [("pointer is a live allocation of this pool",
                                      z3.Exists([n], z3.And(own(st)[n] == sp.pm, ex.arr(st, PAIR1)[n] == p)))]

        def d_post(ex, st0, st, ret, args):
            p = ex.pterm(args[1])
            n = z3.Int("dn")
            return sp.inv(ex, st) + [
                ("pointer is no longer live", z3.ForAll([n], z3.Implies(own(st)[n] == sp.pm, ex.arr(st, PAIR1)[n] != p), patterns=[own(st)[n]])),
                ("other live allocations keep their place and extent", sp.live_frame(ex, st0, st, p)),
                ("nothing becomes live", sp.live_only(ex, st0, st))]

        self.m_dealloc = Method(Q + "::deallocate", d_pre, d_post, None, sp.havoc)

        def r_post(ex, st0, st, ret, args):
            return sp.inv(ex, st) + [
                ("live allocations keep their place and extent", sp.live_frame(ex, st0, st)),
                ("nothing becomes live", sp.live_only(ex, st0, st)),
                ("every wholly free block is returned upstream", sp.no_releasable(ex, st))]

        def c_post(ex, st0, st, ret, args):
            return sp.inv(ex, st) + [
                ("live allocations keep their place and extent", sp.live_frame(ex, st0, st)),
                ("nothing becomes live", sp.live_only(ex, st0, st))]

        inv_pre = lambda ex, st, args: sp.inv(ex, st)
        self.m_release = Method(Q + "::release", inv_pre, r_post, None, sp.havoc)
        self.m_coalesce = Method(Q + "::do_coalesce", inv_pre, c_post, None, sp.havoc)

        def release_cands(ctx, vars_):
            ex, entry = ctx.ex, ctx.entry
            out = []
            labs = [lab for lab, _ in sp.inv(ex, entry.copy())]
            for j, lab in enumerate(labs):
                out.append((lab, lambda st, vals, j=j: sp.inv(ex, st)[j][1]))
            out.append(("live frame", lambda st, vals: sp.live_frame(ex, entry, st)))
            out.append(("live only", lambda st, vals: sp.live_only(ex, entry, st)))
            for j in range(len(sp.wf(ex, entry.copy()))):
                out.append(("containers %d" % j, lambda st, vals, j=j: sp.wf(ex, st)[j]))
            out.append(("null is no chunk or block", lambda st, vals: z3.And(z3.Not(sp.isC(st)[0]), z3.Not(upb(st)[0]))))
            for j, (nm, ty) in enumerate(vars_):
                if ty.kind != 'ptr':
                    continue
                e = endnode(sp.sm)
                out.append(("iterator %d valid" % j, lambda st, vals, j=j: z3.Or(vals[j][2] == e, z3.And(vals[j][2] > 0, own(st)[vals[j][2]] == sp.sm))))

                def visited(st, vals, j=j):
                    n = z3.Int("vn")
                    o, v, rk, it = own(st), ex.arr(st, PAIR2), rank(st), vals[j][2]
                    return z3.ForAll([n], z3.Implies(z3.And(o[n] == sp.sm, z3.Or(it == e, rk[n] < rk[it])), z3.Not(sp.rel(ex, st, v[n]))), patterns=[o[n]])
                out.append(("visited blocks are not releasable (%d)" % j, visited))
            return out

        self.w.all_cands.append(release_cands)

    def this_setup(self, *more):
        def setup(ex, st):
            self.pre_state(ex, st)
            return [P(addr=self.this)] + [m(ex, st) for m in more]
        return setup

    # ---- obligations
    def only(self, *ms):
        for m in (self.m_alloc, self.m_dealloc, self.m_release, self.m_coalesce):
            self.w.contracts.pop(m.name, None)
        for m in ms:
            self.w.contracts[m.name] = m.handler()

    def v_allocate(self):
        def setup(ex, st):
            self.pre_state(ex, st)
            b = z3.Int("bytes")
            st.assume(b > 0, b < MAX64)
            return [P(addr=self.this), b]
        self.only(self.m_release, self.m_coalesce, self.m_dealloc)
        return self.m_alloc.verify(self.w, setup)

    def v_deallocate(self):
        def setup(ex, st):
            self.pre_state(ex, st)
            p, sz, n = z3.Int("ptr"), z3.Int("size"), z3.Int("pn")
            st.assume(p > 0, p < MAX64, sz >= 0, sz < MAX64)
            st.assume(own(st)[n] == self.pm, ex.arr(st, PAIR1)[n] == p)
            return [P(addr=self.this), P(addr=p), sz]
        self.only(self.m_release, self.m_coalesce, self.m_alloc)
        return self.m_dealloc.verify(self.w, setup)

    def v_release(self):
        self.only(self.m_alloc, self.m_dealloc, self.m_coalesce)
        return self.m_release.verify(self.w, self.this_setup())

    def v_coalesce(self):
        self.only(self.m_alloc, self.m_dealloc, self.m_release)

        def sz(ex, st):
            b = z3.Int("suggested")
            st.assume(b >= 0, b < MAX64)
            return b
        return self.m_coalesce.verify(self.w, self.this_setup(sz))

    # ---- what the pool reports
    def v_get(self, name, want, lab):
        self.only()

        def post(ex, st0, st, ret, args):
            for l, f in want(ex, st, ret):
                ex.oblige(st, "%s: %s" % (name, l or lab), f)
            ex.oblige(st, name + ": changes nothing", z3.And(*[frame_except(ex, st0, st, k, []) for k in st.heap if k[0] != "L" and k in st0.heap], *[st.g[g] == st0.g[g] for g in ("isC", "blk", "up", "upsz", "own", "csz")]))
        return verify(self.w, Q + "::" + name, self.this_setup(), post, post_exc=never_throws(name))

    def getters(self):
        q, t, out = self.q, self.this, []
        fields = dict((f, (S_, lab)) for S_, f, lab in self.sums)

        def of_sum(f):
            S_, lab = fields[f]

            def want(ex, st, ret):
                v, ok = S_.value(ex, st)
                return [("reported " + lab, z3.And(ok, ret == v))]
            return want
        for n, f in (("getActualSize", "m_actual_bytes"), ("getReleasableSize", "m_releasable_bytes"), ("getReleasableBlocks", "m_releasable_blocks"), ("getTotalBlocks", "m_total_blocks"), ("getAlignedSize", "m_aligned_bytes")):
            out.append((n, of_sum(f)))
        for n, h, f in (("getActualHighwaterMark", "m_actual_highwatermark", "m_actual_bytes"), ("getAlignedHighwaterMark", "m_aligned_highwatermark", "m_aligned_bytes")):
            def want(ex, st, ret, h=h, f=f):
                v, ok = fields[f][0].value(ex, st)
                return [("reported high watermark is not below the size", z3.And(ok, ret >= v)), ("the high watermark recorded is reported", ret == getattr(q, h)(ex, st, t))]
            out.append((n, want))

        def in_pool(ex, st, ret):
            st.assume(csz(st)[self.pm] < MAX63, csz(st)[self.sm] < MAX63)  # that many nodes do not fit in memory
            return [("reported block count equals the number of live and free chunks", ret == csz(st)[self.pm] + csz(st)[self.sm])]

        def largest(ex, st, ret):
            x, isC, c = z3.Int("lx"), self.isC(st), self.c
            fr = lambda o: z3.And(isC[o], c.free(ex, st, o) == 1)
            return [("reported size equals that of a free chunk, or zero", z3.Or(ret == 0, z3.Exists([x], z3.And(fr(x), c.size(ex, st, x) == ret), patterns=[isC[x]]))),
                    ("reported size equals the largest: no free chunk is larger", z3.ForAll([x], z3.Implies(fr(x), c.size(ex, st, x) <= ret), patterns=[isC[x]]))]
        out += [("getBlocksInPool", in_pool), ("getLargestAvailableBlock", largest)]
        return [named("get_" + n, lambda n=n, w_=w_: self.v_get(n, w_, "")) for n, w_ in out]

    # ---- creation and destruction
    def v_ctor(self):
        from .wrappers import install_allocator
        C, so, got = self.w.contracts, ufun("strategy_of", I, I), {}
        save = dict(C)
        install_allocator(self.w)
        self.only()

        def mixin(ex, st, args, ins):
            ex.oblige(st, "constructor: the alignment layer gets the requested alignment and the given allocator", z3.And(args[1] == z3.Int("alignment"), T(ex, args[2]) == so(z3.Int("allocator"))), "pre")
            ex.gset(st, "mixed", G(st, "mixed", I) + 1)
            return [(st, 'ret', None)]

        def recs(ex, st, args, ins):
            ex.oblige(st, "constructor: records are as large as a chunk", args[1] >= self.w.sizeof(CH), "pre")
            return [(st, 'ret', None)]
        C[AA + "::AlignedAllocation"], C[FMP + "::FixedMallocPool"] = mixin, recs
        C[Q + "::pool_allocator::pool_allocator"] = C[Q + "::pool_allocator::~pool_allocator"] = fresh_ret
        cfg = Flds(self.w, Q, ["m_first_minimum_pool_allocation_size", "m_next_minimum_pool_allocation_size"])

        def setup(ex, st):
            t, x = self.this, z3.Int("cx0")
            st.assume(t > 0, t < MAX64 - 100000)
            own(st), csz(st), rank(st)
            ex.gset(st, "mixed", z3.IntVal(0))
            r = [P(addr=t)]
            for n in ("name", "id", "allocator", "first", "next", "alignment", "heuristic"):
                v = z3.Int(n)
                st.assume(v >= (0 if n in ("id", "first", "next", "alignment") else 1), v < (2 ** 31 if n == "id" else MAX64 - 4096))
                r.append(v if n in ("id", "first", "next", "alignment") else P(addr=v))
            return r

        def post(ex, st0, st, ret, args):
            n = z3.Int("cn0")
            o = own(st)
            ex.oblige(st, "constructor: the pool starts without chunks", z3.And(z3.ForAll([n], z3.And(o[n] != self.pm, o[n] != self.sm), patterns=[o[n]]), csz(st)[self.pm] == 0, csz(st)[self.sm] == 0))
            ex.oblige(st, "constructor: every size equals zero, every count equals zero", z3.And(*[getattr(self.q, f)(ex, st, self.this) == 0 for f in self.counters]))
            ex.oblige(st, "constructor: block sizes are the requested ones", z3.And(cfg.m_first_minimum_pool_allocation_size(ex, st, self.this) == args[4], cfg.m_next_minimum_pool_allocation_size(ex, st, self.this) == args[5]))
            ex.oblige(st, "constructor: the alignment layer is set up once", G(st, "mixed", I) == 1)
        try:
            return verify(self.w, Q + "::QuickPool", setup, post, post_exc=never_throws("constructor"))
        finally:
            C.clear()
            C.update(save)

    def v_dtor(self):
        C = self.w.contracts
        self.only(self.m_release)
        for k in (AA + "::~AlignedAllocation", FMP + "::~FixedMallocPool", "std::_Function_base::~_Function_base"):
            C[k] = fresh_ret

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "destructor: every wholly free block is returned upstream", self.no_releasable(ex, st))
            ex.oblige(st, "destructor: blocks with live allocations are kept", self.live_frame(ex, st0, st))
        return verify(self.w, Q + "::~QuickPool", self.this_setup(), post, post_exc=never_throws("destructor"), fn=[f for f in self.w.byshort[Q + "::~QuickPool"] if "D2" in f.name][0])

    def all(self):
        return [self.v_allocate, self.v_deallocate, self.v_release, self.v_coalesce] + self.getters() + [self.v_ctor, self.v_dtor]
