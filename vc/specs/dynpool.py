"""DynamicSizePool / DynamicPoolList: the two block lists, their geometry, and exact accounting."""
from ..lib import *

D_ = "DynamicSizePool"
DT = "DynamicSizePool<>"
BK = "DynamicSizePool<>::Block"
FSP = "FixedSizePool"
DPL = "umpire::strategy::DynamicPoolList"
AA = "umpire::strategy::mixins::AlignedAllocation"
TUS = ["umpire/strategy/DynamicPoolList.cpp"]
Al = ufun("AlignedMult", I, B)  # "is a multiple of the pool's alignment"
CNT = ["m_aligned_bytes", "m_aligned_highwatermark", "m_actual_bytes", "m_actual_highwatermark", "m_releasable_blocks", "m_total_blocks"]


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        self.b = Flds(w, BK, ["data", "size", "blockSize", "next"])
        self.p = Flds(w, DT, ["usedBlocks", "freeBlocks"] + CNT)
        self.this = z3.Int("pool")
        b = self.b
        ks = [b.K_size, b.K_blockSize]
        rel = lambda ex, st, o: z3.And(self.F(st, o), b.size(ex, st, o) == b.blockSize(ex, st, o))
        self.rel = rel
        self.S_al = Sum("aligned", lambda ex, st, o: z3.If(z3.And(self.isB(st)[o], self.U(st)[o]), b.size(ex, st, o), 0), ks, ["isB", "U"])
        self.S_rn = Sum("relcount", lambda ex, st, o: z3.If(rel(ex, st, o), 1, 0), ks, ["isB", "U"])
        self.S_ab = Sum("actual", lambda ex, st, o: z3.If(upb(st)[o], ups(st)[o], 0), [], ["up", "upsz"])
        self.S_nb = Sum("blocks", lambda ex, st, o: z3.If(upb(st)[o], 1, 0), [], ["up"])
        self.sums = [(self.S_al, "m_aligned_bytes", "aligned size equals the sum of the sizes of live pieces"),
                     (self.S_rn, "m_releasable_blocks", "releasable block count equals the number of wholly free blocks"),
                     (self.S_ab, "m_actual_bytes", "actual size equals the bytes held from upstream"),
                     (self.S_nb, "m_total_blocks", "total blocks equals the number of blocks held from upstream")]
        self.tail = None  # what a walk over a list adds up, as a function of the piece it stands at
        self.key = None  # address a list search compares with
        self.goal = None  # block a list search looks for
        self.install_callees()
        self.methods()

    def isB(self, st):
        return G(st, "isB", AIB)

    def U(self, st):
        return G(st, "U", AIB)

    def F(self, st, x):
        return z3.And(self.isB(st)[x], z3.Not(self.U(st)[x]))

    def pos(self, st):
        return G(st, "pos", AII)

    def succ(self, st):
        return G(st, "succ", AII)

    def pred(self, st):
        return G(st, "pred", AII)

    def first(self, st):
        return G(st, "first", AII)

    def blk(self, st):
        return G(st, "blk", AII)

    # ---- callees
    def install_callees(self):
        C, sp = self.w.contracts, self

        def closure(ex, st):
            x = z3.Int("alx")
            isB = sp.isB(st)
            for r in st.g.get("rounded", ()):
                st.assume(z3.ForAll([x], z3.Implies(z3.And(isB[x], Al(sp.b.data(ex, st, x))), Al(sp.b.data(ex, st, x) + r)), patterns=[isB[x]]))
                for p in st.g.get("newblk", ()):
                    st.assume(z3.Implies(Al(p), Al(p + r)))

        def round_up(ex, st, args, ins):
            ex.used_contracts.add(AA + "::aligned_round_up")
            s = args[1]
            r = fint("rounded")
            s2 = st.copy()
            st.assume(r >= s, r < MAX64, Al(r), z3.Implies(s > 0, r > 0))
            st.g["rounded"] = st.g.get("rounded", ()) + (r,)
            closure(ex, st)
            return [(s2, 'exc', Exc()), (st, 'ret', r)]

        def al_alloc(ex, st, args, ins):
            ex.used_contracts.add(AA + "::aligned_allocate")
            b = args[1]
            s2 = st.copy()
            s2.trace.append(("upstream throws",))
            p = fint("blk")
            u, s = upb(st), ups(st)
            x = z3.Int("x")
            st.assume(p > 0, b < MAX63, p + b < MAX64, z3.Not(u[p]), Al(p))
            st.assume(z3.ForAll([x], z3.Implies(u[x], disjoint(p, b, x, s[x])), patterns=[u[x]]))
            ex.gset(st, "up", z3.Store(u, p, z3.BoolVal(True)))
            ex.gset(st, "upsz", z3.Store(s, p, b))
            st.g["newblk"] = st.g.get("newblk", ()) + (p,)
            closure(ex, st)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=p))]

        def al_dealloc(ex, st, args, ins):
            ex.used_contracts.add(AA + "::aligned_deallocate")
            p = T(ex, args[1])
            u, x = upb(st), z3.Int("n")
            ex.oblige(st, "a block is returned upstream only while it is held (never twice, never an interior pointer)", u[p], "pre")
            ex.oblige(st, "no live allocation lies in a block returned upstream",
                      z3.ForAll([x], z3.Implies(sp.U(st)[x], sp.blk(st)[x] != p), patterns=[sp.U(st)[x]]), "pre")
            st.assume(u[p])
            ex.gset(st, "up", z3.Store(u, p, z3.BoolVal(False)))
            return [(st, 'ret', None)]

        def bp_alloc(ex, st, args, ins):
            ex.used_contracts.add(FSP + "::allocate")
            p, g = fint("blkrec"), fint("gblk")
            st.assume(p > 0, p < MAX64 - 4096, z3.Not(sp.isB(st)[p]), z3.Not(sp.U(st)[p]))
            ex.gset(st, "isB", z3.Store(sp.isB(st), p, z3.BoolVal(True)))
            ex.gset(st, "blk", z3.Store(sp.blk(st), p, g))
            st.g["pending"] = st.g.get("pending", ()) + ((p, g),)
            return [(st, 'ret', P(addr=p))]

        def bp_dealloc(ex, st, args, ins):
            ex.used_contracts.add(FSP + "::deallocate")
            p = T(ex, args[1])
            ex.oblige(st, "a block record is freed exactly once", sp.isB(st)[p], "pre")
            ex.gset(st, "isB", z3.Store(sp.isB(st), p, z3.BoolVal(False)))
            # ghost: unlink the piece from the address order
            sp.fix_ghost(ex, st)
            q, n = sp.pred(st)[p], sp.succ(st)[p]
            ex.gset(st, "succ", z3.Store(sp.succ(st), q, n))
            ex.gset(st, "pred", z3.Store(sp.pred(st), n, q))
            for f in ("data", "size", "blockSize", "next"):
                v = fint("freed")
                st.assume(v >= 0, v < MAX64)
                ex.setfld(st, getattr(sp.b, "K_" + f), p + getattr(sp.b, "A_" + f), v)
            return [(st, 'ret', None)]

        C[AA + "::aligned_round_up"] = round_up
        C[AA + "::aligned_allocate"] = al_alloc
        C[AA + "::aligned_deallocate"] = al_dealloc
        C[FSP + "::allocate"] = bp_alloc
        C[FSP + "::deallocate"] = bp_dealloc

    def fix_ghost(self, ex, st):
        """ghost definitions of the pieces created since the reference state (which satisfies the invariant): the home of a piece is the held
        block that contains its start; a piece with a block size starts its block, any other follows the piece it was split from"""
        u, us = upb(st), ups(st)
        y = z3.Int("fgy")
        pend = st.g.get("pending", ())
        ref = st.g.get("ref")
        D, S, BS = (lambda s_, o, f=f: f(ex, s_, o) for f in (self.b.data, self.b.size, self.b.blockSize))
        for p, g in pend:
            d = D(st, p)
            st.assume(z3.ForAll([y], z3.Implies(z3.And(u[y], y <= d, d < y + us[y]), g == y), patterns=[u[y]]))
            ex.gset(st, "first", z3.Store(self.first(st), z3.If(BS(st, p) != 0, d, z3.IntVal(0)), p))
        for p, g in pend:
            d = D(st, p)
            q = fint("gpred")
            B0 = self.isB(ref)
            st.assume(z3.ForAll([y], z3.Implies(z3.And(B0[y], D(ref, y) < d, d < D(ref, y) + S(ref, y)), q == y), patterns=[B0[y]]))
            e = q
            for r, _ in pend:
                if not r.eq(p):
                    e = z3.If(z3.And(BS(st, r) != 0, D(st, r) < d, d < D(st, r) + BS(st, r)), r, e)
            e = z3.If(BS(st, p) != 0, z3.IntVal(0), e)
            pr = fint("gp")
            st.assume(pr == e)
            n = z3.If(pr == 0, z3.IntVal(0), self.succ(st)[pr])
            ex.gset(st, "succ", z3.Store(z3.Store(self.succ(st), pr, p), p, n))
            ex.gset(st, "pred", z3.Store(z3.Store(self.pred(st), n, p), p, pr))
        st.g.pop("pending", None)

    # ---- representation invariant
    def inv(self, ex, st, sums=True):
        self.fix_ghost(ex, st)
        b, t = self.b, self.this
        x, y = z3.Ints("bx by")
        isB, U, u, us, bk, pos, sc, pd, fs = self.isB(st), self.U(st), upb(st), ups(st), self.blk(st), self.pos(st), self.succ(st), self.pred(st), self.first(st)
        D, S, BS, NX = (lambda o, f=f: f(ex, st, o) for f in (b.data, b.size, b.blockSize, b.next))
        F = lambda o: self.F(st, o)
        fb, ub = self.p.freeBlocks(ex, st, t), self.p.usedBlocks(ex, st, t)
        al = lambda f: z3.ForAll([x], z3.Implies(isB[x], f), patterns=[isB[x]])
        al2 = lambda h, f: z3.ForAll([x, y], z3.Implies(z3.And(isB[x], isB[y], h), f), patterns=[z3.MultiPattern(isB[x], isB[y])])
        e = D(x) + S(x)
        r = [
            ("pieces are non-empty and non-null", al(z3.And(x > 0, S(x) > 0, D(x) > 0))),
            ("live pieces are pieces", z3.ForAll([x], z3.Implies(U[x], isB[x]), patterns=[U[x]])),
            ("piece starts are aligned", al(Al(D(x)))),
            ("every piece lies inside a block held from upstream", al(z3.And(u[bk[x]], D(x) >= bk[x], e <= bk[x] + us[bk[x]]))),
            ("the first piece of a block carries the block's size", al(BS(x) == z3.If(D(x) == bk[x], us[bk[x]], 0))),
            ("pieces never overlap", al2(x != y, disjoint(D(x), S(x), D(y), S(y)))),
            ("free list head", z3.Or(fb == 0, F(fb))),
            ("free list links ascend", z3.ForAll([x], z3.Implies(F(x), z3.Or(NX(x) == 0, z3.And(F(NX(x)), D(NX(x)) > D(x)))), patterns=[NX(x)])),
            ("free list reaches every free piece", z3.ForAll([x, y], z3.Implies(z3.And(F(x), F(y), D(x) < D(y)), z3.And(NX(x) != 0, D(NX(x)) <= D(y))), patterns=[z3.MultiPattern(NX(x), isB[y])])),
            ("free list starts at the lowest free piece", al(z3.Implies(F(x), z3.And(fb != 0, D(fb) <= D(x))))),
            ("live list head", z3.Or(ub == 0, U[ub])),
            ("live list links", z3.ForAll([x], z3.Implies(U[x], z3.Or(NX(x) == 0, z3.And(U[NX(x)], pos[NX(x)] < pos[x]))), patterns=[NX(x)])),
            ("live list order is strict", z3.ForAll([x, y], z3.Implies(z3.And(U[x], U[y], x != y), pos[x] != pos[y]), patterns=[z3.MultiPattern(U[x], U[y])])),
            ("live list reaches every live piece", z3.ForAll([x, y], z3.Implies(z3.And(U[x], U[y], pos[x] > pos[y]), z3.And(NX(x) != 0, pos[NX(x)] >= pos[y])), patterns=[z3.MultiPattern(NX(x), U[y])])),
            ("live list starts at the newest live piece", z3.ForAll([x], z3.Implies(U[x], z3.And(ub != 0, pos[ub] >= pos[x])), patterns=[U[x]])),
            ("pieces tile their block", z3.ForAll([x], z3.Implies(isB[x], z3.If(sc[x] == 0, e == bk[x] + us[bk[x]],
                z3.And(isB[sc[x]], pd[sc[x]] == x, D(sc[x]) == e, bk[sc[x]] == bk[x]))), patterns=[sc[x]])),
            ("pieces follow each other in address order", z3.ForAll([x], z3.Implies(isB[x], z3.If(pd[x] == 0, D(x) == bk[x], z3.And(isB[pd[x]], sc[pd[x]] == x))), patterns=[pd[x]])),
            ("every block has a first piece", z3.ForAll([x], z3.Implies(u[x], z3.And(isB[fs[x]], D(fs[x]) == x, bk[fs[x]] == x)), patterns=[fs[x]])),
            ("no two adjacent pieces of a block are free", z3.ForAll([x], z3.Implies(z3.And(F(x), sc[x] != 0), U[sc[x]]), patterns=[sc[x]])),
            ("blocks held are disjoint", z3.And(*up_wf(st))),
            ("actual high watermark is at least the actual size", self.p.m_actual_highwatermark(ex, st, t) >= self.p.m_actual_bytes(ex, st, t)),
            ("aligned high watermark is at least the aligned size", self.p.m_aligned_highwatermark(ex, st, t) >= self.p.m_aligned_bytes(ex, st, t)),
        ]
        if sums:
            for S_, fld, lab in self.sums:
                if ("sumref_" + S_.name) not in st.g:
                    S_.reset(ex, st)
                val, ok = S_.value(ex, st)
                r.append((lab, z3.And(ok, getattr(self.p, fld)(ex, st, t) == val)))
        return r

    def zero(self, st):
        return z3.And(z3.Not(self.isB(st)[0]), z3.Not(self.U(st)[0]), z3.Not(upb(st)[0]))

    def pre_state(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        self.isB(st), self.U(st), self.pos(st), self.succ(st), self.pred(st), self.first(st), self.blk(st), upb(st), ups(st)
        st.assume(self.zero(st))
        for lab, f in self.inv(ex, st):
            st.assume(f)
        st.g["ref"] = st.copy()

    def havoc(self, ex, st):
        for f in ("data", "size", "blockSize", "next"):
            ex.havoc_key(st, getattr(self.b, "K_" + f))
        for f in CNT + ["usedBlocks", "freeBlocks"]:
            ex.setfld(st, getattr(self.p, "K_" + f), self.this + getattr(self.p, "A_" + f), fint(f))
            st.assume(getattr(self.p, f)(ex, st, self.this) >= 0, getattr(self.p, f)(ex, st, self.this) < MAX64)
        for g in ("isB", "U", "pos", "succ", "pred", "first", "blk", "up", "upsz"):
            ex.gset(st, g, z3.Const(fresh_name("h_" + g), st.g[g].sort()))
        for k in [k for k in st.g if k.startswith("sumref_")] + ["pending"]:
            st.g.pop(k, None)
        st.assume(self.zero(st))
        st.g["ref"] = st.copy()

    # ---- relations
    def keep(self, ex, st0, st, except_b=None):
        x = z3.Int("kx")
        U0, U1 = self.U(st0), self.U(st)
        h = U0[x] if except_b is None else z3.And(U0[x], self.b.data(ex, st0, x) != except_b)
        return z3.ForAll([x], z3.Implies(h, z3.And(U1[x], self.b.data(ex, st, x) == self.b.data(ex, st0, x), self.b.size(ex, st, x) == self.b.size(ex, st0, x),
                         self.blk(st)[x] == self.blk(st0)[x])), patterns=[U0[x]])

    def only(self, ex, st0, st, new=None):
        x = z3.Int("ox")
        U0, U1 = self.U(st0), self.U(st)
        g = z3.And(U0[x], self.b.data(ex, st, x) == self.b.data(ex, st0, x))
        if new is not None:
            g = z3.Or(g, self.b.data(ex, st, x) == new)
        return z3.ForAll([x], z3.Implies(U1[x], g), patterns=[U1[x]])

    def all_used(self, ex, st):
        """every block still held contains a live piece"""
        x = z3.Int("au")
        u, U, fs = upb(st), self.U(st), self.first(st)
        f = fs[x]
        g = self.succ(st)[f]
        return z3.ForAll([x], z3.Implies(u[x], z3.Or(z3.And(U[f], self.blk(st)[f] == x), z3.And(U[g], self.blk(st)[g] == x))), patterns=[u[x]])

    # ---- contracts
    def methods(self):
        sp = self
        inv_pre = lambda ex, st, args: sp.inv(ex, st)

        def a_pre(ex, st, args):
            return [("size is positive", args[1] > 0)] + sp.inv(ex, st)

        def a_post(ex, st0, st, ret, args):
            p, x = ex.pterm(ret), z3.Int("ax")
            h = sp.p.usedBlocks(ex, st, sp.this)
            return sp.inv(ex, st) + [
                ("result is a live piece with at least the requested size", z3.And(sp.U(st)[h], sp.b.data(ex, st, h) == p, sp.b.size(ex, st, h) >= args[1])),
                ("result is aligned and non-null", z3.And(p > 0, Al(p))),
                ("result was not live before", z3.And(z3.Not(sp.U(st0)[h]), z3.ForAll([x], z3.Implies(sp.U(st0)[x], sp.b.data(ex, st0, x) != p), patterns=[sp.U(st0)[x]]))),
                ("other live allocations keep their place and extent", sp.keep(ex, st0, st)),
                ("nothing else becomes live", sp.only(ex, st0, st, p))]

        def a_exc(ex, st0, st, args):
            return sp.inv(ex, st) + [("live allocations keep their place and extent", sp.keep(ex, st0, st)), ("nothing becomes live", sp.only(ex, st0, st))]
        self.m_alloc = Method(D_ + "::allocate", a_pre, a_post, a_exc, sp.havoc)

        def d_pre(ex, st, args):
            x = z3.Int("dx")
            return sp.inv(ex, st) + [("pointer is a live allocation of this pool", z3.Exists([x], z3.And(sp.U(st)[x], sp.b.data(ex, st, x) == ex.pterm(args[1]))))]

        def d_post(ex, st0, st, ret, args):
            p, x = ex.pterm(args[1]), z3.Int("dx")
            return sp.inv(ex, st) + [
                ("pointer is no longer live", z3.ForAll([x], z3.Implies(sp.U(st)[x], sp.b.data(ex, st, x) != p), patterns=[sp.U(st)[x]])),
                ("other live allocations keep their place and extent", sp.keep(ex, st0, st, p)),
                ("nothing becomes live", sp.only(ex, st0, st))]
        self.m_dealloc = Method(D_ + "::deallocate", d_pre, d_post, None, sp.havoc)

        same = lambda ex, st0, st: sp.inv(ex, st) + [("live allocations keep their place and extent", sp.keep(ex, st0, st)), ("nothing becomes live", sp.only(ex, st0, st))]

        def f_post(ex, st0, st, ret, args):
            return same(ex, st0, st) + [("every wholly free block is returned upstream", sp.all_used(ex, st))]

        def c_post(ex, st0, st, ret, args):
            return same(ex, st0, st)
        self.m_free = Method(D_ + "::freeReleasedBlocks", inv_pre, f_post, None, sp.havoc)
        self.m_release = Method(D_ + "::release", inv_pre, f_post, None, sp.havoc)
        self.m_coalesce = Method(D_ + "::coalesce", inv_pre, c_post, None, sp.havoc)
        self.ms = [self.m_alloc, self.m_dealloc, self.m_free, self.m_release, self.m_coalesce]
        self.w.all_cands.append(self.cands)

    def cands(self, ctx, vars_):
        ex, entry, sp = ctx.ex, ctx.entry, self
        out = []
        mut = any(x[0] != "L" for x in ctx.W)
        if mut:
            for j, (lab, _) in enumerate(sp.inv(ex, entry.copy())):
                out.append((lab, lambda st, vals, j=j: sp.inv(ex, st)[j][1]))
            out.append(("live kept", lambda st, vals: sp.keep(ex, ex.st0, st)))
            out.append(("live only", lambda st, vals: sp.only(ex, ex.st0, st)))
            out.append(("null is nothing", lambda st, vals: sp.zero(st)))
        ptr = [j for j, (n, ty) in enumerate(vars_) if ty.kind == 'ptr']
        t = self.this
        if sp.tail is not None:
            for j in ptr:
                for i, (n, ty) in enumerate(vars_):
                    if ty.kind == 'int':
                        for lab, f in sp.tail(ex):
                            out.append(("%s (%d,%d)" % (lab, i, j), lambda st, v, i=i, j=j, f=f: f(st, v[i][2], v[j][2])))
        N = lambda st, o: sp.b.next(ex, st, o)
        D = lambda st, o: sp.b.data(ex, st, o)
        wk = lambda c: out.append(c if mut and "pieces before" in c[0] else c + ("weak",))
        for j in ptr:
            for p, _ in entry.g.get("pending", ()):
                wk(("%d not the new piece" % j, lambda st, v, j=j, p=p: v[j][2] != p))
            wk(("%d free or null" % j, lambda st, v, j=j: z3.Or(v[j][2] == 0, sp.F(st, v[j][2]))))
            wk(("%d live or null" % j, lambda st, v, j=j: z3.Or(v[j][2] == 0, sp.U(st)[v[j][2]])))
            if sp.goal is not None:
                wk(("%d not past the piece looked for" % j, lambda st, v, j=j: z3.And(v[j][2] != 0, sp.U(st)[v[j][2]], sp.pos(st)[v[j][2]] >= sp.pos(st)[sp.goal])))
            keys = ([sp.key] if sp.key is not None else []) + list(entry.g.get("newblk", ()))[-1:]
            for k in keys:
                wk(("%d below the address sought" % j, lambda st, v, j=j, k=k: z3.Or(v[j][2] == 0, D(st, v[j][2]) < k)))
            for r in entry.g.get("rounded", ())[-1:]:
                wk(("%d large enough" % j, lambda st, v, j=j, r=r: z3.Or(v[j][2] == 0, sp.b.size(ex, st, v[j][2]) >= r)))
            if mut:
                def visited(st, v, j=j):
                    y = z3.Int("vy")
                    B_ = sp.isB(st)
                    return z3.ForAll([y], z3.Implies(z3.And(B_[y], sp.rel(ex, st, y)), z3.And(v[j][2] != 0, D(st, y) >= D(st, v[j][2]))), patterns=[B_[y]])
                wk(("pieces before %d are not releasable" % j, visited))
            for i in ptr:
                if i == j:
                    continue
                for nm, head, mem in (("free", sp.p.freeBlocks, lambda st, o: sp.F(st, o)), ("live", sp.p.usedBlocks, lambda st, o: sp.U(st)[o])):
                    link = lambda st, v, i=i, j=j, head=head, mem=mem: z3.Or(z3.And(v[i][2] == 0, v[j][2] == head(ex, st, t)), z3.And(v[i][2] != 0, mem(st, v[i][2]), N(st, v[i][2]) == v[j][2]))
                    wk(("%d precedes %d in the %s list" % (i, j, nm), link))
                    wk(("%d precedes %d in the %s list, if any" % (i, j, nm), lambda st, v, j=j, link=link: z3.Or(v[j][2] == 0, link(st, v))))
        return out

    # ---- obligations
    def use(self, *ms):
        for m in self.ms:
            self.w.contracts.pop(m.name, None)
        for m in ms:
            self.w.contracts[m.name] = m.handler()

    def run(self, m, setup, ghost=None, **kw):
        pf, xf = m.post, m.post_exc
        m2 = Method(m.name, m.pre, (lambda ex, st0, st, ret, args: (ghost and ghost(ex, st0, st, args), pf(ex, st0, st, ret, args))[1]), xf, m.havoc)
        return m2.verify(self.w, setup, **kw)

    def v_allocate(self):
        def setup(ex, st):
            self.pre_state(ex, st)
            b = z3.Int("bytes")
            st.assume(b > 0, b < MAX64)
            return [P(addr=self.this), b]

        def ghost(ex, st0, st, args):
            h = self.p.usedBlocks(ex, st, self.this)
            h0 = self.b.next(ex, st, h)
            ex.gset(st, "pos", z3.Store(self.pos(st), h, z3.If(h0 == 0, z3.IntVal(0), self.pos(st)[h0] + 1)))
            ex.gset(st, "U", z3.Store(self.U(st), h, z3.BoolVal(True)))
        self.use(self.m_free)
        return self.run(self.m_alloc, setup, ghost)

    def v_deallocate(self):
        c, p = z3.Int("the_piece"), z3.Int("ptr")
        self.goal, self.key = c, p

        def setup(ex, st):
            self.pre_state(ex, st)
            st.assume(p > 0, p < MAX64, self.U(st)[c], self.b.data(ex, st, c) == p)
            return [P(addr=self.this), P(addr=p)]

        def ghost(ex, st0, st, args):
            ex.gset(st, "U", z3.Store(self.U(st), c, z3.BoolVal(False)))
        self.use()
        return self.run(self.m_dealloc, setup, ghost)

    def simple(self, *more):
        def setup(ex, st):
            self.pre_state(ex, st)
            r = [P(addr=self.this)]
            for n in more:
                v = z3.Int(n)
                st.assume(v >= 0, v < MAX64)
                r.append(v)
            return r
        return setup

    def v_free(self):
        self.use()
        return self.run(self.m_free, self.simple())

    def v_release(self):
        self.use(self.m_free)
        return self.run(self.m_release, self.simple())

    def v_coalesce(self):
        self.use(self.m_free, self.m_alloc, self.m_dealloc)
        return self.run(self.m_coalesce, self.simple("suggested"))

    # ---- DynamicPoolList over these contracts
    def list_setup(self, kind):
        off = self.w.off(DPL, "dpa")

        def setup(ex, st):
            self.pre_state(ex, st)
            st.assume(self.this > off)
            a = P(addr=self.this - off)
            if kind == "allocate":
                b = z3.Int("bytes")
                st.assume(b > 0, b < MAX64)
                return [a, b]
            if kind == "deallocate":
                p, n, c = z3.Int("ptr"), z3.Int("size"), z3.Int("the_piece")
                st.assume(p > 0, p < MAX64, n >= 0, n < MAX64, self.U(st)[c], self.b.data(ex, st, c) == p)
                return [a, P(addr=p), n]
            return [a]
        return setup

    def v_list(self, kind, m):
        self.use(*self.ms)
        m2 = Method(DPL + "::" + kind, m.pre, m.post, m.post_exc, m.havoc)
        return m2.verify(self.w, self.list_setup(kind))

    # ---- what the pool reports
    def v_get(self, name, want, tail=None, facts=None):
        self.use()
        self.tail = tail
        su = self.list_setup("")

        def setup(ex, st):
            r = su(ex, st)
            if facts:
                facts(ex, st)
            return r

        def post(ex, st0, st, ret, args):
            for l, f in want(ex, st, ret):
                ex.oblige(st, "%s: %s" % (name, l), f)
            ex.oblige(st, name + ": changes nothing", z3.And(*[frame_except(ex, st0, st, k, []) for k in st.heap if k[0] != "L" and k in st0.heap], *[st.g[g] == st0.g[g] for g in ("isB", "U", "blk", "up", "upsz")]))
        try:
            return verify(self.w, DPL + "::" + name, setup, post, post_exc=never_throws(name))
        finally:
            self.tail = None

    def getters(self):
        t, p, out = self.this, self.p, []
        fields = dict((f, (S_, lab)) for S_, f, lab in self.sums)

        def of_sum(f):
            def want(ex, st, ret):
                v, ok = fields[f][0].value(ex, st)
                return [("reported " + fields[f][1], z3.And(ok, ret == v))]
            return want
        for n, f in (("getActualSize", "m_actual_bytes"), ("getReleasableBlocks", "m_releasable_blocks"), ("getTotalBlocks", "m_total_blocks"), ("getAlignedSize", "m_aligned_bytes")):
            out.append((n, of_sum(f), None, None))
        for n, h, f in (("getActualHighwaterMark", "m_actual_highwatermark", "m_actual_bytes"), ("getAlignedHighwaterMark", "m_aligned_highwatermark", "m_aligned_bytes")):
            def want(ex, st, ret, h=h, f=f):
                v, ok = fields[f][0].value(ex, st)
                return [("reported high watermark is not below the size", z3.And(ok, ret >= v)), ("the high watermark recorded is reported", ret == getattr(p, h)(ex, st, t))]
            out.append((n, want, None, None))
        # a walk over a list: definition of what is left to add from a piece on (the lists are finite and visit every piece once)
        rs, cu, cf = ufun("releasable_from", I, I), ufun("live_from", I, I), ufun("free_from", I, I)

        def defs(ex, st):
            x = z3.Int("wx")
            NX = lambda o: self.b.next(ex, st, o)
            for f, mem, add, top in ((rs, lambda o: self.F(st, o), lambda o: z3.If(self.rel(ex, st, o), self.b.blockSize(ex, st, o), 0), MAX64),
                                     (cf, lambda o: self.F(st, o), lambda o: z3.IntVal(1), MAX63), (cu, lambda o: self.U(st)[o], lambda o: z3.IntVal(1), MAX63)):
                st.assume(f(0) == 0, z3.ForAll([x], z3.And(f(x) >= 0, f(x) < top), patterns=[f(x)]))
                st.assume(z3.ForAll([x], z3.Implies(mem(x), f(x) == add(x) + f(NX(x))), patterns=[f(x)]))
        fb, ub = lambda ex, st: p.freeBlocks(ex, st, t), lambda ex, st: p.usedBlocks(ex, st, t)
        out.append(("getReleasableSize", lambda ex, st, r: [("reported releasable size equals the sum over the wholly free blocks of the free list", r == rs(fb(ex, st)))],
                    lambda ex: [("walked", lambda st, i, j: z3.And(i >= 0, i + rs(j) == rs(fb(ex, st))))], defs))
        out.append(("getBlocksInPool", lambda ex, st, r: [("reported block count equals the pieces of both lists", r == cf(fb(ex, st)) + cu(ub(ex, st)))],
                    lambda ex: [("walked live", lambda st, i, j: z3.And(i >= 0, i + cu(j) == cu(ub(ex, st)))), ("walked free", lambda st, i, j: z3.And(i >= 0, i + cf(j) == cf(fb(ex, st)) + cu(ub(ex, st))))], defs))

        def some(ex, st, r):
            x, isB = z3.Int("sx"), self.isB(st)
            return z3.Or(r == 0, z3.Exists([x], z3.And(self.F(st, x), self.b.size(ex, st, x) == r), patterns=[isB[x]]))

        def most(ex, st, r, j):
            x, isB = z3.Int("mx"), self.isB(st)
            return z3.ForAll([x], z3.Implies(z3.And(self.F(st, x), z3.Or(j == 0, self.b.data(ex, st, x) < self.b.data(ex, st, j))), self.b.size(ex, st, x) <= r), patterns=[isB[x]])
        out.append(("getLargestAvailableBlock", lambda ex, st, r: [("reported size equals that of a free piece, or zero", some(ex, st, r)), ("reported size equals the largest: no free piece is larger", most(ex, st, r, z3.IntVal(0)))],
                    lambda ex: [("largest so far is a piece", lambda st, i, j: some(ex, st, i)), ("largest so far", lambda st, i, j: most(ex, st, i, j))], None))
        return [named("get_" + n, lambda n=n, a=a, b=b, c=c: self.v_get(n, a, b, c)) for n, a, b, c in out]

    # ---- creation and destruction
    def v_ctor(self):
        from .wrappers import install_allocator
        C, so = self.w.contracts, ufun("strategy_of", I, I)
        save = dict(C)
        install_allocator(self.w)
        self.use()
        off = self.w.off(DPL, "dpa")

        def mixin(ex, st, args, ins):
            ex.oblige(st, "constructor: the alignment layer gets the requested alignment and the given allocator", z3.And(args[1] == z3.Int("alignment"), T(ex, args[2]) == so(z3.Int("allocator"))), "pre")
            ex.gset(st, "mixed", G(st, "mixed", I) + 1)
            return [(st, 'ret', None)]
        C[AA + "::AlignedAllocation"], C[FSP + "::FixedSizePool"] = mixin, fresh_ret
        cfg = Flds(self.w, DT, ["m_first_minimum_pool_allocation_size", "m_next_minimum_pool_allocation_size"])

        def setup(ex, st):
            t = self.this - off
            st.assume(t > 0, t < MAX64 - 100000)
            ex.gset(st, "mixed", z3.IntVal(0))
            r = [P(addr=t)]
            for n in ("name", "id", "allocator", "first", "next", "alignment", "heuristic"):
                v = z3.Int(n)
                num = n in ("id", "first", "next", "alignment")
                st.assume(v >= (0 if num else 1), v < (2 ** 31 if n == "id" else MAX64 - 4096))
                r.append(v if num else P(addr=v))
            return r

        def post(ex, st0, st, ret, args):
            t = self.this
            ex.oblige(st, "constructor: both lists are empty", z3.And(self.p.usedBlocks(ex, st, t) == 0, self.p.freeBlocks(ex, st, t) == 0))
            ex.oblige(st, "constructor: every size equals zero, every count equals zero", z3.And(*[getattr(self.p, f)(ex, st, t) == 0 for f in CNT]))
            ex.oblige(st, "constructor: block sizes are the requested ones", z3.And(cfg.m_first_minimum_pool_allocation_size(ex, st, t) == args[4], cfg.m_next_minimum_pool_allocation_size(ex, st, t) == args[5]))
            ex.oblige(st, "constructor: the alignment layer is set up once", G(st, "mixed", I) == 1)
        try:
            return verify(self.w, DPL + "::DynamicPoolList", setup, post, post_exc=never_throws("constructor"))
        finally:
            C.clear()
            C.update(save)

    def v_dtor(self):
        C = self.w.contracts
        self.use(self.m_free)
        for k in (AA + "::~AlignedAllocation", FSP + "::~FixedSizePool", "std::_Function_base::~_Function_base"):
            C[k] = fresh_ret

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "destructor: every wholly free block is returned upstream", self.all_used(ex, st))
            ex.oblige(st, "destructor: blocks with live allocations are kept", self.keep(ex, st0, st))
        return verify(self.w, DPL + "::~DynamicPoolList", self.list_setup(""), post, post_exc=never_throws("destructor"), fn=[f for f in self.w.byshort[DPL + "::~DynamicPoolList"] if "D2" in f.name][0])

    def all(self):
        r = self.getters() + [self.v_ctor, self.v_dtor, self.v_allocate, self.v_deallocate, self.v_free, self.v_release, self.v_coalesce]
        for k, m in (("allocate", self.m_alloc), ("deallocate", self.m_dealloc), ("release", self.m_release), ("coalesce", self.m_coalesce)):
            r.append(named("list_" + k, lambda k=k, m=m: self.v_list(k, m)))
        return r
