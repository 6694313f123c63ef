"""FixedPool: fixed-size objects in blocks from upstream, one bit per object in a separate bitmap."""
from ..lib import *
from ..vec import Vec
from ..bits import *
from .. import bits, stl
from .fmpool import Spec as FM, mulB, at, R32
from .wrappers import install_allocator

FP = "umpire::strategy::FixedPool"
PL = FP + "::Pool"
TUS = ["umpire/strategy/FixedPool.cpp"]
wd = ufun("word_of", I, I)
bt = ufun("bit_of", I, I)
AAI = z3.ArraySort(I, AII)


class Spec(FM):
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_allocator(w)
        install_bits(w)
        self.this = z3.Int("this")
        self.names = ["m_obj_bytes", "m_obj_per_pool", "m_data_bytes", "m_avail_bytes", "m_current_bytes", "m_actual_bytes", "m_highwatermark", "m_strategy"]
        self.f = Flds(w, FP, self.names)
        self.v = Vec(w, FP, "m_pool", PL, ["strategy", "data", "avail", "num_avail"])
        self.Bc, self.Nc, self.Wc = z3.Int("object_bytes"), z3.Int("objects_per_pool"), z3.Int("words_per_pool")
        self.mode = None
        w.scaled = self.scaled
        w.all_cands.append(self.cands)
        w.guarded[R32] = self.guard
        w.guarded[self.v.key("data")] = self.dread
        w.guarded[self.v.key("avail")] = self.aread
        self.v.watch(self.this)
        C = w.contracts
        C["std::vector::emplace_back"] = self.emplace
        C["std::remove_if"] = self.remove_if
        C["std::vector::erase"] = self.erase
        C["malloc"], C["free"], C["memset"] = self.malloc, self.free, self.memset
        A = "umpire::strategy::AllocationStrategy::"
        a0, d0 = C[A + "allocate_internal"], C[A + "deallocate_internal"]

        def alloc(ex, st, args, ins):
            outs = a0(ex, st, args, ins)
            if self.mode == "ctor":
                outs = [o for o in outs if o[1] == 'ret']  # a noexcept constructor: upstream failing there ends the program
            for s, k, r in outs:
                if k == 'ret':
                    ex.gset(s, "act", G(s, "act", I) + self.per())
            return outs

        def dealloc(ex, st, args, ins):
            outs = d0(ex, st, args, ins)
            for s, k, r in outs:
                s.assume(G(s, "act", I) >= self.per())  # a sum is at least each of its terms
                ex.gset(s, "act", G(s, "act", I) - self.per())
            return outs
        C[A + "allocate_internal"], C[A + "deallocate_internal"] = alloc, dealloc
        w.on_up_release = self.on_release
        trust("std::remove_if and std::vector::erase", "remove_if keeps exactly the elements the predicate rejects, in order, in front; erase to the end shortens the vector")

    def per(self):
        return self.Wc + mulB(self.Nc)

    def scaled(self, ex, st, op, a, b):
        n = len(st.g.get("_ks", ()))
        r = FM.scaled(self, ex, st, op, a, b)
        if r is not None:
            ks = st.g.get("_ks", ())[n:] if op == 'mul' else (r,)
            for k in ks:
                st.assume(wd(k) == k / 32, bt(k) == k % 32)
        return r

    # blk/idx/home as in FixedMallocPool; hp = place among the objects handed out of the block (0 = free), who = object at a place,
    # wa/wb = word and bit of an object, ow = object of a word and bit, hav = pool of a bitmap, mal/msz = memory held from malloc
    GH = (("blk", AII), ("idx", AII), ("hp", AII), ("who", AAI), ("home", AII), ("wa", AII), ("wb", AII), ("ow", AAI), ("hav", AII), ("mal", AIB), ("msz", AII), ("act", I))

    def g(self, st, n):
        return G(st, n, dict(self.GH)[n])

    def aread(self, ex, st, p, write):
        if not write:
            t = simp(ex.arr(st, self.v.key("avail"))[p])
            self.note(st, "_av", t)
            self.note(st, "_ps", simp(p - self.v.f.A_avail))

    def dread(self, ex, st, p, write):
        if not write:
            self.note(st, "_ds", simp(ex.arr(st, self.v.key("data"))[p]))
            self.note(st, "_ps", simp(p - self.v.f.A_data))

    def guard(self, ex, st, a, write):
        self.hints(ex, st)
        ok = [z3.And(a >= v, a + 4 <= v + 4 * self.Wc) for v in st.g.get("_av", ())]
        ex.oblige(st, "the bitmap is accessed inside its memory", z3.Or(ok) if ok else z3.BoolVal(False), "pre")

    def inv(self, ex, st):
        t, v, B, N, W = self.this, self.v, self.Bc, self.Nc, self.Wc
        a, d, k, p, s = z3.Ints("ia id ik ip is")
        blk, idx, hp, mal, home, who, wa, wb, ow, hav = [self.g(st, n) for n in ("blk", "idx", "hp", "mal", "home", "who", "wa", "wb", "ow", "hav")]
        D = lambda x: v.fld(ex, st, "data", x)
        AV = lambda x: v.fld(ex, st, "avail", x)
        NA = lambda x: v.fld(ex, st, "num_avail", x)
        E = lambda x: v.inv(ex, st, t, x)
        m = ex.arr(st, R32, 32)
        h = home[blk[a]]
        A = lambda f, *pats: z3.ForAll([a], z3.Implies(blk[a] != 0, f), patterns=list(pats) or [blk[a]])
        u, us = upb(st), ups(st)
        return [
            ("every object lies at its multiple of the object size in a block held", A(z3.And(idx[a] >= 0, idx[a] < N, a == at(blk[a], idx[a]), hp[a] >= 0, E(h), D(h) == blk[a]))),
            ("every object has its own bit", A(z3.And(wa[a] == AV(h) + 4 * wd(idx[a]), wb[a] == bt(idx[a]), rng(wb[a]), ow[wa[a]][wb[a]] == a))),
            ("every block is divided into its objects", z3.ForAll([d, k], z3.Implies(z3.And(E(home[d]), D(home[d]) == d, k >= 0, k < N), z3.And(blk[at(d, k)] == d, idx[at(d, k)] == k)), patterns=[at(d, k)])),
            ("every pool has its own block from upstream", z3.ForAll([p], z3.Implies(E(p), z3.And(D(p) > 0, D(p) + mulB(N) < MAX63, u[D(p)], us[D(p)] == mulB(N), home[D(p)] == p)), patterns=[D(p)])),
            ("every pool has its own bitmap", z3.ForAll([p], z3.Implies(E(p), z3.And(AV(p) > 0, AV(p) + 4 * W < MAX63, mal[AV(p)], hav[AV(p)] == p)), patterns=[AV(p)])),
            ("counters are in range", z3.ForAll([p], z3.Implies(E(p), NA(p) <= N), patterns=[NA(p)])),
            ("objects handed out have places within the number handed out", A(z3.And(hp[a] <= N - NA(h), z3.Implies(hp[a] > 0, who[blk[a]][hp[a]] == a)))),
            ("every place is that of an object handed out", z3.ForAll([d, s], z3.Implies(z3.And(E(home[d]), D(home[d]) == d, s >= 1, s <= N - NA(home[d])), z3.And(blk[who[d][s]] == d, hp[who[d][s]] == s)), patterns=[who[d][s]])),
            ("the ghost maps lead to pools only", z3.And(z3.ForAll([d], z3.Implies(home[d] != 0, z3.And(E(home[d]), D(home[d]) == d)), patterns=[home[d]]),
                                                          z3.ForAll([d], z3.Implies(hav[d] != 0, z3.And(E(hav[d]), AV(hav[d]) == d)), patterns=[hav[d]]))),
            ("an object's bit tells whether it is free", A((hp[a] == 0) == bit(m[wa[a]], wb[a]))),
        ]

    def consts(self, ex, st):
        f, t = self.f, self.this
        return z3.And(f.m_obj_bytes(ex, st, t) == self.Bc, f.m_obj_per_pool(ex, st, t) == self.Nc, f.m_data_bytes(ex, st, t) == mulB(self.Nc), f.m_avail_bytes(ex, st, t) == self.Wc)

    def acct(self, ex, st):
        f, t = self.f, self.this
        return z3.And(f.m_actual_bytes(ex, st, t) == G(st, "act", I), f.m_highwatermark(ex, st, t) >= f.m_current_bytes(ex, st, t))

    def glob(self, st):
        return z3.And(self.g(st, "blk")[0] == 0, z3.Not(upb(st)[0]), *up_wf(st))

    def base(self, ex, st):
        t = self.this
        ex.keyw.setdefault(R32, 32)
        st.assume(t > 0, t < MAX63, self.Bc >= 1, self.Bc < MAX63, self.Nc >= 1, self.Nc < 2 ** 32, self.Wc == self.Nc / 32 + 1)
        self.lemmas(st)
        self.v.axioms(st)
        bits.axioms(st)
        for n, srt in self.GH:
            G(st, n, srt)
        upb(st), ups(st), G(st, "nthrow", I), G(st, "nup", I)
        st.assume(self.glob(st))
        st.assume(*self.v.wf(ex, st, t))

    def allinv(self, ex, st):
        return self.inv(ex, st) + [("null is no object and upstream blocks are disjoint", self.glob(st)), ("the configuration is kept", self.consts(ex, st)), ("the vector is well formed", z3.And(*self.v.wf(ex, st, self.this))),
                                   ("the actual size equals the blocks held and the high watermark covers the current size", self.acct(ex, st))]

    def pre(self, ex, st):
        self.base(ex, st)
        for _, g in self.allinv(ex, st):
            st.assume(g)

    def malloc(self, ex, st, args, ins):
        r, n, a = fint("bitmap"), args[0], z3.Int("na")
        blk, wa = self.g(st, "blk"), self.g(st, "wa")
        st.assume(r > 0, r + n < MAX63, z3.Not(self.g(st, "mal")[r]), self.g(st, "hav")[r] == 0,
                  z3.ForAll([a], z3.Implies(blk[a] != 0, z3.Or(wa[a] + 4 <= r, wa[a] >= r + n)), patterns=[blk[a]]))
        ex.gset(st, "mal", z3.Store(self.g(st, "mal"), r, z3.BoolVal(True)))
        ex.gset(st, "msz", z3.Store(self.g(st, "msz"), r, n))
        return [(st, 'ret', P(addr=r))]

    def free(self, ex, st, args, ins):
        a = T(ex, args[0])
        ex.oblige(st, "only memory held from malloc is freed, once", z3.Or(a == 0, self.g(st, "mal")[a]), "pre")
        ex.gset(st, "mal", z3.Store(self.g(st, "mal"), a, z3.BoolVal(False)))
        return [(st, 'ret', None)]

    def memset(self, ex, st, args, ins):
        d, v, n = T(ex, args[0]), args[1], args[2]
        x = z3.Int("mx")
        ex.oblige(st, "memory is set only inside a block from malloc", z3.Or(n == 0, z3.And(self.g(st, "mal")[d], n <= self.g(st, "msz")[d])), "pre")
        m0 = ex.arr(st, R32, 32)
        m1 = ex.havoc_key(st, R32)
        st.assume(z3.ForAll([x], z3.Implies(z3.Or(x + 4 <= d, x >= d + n), m1[x] == m0[x]), patterns=[m1[x]]),
                  z3.ForAll([x], z3.Implies(z3.And(x >= d, x + 4 <= d + n, v == 255), m1[x] == FULL), patterns=[m1[x]]))
        return [(st, 'ret', args[0])] if ins.ty.kind != 'void' else [(st, 'ret', None)]

    def on_release(self, ex, st, p):
        a = z3.Int("ra")
        blk, hp = self.g(st, "blk"), self.g(st, "hp")
        if self.mode == "dtor":
            return []
        return [("a block goes back upstream only when none of its objects is handed out", z3.ForAll([a], z3.Implies(z3.And(blk[a] == p, p != 0), hp[a] == 0), patterns=[blk[a]]))]

    def adopt(self, ex, st, e):
        """ghost: the block and bitmap of the new element e are divided into objects, all free"""
        N, W, a, k = self.Nc, self.Wc, *z3.Ints("aa ak")
        d, av = self.v.fld(ex, st, "data", e), self.v.fld(ex, st, "avail", e)
        ex.oblige(st, "a new pool holds a block from upstream with room for its objects that no other pool holds", z3.And(upb(st)[d], ups(st)[d] == mulB(N), self.g(st, "home")[d] == 0), "pre")
        ex.oblige(st, "a new pool holds its own bitmap with room for one bit per object", z3.And(self.g(st, "mal")[av], self.g(st, "msz")[av] >= 4 * W, self.g(st, "hav")[av] == 0), "pre")
        st.assume(d + mulB(N) < MAX63)
        old = {n: self.g(st, n) for n in ("blk", "idx", "hp", "wa", "wb", "ow")}
        new = {n: z3.Const(fresh_name(n), dict(self.GH)[n]) for n in old}
        ins_ = z3.And(a >= d, a < d + mulB(N))
        same = z3.And([new[n][a] == old[n][a] for n in ("blk", "idx", "hp", "wa", "wb")] + [new["ow"][old["wa"][a]][old["wb"][a]] == old["ow"][old["wa"][a]][old["wb"][a]]])
        fresh = z3.And(new["blk"][a] == d, new["idx"][a] >= 0, new["idx"][a] < N, a == at(d, new["idx"][a]), new["hp"][a] == 0, new["wa"][a] == av + 4 * wd(new["idx"][a]),
                       wd(new["idx"][a]) >= 0, wd(new["idx"][a]) < W, new["wb"][a] == bt(new["idx"][a]), rng(new["wb"][a]), new["ow"][new["wa"][a]][new["wb"][a]] == a)
        st.assume(z3.ForAll([a], z3.Implies(z3.And(z3.Not(ins_), old["blk"][a] != 0), same), patterns=[new["blk"][a], old["blk"][a]]),
                  z3.ForAll([a], z3.Implies(z3.And(z3.Not(ins_)), new["blk"][a] == old["blk"][a]), patterns=[new["blk"][a], old["blk"][a]]),
                  z3.ForAll([a], z3.Implies(z3.And(ins_, new["blk"][a] != 0), fresh), patterns=[new["blk"][a]]),
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(new["blk"][at(d, k)] == d, new["idx"][at(d, k)] == k)), patterns=[at(d, k)]))
        # objects held so far lie outside the new block (upstream blocks are disjoint): an obligation on the ghosts, not an assumption
        ex.oblige(st, "objects held so far lie outside the new block", z3.ForAll([a], z3.Implies(old["blk"][a] != 0, z3.Not(ins_)), patterns=[old["blk"][a]]), "pre")
        for n in new:
            ex.gset(st, n, new[n])
        ex.gset(st, "home", z3.Store(self.g(st, "home"), d, e))
        ex.gset(st, "hav", z3.Store(self.g(st, "hav"), av, e))

    def emplace(self, ex, st, args, ins):
        f = ex.cur_call[1]
        if f is None or "FixedPool::Pool" not in (f.dem or ""):
            return NotImplemented
        this = simp(T(ex, args[0]) - self.v.adj)
        ex.oblige(st, "the pools are kept in m_pool", this == self.this, "pre")
        self.w.fns(PL + "::Pool")
        cs = []
        for g in self.w.fns(PL + "::Pool"):
            g.mod.body(g)
            if len(g.args) == len(args):
                cs.append(g)
        if not cs:
            raise Unsupported("no constructor of Pool for emplace_back")
        vals = []
        for x, prm in zip(args[1:], cs[0].args[1:]):
            vals.append(x if prm.ty.kind == 'ptr' and not isinstance(x, P) else ex.load(st, x, prm.ty, None, ins.mod))
        # the vector's memory is obtained first (its failure is not modelled); if the element's constructor throws the vector is as before
        before = {k: ex.arr(st, k, ex.keyw.get(k, 64)) for k in [self.v.KB, self.v.KE, self.v.KC] + [self.v.key(n) for n in self.v.names]}
        gb = {n: self.g(st, n) for n in ("home", "hav")}
        b0 = self.v.begin(ex, st, self.this)
        e = self.v.grow(ex, st, self.this)
        b1, d = self.v.begin(ex, st, self.this), z3.Int("hd")
        for n in ("home", "hav"):
            h1 = z3.Const(fresh_name(n), AII)
            st.assume(z3.ForAll([d], h1[d] == z3.If(gb[n][d] == 0, 0, gb[n][d] - b0 + b1), patterns=[h1[d], gb[n][d]]))
            ex.gset(st, n, h1)
        outs = []
        for s2, kind, r in ex.run(cs[0], [P(addr=e)] + vals, st, 1):
            if kind == 'exc':
                for k, v in before.items():
                    s2.heap[k] = v
                for n, v in gb.items():
                    ex.gset(s2, n, v)
                outs.append((s2, kind, r))
            else:
                self.adopt(ex, s2, e)
                name_arrays(s2)
                outs.append((s2, 'ret', P(addr=e) if ins.ty.kind == 'ptr' else None))
        return outs

    def remove_if(self, ex, st, args, ins):
        f = ex.cur_call[1]
        if f is None or "FixedPool::Pool" not in (f.dem or ""):
            return NotImplemented
        t, v = self.this, self.v
        first, last = T(ex, args[0]), T(ex, args[1])
        b0, e0 = v.begin(ex, st, t), v.end(ex, st, t)
        ex.oblige(st, "remove_if runs over the whole vector", z3.And(first == b0, last == e0), "pre")
        lam = [x for x in self.w.fns_rx(r"^umpire::strategy::FixedPool::release::.*operator_call$")]
        if len(lam) != 1:
            raise Unsupported("predicate of remove_if")
        p0 = z3.Int(fresh_name("any_pool"))
        s1 = st.copy()
        s1.assume(v.inv(ex, st, t, p0))
        ex.nalloca += 1
        clo = P(obj=ex.nalloca, off=0)
        ex.alloca_ty[ex.nalloca] = None
        ex.store(s1, clo, args[2], stl._PTR)
        parts = []
        for s2, kind, r in ex.run(lam[0], [clo, P(addr=p0)], s1, 1):
            if kind != 'ret':
                raise Unsupported("predicate throws")
            for k in s2.heap:
                if k in st.heap and not s2.heap[k].eq(st.heap[k]):
                    raise Unsupported("predicate with effects")
            parts.append(r)
        if len(parts) != 1:
            raise Unsupported("predicate of remove_if with several paths")
        pf = parts[0]
        pred = lambda x: z3.substitute(pf, (p0, x))
        q = z3.Int("rq")
        mv, org = z3.Const(fresh_name("moved_to"), AII), z3.Const(fresh_name("moved_from"), AII)
        ne = fint("kept_end")
        st.assume(ne >= b0, ne <= e0, (ne - b0) % v.size == 0)
        old = {n: ex.arr(st, v.key(n), ex.keyw.get(v.key(n), 64)) for n in v.names}
        oldD = lambda x: v.fld(ex, st0, "data", x)
        st0 = st.copy()
        from ..vec import elem
        inn = lambda x: elem(b0, ne, x)
        ino = lambda x: elem(b0, e0, x)
        first_ = True
        st.assume(z3.ForAll([q], z3.Implies(inn(q), z3.And(ino(org[q]), z3.Not(pred(org[q])), mv[org[q]] == q)), patterns=[inn(q)]),
                  z3.ForAll([q], z3.Implies(z3.And(ino(q), z3.Not(pred(q))), z3.And(inn(mv[q]), org[mv[q]] == q)), patterns=[mv[q]]))
        for n in v.names:
            k, adj = v.key(n), getattr(v.f, "A_" + n)
            new = ex.havoc_key(st, k)
            st.assume(z3.ForAll([q], z3.Implies(inn(q), new[q + adj if adj else q] == old[n][org[q] + adj if adj else org[q]]), patterns=[new[q + adj if adj else q]]))
        # ghosts follow the elements
        home, blk, hav = self.g(st, "home"), self.g(st, "blk"), self.g(st, "hav")
        h1, k1, v1, d, a = z3.Const(fresh_name("home"), AII), z3.Const(fresh_name("blk"), AII), z3.Const(fresh_name("hav"), AII), z3.Int("gd"), z3.Int("ga")
        keep = lambda x: z3.And(x != 0, ino(x), z3.Not(pred(x)))
        st.assume(z3.ForAll([d], h1[d] == z3.If(z3.And(keep(home[d]), oldD(home[d]) == d), mv[home[d]], 0), patterns=[h1[d], home[d]]),
                  z3.ForAll([d], v1[d] == z3.If(keep(hav[d]), mv[hav[d]], 0), patterns=[v1[d], hav[d]]),
                  z3.ForAll([a], k1[a] == z3.If(z3.And(blk[a] != 0, keep(home[blk[a]])), blk[a], 0), patterns=[k1[a], blk[a]]))
        ex.gset(st, "home", h1)
        ex.gset(st, "hav", v1)
        ex.gset(st, "blk", k1)
        st.g["_kept"] = (ne,)
        return [(st, 'ret', P(addr=ne))]

    def erase(self, ex, st, args, ins):
        f = ex.cur_call[1]
        if f is None or "FixedPool::Pool" not in (f.dem or "") or len(args) != 3:
            return NotImplemented
        t, v = self.this, self.v
        a, b = T(ex, args[1]), T(ex, args[2])
        ex.oblige(st, "elements are erased up to the end, from the first one removed", z3.And(b == v.end(ex, st, t), a == st.g["_kept"][0] if "_kept" in st.g else z3.BoolVal(False)), "pre")
        ex.setfld(st, v.KE, t + v.adj, a)
        return [(st, 'ret', P(addr=a))]

    def cands(self, ctx, vars_):
        ex, out, t = ctx.ex, [], self.this
        ptrs = []
        for j, (nm, ty) in enumerate(vars_):
            if ty.kind == 'ptr' or ty.kind == 'int' and ty.w == 64:
                ptrs.append(("pointer %d" % j, lambda vals, j=j: ex.pterm(vals[j][2])))
            if ty.kind == 'int' and ty.w in (32, 64):
                ptrs.append(("element %d" % j, lambda vals, j=j: self.v.begin(ex, ctx.entry, t) + self.v.size * vals[j][2]))
            if ty.kind == 'int' and ty.w > 1:
                out.append(("index %d within the bitmap" % j, lambda st, vals, j=j: vals[j][2] <= self.Wc))
        out += self.v.loop_facts(ex, t, ptrs)
        if self.mode == "alloc":
            out += [("%s is null" % lab, lambda st, vals, v=v: v(vals) == 0, "weak") for lab, v in ptrs]
        for lab, v in ptrs:
            def over(st, vals, v, cond, con):
                p = z3.Int("fp")
                D0 = self.v.fld(ex, ex.st0, "data", p)
                return z3.ForAll([p], z3.Implies(z3.And(self.v.inv(ex, ex.st0, t, p), cond(p, v(vals))), con(st, p, D0)), patterns=[D0, self.v.fld(ex, ex.st0, "avail", p)])
            full = lambda p: self.v.fld(ex, ex.st0, "num_avail", p) == self.Nc
            av = lambda p: self.v.fld(ex, ex.st0, "avail", p)
            if self.mode in ("release", "dtor"):
                gone = lambda st, p, D: z3.And(z3.Not(upb(st)[D]), z3.Not(self.g(st, "mal")[av(p)]))
                held = lambda st, p, D: z3.And(upb(st)[D], ups(st)[D] == mulB(self.Nc), self.g(st, "mal")[av(p)])
                c = full if self.mode == "release" else (lambda p: z3.BoolVal(True))
                out.append(("blocks wholly free before %s are returned" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: z3.And(p < x, c(p)), gone)))
                out.append(("other blocks are held (%s)" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: z3.Or(p >= x, z3.Not(c(p))), held)))
            if self.mode == "dealloc":
                far = lambda st, p, D: z3.Or(z3.Int("ptr") < D, z3.Int("ptr") >= D + mulB(self.Nc))
                out.append(("the pointer is in no block before %s" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: p < x, far)))
                out.append(("the pointer is in no block from %s on" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: p >= x, far)))
        out.append(("configuration unchanged", lambda st, vals: self.consts(ex, st)))
        out.append(("accounting", lambda st, vals: self.acct(ex, st)))
        out.append(("upstream", lambda st, vals: self.glob(st)))
        mine = {R32, self.v.KB, self.v.KE} | set(self.v.key(n) for n in self.v.names)
        W = [x for x in ctx.W if x[0] == "H" and x[1] in mine or x[0] == "g"]
        for k in range(10 if W else 0):
            out.append(("invariant %d" % k, lambda st, vals, k=k: self.inv(ex, st)[k][1]))
        return out

    def frame(self, ex, st0, st, but=None):
        a = z3.Int("fa")
        b0, b1, p0, p1 = self.g(st0, "blk"), self.g(st, "blk"), self.g(st0, "hp"), self.g(st, "hp")
        c = z3.BoolVal(True) if but is None else a != but
        return z3.ForAll([a], z3.Implies(z3.And(b0[a] != 0, p0[a] > 0, c), z3.And(b1[a] == b0[a], p1[a] > 0)), patterns=[b0[a], p0[a], b1[a], p1[a]])

    def cur(self, ex, st):
        return self.f.m_current_bytes(ex, st, self.this)

    def hw(self, ex, st):
        return self.f.m_highwatermark(ex, st, self.this)

    def contract(self):
        sp = self
        B, N = self.Bc, self.Nc

        def pre(ex, st, args):
            return [("same pool", T(ex, args[0]) == sp.this)] + sp.allinv(ex, st)

        def post(ex, st0, st, r, args):
            r = T(ex, r)
            b0, p0, b1, i1 = sp.g(st0, "blk"), sp.g(st0, "hp"), sp.g(st, "blk"), sp.g(st, "idx")
            return [("the result is an object that was not handed out, whole inside a block held from upstream", z3.And(r > 0, z3.Or(b0[r] == 0, p0[r] == 0), b1[r] != 0, upb(st)[b1[r]], ups(st)[b1[r]] == mulB(N), r >= b1[r], r + B <= b1[r] + mulB(N))),
                    ("the result is at a multiple of the object size in its block, so it overlaps no other object", z3.And(r == b1[r] + mulB(i1[r]), i1[r] >= 0, i1[r] < N)),
                    ("the result is handed out now", sp.g(st, "hp")[r] > 0),
                    ("objects handed out before are kept", sp.frame(ex, st0, st)),
                    ("the current size grows by the object size, the high watermark follows", z3.And(sp.cur(ex, st) == sp.cur(ex, st0) + B, sp.hw(ex, st) == z3.If(sp.hw(ex, st0) > sp.cur(ex, st), sp.hw(ex, st0), sp.cur(ex, st))))] + sp.allinv(ex, st)

        def post_exc(ex, st0, st, args):
            return [("objects handed out are kept, sizes are unchanged", z3.And(sp.frame(ex, st0, st), sp.cur(ex, st) == sp.cur(ex, st0), sp.hw(ex, st) == sp.hw(ex, st0))),
                    ("only if upstream throws", G(st, "nthrow", I) > G(st0, "nthrow", I))] + sp.allinv(ex, st)

        def havoc(ex, st):
            for k in [sp.v.KB, sp.v.KE, sp.v.KC, R32, sp.f.K_m_current_bytes, sp.f.K_m_actual_bytes, sp.f.K_m_highwatermark] + [sp.v.key(n) for n in sp.v.names]:
                ex.havoc_key(st, k)
            for n, srt in sp.GH + (("up", AIB), ("upsz", AII), ("nthrow", I), ("nup", I)):
                ex.gset(st, n, z3.Const(fresh_name(n), srt))
        return Method(FP + "::allocate", pre, post, post_exc, havoc)

    def room(self, ex, st):
        # the objects live in disjoint memory, so their total size and the actual size stay below 2^64
        st.assume(self.cur(ex, st) + self.Bc < MAX64, G(st, "act", I) + self.per() < MAX64, G(st, "act", I) >= 0)

    def v_alloc(self, short):
        sp = self
        self.mode = "alloc"
        C = self.contract()
        h0 = C.handler()

        def rec(ex, st, args, ins):
            self.room(ex, st)
            outs = h0(ex, st, args, ins)
            for s, k, r in outs:
                s.g["bycall"] = True
            return outs
        self.w.contracts[FP + "::allocate"] = rec

        def setup(ex, st):
            self.pre(ex, st)
            self.room(ex, st)
            n = z3.Int("bytes")
            st.assume(n >= 0, n < MAX64)
            lemma_obligations(ex, st)
            return [P(addr=self.this), n]

        def post(ex, st0, st, ret, args):
            r = T(ex, ret)
            if not st.g.get("bycall") is True:
                d = simp(sp.g(st, "blk")[r])
                h = sp.g(st, "home")[d]
                n = sp.Nc - sp.v.fld(ex, st, "num_avail", h)
                ex.gset(st, "hp", z3.Store(sp.g(st, "hp"), r, n))
                ex.gset(st, "who", z3.Store(sp.g(st, "who"), d, z3.Store(sp.g(st, "who")[d], n, r)))
                name_arrays(st)
            self.hints(ex, st)
            for lab, g in C.post(ex, st0, st, ret, args):
                ex.oblige(st, "allocate: " + lab, g)

        def post_exc(ex, st0, st, e, args):
            for lab, g in C.post_exc(ex, st0, st, args):
                ex.oblige(st, "allocate (throwing): " + lab, g)
        return verify(self.w, short, setup, post, post_exc=post_exc)

    def v_dealloc(self):
        sp = self
        ptr = z3.Int("ptr")
        self.mode = "dealloc"

        def setup(ex, st):
            self.pre(ex, st)
            n, p = z3.Int("size"), z3.Int("dp")
            st.assume(ptr > 0, ptr < MAX63, n >= 0, n < MAX64, self.cur(ex, st) >= self.Bc)
            D = self.v.fld(ex, st, "data", p)
            blk, hp = sp.g(st, "blk"), sp.g(st, "hp")
            # a live object of the pool, or a pointer into none of its blocks
            st.assume(z3.If(blk[ptr] != 0, hp[ptr] > 0, z3.ForAll([p], z3.Implies(self.v.inv(ex, st, self.this, p), z3.Or(ptr < D, ptr >= D + mulB(self.Nc))), patterns=[D])))
            return [P(addr=self.this), P(addr=ptr), n]

        def post(ex, st0, st, ret, args):
            d = simp(sp.g(st0, "blk")[ptr])
            h = sp.g(st0, "home")[d]
            self.hints(ex, st)
            ex.oblige(st, "deallocate: only an object of this pool is accepted", sp.g(st0, "blk")[ptr] != 0)
            last = sp.Nc - sp.v.fld(ex, st0, "num_avail", h)
            who, hp = sp.g(st, "who"), sp.g(st, "hp")
            lo, s = simp(who[d][last]), simp(hp[ptr])
            ex.gset(st, "hp", z3.Store(z3.Store(hp, lo, s), ptr, z3.IntVal(0)))
            ex.gset(st, "who", z3.Store(who, d, z3.Store(who[d], s, lo)))
            name_arrays(st)
            for lab, g in self.allinv(ex, st):
                ex.oblige(st, "deallocate: " + lab, g)
            ex.oblige(st, "deallocate: the object is free, every other object handed out is kept", z3.And(sp.g(st, "hp")[ptr] == 0, self.frame(ex, st0, st, ptr)))
            ex.oblige(st, "deallocate: the current size shrinks by the object size, the high watermark stays", z3.And(sp.cur(ex, st) == sp.cur(ex, st0) - sp.Bc, sp.hw(ex, st) == sp.hw(ex, st0)))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "deallocate throws only for a pointer that is no object of the pool", sp.g(st0, "blk")[ptr] == 0)
            for lab, g in self.allinv(ex, st):
                ex.oblige(st, "deallocate (throwing): " + lab, g)
            ex.oblige(st, "deallocate (throwing): nothing changes", z3.And(self.frame(ex, st0, st), sp.cur(ex, st) == sp.cur(ex, st0), sp.hw(ex, st) == sp.hw(ex, st0)))
        return verify(self.w, FP + "::deallocate", setup, post, post_exc=post_exc)

    def v_ctor(self):
        self.mode = "ctor"

        def setup(ex, st):
            t, a = self.this, z3.Int("ca")
            self.base(ex, st)
            st.assume(*[z3.ForAll([a], self.g(st, n)[a] == 0, patterns=[self.g(st, n)[a]]) for n in ("home", "hav", "blk")], G(st, "act", I) == 0, self.per() < MAX64)
            n, al = z3.Int("name"), z3.Int("allocator")
            st.assume(n > 0, n < MAX63, al > 0, al < MAX63)
            return [P(addr=t), P(addr=n), z3.Int("id"), P(addr=al), self.Bc, self.Nc]

        def post(ex, st0, st, ret, args):
            for lab, g in self.allinv(ex, st):
                ex.oblige(st, "constructor: " + lab, g)
            ex.oblige(st, "constructor: nothing handed out", z3.And(self.cur(ex, st) == 0, self.hw(ex, st) == 0))
        return verify(self.w, FP + "::FixedPool", setup, post)

    def v_release(self):
        sp = self
        self.mode = "release"

        def setup(ex, st):
            self.pre(ex, st)
            st.assume(G(st, "act", I) >= 0, G(st, "act", I) < MAX64)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            p = z3.Int("lp")
            for lab, g in self.allinv(ex, st):
                ex.oblige(st, "release: " + lab, g)
            D = sp.v.fld(ex, st0, "data", p)
            ex.oblige(st, "release: every block with no object handed out is returned upstream, every other is kept",
                      z3.ForAll([p], z3.Implies(sp.v.inv(ex, st0, sp.this, p), (sp.v.fld(ex, st0, "num_avail", p) == sp.Nc) == z3.Not(upb(st)[D])), patterns=[D]))
            ex.oblige(st, "release: objects handed out are kept", self.frame(ex, st0, st))
            ex.oblige(st, "release: the current size and the high watermark stay", z3.And(sp.cur(ex, st) == sp.cur(ex, st0), sp.hw(ex, st) == sp.hw(ex, st0)))
        return verify(self.w, FP + "::release", setup, post, post_exc=never_throws("release"))

    def v_query(self, n, lab, val):
        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "%s: %s" % (n, lab), ret == val(ex, st0))
        return verify(self.w, FP + "::" + n, setup, post, post_exc=never_throws(n))

    def v_from(self):
        ptr = z3.Int("ptr")
        self.mode = "dealloc"

        def setup(ex, st):
            self.pre(ex, st)
            st.assume(ptr >= 0, ptr < MAX63)
            return [P(addr=self.this), P(addr=ptr)]

        def post(ex, st0, st, ret, args):
            p = z3.Int("lp")
            D = self.v.fld(ex, st0, "data", p)
            r = ret if z3.is_bool(ret) else ret == 1
            ex.oblige(st, "pointerIsFromPool: no block contains the pointer if the answer is no",
                      z3.Or(r, z3.ForAll([p], z3.Implies(self.v.inv(ex, st0, self.this, p), z3.Or(ptr < D, ptr >= D + mulB(self.Nc))), patterns=[D])))
            ps = st.g.get("_ps", ())
            ex.oblige(st, "pointerIsFromPool: a block contains the pointer if the answer is yes",
                      z3.Or([z3.Not(r)] + [z3.And(self.v.inv(ex, st0, self.this, q), ptr >= self.v.fld(ex, st0, "data", q), ptr < self.v.fld(ex, st0, "data", q) + mulB(self.Nc)) for q in ps]))
        return verify(self.w, FP + "::pointerIsFromPool", setup, post, post_exc=never_throws("pointerIsFromPool"))

    def all(self):
        return [named("fx_ctor", lambda: self.v_ctor()), named("fx_allocate", lambda: self.v_alloc(FP + "::allocate")), named("fx_deallocate", lambda: self.v_dealloc()), named("fx_release", lambda: self.v_release()),
                named("fx_from", lambda: self.v_from()),
                named("fx_num", lambda: self.v_query("numPools", "the number of blocks", lambda ex, st: self.v.count(ex, st, self.this))),
                named("fx_current", lambda: self.v_query("getCurrentSize", "the size of the objects handed out", self.cur)),
                named("fx_actual", lambda: self.v_query("getActualSize", "the size of the blocks held", lambda ex, st: G(st, "act", I))),
                named("fx_high", lambda: self.v_query("getHighWatermark", "the recorded high watermark", self.hw))]
