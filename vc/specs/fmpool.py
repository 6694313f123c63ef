"""FixedMallocPool: fixed-size objects carved out of malloc'd blocks, free objects chained by index inside the objects themselves."""
from ..lib import *
from ..vec import Vec

FP = "umpire::util::FixedMallocPool"
PL = FP + "::Pool"
TUS = ["umpire/util/FixedMallocPool.cpp"]
R32 = ("R", "i32", 0)
mulB = ufun("times_object_size", I, I)
at = ufun("object_at", I, I, I)


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        self.this = z3.Int("this")
        self.f = Flds(w, FP, ["m_obj_bytes", "m_obj_per_pool", "m_data_bytes"])
        self.v = Vec(w, FP, "m_pool", PL, ["data", "next", "num_initialized", "num_free"])
        self.Bc = z3.Int("object_bytes")
        self.mode = None
        self.Nc = z3.Int("objects_per_pool")
        w.scaled = self.scaled
        w.all_cands.append(self.cands)
        w.guarded[R32] = self.guard
        w.guarded[self.v.key("data")] = self.dread
        self.v.watch(self.this)
        w.contracts["std::vector::emplace_back"] = self.emplace
        w.contracts["malloc"] = self.malloc
        w.contracts["free"] = self.free

    # element size arithmetic: products with the object size are multiples, quotients their inverse
    def scaled(self, ex, st, op, a, b):
        if op == 'mul':
            for x, y in ((a, b), (b, a)):
                if ex.prove_q(st, x == self.Bc):
                    ex.oblige(st, "index arithmetic stays inside a block", z3.And(y >= 0, y <= self.Nc), "pre")
                    self.note(st, "_ks", simp(y))
                    return mulB(y)
            return None
        if op == 'udiv' and ex.prove_q(st, b == self.Bc):
            k, j = fint("index"), z3.Int("dj")
            st.assume(k >= 0, k <= a, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < self.Nc, mulB(j) <= a, a < mulB(j) + self.Bc), k == j), patterns=[mulB(j)]))
            return k
        return None

    def note(self, st, n, t):
        l = st.g.get(n, ())
        if not any(t.eq(x) for x in l):
            st.g[n] = l + (t,)

    def hints(self, ex, st):
        """name the objects whose addresses the code computed"""
        for d in st.g.get("_ds", ()):
            for k in st.g.get("_ks", ()):
                st.assume(at(d, k) == d + mulB(k))

    def lemmas(self, st):
        """multiples of the object size (true of i * object_bytes)"""
        i, j = z3.Ints("mi mj")
        B, N = self.Bc, self.Nc
        st.assume(mulB(0) == 0, mulB(N) < MAX63, mulB(N) >= N,
                  z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= N), mulB(j) >= mulB(i) + B), patterns=[z3.MultiPattern(mulB(i), mulB(j))]),
                  z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), z3.And(mulB(i) >= 0, mulB(i) + B <= mulB(N))), patterns=[mulB(i)]),
                  z3.ForAll([i, j], at(i, j) == i + mulB(j), patterns=[at(i, j)]))

    # ghosts: blk/idx = block and index of an object, pos = its place in the free chain (0 = handed out), who = object at a place,
    # home = element of m_pool that holds a block, mal = blocks held from malloc
    GH = (("blk", AII), ("idx", AII), ("pos", AII), ("who", z3.ArraySort(I, AII)), ("home", AII), ("mal", AIB))

    def blk(self, st):
        return G(st, "blk", AII)

    def idx(self, st):
        return G(st, "idx", AII)

    def pos(self, st):
        return G(st, "pos", AII)

    def who(self, st):
        return G(st, "who", z3.ArraySort(I, AII))

    def home(self, st):
        return G(st, "home", AII)

    def mal(self, st):
        return G(st, "mal", AIB)

    def guard(self, ex, st, a, write):
        self.hints(ex, st)
        if write:
            ex.oblige(st, "the pool writes only into objects that are not handed out", z3.And(self.blk(st)[a] != 0, z3.Or(self.pos(st)[a] > 0, a == G(st, "given", I))), "pre")
        else:
            ex.oblige(st, "the pool reads only inside its objects", self.blk(st)[a] != 0, "pre")

    def dread(self, ex, st, p, write):
        if not write:
            self.note(st, "_ds", simp(ex.arr(st, self.v.key("data"))[p]))

    def inv(self, ex, st):
        t, v, B, N = self.this, self.v, self.Bc, self.Nc
        a, d, k, p, e = z3.Ints("ia id ik ip ie")
        blk, idx, pos, mal, home, who = self.blk(st), self.idx(st), self.pos(st), self.mal(st), self.home(st), self.who(st)
        D = lambda x: v.fld(ex, st, "data", x)
        X = lambda x: v.fld(ex, st, "next", x)
        NI = lambda x: v.fld(ex, st, "num_initialized", x)
        NF = lambda x: v.fld(ex, st, "num_free", x)
        E = lambda x: v.inv(ex, st, t, x)
        m = ex.arr(st, R32, 32)
        h = home[blk[a]]
        obj = blk[a] != 0
        A = lambda f, *pats: z3.ForAll([a], z3.Implies(obj, f), patterns=list(pats) or [blk[a]])
        return [
            ("every object lies at its multiple of the object size in a block held", A(z3.And(idx[a] >= 0, idx[a] < N, a == at(blk[a], idx[a]), pos[a] >= 0, E(h), D(h) == blk[a]))),
            ("every block is divided into its objects", z3.ForAll([d, k], z3.Implies(z3.And(E(home[d]), D(home[d]) == d, k >= 0, k < N), z3.And(blk[at(d, k)] == d, idx[at(d, k)] == k)), patterns=[at(d, k)])),
            ("every pool has its own block from malloc", z3.ForAll([p], z3.Implies(E(p), z3.And(D(p) > 0, D(p) + mulB(N) < MAX63, mal[D(p)], home[D(p)] == p)), patterns=[D(p)])),
            ("blocks do not overlap", z3.ForAll([d, e], z3.Implies(z3.And(E(home[d]), D(home[d]) == d, E(home[e]), D(home[e]) == e, d != e), z3.Or(d + mulB(N) <= e, e + mulB(N) <= d)), patterns=[z3.MultiPattern(home[d], home[e])])),
            ("counters are in range and the chain is empty exactly when nothing is free", z3.ForAll([p], z3.Implies(E(p), z3.And(NI(p) <= N, NF(p) >= N - NI(p), (NF(p) == 0) == (X(p) == 0))), patterns=[NI(p), NF(p), X(p)])),
            ("the chain starts at a free object of the block", z3.ForAll([p], z3.Implies(z3.And(E(p), NF(p) > 0), z3.And(blk[X(p)] == D(p), pos[X(p)] == NF(p))), patterns=[X(p)])),
            ("places in the chain are within the number of free objects", A(pos[a] <= NF(h))),
            ("no two free objects share a place in the chain", A(z3.Implies(pos[a] > 0, who[blk[a]][pos[a]] == a))),
            ("objects never used are free, at the end of the chain in order", A(z3.Implies(idx[a] >= NI(h), pos[a] == N - idx[a]))),
            ("freed objects come before those never used", A(z3.Implies(z3.And(idx[a] < NI(h), pos[a] > 0), pos[a] > N - NI(h)))),
            ("each freed object links to the next free one", A(z3.Implies(z3.And(idx[a] < NI(h), pos[a] > 1), z3.And(m[a] < N, pos[at(blk[a], m[a])] == pos[a] - 1)), m[a])),
        ]

    def consts(self, ex, st):
        f, t = self.f, self.this
        return z3.And(f.m_obj_bytes(ex, st, t) == self.Bc, f.m_obj_per_pool(ex, st, t) == self.Nc, f.m_data_bytes(ex, st, t) == mulB(self.Nc))

    def base(self, ex, st):
        t = self.this
        ex.keyw.setdefault(R32, 32)
        ex.keyw.setdefault(self.v.key("num_initialized"), 32)
        st.assume(t > 0, t < MAX63, self.Bc >= 4, self.Bc < MAX63, self.Nc >= 1, self.Nc < 2 ** 32)
        self.lemmas(st)
        self.v.axioms(st)
        for n, srt in self.GH:
            G(st, n, srt)
        ex.gset(st, "given", z3.IntVal(0))
        st.assume(self.blk(st)[0] == 0)
        st.assume(*self.v.wf(ex, st, t))

    def pre(self, ex, st):
        self.base(ex, st)
        st.assume(self.consts(ex, st))
        for _, g in self.inv(ex, st):
            st.assume(g)

    # library functions that move or obtain memory
    def malloc(self, ex, st, args, ins):
        a, k, e = z3.Ints("na nk ne")
        N = self.Nc
        ex.oblige(st, "a block from malloc has room for all its objects", args[0] >= mulB(N), "pre")
        d = fint("block")
        b0, i0, p0, h0, w0 = self.blk(st), self.idx(st), self.pos(st), self.home(st), self.who(st)
        b1, i1, p1 = [z3.Const(fresh_name(n), AII) for n in ("blk", "idx", "pos")]
        wd = z3.Const(fresh_name("whod"), AII)
        st.assume(d > 0, d + mulB(N) < MAX63, z3.Not(self.mal(st)[d]), h0[d] == 0)
        # memory from malloc overlaps nothing already held
        v, t = self.v, self.this
        D = v.fld(ex, st, "data", h0[e])
        st.assume(z3.ForAll([e], z3.Implies(z3.And(v.inv(ex, st, t, h0[e]), D == e), z3.Or(e + mulB(N) <= d, d + mulB(N) <= e)), patterns=[h0[e]]),
                  z3.ForAll([a], z3.Implies(b0[a] != 0, z3.Or(a + self.Bc <= d, a >= d + mulB(N))), patterns=[b0[a]]))
        inside = z3.And(a >= d, a < d + mulB(N))
        st.assume(z3.ForAll([a], z3.Implies(z3.Not(inside), z3.And(b1[a] == b0[a], i1[a] == i0[a], p1[a] == p0[a])), patterns=[b1[a], b0[a]]),
                  z3.ForAll([a], z3.Implies(z3.And(inside, b1[a] != 0), z3.And(b1[a] == d, i1[a] >= 0, i1[a] < N, a == at(d, i1[a]), p1[a] == N - i1[a], wd[p1[a]] == a)), patterns=[b1[a]]),
                  z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < N), z3.And(b1[at(d, k)] == d, i1[at(d, k)] == k)), patterns=[at(d, k)]), at(d, 0) == d)
        for n, x in (("blk", b1), ("idx", i1), ("pos", p1)):
            ex.gset(st, n, x)
        ex.gset(st, "who", z3.Store(w0, d, wd))
        ex.gset(st, "mal", z3.Store(self.mal(st), d, z3.BoolVal(True)))
        self.newblk = d
        return [(st, 'ret', P(addr=d))]

    def free(self, ex, st, args, ins):
        a = T(ex, args[0])
        ex.oblige(st, "only memory held from malloc is freed, once", z3.Or(a == 0, self.mal(st)[a]), "pre")
        ex.gset(st, "mal", z3.Store(self.mal(st), a, z3.BoolVal(False)))
        return [(st, 'ret', None)]

    def emplace(self, ex, st, args, ins):
        f = ex.cur_call[1]
        if f is None or "FixedMallocPool::Pool" not in (f.dem or ""):
            return NotImplemented
        this = simp(T(ex, args[0]) - self.v.adj)
        ex.oblige(st, "the pools are kept in m_pool", this == self.this, "pre")
        b0, h0, d = self.v.begin(ex, st, self.this), self.home(st), z3.Int("hd")
        e = self.v.grow(ex, st, self.this)
        h1, b1 = z3.Const(fresh_name("home"), AII), self.v.begin(ex, st, self.this)
        st.assume(z3.ForAll([d], h1[d] == z3.If(h0[d] == 0, 0, h0[d] - b0 + b1), patterns=[h1[d], h0[d]]))
        ex.gset(st, "home", h1)
        cs = []
        for g in self.w.fns(PL + "::Pool"):
            g.mod.body(g)
            if len(g.args) == len(args):
                cs.append(g)
        if not cs:
            raise Unsupported("no constructor of Pool for emplace_back")
        s = self.w.struct(PL)
        vals = []
        for x, prm in zip(args[1:], cs[0].args[1:]):
            vals.append(x if prm.ty.kind == 'ptr' else ex.load(st, x, prm.ty, None, ins.mod))
        outs = []
        for s2, kind, r in ex.run(cs[0], [P(addr=e)] + vals, st, 1):
            if kind == 'exc':
                ex.setfld(s2, self.v.KE, self.this + self.v.adj, e)
                outs.append((s2, kind, r))
            else:
                ex.gset(s2, "home", z3.Store(self.home(s2), self.v.fld(ex, s2, "data", e), e))
                name_arrays(s2)
                outs.append((s2, 'ret', P(addr=e) if ins.ty.kind == 'ptr' else None))
        return outs

    def cands(self, ctx, vars_):
        ex, out, t = ctx.ex, [], self.this
        en = ctx.entry
        ptrs = []
        for j, (nm, ty) in enumerate(vars_):
            if ty.kind == 'ptr' or ty.kind == 'int' and ty.w == 64:
                ptrs.append(("pointer %d" % j, lambda vals, j=j: ex.pterm(vals[j][2])))
            if ty.kind == 'int' and ty.w in (32, 64):
                ptrs.append(("element %d" % j, lambda vals, j=j: self.v.begin(ex, en, t) + self.v.size * vals[j][2]))
        out += self.v.loop_facts(ex, t, ptrs)
        out += [("%s is null" % lab, lambda st, vals, v=v: v(vals) == 0, "weak") for lab, v in ptrs]
        for lab, v in ptrs:
            def over(st, vals, v, cond, con):
                p = z3.Int("fp")
                D0 = self.v.fld(ex, ex.st0, "data", p)
                return z3.ForAll([p], z3.Implies(z3.And(self.v.inv(ex, ex.st0, t, p), cond(p, v(vals))), con(st, D0)), patterns=[D0])
            if self.mode == "dtor":
                out.append(("blocks before %s are freed" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: p < x, lambda st, D: z3.Not(self.mal(st)[D]))))
                out.append(("blocks from %s on are held" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: p >= x, lambda st, D: self.mal(st)[D])))
            if self.mode == "dealloc":
                out.append(("the pointer is in no block before %s" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: p < x, lambda st, D: z3.Or(z3.Int("ptr") < D, z3.Int("ptr") >= D + mulB(self.Nc)))))
                out.append(("the pointer is in no block from %s on" % lab, lambda st, vals, v=v: over(st, vals, v, lambda p, x: p >= x, lambda st, D: z3.Or(z3.Int("ptr") < D, z3.Int("ptr") >= D + mulB(self.Nc)))))
        out.append(("configuration unchanged", lambda st, vals: self.consts(ex, st)))
        mine = {R32, self.v.KB, self.v.KE} | set(self.v.key(n) for n in self.v.names)
        W = [x for x in ctx.W if x[0] == "H" and x[1] in mine or x[0] == "g"]
        for k in range(11 if W and self.mode != 'dtor' else 0):
            out.append(("invariant %d" % k, lambda st, vals, k=k: self.inv(ex, st)[k][1]))
        return out

    def taken(self, ex, st0, st, r):
        """pos after handing out r"""
        return z3.Store(self.pos(st), r, z3.IntVal(0))

    def frame(self, ex, st0, st, but=None):
        """objects handed out before stay handed out, where they are"""
        a = z3.Int("fa")
        b0, b1, p0, p1 = self.blk(st0), self.blk(st), self.pos(st0), self.pos(st)
        c = z3.BoolVal(True) if but is None else a != but
        return z3.ForAll([a], z3.Implies(z3.And(b0[a] != 0, p0[a] == 0, c), z3.And(b1[a] == b0[a], p1[a] == 0)), patterns=[b0[a], p0[a], b1[a], p1[a]])

    def contract(self):
        sp = self
        B, N = self.Bc, self.Nc

        def pre(ex, st, args):
            return [("same pool", T(ex, args[0]) == sp.this), ("constants", sp.consts(ex, st)), ("vector", z3.And(*sp.v.wf(ex, st, sp.this)))] + sp.inv(ex, st)

        def post(ex, st0, st, r, args):
            r = T(ex, r)
            b0, p0, b1 = sp.blk(st0), sp.pos(st0), sp.blk(st)
            return [("the result is an object that was not handed out, whole inside a block held", z3.And(r > 0, z3.Or(b0[r] == 0, p0[r] > 0), b1[r] != 0, sp.mal(st)[b1[r]], r >= b1[r], r + B <= b1[r] + mulB(N))),
                    ("the result is at a multiple of the object size in its block, so it overlaps no other object", z3.And(r == b1[r] + mulB(sp.idx(st)[r]), sp.idx(st)[r] >= 0, sp.idx(st)[r] < N)),
                    ("the result is handed out now", sp.pos(st)[r] == 0),
                    ("objects handed out before are kept", sp.frame(ex, st0, st)),
                    ("constants", sp.consts(ex, st)), ("vector", z3.And(*sp.v.wf(ex, st, sp.this)))] + sp.inv(ex, st)

        def havoc(ex, st):
            for k in [sp.v.KB, sp.v.KE, sp.v.KC, R32] + [sp.v.key(n) for n in sp.v.names]:
                ex.havoc_key(st, k)
            for n, srt in sp.GH:
                ex.gset(st, n, z3.Const(fresh_name(n), srt))
        return Method(FP + "::allocate_impl", pre, post, None, havoc)

    def v_alloc(self, short):
        w, sp = self.w, self
        self.mode = "alloc"
        C = self.contract()
        w.contracts[FP + "::allocate_impl"] = self.guarded_recursion(C)

        def setup(ex, st):
            self.pre(ex, st)
            n = z3.Int("bytes")
            st.assume(n >= 0, n < MAX64)
            return [P(addr=self.this), n]

        def post(ex, st0, st, ret, args):
            r = T(ex, ret)
            if not st.g.get("bycall") is True:
                ex.gset(st, "pos", z3.Store(sp.pos(st), r, z3.IntVal(0)))
                name_arrays(st)
            self.hints(ex, st)
            for lab, g in C.post(ex, st0, st, ret, args):
                ex.oblige(st, "allocate: " + lab, g)
        return verify(w, short, setup, post, post_exc=never_throws("allocate"))

    def guarded_recursion(self, C):
        h0 = C.handler()

        def h(ex, st, args, ins):
            outs = h0(ex, st, args, ins)
            for s, k, r in outs:
                s.g["bycall"] = True
            return outs
        return h

    def v_dealloc(self):
        sp = self
        ptr = z3.Int("ptr")
        self.mode = "dealloc"

        def setup(ex, st):
            self.pre(ex, st)
            st.assume(ptr > 0, ptr < MAX63)
            p = z3.Int("dp")
            D = self.v.fld(ex, st, "data", p)
            # a live object of the pool, or a pointer into none of its blocks
            st.assume(z3.If(self.blk(st)[ptr] != 0, self.pos(st)[ptr] == 0, z3.ForAll([p], z3.Implies(self.v.inv(ex, st, self.this, p), z3.Or(ptr < D, ptr >= D + mulB(self.Nc))), patterns=[D])))
            NF = self.v.fld(ex, st, "num_free", p)
            st.assume(z3.ForAll([p], z3.Implies(self.v.inv(ex, st, self.this, p), NF < MAX63), patterns=[NF]))
            ex.gset(st, "given", ptr)
            # the first object never used of the pointer's block (instance of the division into objects)
            d = self.blk(st)[ptr]
            ni = self.v.fld(ex, st, "num_initialized", self.home(st)[d])
            st.assume(at(d, ni) == d + mulB(ni))
            return [P(addr=self.this), P(addr=ptr)]

        def post(ex, st0, st, ret, args):
            d = self.blk(st0)[ptr]
            h = self.home(st0)[d]
            self.hints(ex, st)
            ex.oblige(st, "deallocate: only an object of this pool is accepted", self.blk(st0)[ptr] != 0)
            n = simp(self.v.fld(ex, st, "num_free", h))
            ex.gset(st, "pos", z3.Store(sp.pos(st), ptr, n))
            ex.gset(st, "who", z3.Store(sp.who(st), d, z3.Store(sp.who(st)[d], n, ptr)))
            name_arrays(st)
            for lab, g in self.inv(ex, st):
                ex.oblige(st, "deallocate: " + lab, g)
            ex.oblige(st, "deallocate: the object is free, every other object handed out is kept", z3.And(sp.pos(st)[ptr] > 0, self.frame(ex, st0, st, ptr)))
            ex.oblige(st, "deallocate: configuration unchanged", z3.And(self.consts(ex, st), *self.v.wf(ex, st, self.this)))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "deallocate throws only for a pointer that is no object of the pool", self.blk(st0)[ptr] == 0)
            for lab, g in self.inv(ex, st):
                ex.oblige(st, "deallocate (throwing): " + lab, g)
            ex.oblige(st, "deallocate (throwing): every object handed out is kept", self.frame(ex, st0, st))
        return verify(self.w, FP + "::deallocate", setup, post, post_exc=post_exc)

    def v_ctor(self):
        def setup(ex, st):
            t = self.this
            self.base(ex, st)
            a = z3.Int("ca")
            st.assume(self.v.end(ex, st, t) == self.v.begin(ex, st, t), z3.ForAll([a], self.home(st)[a] == 0, patterns=[self.home(st)[a]]), z3.ForAll([a], z3.And(self.blk(st)[a] == 0), patterns=[self.blk(st)[a]]))
            return [P(addr=t), self.Bc, self.Nc]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "constructor: configured with the sizes given", z3.And(self.consts(ex, st), *self.v.wf(ex, st, self.this)))
            for lab, g in self.inv(ex, st):
                ex.oblige(st, "constructor: " + lab, g)
        return verify(self.w, FP + "::FixedMallocPool", setup, post, post_exc=never_throws("constructor"))

    def v_dtor(self):
        self.mode = "dtor"

        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            p = z3.Int("tp")
            D = self.v.fld(ex, st0, "data", p)
            ex.oblige(st, "destructor: every block goes back to the C library", z3.ForAll([p], z3.Implies(self.v.inv(ex, st0, self.this, p), z3.Not(self.mal(st)[D])), patterns=[D]))
        return verify(self.w, FP + "::~FixedMallocPool", setup, post)

    def v_num(self):
        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "numPools: the number of blocks", ret == self.v.count(ex, st0, self.this))
        return verify(self.w, FP + "::numPools", setup, post, post_exc=never_throws("numPools"))

    def all(self):
        return [named("fm_allocate_impl", lambda: self.v_alloc(FP + "::allocate_impl")), named("fm_allocate", lambda: self.v_alloc(FP + "::allocate")),
                named("fm_deallocate", lambda: self.v_dealloc()), named("fm_ctor", lambda: self.v_ctor()), named("fm_dtor", lambda: self.v_dtor()), named("fm_num", lambda: self.v_num())]
