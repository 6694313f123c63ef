"""MixedPool: a series of fixed pools and a quick pool behind one interface. The sub-pools are used by the interface contract that
P01 and P04 establish for them (each block comes from the sub-pool asked, whole, and must go back to that sub-pool once)."""
from ..lib import *
from .wrappers import install_allocator

MP = "umpire::strategy::MixedPool"
FP = "umpire::strategy::FixedPool"
AS = "umpire::strategy::AllocationStrategy::"
TUS = ["umpire/strategy/MixedPool.cpp"]
SZ, PL = ("A", "m_fixed_pool_map", 8), ("A", "m_fixed_pool", 8)
M1 = 2 ** 32 - 1
psum = ufun("sum_of_actual_sizes_below", I, I)
act = ufun("actual_size_of", I, I)


class _I32:
    kind, w, size, name, elts = 'int', 32, 4, None, None


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_allocator(w)
        self.this = z3.Int("this")
        self.mp = self.this + w.off(MP, "m_map")
        self.qp = simp(self.this + w.off(MP, "m_quick_pool"))
        self.ks, self.as_ = w.field(MP, "m_fixed_pool_map")
        self.kp, self.ap = w.field(MP, "m_fixed_pool")
        w.regions = self.regions
        w.all_cands.append(self.cands)
        self.install()

    # ---- the two vectors
    def vb(self, ex, st, which, o=0):
        k, a = (self.ks, self.as_) if which == "s" else (self.kp, self.ap)
        return simp(ex.arr(st, (k[0], k[1], k[2] + o))[self.this + a])

    def ofs(self, which):
        return self.w.off(MP, "m_fixed_pool_map" if which == "s" else "m_fixed_pool")

    def addr(self, which):
        return simp(self.this + self.ofs(which))

    def begin(self, ex, st, which):
        return ex.fld(st, ("F", self.VIMPL, 0), self.addr(which))

    def end(self, ex, st, which):
        return ex.fld(st, ("F", self.VIMPL, 8), self.addr(which))

    def cnt(self, ex, st, which):
        return G(st, "cnt_" + which, I)

    def regions(self, ex, st):
        return [(simp(self.vb(ex, st, "s")), 8, self.cnt(ex, st, "s"), "m_fixed_pool_map"), (simp(self.vb(ex, st, "p")), 8, self.cnt(ex, st, "p"), "m_fixed_pool")]

    def tie(self, ex, st):
        """size of each vector in elements (ghost) and in bytes agree"""
        out = []
        for q in "sp":
            b, e = self.vb(ex, st, q), self.vb(ex, st, q, 8)
            n = self.cnt(ex, st, q)
            out += [b >= 0, n >= 0, n < 2 ** 30, e == b + 8 * n, e < MAX63, z3.Implies(n > 0, b > 0)]
        bs, bp, ns, np_ = self.vb(ex, st, "s"), self.vb(ex, st, "p"), self.cnt(ex, st, "s"), self.cnt(ex, st, "p")
        out.append(disjoint(bs, 8 * ns, bp, 8 * np_))
        return out

    def at(self, ex, st, ptr, which):
        """element index of an address inside a vector"""
        b, n = self.vb(ex, st, which), self.cnt(ex, st, which)
        k = divide(simp(ptr - b), 8)
        if k is None:
            k = (ptr - b) / 8
            ex.oblige(st, "pointer to an element of the list of pools", (ptr - b) % 8 == 0, "pre")
        ex.oblige(st, "access inside the list of pools", z3.And(k >= 0, k < n), "pre")
        return k

    def install(self):
        w, C = self.w, self.w.contracts
        sp = self

        def uderef(ex, st, args, ins):
            if FP not in (ex.cur_call[1].dem or ""):
                return NotImplemented
            if isinstance(args[0].obj, int):
                return [(st, 'ret', ex.load(st, args[0], _PTRT, None, ins.mod))]
            k = sp.at(ex, st, T(ex, args[0]), "p")
            st.assume(psum(k + 1) == psum(k) + act(ex.arr(st, PL)[k]), act(ex.arr(st, PL)[k]) >= 0)
            return [(st, 'ret', P(addr=simp(ex.arr(st, PL)[k])))]
        for n in ("operator_arrow", "get", "operator*"):
            C["std::unique_ptr::" + n] = uderef

        def alloc(ex, st, args, ins):
            ex.used_contracts.add(AS + "allocate_internal (of a sub-pool)")
            X, n = T(ex, args[0]), args[1]
            s2 = st.copy()
            s2.trace.append(("sub-pool throws",))
            ex.gset(s2, "nthrow", G(s2, "nthrow", I) + 1)
            p = fint("blk")
            osz = G(st, "osz")
            ex.oblige(st, "a request goes to a sub-pool of this pool", z3.Or(X == sp.qp, G(st, "isF", AIB)[X]), "pre")
            b = z3.If(X == sp.qp, n, osz[X])
            lv, bs, src = G(st, "live", AIB), G(st, "bsz"), G(st, "src")
            x = z3.Int("ax")
            st.assume(p > 0, p < MAX64, b >= 0, p + b < MAX64, z3.Not(lv[p]), z3.ForAll([x], z3.Implies(lv[x], disjoint(p, b, x, bs[x])), patterns=[lv[x]]))
            ex.gset(st, "live", z3.Store(lv, p, z3.BoolVal(True)))
            ex.gset(st, "bsz", z3.Store(bs, p, b))
            ex.gset(st, "src", z3.Store(src, p, X))
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=p))]

        def dealloc(ex, st, args, ins):
            ex.used_contracts.add(AS + "deallocate_internal (of a sub-pool)")
            X, p, n = T(ex, args[0]), T(ex, args[1]), args[2]
            lv = G(st, "live", AIB)
            ex.oblige(st, "a block goes back to a sub-pool only while it is live", lv[p], "pre")
            ex.oblige(st, "a block goes back to the sub-pool it came from", G(st, "src")[p] == X, "pre")
            ex.oblige(st, "a block goes back to the quick pool with the size it was obtained with", z3.Implies(X == sp.qp, G(st, "bsz")[p] == n), "pre")
            ex.gset(st, "live", z3.Store(lv, p, z3.BoolVal(False)))
            return [(st, 'ret', None)]
        for c in (AS, FP + "::", "umpire::strategy::QuickPool::"):
            C[c + "allocate_internal"] = alloc
            C[c + "deallocate_internal"] = dealloc

        def actual(ex, st, args, ins):
            return [(st, 'ret', act(T(ex, args[0])))]
        C[FP + "::getActualSize"] = actual
        C["umpire::strategy::QuickPool::getActualSize"] = actual

        def mkquick(ex, st, args, ins):
            ex.oblige(st, "constructor: the quick pool is made in place", T(ex, args[0]) == sp.qp, "pre")
            if len(args) >= 7:
                ex.oblige(st, "constructor: the quick pool gets the sizes and the alignment asked for", z3.And([a == z3.Int(n) for a, n in zip(args[4:7], ("qinit", "qmin", "qalign"))]), "pre")
            ex.gset(st, "qpmade", G(st, "qpmade", I) + 1)
            return [(st, 'ret', None)]
        C["umpire::strategy::QuickPool::QuickPool"] = mkquick
        C["umpire::strategy::QuickPool::~QuickPool"] = fresh_ret

        def mkuniq(ex, st, args, ins):
            # make_unique<FixedPool>(name, id, allocator, object size, objects per pool)
            if FP not in (ex.cur_call[1].dem or ""):
                return NotImplemented
            ld = lambda a: ex.pterm(ex.load(st, a, _I64, None, ins.mod))
            if len(args) < 5:
                raise Unsupported("make_unique<FixedPool> with %d arguments" % len(args))
            o, n = ld(args[4]), ld(args[5]) if len(args) > 5 else z3.IntVal(512)
            ex.oblige(st, "a fixed pool is made for objects of positive size, at least one per block", z3.And(o > 0, n > 0), "pre")
            X = new_object(ex, st, "fpool")
            st.assume(X != sp.qp, z3.Not(G(st, "isF", AIB)[X]))
            ex.gset(st, "isF", z3.Store(G(st, "isF", AIB), X, z3.BoolVal(True)))
            ex.gset(st, "osz", z3.Store(G(st, "osz"), X, o))
            ex.store(st, args[0], P(addr=X), _PTRT, None, ins.mod)
            return [(st, 'ret', None)]
        C["umpire::util::make_unique"] = mkuniq
        C["std::make_unique"] = mkuniq

        def emplace(ex, st, args, ins):
            d = ex.cur_call[1].dem or ""
            t = T(ex, args[0])
            which = "p" if "unique_ptr" in d else "s"
            ex.oblige(st, "a list of this pool grows", t == sp.addr(which), "pre")
            v = ex.pterm(ex.load(st, args[1], _PTRT if which == "p" else _I64, None, ins.mod))
            key = PL if which == "p" else SZ
            n = sp.cnt(ex, st, which)
            ex.setfld(st, key, n, v)
            k, a = (sp.ks, sp.as_) if which == "s" else (sp.kp, sp.ap)
            b = fint("vecb")
            ex.gset(st, "cnt_" + which, n + 1)
            for o, val in ((0, b), (8, simp(b + 8 * (n + 1))), (16, fint("cap"))):
                ex.setfld(st, (k[0], k[1], k[2] + o), simp(sp.this + a), val)
            st.assume(*sp.tie(ex, st))
            return [(st, 'ret', None if ins.ty.kind == 'void' else ex.fresh_val(st, ins.ty, "ref"))]
        C["std::vector::emplace_back"] = emplace
        C["std::vector::push_back"] = emplace
        C["std::vector::~vector"] = fresh_ret
        C["std::unique_ptr::~unique_ptr"] = fresh_ret
        C["std::vector::reserve"] = fresh_ret
        C["std::_Function_base::~_Function_base"] = fresh_ret
        trust("std::vector, std::unique_ptr, std::make_unique (MixedPool)", "emplace_back appends one element and keeps the others; make_unique<FixedPool>(..., object size, objects) makes a fixed pool for objects of that size")

    # ---- invariant
    def poolof(self, ex, st, v):
        """pool an entry of the map names"""
        return z3.If(v >= 2 ** 31, self.qp, ex.arr(st, PL)[v])

    def valid(self, ex, st, v):
        return z3.Or(z3.And(v >= 2 ** 31, v <= M1), z3.And(v >= 0, v < self.cnt(ex, st, "p")))

    def cfg(self, ex, st):
        i = z3.Int("ci")
        pl, sz, osz = ex.arr(st, PL), ex.arr(st, SZ), G(st, "osz")
        return [("one object size per fixed pool", self.cnt(ex, st, "s") == self.cnt(ex, st, "p")),
                ("the size recorded for a fixed pool is its object size", z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < self.cnt(ex, st, "p")),
                 z3.And(pl[i] > 0, pl[i] < MAX64, G(st, "isF", AIB)[pl[i]], osz[pl[i]] == sz[i], pl[i] != self.qp, sz[i] > 0)), patterns=[pl[i], sz[i]]))]

    def inv(self, ex, st):
        p = z3.Int("ip")
        lv, nd, src, o = G(st, "live", AIB), G(st, "nd"), G(st, "src"), own(st)
        k, v = ex.arr(st, PAIR1), ex.arr(st, PAIR2)
        bs, rq = G(st, "bsz"), G(st, "rq")
        return self.cfg(ex, st) + [
            ("every live allocation is recorded with the sub-pool it came from",
             z3.ForAll([p], z3.Implies(lv[p], z3.And(p > 0, p < MAX64, o[nd[p]] == self.mp, k[nd[p]] == p, self.valid(ex, st, v[nd[p]]), src[p] == self.poolof(ex, st, v[nd[p]]))), patterns=[lv[p]])),
            ("every live allocation has at least its requested size", z3.ForAll([p], z3.Implies(lv[p], z3.And(bs[p] >= rq[p], z3.Implies(src[p] == self.qp, bs[p] == rq[p]))), patterns=[lv[p]]))]

    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        ex.keyw.setdefault(SZ, 64), ex.keyw.setdefault(PL, 64)
        ex.keyw[PAIR2] = 32
        ex.arr(st, SZ), ex.arr(st, PL), ex.arr(st, PAIR2, 32), ex.arr(st, PAIR1)
        for g, s in (("live", AIB), ("bsz", AII), ("src", AII), ("osz", AII), ("isF", AIB), ("nd", AII), ("rq", AII), ("nthrow", I), ("cnt_s", I), ("cnt_p", I), ("own", AII), ("rank", AII), ("csz", AII), ("alive", AIB), ("qpmade", I)):
            G(st, g, s)

    def pre(self, ex, st):
        self.base(ex, st)
        st.assume(*self.tie(ex, st))
        for f in cont_wf(ex, st, self.mp, True):
            st.assume(f)
        for _, f in self.inv(ex, st):
            st.assume(f)

    def same_cfg(self, ex, st0, st):
        fs = [ex.arr(st, PL) == ex.arr(st0, PL), ex.arr(st, SZ) == ex.arr(st0, SZ)] + [self.cnt(ex, st, q) == self.cnt(ex, st0, q) for q in "sp"] + [self.vb(ex, st, q, o) == self.vb(ex, st0, q, o) for q in "sp" for o in (0, 8)]
        return z3.And([f for f in fs if not z3.is_true(simp(f))] or [z3.BoolVal(True)])

    def cands(self, ctx, vars_):
        ex, out = ctx.ex, []
        i = z3.Int("li")
        ints = [(j, ty.w) for j, (nm, ty) in enumerate(vars_) if ty.kind == 'int' and ty.w in (32, 64)]
        ptrs = [j for j, (nm, ty) in enumerate(vars_) if ty.kind == 'ptr']
        bytes_ = getattr(self, "bytes", None)
        for j, wd in ints:
            v = lambda vals, j=j: vals[j][2]
            out.append(("index %d at most the number of fixed pools" % j, lambda st, vals, v=v: z3.And(v(vals) >= 0, v(vals) <= self.cnt(ex, st, "s"))))
            if bytes_ is not None:
                out.append(("fixed pools below index %d are too small" % j, lambda st, vals, v=v: z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < v(vals)), ex.arr(st, SZ)[i] < bytes_), patterns=[ex.arr(st, SZ)[i]])))
            if wd == 64:
                out.append(("value %d positive" % j, lambda st, vals, v=v: v(vals) > 0))
            for j2, wd2 in ints:
                if j2 != j:
                    out.append(("index %d at most index %d" % (j, j2), lambda st, vals, v=v, j2=j2: v(vals) <= vals[j2][2]))
        for lab, j in [("index %d" % j, j) for j, wd in ints if wd == 64]:
            v = lambda vals, j=j: vals[j][2]
            out.append(("%s is the sum so far over no pool" % lab, lambda st, vals, v=v: v(vals) == psum(0), "weak"))
            for j2, wd2 in ints:
                if j2 != j:
                    out.append(("%s is the sum below index %d" % (lab, j2), lambda st, vals, v=v, j2=j2: v(vals) == psum(vals[j2][2]), "weak"))
                    out.append(("%s is the sum below index %d and the quick pool" % (lab, j2), lambda st, vals, v=v, j2=j2: v(vals) == psum(vals[j2][2]) + act(self.qp), "weak"))
        its = [("pointer %d" % j, lambda st, vals, j=j: ex.pterm(vals[j][2])) for j in ptrs]
        its += [("iterator %s" % (o,), lambda st, vals, o=o: ex.pterm(ex.load(st, P(obj=o, off=0), _PTRT))) for o in self.iters(ctx)]
        for lab, q in its:
            out.append(("%s inside the list" % lab, lambda st, vals, q=q: z3.And(q(st, vals) >= self.vb(ex, st, "p"), q(st, vals) <= self.vb(ex, st, "p", 8), (q(st, vals) - self.vb(ex, st, "p")) % 8 == 0)))
            for j, wd in ints:
                if wd == 64:
                    out.append(("value %d is the sum below %s" % (j, lab), lambda st, vals, q=q, j=j: vals[j][2] == psum((q(st, vals) - self.vb(ex, st, "p")) / 8)))
                    out.append(("value %d is the sum below %s and the quick pool" % (j, lab), lambda st, vals, q=q, j=j: vals[j][2] == psum((q(st, vals) - self.vb(ex, st, "p")) / 8) + act(self.qp)))
        for k in range(2):
            out.append(("configuration %d" % k, lambda st, vals, k=k: self.cfg(ex, st)[k][1]))
        out.append(("lists well-formed", lambda st, vals: z3.And(*self.tie(ex, st))))
        return out

    def iters(self, ctx):
        """local iterator objects the loop changes"""
        return [o for o in sorted(getattr(ctx.ex, "iter_objs", ()))]

    # ---- functions
    def v_allocate(self):
        b = self.bytes = z3.Int("bytes")

        def setup(ex, st):
            self.pre(ex, st)
            st.assume(b >= 0, b < MAX64)
            return [P(addr=self.this), b]

        def post(ex, st0, st, ret, args):
            r = T(ex, ret)
            x = z3.Int("px")
            lv0, lv, bs0, bs, src = G(st0, "live", AIB), G(st, "live", AIB), G(st0, "bsz"), G(st, "bsz"), G(st, "src")
            ex.oblige(st, "allocate: the result is one new block of at least the requested size, apart from every live one",
                      z3.And(r > 0, z3.Not(lv0[r]), lv[r], bs[r] >= b, z3.ForAll([x], z3.Implies(lv0[x], disjoint(r, bs[r], x, bs0[x])), patterns=[lv0[x]])))
            ex.oblige(st, "allocate: other live allocations stay", z3.ForAll([x], z3.Implies(x != r, z3.And(lv[x] == lv0[x], bs[x] == bs0[x], src[x] == G(st0, "src")[x])), patterns=[lv[x]]))
            ex.gset(st, "rq", z3.Store(G(st, "rq"), r, b))
            wit = [simp(t) for t in collect_stores(ex.arr(st, PAIR2, 32))[0]]
            if wit:
                n = fint("node")
                good = lambda t: z3.And(own(st)[t] == self.mp, ex.arr(st, PAIR1)[t] == r)
                e = wit[-1]
                for t in wit[:-1]:
                    e = z3.If(good(t), t, e)
                st.assume(n == e)
                ex.gset(st, "nd", z3.Store(G(st, "nd"), r, n))
            name_arrays(st)
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "allocate: " + lab, f)
            ex.oblige(st, "allocate: the sub-pools stay", self.same_cfg(ex, st0, st))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "allocate throws only if a sub-pool throws", G(st, "nthrow", I) > G(st0, "nthrow", I))
            ex.oblige(st, "allocate (throwing): nothing becomes or stops being live", G(st, "live", AIB) == G(st0, "live", AIB))
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "allocate (throwing): " + lab, f)
        try:
            return verify(self.w, MP + "::allocate", setup, post, post_exc=post_exc)
        finally:
            self.bytes = None

    def v_deallocate(self):
        p, n = z3.Ints("ptr size")

        def setup(ex, st):
            self.pre(ex, st)
            st.assume(p > 0, p < MAX64, n >= 0, n < MAX64, G(st, "live", AIB)[p], G(st, "rq")[p] == n)
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            x = z3.Int("qx")
            lv0, lv = G(st0, "live", AIB), G(st, "live", AIB)
            ex.oblige(st, "deallocate: exactly this allocation stops being live", z3.And(z3.Not(lv[p]), z3.ForAll([x], z3.Implies(x != p, lv[x] == lv0[x]), patterns=[lv[x]])))
            name_arrays(st)
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "deallocate: " + lab, f)
            ex.oblige(st, "deallocate: the sub-pools stay", self.same_cfg(ex, st0, st))
        return verify(self.w, MP + "::deallocate", setup, post, post_exc=never_throws("deallocate"))

    def v_release(self):
        def setup(ex, st):
            self.pre(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "release: live allocations stay", G(st, "live", AIB) == G(st0, "live", AIB))
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "release: " + lab, f)
        return verify(self.w, MP + "::release", setup, post, post_exc=never_throws("release"))

    def v_actual(self):
        def setup(ex, st):
            self.pre(ex, st)
            st.assume(psum(0) == 0, psum(self.cnt(ex, st, "p")) >= 0, act(self.qp) >= 0, psum(self.cnt(ex, st, "p")) + act(self.qp) < MAX64)
            i = z3.Int("mi")
            st.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= self.cnt(ex, st, "p")), z3.And(psum(i) >= 0, psum(i) <= psum(self.cnt(ex, st, "p")))), patterns=[psum(i)]))
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "getActualSize: the sum over all sub-pools", ret == psum(self.cnt(ex, st, "p")) + act(self.qp))
            ex.oblige(st, "getActualSize: changes nothing", self.same_cfg(ex, st0, st))
        return verify(self.w, MP + "::getActualSize", setup, post, post_exc=never_throws("getActualSize"))

    def v_ctor(self):
        names = ["smallest", "largest", "maxpool", "mult", "qinit", "qmin", "qalign"]

        def setup(ex, st):
            self.base(ex, st)
            nm, al, co = z3.Ints("name allocator should_coalesce")
            for v in (nm, al, co):
                st.assume(v > 0, v < MAX64 - 4096)
            vs = [z3.Int(x) for x in names]
            for v in vs:
                st.assume(v >= 0, v < MAX64)
            s, l, m, k = vs[:4]
            x = z3.Int("vx")
            st.assume(s > 0, k > 1, l * k < MAX64, s * k < MAX64)
            st.assume(z3.ForAll([x], z3.Not(G(st, "live", AIB)[x]), patterns=[G(st, "live", AIB)[x]]))
            ex.gset(st, "cnt_s", z3.IntVal(0))
            ex.gset(st, "cnt_p", z3.IntVal(0))
            return [P(addr=self.this), P(addr=nm), z3.Int("id"), P(addr=al)] + vs + [P(addr=co)]

        def post(ex, st0, st, ret, args):
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "constructor: " + lab, f)
            ex.oblige(st, "constructor: lists and their sizes agree", z3.And(*self.tie(ex, st)))
            ex.oblige(st, "constructor: the quick pool is made once", G(st, "qpmade", I) == G(st0, "qpmade", I) + 1)
            x = z3.Int("wx")
            o = own(st)
            ex.oblige(st, "constructor: nothing recorded", z3.ForAll([x], o[x] != self.mp, patterns=[o[x]]))
        return verify(self.w, MP + "::MixedPool", setup, post)

    def all(self):
        return [self.v_allocate, self.v_deallocate, self.v_release, self.v_actual, self.v_ctor]


class _PTRT:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


class _I64:
    kind, w, size, name, elts = 'int', 64, 8, None, None
