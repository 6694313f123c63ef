"""AllocationMap / MemoryMap / RecordList over the assumed contract of the Judy array."""
from ..lib import *

AM = "umpire::util::AllocationMap"
RL = AM + "::RecordList"
MM = "umpire::util::MemoryMap<umpire::util::AllocationMap::RecordList>"
AR = "umpire::util::AllocationRecord"
BL = RL + "::Block<umpire::util::AllocationRecord>"
FMP = "umpire::util::FixedMallocPool"
TUS = ["umpire/util/AllocationMap.cpp"]
RAW = ("R", "w64", 0)


class _I64:
    kind, w, size, name, elts = 'int', 64, 8, None, None


class _PTR:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


def jin(st):
    return G(st, "jin", AIB)


def jcell(st):
    return G(st, "jcell", AII)


def jpos(st):
    """key of the current position; 0 = none"""
    return G(st, "jpos", I)


def install_judy(w, keep_buf=False):
    C = w.contracts

    def key(ex, st, p):
        return ex.pterm(ex.load(st, p, _I64))

    def move_cells(ex, st, jin1, except_key=None):
        """cells may move when the array is restructured; the content of each key's cell is kept"""
        c0, r0 = jcell(st), ex.arr(st, RAW)
        c1 = z3.Const(fresh_name("jcell"), AII)
        r1 = ex.havoc_key(st, RAW)
        k, l, a = z3.Ints("jk jl ja")
        st.assume(z3.ForAll([k], z3.Implies(z3.And(jin1[k], jin(st)[k]), r1[c1[k]] == r0[c0[k]]), patterns=[c1[k], jin(st)[k]]))
        st.assume(z3.ForAll([k, l], z3.Implies(z3.And(jin1[k], jin1[l], k != l), c1[k] != c1[l]), patterns=[z3.MultiPattern(c1[k], c1[l])]))
        st.assume(z3.ForAll([k], z3.Implies(jin1[k], z3.And(c1[k] > 0, c1[k] < MAX64)), patterns=[c1[k]]))
        ex.gset(st, "jcell", c1)

    def cell(ex, st, args, ins):
        k = key(ex, st, args[1])
        j = jin(st)
        ex.gset(st, "jpos", k)
        s2 = st.copy()
        outs = []
        s2.assume(j[k])
        if ex.feasible(s2):
            s2.assume(jcell(s2)[k] > 0)
            outs.append((s2, 'ret', P(addr=jcell(s2)[k])))
        st.assume(z3.Not(j[k]))
        if ex.feasible(st):
            j1 = z3.Store(j, k, z3.BoolVal(True))
            move_cells(ex, st, j1)
            ex.gset(st, "jin", j1)
            c = jcell(st)[k]
            st.assume(c > 0, ex.arr(st, RAW)[c] == 0)
            outs.append((st, 'ret', P(addr=c)))
        return outs

    def slot(ex, st, args, ins):
        k = key(ex, st, args[1])
        s2 = st.copy()
        st.assume(jin(st)[k], jcell(st)[k] > 0)
        ex.gset(st, "jpos", k)
        s2.assume(z3.Not(jin(s2)[k]))
        ex.gset(s2, "jpos", fint("jp"))
        return [(st, 'ret', P(addr=jcell(st)[k])), (s2, 'ret', P(addr=z3.IntVal(0)))]

    def at(ex, st, cond_found, cond_none):
        """position on key r satisfying cond_found(r), or none"""
        s2 = st.copy()
        r = fint("jr")
        st.assume(jin(st)[r], r >= 0, r < MAX64, jcell(st)[r] > 0, *cond_found(st, r))
        ex.gset(st, "jpos", r)
        s2.assume(*cond_none(s2))
        ex.gset(s2, "jpos", z3.IntVal(0))
        return [(st, 'ret', P(addr=jcell(st)[r])), (s2, 'ret', P(addr=z3.IntVal(0)))]

    def nearest_ge(k):
        m = z3.Int("jm")
        return (lambda st, r: [r >= k, z3.ForAll([m], z3.Implies(z3.And(jin(st)[m], m >= k), m >= r), patterns=[jin(st)[m]])],
                lambda st: [z3.ForAll([m], z3.Implies(jin(st)[m], m < k), patterns=[jin(st)[m]])])

    def strt(ex, st, args, ins):
        mx = simp(args[2])
        k = z3.IntVal(0) if isnum(mx) and mx.as_long() == 0 else key(ex, st, args[1])
        return at(ex, st, *nearest_ge(k))

    def nxt(ex, st, args, ins):
        p = jpos(st)
        return at(ex, st, *nearest_ge(z3.If(p == 0, z3.IntVal(0), p + 1)))

    def prv(ex, st, args, ins):
        p = jpos(st)
        m = z3.Int("jm")
        lt = lambda x: z3.Or(p == 0, x < p)
        return at(ex, st,
                  lambda s, r: [lt(r), z3.ForAll([m], z3.Implies(z3.And(jin(s)[m], lt(m)), m <= r), patterns=[jin(s)[m]])],
                  lambda s: [z3.ForAll([m], z3.Implies(jin(s)[m], z3.Not(lt(m))), patterns=[jin(s)[m]])])

    def jkey(ex, st, args, ins):
        v = fint("jkey")
        st.assume(v >= 0, v < MAX64, z3.Implies(jpos(st) != 0, v == jpos(st)))
        if keep_buf:  # an empty array has no current key: the buffer is left alone
            m = z3.Int("jm")
            st.assume(z3.Implies(z3.And(jpos(st) == 0, z3.ForAll([m], z3.Not(jin(st)[m]), patterns=[jin(st)[m]])), v == key(ex, st, args[1])))
        ex.store(st, args[1], v, _I64)
        return [(st, 'ret', ex.fresh_val(st, ins.ty))]

    def jdel(ex, st, args, ins):
        p = jpos(st)
        ex.oblige(st, "judy_del only at an existing key", z3.And(p != 0, jin(st)[p]), "pre")
        j1 = z3.Store(jin(st), p, z3.BoolVal(False))
        move_cells(ex, st, j1)
        ex.gset(st, "jin", j1)
        ex.gset(st, "jpos", fint("jp"))
        return [(st, 'ret', ex.fresh_val(st, ins.ty))]

    C["judy_cell"], C["judy_slot"], C["judy_strt"], C["judy_nxt"], C["judy_prv"] = cell, slot, strt, nxt, prv
    C["judy_key"], C["judy_del"] = jkey, jdel
    trust("judy array (src/tpl/umpire/judy, C)", "ordered map from 64-bit keys to cells as documented in judy.h: judy_cell inserts, "
          "judy_slot looks up, judy_strt/nxt/prv move in key order, judy_key reports the current key, judy_del deletes it; cells may "
          "move on insertion and deletion. Exercised by the bounded stand-in judy_driver (bounded, not proved)")


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_judy(w)
        self.this = z3.Int("this")
        t = self.this
        self.map = t + w.off(AM, "m_map")
        self.bp = t + w.off(AM, "m_block_pool")
        self.vp = self.map + w.off(MM, "m_pool")
        self.mx = t + w.off(AM, "m_mutex")
        self.f = Flds(w, AM, ["m_size"])
        self.m = Flds(w, MM, ["m_last", "m_oper", "m_size"])
        self.l = Flds(w, RL, ["m_map", "m_tail", "m_length"])
        self.b = Flds(w, BL, ["prev"])
        self.r = Flds(w, AR, ["ptr", "size", "strategy"])
        self.recoff = w.off(BL, "rec")
        self.S_len = Sum("records", lambda ex, st, o: z3.If(self.isL(st)[o], self.l.m_length(ex, st, o), 0), [self.l.K_m_length], ["isL"])
        self.S_key = Sum("keys", lambda ex, st, o: z3.If(jin(st)[o], 1, 0), [], ["jin"])
        self.install()

    def isL(self, st):
        return G(st, "isL", AIB)

    def isB(self, st):
        return G(st, "isB", AIB)

    def lkey(self, st):
        return G(st, "lkey", AII)

    def bl(self, st):
        return G(st, "bl", AII)

    def dep(self, st):
        return G(st, "dep", AII)

    def lst(self, ex, st, k):
        """list stored under key k"""
        return ex.arr(st, RAW)[jcell(st)[k]]

    def install(self):
        C = self.w.contracts
        sp = self

        def fm_alloc(ex, st, args, ins):
            ex.used_contracts.add(FMP + "::allocate")
            a = simp(T(ex, args[0]))
            p = fint("obj")
            st.assume(p > 0, p < MAX64 - 4096)
            for o in st.g.get("foreign", ()):  # pool memory is not the caller's object
                st.assume(p + sp.recoff != o, p != o)
            if ex.prove(st.pc, a == sp.bp, 2000):
                nm = "isB"
            elif ex.prove(st.pc, a == sp.vp, 2000):
                nm = "isL"
            else:
                raise Unsupported("FixedMallocPool of unknown identity")
            s = G(st, nm, AIB)
            st.assume(z3.Not(s[p]))
            ex.gset(st, nm, z3.Store(s, p, z3.BoolVal(True)))
            if nm == "isB":
                g, d = fint("gbl"), fint("gdep")
                ex.gset(st, "bl", z3.Store(sp.bl(st), p, g))
                ex.gset(st, "dep", z3.Store(sp.dep(st), p, d))
                st.g["pendB"] = st.g.get("pendB", ()) + ((p, g, d),)
            else:
                g = fint("glk")
                ex.gset(st, "lkey", z3.Store(sp.lkey(st), p, g))
                # ghost definition: the new list belongs to the key the judy position is on
                st.assume(g == jpos(st))
            return [(st, 'ret', P(addr=p))]

        def fm_dealloc(ex, st, args, ins):
            ex.used_contracts.add(FMP + "::deallocate")
            a, p = simp(T(ex, args[0])), T(ex, args[1])
            if ex.prove(st.pc, a == sp.bp, 2000):
                nm = "isB"
            elif ex.prove(st.pc, a == sp.vp, 2000):
                nm = "isL"
            else:
                raise Unsupported("FixedMallocPool of unknown identity")
            s = G(st, nm, AIB)
            ex.oblige(st, "a %s is returned to its pool exactly once" % ("record block" if nm == "isB" else "record list"), s[p], "pre")
            ex.gset(st, nm, z3.Store(s, p, z3.BoolVal(False)))
            # the memory is no longer the caller's: its contents are arbitrary from here on
            for k, a in ([(sp.b.K_prev, p + sp.b.A_prev)] + [(getattr(sp.r, "K_" + f), p + sp.recoff + getattr(sp.r, "A_" + f)) for f in ("ptr", "size", "strategy")]
                         if nm == "isB" else [(getattr(sp.l, "K_" + f), p + getattr(sp.l, "A_" + f)) for f in ("m_map", "m_tail", "m_length")]):
                v = fint("freed")
                st.assume(v >= 0, v < MAX64)
                ex.setfld(st, k, simp(a), v)
            return [(st, 'ret', None)]

        C[FMP + "::allocate"] = fm_alloc
        C[FMP + "::deallocate"] = fm_dealloc

        # lock discipline: the map, its pools and its record lists are touched only while the map's mutex is held
        def under_lock(ex, st, *_):
            if st.g.get("locking"):
                ex.oblige(st, "the record map is accessed only while its mutex is held", G(st, "held", AII)[sp.mx] == 1, "pre")

        def guard(n):
            h = C[n]

            def g(ex, st, args, ins):
                under_lock(ex, st)
                return h(ex, st, args, ins)
            C[n] = g
        for n in (FMP + "::allocate", FMP + "::deallocate", "judy_cell", "judy_slot", "judy_strt", "judy_nxt", "judy_prv", "judy_key", "judy_del"):
            guard(n)
        for k in (self.l.K_m_tail, self.l.K_m_length, self.f.K_m_size):
            self.w.guarded[k] = under_lock

    def fix(self, ex, st):
        """ghost definitions: a new block belongs to the list whose tail it is, one deeper than its predecessor"""
        for p, g, d in st.g.get("pendB", ()):
            pv = self.b.prev(ex, st, p)
            st.assume(d == z3.If(pv == 0, z3.IntVal(1), z3.If(pv == p, d, self.dep(st)[pv] + 1)))
            x = z3.Int("px")
            t = self.l.m_tail
            lt = fint("ltail")
            # skolem witness: a list whose tail is p, if there is one
            st.assume(z3.Implies(z3.And(self.isL(st)[lt], t(ex, st, lt) == p), g == lt))
            k_idx, _ = collect_stores(ex.arr(st, self.l.K_m_tail))
            for i in k_idx:
                st.assume(z3.Implies(t(ex, st, i - self.l.A_m_tail if self.l.A_m_tail else i) == p, g == (i - self.l.A_m_tail if self.l.A_m_tail else i)))
        st.g.pop("pendB", None)

    def inv(self, ex, st, sums=True):
        self.fix(ex, st)
        k, x, y = z3.Ints("ik ix iy")
        J, L, Bk, lk, bl, dep = jin(st), self.isL(st), self.isB(st), self.lkey(st), self.bl(st), self.dep(st)
        lst = lambda q: self.lst(ex, st, q)
        tail, ln, mp = (lambda o, f=f: f(ex, st, o) for f in (self.l.m_tail, self.l.m_length, self.l.m_map))
        prev = lambda o: self.b.prev(ex, st, o)
        rptr = lambda o: self.r.ptr(ex, st, o + self.recoff)
        r = [
            ("every key maps to its own record list", z3.ForAll([k], z3.Implies(J[k], z3.And(k > 0, L[lst(k)], lk[lst(k)] == k)), patterns=[J[k]])),
            ("every record list is reachable under its key", z3.ForAll([x], z3.Implies(L[x], z3.And(x > 0, J[lk[x]], lst(lk[x]) == x, mp(x) == self.this)), patterns=[L[x]])),
            ("record lists are non-empty and their length is the chain length",
             z3.ForAll([x], z3.Implies(L[x], z3.And(ln(x) >= 1, Bk[tail(x)], bl[tail(x)] == x, dep[tail(x)] == ln(x))), patterns=[L[x]])),
            ("record chains", z3.ForAll([x], z3.Implies(Bk[x], z3.And(x > 0, dep[x] >= 1, L[bl[x]], rptr(x) == lk[bl[x]],
                                                                    z3.If(prev(x) == 0, dep[x] == 1,
                                                                          z3.And(Bk[prev(x)], bl[prev(x)] == bl[x], dep[prev(x)] == dep[x] - 1)))), patterns=[Bk[x]])),
            ("record chains do not share blocks", z3.ForAll([x, y], z3.Implies(z3.And(Bk[x], Bk[y], bl[x] == bl[y], dep[x] == dep[y]), x == y), patterns=[z3.MultiPattern(Bk[x], Bk[y])])),
            ("no block lies beyond the tail", z3.ForAll([x], z3.Implies(Bk[x], dep[x] <= ln(bl[x])), patterns=[Bk[x]])),
            ("cells are distinct", z3.ForAll([x, y], z3.Implies(z3.And(J[x], J[y], x != y), jcell(st)[x] != jcell(st)[y]), patterns=[z3.MultiPattern(J[x], J[y])])),
        ]
        if sums:
            for S_, fl, o, lab in ((self.S_len, self.f.m_size, self.this, "size() equals the number of records"),
                                   (self.S_key, self.m.m_size, self.map, "the key map's size equals the number of keys")):
                if ("sumref_" + S_.name) not in st.g:
                    S_.reset(ex, st)
                v, ok = S_.value(ex, st)
                r.append((lab, z3.And(ok, fl(ex, st, o) == v)))
        return r

    def pre_state(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        for g, s in (("isL", AIB), ("isB", AIB), ("jin", AIB), ("jcell", AII), ("lkey", AII), ("bl", AII), ("dep", AII), ("jpos", I), ("held", AII)):
            G(st, g, s)
        st.assume(z3.Not(self.isL(st)[0]), z3.Not(self.isB(st)[0]), z3.Not(jin(st)[0]))
        st.assume(st.g["held"][self.mx] == 0)
        st.g["locking"] = True
        x = z3.Int("bx")
        for f in ("isL", "isB"):
            a = st.g[f]
            st.assume(z3.ForAll([x], z3.Implies(a[x], z3.And(x > 0, x < MAX64 - 4096)), patterns=[a[x]]))
        for lab, f in self.inv(ex, st):
            st.assume(f)
        # address-space lemma: every record occupies at least 64 bytes, so there are fewer than 2^58 of them
        st.assume(self.f.m_size(ex, st, self.this) < 2 ** 58, self.m.m_size(ex, st, self.map) < 2 ** 58)
        L = self.isL(st)
        st.assume(z3.ForAll([x], z3.Implies(L[x], self.l.m_length(ex, st, x) < 2 ** 58), patterns=[L[x]]))

    # ---- observation helpers
    def top(self, ex, st, k):
        return self.l.m_tail(ex, st, self.lst(ex, st, k))

    def frame_keys(self, ex, st0, st, k):
        """every other key keeps its records: same list, same newest record, same length"""
        q = z3.Int("fq")
        J0, J1 = jin(st0), jin(st)
        return z3.ForAll([q], z3.Implies(q != k, z3.And(J1[q] == J0[q], z3.Implies(J0[q], z3.And(self.lst(ex, st, q) == self.lst(ex, st0, q),
                         self.top(ex, st, q) == self.top(ex, st0, q), self.l.m_length(ex, st, self.lst(ex, st, q)) == self.l.m_length(ex, st0, self.lst(ex, st0, q)))))),
                         patterns=[J0[q]])

    def frame_recs(self, ex, st0, st, except_b=None):
        """records already stored keep their contents, place and order"""
        x = z3.Int("fb")
        B0 = self.isB(st0)
        fs = [self.b.prev(ex, st, x) == self.b.prev(ex, st0, x), self.isB(st)[x]] + \
             [f(ex, st, x + self.recoff) == f(ex, st0, x + self.recoff) for f in (self.r.ptr, self.r.size, self.r.strategy)]
        c = B0[x] if except_b is None else z3.And(B0[x], x != except_b)
        return z3.ForAll([x], z3.Implies(c, z3.And(*fs)), patterns=[B0[x]])

    def unheld(self, st):
        return z3.And(G(st, "held", AII)[self.mx] == 0)

    # ---- obligations
    def v_insert(self):
        def setup(ex, st):
            self.pre_state(ex, st)
            p, rec = z3.Int("ptr"), z3.Int("rec")
            st.assume(p > 0, p < MAX64, rec > 0, rec < MAX64 - 4096)
            x = z3.Int("rx")
            # the record passed in is the caller's object, not one of the map's blocks; its ptr is the key
            st.assume(z3.ForAll([x], z3.Implies(self.isB(st)[x], x + self.recoff != rec), patterns=[self.isB(st)[x]]))
            st.assume(self.r.ptr(ex, st, rec) == p)
            st.g["foreign"] = (rec,)
            return [P(addr=self.this), P(addr=p), P(addr=rec)]

        def post(ex, st0, st, ret, args):
            p, rec = args[1].addr, args[2].addr
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "insert: " + lab, f)
            t = self.top(ex, st, p)
            ex.oblige(st, "insert: the key is present", jin(st)[p])
            ex.oblige(st, "insert: the newest record of the key is the one inserted",
                      z3.And([f(ex, st, t + self.recoff) == f(ex, st0, rec) for f in (self.r.ptr, self.r.size, self.r.strategy)]))
            ex.oblige(st, "insert: it is stacked on the key's earlier records",
                      z3.And(z3.Implies(jin(st0)[p], z3.And(self.b.prev(ex, st, t) == self.top(ex, st0, p), self.lst(ex, st, p) == self.lst(ex, st0, p))),
                             z3.Implies(z3.Not(jin(st0)[p]), self.b.prev(ex, st, t) == 0)))
            ex.oblige(st, "insert: size grows by one", self.f.m_size(ex, st, self.this) == self.f.m_size(ex, st0, self.this) + 1)
            ex.oblige(st, "insert: other keys keep their records", self.frame_keys(ex, st0, st, p))
            ex.oblige(st, "insert: stored records keep address and contents", self.frame_recs(ex, st0, st))
            ex.oblige(st, "insert: the lock is released", self.unheld(st))
        return verify(self.w, AM + "::insert", setup, post)

    def v_remove(self):
        def setup(ex, st):
            self.pre_state(ex, st)
            p, out = z3.Int("ptr"), z3.Int("out")
            st.assume(p > 0, p < MAX64, out > 0, out < MAX64 - 4096)
            x = z3.Int("rx")
            st.assume(z3.ForAll([x], z3.Implies(self.isB(st)[x], x + self.recoff != out), patterns=[self.isB(st)[x]]))
            return [P(addr=out), P(addr=self.this), P(addr=p)]

        def post(ex, st0, st, ret, args):
            out, p = args[0].addr, args[2].addr
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "remove: " + lab, f)
            t0 = self.top(ex, st0, p)
            ex.oblige(st, "remove: returns normally only for a present key", jin(st0)[p])
            ex.oblige(st, "remove: returns the most recent record of the key",
                      z3.And([f(ex, st, out) == f(ex, st0, t0 + self.recoff) for f in (self.r.ptr, self.r.size, self.r.strategy)]))
            pv = self.b.prev(ex, st0, t0)
            ex.oblige(st, "remove: the next older record becomes current, or the key disappears",
                      z3.If(pv == 0, z3.Not(jin(st)[p]), z3.And(jin(st)[p], self.top(ex, st, p) == pv)))
            ex.oblige(st, "remove: size shrinks by one", self.f.m_size(ex, st, self.this) == self.f.m_size(ex, st0, self.this) - 1)
            ex.oblige(st, "remove: other keys keep their records", self.frame_keys(ex, st0, st, p))
            ex.oblige(st, "remove: other records keep address and contents", self.frame_recs(ex, st0, st, t0))
            ex.oblige(st, "remove: the lock is released", self.unheld(st))

        def post_exc(ex, st0, st, e, args):
            p = args[2].addr
            for lab, f in self.inv(ex, st):
                ex.oblige(st, "remove (throwing): " + lab, f)
            ex.oblige(st, "remove throws only for an absent key", z3.Not(jin(st0)[p]))
            ex.oblige(st, "remove (throwing): nothing changes", z3.And(self.frame_keys(ex, st0, st, z3.IntVal(0)), self.frame_recs(ex, st0, st),
                      self.f.m_size(ex, st, self.this) == self.f.m_size(ex, st0, self.this)))
            ex.oblige(st, "remove (throwing): the lock is released", self.unheld(st))
        return verify(self.w, AM + "::remove", setup, post, post_exc=post_exc)

    def find_rel(self, ex, st, p, found, addr):
        """found/addr is the newest record of the nearest key at or below p if p lies in its range"""
        q = z3.Int("fk")
        J = jin(st)
        near = lambda k: z3.And(J[k], k <= p, z3.ForAll([q], z3.Implies(z3.And(J[q], q <= p), q <= k), patterns=[J[q]]))
        k = z3.Int("nk")
        sz = lambda k: self.r.size(ex, st, self.top(ex, st, k) + self.recoff)
        hit = lambda k: z3.And(near(k), z3.Or(k == p, p < k + sz(k)))
        return near, hit, k

    def v_find(self, name, throws, nth=0):
        def setup(ex, st):
            self.pre_state(ex, st)
            p = z3.Int("ptr")
            st.assume(p > 0, p < MAX64)
            x = z3.Int("sx")
            # recorded ranges do not wrap and are at most PTRDIFF_MAX long
            st.assume(z3.ForAll([x], z3.Implies(self.isB(st)[x], z3.And(self.r.size(ex, st, x + self.recoff) < MAX63,
                                self.r.ptr(ex, st, x + self.recoff) + self.r.size(ex, st, x + self.recoff) <= MAX64)), patterns=[self.isB(st)[x]]))
            return [P(addr=self.this), P(addr=p)]

        def common(ex, st0, st):
            for lab, f in self.inv(ex, st):
                ex.oblige(st, name + ": " + lab, f)
            ex.oblige(st, name + ": the lock is released", self.unheld(st))
            ex.oblige(st, name + ": changes no record", z3.And(self.frame_keys(ex, st0, st, z3.IntVal(0)), self.frame_recs(ex, st0, st)))

        def post(ex, st0, st, ret, args):
            p = args[1].addr
            common(ex, st0, st)
            near, hit, k = self.find_rel(ex, st0, p, None, None)
            r = ex.pterm(ret) if not z3.is_bool(ret) else None
            if r is None:
                ex.oblige(st, name + ": true only if the pointer lies in the nearest record", z3.Implies(ret, z3.Exists([k], hit(k))))
                ex.oblige(st, name + ": true if the pointer lies in the nearest record", z3.ForAll([k], z3.Implies(hit(k), ret)))
                return
            ex.oblige(st, name + ": a result is the newest record of the nearest key at or below, and contains the pointer",
                      z3.Or(r == 0, z3.Exists([k], z3.And(hit(k), r == self.top(ex, st0, k) + self.recoff))))
            ex.oblige(st, name + ": a pointer inside the nearest record is found", z3.ForAll([k], z3.Implies(hit(k), r != 0)))
            if throws:
                ex.oblige(st, name + ": never returns null", r != 0)

        def post_exc(ex, st0, st, e, args):
            common(ex, st0, st)
            near, hit, k = self.find_rel(ex, st0, args[1].addr, None, None)
            if throws:
                ex.oblige(st, name + ": throws only if the pointer is in no nearest record", z3.ForAll([k], z3.Not(hit(k))))
            else:
                ex.oblige(st, name + ": never throws", z3.BoolVal(False))
        fs = self.w.fns(AM + "::" + name)
        if len(fs) <= nth:
            raise ExtractError("function not found: " + name)
        return verify(self.w, AM + "::" + name, setup, post, post_exc=post_exc, fn=fs[nth], label=AM + "::" + name + ("" if nth == 0 else " (overload %d)" % nth))

    def all(self):
        return [self.v_insert, self.v_remove] + [lambda n=n, t=t, k=k: self.v_find(n, t, k) for n, t, k in
                (("find", True, 0), ("find", True, 1), ("findRecord", False, 0), ("findRecord", False, 1), ("contains", False, 0))]
