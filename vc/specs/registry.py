"""The registry of memory operations: an operation looked up is the one registered first for that name and pair of platforms."""
from ..lib import *
from ..strs import *
from .front import AS

OPN = "umpire::op::"
REG = OPN + "MemoryOperationRegistry"
TUS = ["umpire/op/MemoryOperationRegistry.cpp", "umpire/strategy/NamedAllocationStrategy.cpp"]


class _PTR:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


def shv(st):
    """object a std::shared_ptr at an address owns"""
    return G(st, "shv", AII)


def setshv(ex, st, a, v):
    ex.gset(st, "shv", z3.Store(shv(st), a, v))


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_strings(w)
        self.this = z3.Int("this")
        self.N = self.this + w.off(REG, "m_operators")
        self.plat = ufun("platform_of", I, I)
        self.install()

    def install(self):
        w, C, sp = self.w, self.w.contracts, self
        for c in ("std::shared_ptr", "std::__shared_ptr"):
            n = c.split("::")[-1]

            def sp_ctor(ex, st, args, ins):
                if len(args) == 1:
                    setshv(ex, st, T(ex, args[0]), z3.IntVal(0))
                elif len(args) == 2:
                    setshv(ex, st, T(ex, args[0]), shv(st)[T(ex, args[1])])
                else:
                    return NotImplemented
                return [(st, 'ret', None)]

            def sp_asg(ex, st, args, ins):
                setshv(ex, st, T(ex, args[0]), shv(st)[T(ex, args[1])])
                return [(st, 'ret', args[0])]
            C[c + "::" + n] = sp_ctor
            C[c + "::operator="] = sp_asg
            C[c + "::~" + n] = fresh_ret
        old = C["std::unordered_map::insert"]

        def insert(ex, st, args, ins):
            if kkind(ex) != 'str':
                A, k = T(ex, args[0]), keyarg(ex, st, args[1], ins)
                v = shv(st)[T(ex, args[1]) + 8]
                r = m_find(ex, st, A, k)
                s2 = st.copy()
                st.assume(r != endnode(A))
                s2.assume(r == endnode(A))
                outs = []
                if ex.feasible_q(st):
                    outs.append((st, 'ret', (P(addr=r), z3.IntVal(0))))
                if ex.feasible_q(s2):
                    n = m_insert_node(ex, s2, A, k, None, False)
                    setshv(ex, s2, n + 8, v)
                    outs.append((s2, 'ret', (P(addr=n), z3.IntVal(1))))
                return outs
            # a new name with a copy of the (empty) map given
            A, k = T(ex, args[0]), keyarg(ex, st, args[1], ins)
            src = T(ex, args[1]) + 32
            r = m_find(ex, st, A, k)
            s2 = st.copy()
            st.assume(r != endnode(A))
            s2.assume(r == endnode(A))
            outs = []
            if ex.feasible_q(st):
                outs.append((st, 'ret', (P(addr=r), z3.IntVal(0))))
            if ex.feasible_q(s2):
                n, x = m_insert_node(ex, s2, A, k, None, False), z3.Int("nix")
                ex.oblige(s2, "the map inserted under a new name is empty", csz(s2)[src] == 0, "pre")
                s2.assume(n + 32 != sp.N, z3.ForAll([x], own(s2)[x] != n + 32, patterns=[own(s2)[x]]))
                ex.gset(s2, "csz", z3.Store(csz(s2), n + 32, z3.IntVal(0)))
                outs.append((s2, 'ret', (P(addr=n), z3.IntVal(1))))
            return outs
        C["std::unordered_map::insert"] = insert

        def uctor(ex, st, args, ins):
            A = T(ex, args[0])
            if len(args) == 1:
                n = z3.Int("n")
                st.assume(z3.ForAll([n], own(st)[n] != A, patterns=[own(st)[n]]))
                ex.gset(st, "csz", z3.Store(csz(st), A, z3.IntVal(0)))
            else:  # copy or move of a map: only of empty ones here
                B_ = T(ex, args[1])
                ex.oblige(st, "only an empty map is copied", csz(st)[B_] == 0, "pre")
                ex.gset(st, "csz", z3.Store(csz(st), A, z3.IntVal(0)))
            return [(st, 'ret', None)]
        C["std::unordered_map::unordered_map"] = uctor

        def getplat(ex, st, args, ins):
            v = sp.plat(T(ex, args[0]))
            st.assume(v >= 0, v < 2 ** 31)
            return [(st, 'ret', v)]
        w.virt[AS + "::getPlatform"] = getplat

    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        sval(st), own(st), csz(st), rank(st), shv(st)
        n = z3.Int("bn")
        st.assume(*cont_wf(ex, st, self.N, True, False))
        o = own(st)
        # the nodes of the maps are separate objects
        st.assume(z3.ForAll([n], z3.Implies(o[n] == self.N, z3.And(n > 0, n < MAX64 - 4096, n + 32 != self.N, sval(st)[n] == ex.arr(st, PAIR1)[n])), patterns=[o[n]]))
        m, a = z3.Ints("bm ba")
        st.assume(z3.ForAll([n, m], z3.Implies(z3.And(o[n] == self.N, o[m] == n + 32), m > 0), patterns=[z3.MultiPattern(o[n], o[m])]))
        k = ex.arr(st, PAIR1)
        st.assume(z3.ForAll([n, m, a], z3.Implies(z3.And(o[n] == self.N, o[m] == n + 32, o[a] == n + 32, k[m] == k[a]), m == a), patterns=[z3.MultiPattern(o[n], o[m], o[a])]))

    def entry(self, ex, st, name, plats, op=None):
        """op is registered under name and platforms"""
        n, m = z3.Ints("en em")
        o, k, v = own(st), ex.arr(st, PAIR1), shv(st)
        return z3.Exists([n, m], z3.And(o[n] == self.N, k[n] == name, o[m] == n + 32, k[m] == plats, v[m + 8] == op if op is not None else z3.BoolVal(True)))

    def same(self, ex, st0, st, name=None, plats=None):
        """every other entry is unchanged"""
        n, m = z3.Ints("sn sm")
        o0, o1, k0, k1, v0, v1 = own(st0), own(st), ex.arr(st0, PAIR1), ex.arr(st, PAIR1), shv(st0), shv(st)
        nb = (lambda: z3.Or(k1[n] != name, k1[m] != plats)) if name is not None else (lambda: z3.BoolVal(True))
        return z3.And(z3.ForAll([n, m], z3.Implies(z3.And(o0[n] == self.N, o0[m] == n + 32), z3.And(o1[n] == self.N, k1[n] == k0[n], o1[m] == o0[m], k1[m] == k0[m], v1[m + 8] == v0[m + 8])), patterns=[z3.MultiPattern(o0[n], o0[m])]),
                      z3.ForAll([n, m], z3.Implies(z3.And(o1[n] == self.N, o1[m] == n + 32, nb()), z3.And(o0[n] == self.N, o0[m] == n + 32)), patterns=[z3.MultiPattern(o1[n], o1[m])]))

    def name(self, ex, st):
        a = z3.Int("name")
        st.assume(a > 0, a < MAX64 - 4096, z3.Or(a + 4096 <= self.this, a >= self.this + 4096), own(st)[a] == 0)
        return P(addr=a)

    def pick(self, short, rx):
        fs = [f for f in self.w.fns(short) if re.search(rx, f.dem or "")]
        if not fs:
            raise ExtractError("function not found in the current source: " + short)
        return fs[0]

    def cellp(self, st, n):
        c = z3.Int(n)
        st.assume(c > 0, c < MAX64 - 4096, z3.Or(c + 4096 <= self.this, c >= self.this + 4096), c % 8 == 0, own(st)[c - 8] == 0, own(st)[c] == 0)
        return P(addr=c)

    def v_register(self):
        def setup(ex, st):
            self.base(ex, st)
            pl, op = z3.Ints("platforms operation")
            st.assume(pl >= 0, pl < MAX64, op > 0, op < MAX64)
            c = self.cellp(st, "opref")
            st.assume(shv(st)[c.addr] == op)
            return [P(addr=self.this), self.name(ex, st), pl, c]

        def post(ex, st0, st, ret, args):
            v, pl, op = sval(st0)[args[1].addr], args[2], z3.Int("operation")
            ex.oblige(st, "registerOperation: the name and platforms lead to the operation registered first", z3.If(self.entry(ex, st0, v, pl), self.entry(ex, st, v, pl), self.entry(ex, st, v, pl, op)))
            ex.oblige(st, "registerOperation: every other entry is unaffected", self.same(ex, st0, st, v, pl))
        return verify(self.w, REG + "::registerOperation", setup, post, post_exc=never_throws("registerOperation"))

    def v_find(self):
        def setup(ex, st):
            self.base(ex, st)
            pl = z3.Int("platforms")
            st.assume(pl >= 0, pl < MAX64)
            return [self.cellp(st, "result"), P(addr=self.this), self.name(ex, st), pl]

        def post(ex, st0, st, ret, args):
            v, pl = sval(st0)[args[2].addr], args[3]
            ex.oblige(st, "find: the operation registered for exactly that name and pair of platforms", self.entry(ex, st0, v, pl, shv(st)[args[0].addr]))
            ex.oblige(st, "find: changes nothing", self.same(ex, st0, st))

        def post_exc(ex, st0, st, e, args):
            v, pl = sval(st0)[args[2].addr], args[3]
            ex.oblige(st, "find throws only if no such operation is registered", z3.And(z3.Not(self.entry(ex, st0, v, pl)), self.same(ex, st0, st)))
        return verify(self.w, REG + "::find", setup, post, post_exc=post_exc, fn=self.pick(REG + "::find", "std::pair<camp"), label=REG + "::find(platforms)")

    def v_find2(self):
        w = self.w

        def h(ex, st, args, ins):
            if len(args) != 4:
                return NotImplemented
            ex.used_contracts.add(REG + "::find(platforms)")
            ex.gset(st, "fname", sval(st)[T(ex, args[2])])
            ex.gset(st, "fplat", args[3])
            ex.gset(st, "nf", G(st, "nf", I) + 1)
            s2 = st.copy()
            ex.gset(s2, "nfail", G(s2, "nfail", I) + 1)
            o = fint("op")
            st.assume(o > 0)
            ex.gset(st, "fop", o)
            setshv(ex, st, T(ex, args[0]), o)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        w.contracts[REG + "::find"] = h

        def setup(ex, st):
            self.base(ex, st)
            for n in ("fname", "fplat", "nf", "fop", "nfail"):
                G(st, n, I)
            s, d = z3.Ints("src dst")
            st.assume(s > 0, s < MAX64, d > 0, d < MAX64)
            return [self.cellp(st, "result"), P(addr=self.this), self.name(ex, st), P(addr=s), P(addr=d)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "find(allocators): looks up the name for the platforms of source and destination, in that order", z3.And(G(st, "nf", I) == G(st0, "nf", I) + 1, G(st, "fname", I) == sval(st0)[args[2].addr],
                      G(st, "fplat", I) == self.plat(args[3].addr) + 2 ** 32 * self.plat(args[4].addr), shv(st)[args[0].addr] == G(st, "fop", I)))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "find(allocators) throws only if the lookup throws", G(st, "nfail", I) > G(st0, "nfail", I))
        return verify(w, REG + "::find", setup, post, post_exc=post_exc, fn=self.pick(REG + "::find", "AllocationStrategy"), label=REG + "::find(allocators)")

    def v_ctor(self):
        w = self.w
        kinds = {}

        def make(ex, st, args, ins):
            m = re.search(r"make_shared<([^>]*?)[,>]", ex.cur_call[1].dem or "")
            o = fint("op")
            st.assume(o > 0)
            c = kinds.setdefault(m.group(1), len(kinds) + 1)
            ex.gset(st, "opclass", z3.Store(G(st, "opclass", AII), o, z3.IntVal(c)))
            setshv(ex, st, T(ex, args[0]), o)
            return [(st, 'ret', None)]
        w.contracts["std::make_shared"] = make

        def reg(ex, st, args, ins):
            ex.used_contracts.add(REG + "::registerOperation")
            k = simp(sval(st)[T(ex, args[1])] * 2 ** 64 + args[2])
            t = G(st, "optable", AII)
            o = G(st, "opclass", AII)[shv(st)[T(ex, args[3])]]
            ex.gset(st, "optable", z3.Store(t, k, z3.If(t[k] == 0, o, t[k])))
            return [(st, 'ret', None)]
        w.contracts[REG + "::registerOperation"] = reg

        def setup(ex, st):
            st.assume(self.this > 0, self.this < MAX64 - 100000)
            sval(st), own(st), csz(st), rank(st), shv(st), G(st, "opclass", AII)
            x = z3.Int("tx")
            st.assume(z3.ForAll([x], G(st, "optable", AII)[x] == 0))
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            host = 1 + 2 ** 32
            for nm, pl, cls in (("COPY", host, "HostCopyOperation"), ("MEMSET", host, "HostMemsetOperation"), ("REALLOCATE", host, "HostReallocateOperation"), ("REALLOCATE", 0, "GenericReallocateOperation")):
                k = simp(lit(w, nm) * 2 ** 64 + pl)
                c = kinds.get(OPN + cls, 0)
                ex.oblige(st, "the registry starts with %s for %s on %s" % (cls, nm, "host memory" if pl else "any platform (generic)"), z3.And(z3.BoolVal(c != 0), G(st, "optable", AII)[k] == c))
        return verify(w, REG + "::MemoryOperationRegistry", setup, post, post_exc=never_throws("constructor"))

    def all(self):
        return [named("reg_register", lambda: self.v_register()), named("reg_find", lambda: self.v_find()), named("reg_find2", lambda: self.v_find2()), named("reg_ctor", lambda: self.v_ctor())]
