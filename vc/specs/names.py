"""Names, identifiers and aliases of allocators: ResourceManager's registry of allocators."""
from ..lib import *
from ..strs import *
from .front import AS, ALC, RM

MRR = "umpire::resource::MemoryResourceRegistry"
TUS = ["umpire/ResourceManager.cpp", HERE + "/vc/tu/names.cpp", "umpire/strategy/SizeLimiter.cpp"]
SV = ("F", "struct.std::pair", 32)
INVALID = 0xDEADBEE


class _I32:
    kind, w, size, name, elts = 'int', 32, 4, None, None


class _PTR:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_strings(w)
        self.this = z3.Int("this")
        self.rm = Flds(w, RM, ["m_id", "m_default_allocator"])
        self.N = self.this + w.off(RM, "m_allocators_by_name")
        self.D = self.this + w.off(RM, "m_allocators_by_id")
        self.M = self.this + w.off(RM, "m_memory_resources")
        self.L = self.this + w.off(RM, "m_allocators")
        self.X = self.this + w.off(RM, "m_mutex")
        self.idof = ufun("id_of", I, I)
        self.nameof = ufun("name_of", I, I)
        self.isres = z3.Function("is_resource_name", I, B)
        self.install()

    # ---- views
    def byname(self, ex, st, v):
        """(v is registered as a name, node)"""
        raise NotImplementedError

    def nval(self, ex, st):
        return ex.arr(st, SV)

    def has(self, ex, st, A, k):
        n = z3.Int("hn")
        return z3.Exists([n], z3.And(own(st)[n] == A, ex.arr(st, PAIR1)[n] == k))

    def maps(self, ex, st, A, k, s):
        """k is registered in A with strategy s"""
        n = z3.Int("mn")
        v = ex.arr(st, SV if A.eq(self.N) else PAIR2)
        return z3.Exists([n], z3.And(own(st)[n] == A, ex.arr(st, PAIR1)[n] == k, v[n] == s))

    def same(self, ex, st0, st, A, *but):
        """every entry of A other than the keys `but` is unchanged, and no other key appears"""
        n = z3.Int("sn")
        K = SV if A.eq(self.N) else PAIR2
        o0, o1, k0, k1, v0, v1 = own(st0), own(st), ex.arr(st0, PAIR1), ex.arr(st, PAIR1), ex.arr(st0, K), ex.arr(st, K)
        nb = lambda k: z3.And([k != b for b in but]) if but else z3.BoolVal(True)
        return z3.And(z3.ForAll([n], z3.Implies(z3.And(o0[n] == A, nb(k0[n])), z3.And(o1[n] == A, k1[n] == k0[n], v1[n] == v0[n])), patterns=[o0[n]]),
                      z3.ForAll([n], z3.Implies(z3.And(o1[n] == A, nb(k1[n])), o0[n] == A), patterns=[o1[n]]))

    def unchanged(self, ex, st0, st, ids=True):
        f = [self.same(ex, st0, st, A) for A in (self.N, self.D, self.M)]
        if ids:
            f.append(self.rm.m_id(ex, st, self.this) == self.rm.m_id(ex, st0, self.this))
        return z3.And(f)

    def inv(self, ex, st):
        n, s = z3.Ints("in is_")
        o, k, v = own(st), ex.arr(st, PAIR1), ex.arr(st, PAIR2)
        sv = ex.arr(st, SV)
        m = self.rm.m_id(ex, st, self.this)
        al = G(st, "alive", AIB)
        return [("every id in use is below the next id", z3.And(m >= 0, z3.ForAll([n], z3.Implies(o[n] == self.D, z3.And(k[n] >= 0, k[n] < m)), patterns=[o[n]]))),
                ("an id leads to the allocator with that id", z3.ForAll([n], z3.Implies(o[n] == self.D, z3.And(self.idof(v[n]) == k[n], v[n] > 0, v[n] < MAX64 - 4096)), patterns=[o[n]])),
                ("every name and id leads to an allocator that exists", z3.And(z3.ForAll([n], z3.Implies(o[n] == self.D, al[v[n]]), patterns=[o[n]]), z3.ForAll([n], z3.Implies(o[n] == self.N, z3.And(al[sv[n]], sv[n] > 0, sv[n] < MAX64 - 4096)), patterns=[o[n]]),
                                                                      z3.ForAll([n], z3.Implies(o[n] == self.M, z3.And(al[v[n]], v[n] > 0, v[n] < MAX64 - 4096)), patterns=[o[n]]))),
                ("existing allocators have ids below the next id", z3.ForAll([s], z3.Implies(al[s], z3.And(self.idof(s) >= 0, self.idof(s) < m)), patterns=[al[s]]))]

    # ---- callees
    def install(self):
        w, C, sp = self.w, self.w.contracts, self
        C[RM + "::getInstance"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=sp.this))]
        C[MRR + "::getInstance"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=z3.Int("the_registry")))]
        C[MRR + "::getResourceNames"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=z3.Int("resource_names")))]
        b_, e_ = z3.Int("resource_names_begin"), z3.Int("resource_names_end")
        it = lambda v: lambda ex, st, args, ins: [(st, 'ret', P(addr=v))]
        C["std::vector::vector"] = fresh_ret
        C["std::vector::~vector"] = fresh_ret
        C["std::vector::begin"] = C["std::begin"] = C["std::vector::cbegin"] = it(b_)
        C["std::vector::end"] = C["std::end"] = C["std::vector::cend"] = it(e_)

        def find(ex, st, args, ins):
            ex.used_contracts.add("std::find")
            r = fint("found")
            v = sval(st)[T(ex, args[2])]
            ex.oblige(st, "the resource names are searched completely", z3.And(T(ex, args[0]) == b_, T(ex, args[1]) == e_), "pre")
            st.assume((r != e_) == sp.isres(v), r > 0)
            return [(st, 'ret', P(addr=r))]
        C["std::find"] = find

        C[ALC + "::getAllocationStrategy"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=sp.get_alloc(ex, st, args[0])))]

        def actor(ex, st, args, ins):
            d = ex.cur_call[1].dem if ex.cur_call[1] is not None else ""
            s = T(ex, args[1]) if "AllocationStrategy*" in d else sp.get_alloc(ex, st, args[1])
            ex.oblige(st, "an allocator object is made only for an existing strategy", z3.And(s != 0, G(st, "alive", AIB)[s]), "pre")
            sp.set_alloc(ex, st, args[0], s)
            return [(st, 'ret', None)]
        C[ALC + "::Allocator"] = actor
        C[ALC + "::~Allocator"] = fresh_ret

        def getid(f):
            def h(ex, st, args, ins):
                s = f(ex, st, args[0])
                st.assume(sp.idof(s) >= 0, sp.idof(s) < 2 ** 31)
                return [(st, 'ret', sp.idof(s))]
            return h
        C[ALC + "::getId"] = getid(lambda ex, st, p: sp.get_alloc(ex, st, p))
        C[AS + "::getId"] = w.virt[AS + "::getId"] = getid(lambda ex, st, p: T(ex, p))

        def getname(ex, st, args, ins):
            a = fint("namestr")
            s = T(ex, args[-1]) if ex.cur_call is None or ALC not in (ex.cur_call[0] or "") else sp.get_alloc(ex, st, args[-1])
            st.assume(a > 0, a < MAX64 - 64, sval(st)[a] == sp.nameof(s))
            if len(args) == 2:  # by value
                ex.gset(st, "sval", z3.Store(sval(st), T(ex, args[0]), sp.nameof(s)))
                return [(st, 'ret', None)]
            return [(st, 'ret', P(addr=a))]
        C[AS + "::getName"] = w.virt[AS + "::getName"] = C[ALC + "::getName"] = getname

        def track(ex, st, args, ins):
            ex.gset(st, "tracked", z3.Store(G(st, "tracked", AIB), T(ex, args[0]), args[1] == 1 if not z3.is_bool(args[1]) else args[1]))
            return [(st, 'ret', None)]
        C[AS + "::setTracking"] = track

        def made(ex, st, sret, name, id_):
            """a new strategy object with that name and id (or an exception)"""
            s2 = st.copy()
            ex.gset(s2, "nctor", G(s2, "nctor", I) + 1)
            S = fint("new_strategy")
            st.assume(S > 0, S < MAX64 - 4096, z3.Not(G(st, "alive", AIB)[S]), sp.idof(S) == id_, sp.nameof(S) == name)
            ex.gset(st, "alive", z3.Store(G(st, "alive", AIB), S, z3.BoolVal(True)))
            ex.gset(st, "made", S)
            ex.gset(st, "nmade", G(st, "nmade", I) + 1)
            ex.store(st, sret, P(addr=S), _PTR)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]

        def make_unique(ex, st, args, ins):
            ex.used_contracts.add("umpire::util::make_unique")
            # (sret, name, id, ...)
            v = ex.load(st, args[2], _I32, None, ins.mod) if isinstance(args[2], P) else args[2]
            return made(ex, st, args[0], sval(st)[T(ex, args[1])], v)
        C["umpire::util::make_unique"] = make_unique

        def make_res(ex, st, args, ins):
            ex.used_contracts.add(MRR + "::makeMemoryResource")
            return made(ex, st, args[0], sval(st)[T(ex, args[2])], args[3])
        C[MRR + "::makeMemoryResource"] = make_res

        # unique_ptr: one owner, destroyed with it
        def up_get(ex, st, args, ins):
            return [(st, 'ret', ex.load(st, args[0], _PTR))]

        def up_move(ex, st, args, ins):
            if len(args) == 1:
                ex.store(st, args[0], P(addr=z3.IntVal(0)), _PTR)
                return [(st, 'ret', None)]
            d = ex.cur_call[1].dem or ""
            if "unique_ptr<" not in d[d.rfind("("):]:
                ex.store(st, args[0], args[1], _PTR)
                return [(st, 'ret', None)]
            v = ex.load(st, args[1], _PTR)
            if not (isinstance(args[0].obj, int) and isinstance(args[1].obj, int) and (args[0].obj, args[0].off) == (args[1].obj, args[1].off)):
                ex.store(st, args[1], P(addr=z3.IntVal(0)), _PTR)
                ex.store(st, args[0], v, _PTR)
            return [(st, 'ret', None)]

        def destroy(ex, st, s):
            al = G(st, "alive", AIB)
            ex.gset(st, "alive", z3.Store(al, s, z3.And(s == 0, al[s])))

        def up_asg(ex, st, args, ins):
            old = T(ex, ex.load(st, args[0], _PTR))
            destroy(ex, st, old)
            up_move(ex, st, args, ins)
            return [(st, 'ret', args[0])]

        def up_dtor(ex, st, args, ins):
            destroy(ex, st, T(ex, ex.load(st, args[0], _PTR)))
            return [(st, 'ret', None)]
        U_ = "std::unique_ptr"
        C[U_ + "::unique_ptr"] = up_move
        C[U_ + "::~unique_ptr"] = up_dtor
        C[U_ + "::operator="] = up_asg
        C[U_ + "::get"] = C[U_ + "::operator_arrow"] = C[U_ + "::operator*"] = up_get

        def front(ex, st, args, ins):
            ex.oblige(st, "the list of allocators takes the new strategy over", T(ex, args[0]) == sp.L, "pre")
            ex.store(st, args[1], P(addr=z3.IntVal(0)), _PTR)
            return [(st, 'ret', P(addr=z3.IntVal(8)) if ins.ty.kind == 'ptr' else None)]
        for c in ("std::list", "std::forward_list", "std::__cxx11::list", "std::vector"):
            for f in ("emplace_front", "push_front", "emplace_back", "push_back"):
                C[c + "::" + f] = front
        C["umpire::resource::resource_to_device_id"] = fresh_ret
        C[MRR + "::getDefaultTraitsForResource"] = sp.traits
        C[RM + "::getAllocatorInformation"] = fresh_ret
        trust("std::unique_ptr / std::list", "one owner: moving empties the source, destruction destroys the object held; the list keeps what it is given")
        trust("strategy and resource constructors", "the object has the name and id given to its constructor, or the constructor throws")

    def traits(self, ex, st, args, ins):
        s2 = st.copy()
        ex.gset(s2, "nctor", G(s2, "nctor", I) + 1)
        if ins.ty.kind == 'void':
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        return [(s2, 'exc', Exc()), (st, 'ret', ex.fresh_val(st, ins.ty, "traits"))]

    def alloc_ptr(self, ex, p):
        off = self.w.off(ALC, "m_allocator")
        return ex.padd(p, None, off) if isinstance(p.obj, int) else P(addr=simp(p.addr + off), s=self.w.struct(ALC), so=off, sb=p.addr)

    def set_alloc(self, ex, st, p, s):
        ex.store(st, self.alloc_ptr(ex, p), P(addr=s), _PTR)

    def get_alloc(self, ex, st, p):
        return T(ex, ex.load(st, self.alloc_ptr(ex, p), _PTR))

    # ---- state
    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000, z3.Int("the_registry") > 0, z3.Int("resource_names") > 0, z3.Int("resource_names_begin") > 0, z3.Int("resource_names_end") > 0)
        for n, s in (("alive", AIB), ("tracked", AIB), ("made", I), ("nmade", I), ("nctor", I), ("held", AII)):
            G(st, n, s)
        sval(st), own(st), csz(st), rank(st)
        ex.keyw[self.rm.K_m_id] = 32
        m = self.rm.m_id(ex, st, self.this)
        x = z3.Int("bhx")
        st.assume(m >= 0, m < 2 ** 31 - 2, z3.Not(G(st, "alive", AIB)[0]), z3.ForAll([x], G(st, "held", AII)[x] == 0))
        for A, o in ((self.N, False), (self.D, False), (self.M, True)):
            st.assume(*cont_wf(ex, st, A, True, o))
        for _, f in self.inv(ex, st):
            st.assume(f)

    def name(self, ex, st, n="name"):
        """a string argument that is not stored inside the registry"""
        a, x = z3.Int(n), z3.Int("nmx")
        st.assume(a > 0, a < MAX64 - 4096, z3.Or(a + 4096 <= self.this, a >= self.this + 4096), own(st)[a] == 0)
        return P(addr=a)

    def allocobj(self, ex, st, n="allocator"):
        a, s = z3.Int(n), z3.Int(n + "_strategy")
        st.assume(a > 0, a < MAX64 - 4096, s > 0, s < MAX64 - 4096, G(st, "alive", AIB)[s])
        st.assume(z3.Or(a + 4096 <= self.this, a >= self.this + 4096))
        p = P(addr=a, s=self.w.struct(ALC), so=0, sb=a)
        self.set_alloc(ex, st, p, s)
        return p, s

    def sret(self, st, n="result"):
        r = z3.Int(n)
        st.assume(r > 0, r < MAX64 - 4096, z3.Or(r + 4096 <= self.this, r >= self.this + 4096))
        return P(addr=r, s=self.w.struct(ALC), so=0, sb=r)

    def keep_inv(self, ex, st, tag):
        for lab, f in self.inv(ex, st):
            ex.oblige(st, tag + ": " + lab, f)

    def known(self, ex, st, v):
        return z3.Or(self.has(ex, st, self.N, v), self.isres(v))

    def unlocked(self, ex, st, tag):
        x = z3.Int("ulx")
        ex.oblige(st, tag + ": every lock taken is released", z3.ForAll([x], G(st, "held", AII)[x] == 0))

    def pick(self, short, rx):
        fs = [f for f in self.w.fns(short) if re.search(rx, f.dem or "")]
        if not fs:
            raise ExtractError("function not found in the current source: " + short)
        return fs[0]

    # ---- functions
    def v_isname(self):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.name(ex, st)]

        def post(ex, st0, st, ret, args):
            v = sval(st0)[args[1].addr]
            r = ret if z3.is_bool(ret) else ret == 1
            ex.oblige(st, "isAllocator(name): true exactly for registered names, aliases and resources", r == self.known(ex, st0, v))
            ex.oblige(st, "isAllocator(name): changes nothing", self.unchanged(ex, st0, st))
        return verify(self.w, RM + "::isAllocator", setup, post, post_exc=never_throws("isAllocator"), fn=self.pick(RM + "::isAllocator", "basic_string"), label=RM + "::isAllocator(name)")

    def v_isid(self, fn):
        def setup(ex, st):
            self.base(ex, st)
            i = z3.Int("id")
            st.assume(i >= 0, i < 2 ** 32)
            return ([self.sret(st)] if fn == "getAllocator" else []) + [P(addr=self.this), i]

        def post(ex, st0, st, ret, args):
            i = args[-1]
            if fn == "isAllocator":
                r = ret if z3.is_bool(ret) else ret == 1
                ex.oblige(st, "isAllocator(id): true exactly for registered ids", r == self.has(ex, st0, self.D, i))
            else:
                s = self.get_alloc(ex, st, args[0]) if fn == "getAllocator" else T(ex, ret)
                ex.oblige(st, fn + "(id): the allocator registered with that id", self.maps(ex, st0, self.D, i, s))
            ex.oblige(st, fn + "(id): changes nothing", self.unchanged(ex, st0, st))

        def post_exc(ex, st0, st, e, args):
            i = args[-1]
            if fn == "isAllocator":
                ex.oblige(st, "isAllocator: does not throw", z3.BoolVal(False))
            ex.oblige(st, fn + "(id) throws only for an id nobody has, changing nothing", z3.And(z3.Or(z3.Not(self.has(ex, st0, self.D, i)), i == INVALID), self.unchanged(ex, st0, st)))
        return verify(self.w, RM + "::" + fn, setup, post, post_exc=post_exc, fn=self.pick(RM + "::" + fn, r"\(int\)"), label=RM + "::" + fn + "(id)")

    def v_addalias(self):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.name(ex, st), self.allocobj(ex, st)[0]]

        def post(ex, st0, st, ret, args):
            v, s = sval(st0)[args[1].addr], z3.Int("allocator_strategy")
            ex.oblige(st, "addAlias: only a name not in use is accepted", z3.Not(self.known(ex, st0, v)))
            ex.oblige(st, "addAlias: the name leads to the allocator", self.maps(ex, st, self.N, v, s))
            ex.oblige(st, "addAlias: every other name, id and resource is unaffected", z3.And(self.same(ex, st0, st, self.N, v), self.same(ex, st0, st, self.D), self.same(ex, st0, st, self.M)))
            self.keep_inv(ex, st, "addAlias")

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "addAlias throws only for a name in use", self.known(ex, st0, sval(st0)[args[1].addr]))
            self.keep_inv(ex, st, "addAlias (throwing)")
        self.use_getalloc()
        return verify(self.w, RM + "::addAlias", setup, post, post_exc=post_exc)

    def v_rmalias(self):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.name(ex, st), self.allocobj(ex, st)[0]]

        def post(ex, st0, st, ret, args):
            v, s = sval(st0)[args[1].addr], z3.Int("allocator_strategy")
            n = z3.Int("ran")
            o, k, sv = own(st0), ex.arr(st0, PAIR1), ex.arr(st0, SV)
            ex.oblige(st, "removeAlias: only an alias of that allocator that is not its own name is removed",
                      z3.Exists([n], z3.And(o[n] == self.N, k[n] == v, self.idof(sv[n]) == self.idof(s), self.nameof(sv[n]) != v)))
            ex.oblige(st, "removeAlias: the alias is gone", z3.Not(self.has(ex, st, self.N, v)))
            ex.oblige(st, "removeAlias: every other name, id and resource is unaffected", z3.And(self.same(ex, st0, st, self.N, v), self.same(ex, st0, st, self.D), self.same(ex, st0, st, self.M)))
            self.keep_inv(ex, st, "removeAlias")

        def post_exc(ex, st0, st, e, args):
            v, s = sval(st0)[args[1].addr], z3.Int("allocator_strategy")
            n = z3.Int("ran")
            o, k, sv = own(st0), ex.arr(st0, PAIR1), ex.arr(st0, SV)
            ex.oblige(st, "removeAlias throws only for a name that is not an alias of that allocator, changing nothing",
                      z3.And(z3.ForAll([n], z3.Implies(z3.And(o[n] == self.N, k[n] == v), z3.Or(self.idof(sv[n]) != self.idof(s), self.nameof(sv[n]) == v)), patterns=[o[n]]), self.unchanged(ex, st0, st)))
        return verify(self.w, RM + "::removeAlias", setup, post, post_exc=post_exc)

    # makeAllocator
    def v_make(self, kind):
        def setup(ex, st):
            self.base(ex, st)
            m = self.rm.m_id(ex, st, self.this)
            t = z3.Int("tracking")
            st.assume(t >= 0, t <= 1)
            a = [self.sret(st), P(addr=self.this), self.name(ex, st)]
            if kind == "tracking":
                a.append(t)
            return a + [self.allocobj(ex, st)[0], self.szref(ex, st)]

        def post(ex, st0, st, ret, args):
            v = sval(st0)[args[2].addr]
            S, m = self.get_alloc(ex, st, args[0]), self.rm.m_id
            ex.oblige(st, "makeAllocator: only a name not in use is accepted", z3.Not(self.known(ex, st0, v)))
            ex.oblige(st, "makeAllocator: one new allocator, with that name and an id never used before", z3.And(G(st, "nmade", I) == G(st0, "nmade", I) + 1, S == G(st, "made", I), z3.Not(G(st0, "alive", AIB)[S]), self.nameof(S) == v, self.idof(S) == m(ex, st0, self.this), m(ex, st, self.this) == m(ex, st0, self.this) + 1))
            ex.oblige(st, "makeAllocator: the name and the id lead to the new allocator", z3.And(self.maps(ex, st, self.N, v, S), self.maps(ex, st, self.D, self.idof(S), S)))
            ex.oblige(st, "makeAllocator: every other name, id and resource is unaffected", z3.And(self.same(ex, st0, st, self.N, v), self.same(ex, st0, st, self.D, self.idof(S)), self.same(ex, st0, st, self.M)))
            if kind == "tracking":
                ex.oblige(st, "makeAllocator: tracking as requested", G(st, "tracked", AIB)[S] == (args[3] == self.TRACKED))
            else:
                ex.oblige(st, "makeAllocator: tracked by default", G(st, "tracked", AIB)[S])
            self.keep_inv(ex, st, "makeAllocator")
            self.unlocked(ex, st, "makeAllocator")

        def post_exc(ex, st0, st, e, args):
            v = sval(st0)[args[2].addr]
            m = self.rm.m_id(ex, st0, self.this)
            ex.oblige(st, "makeAllocator throws only for a name in use, an exhausted id range or a failing constructor", z3.Or(self.known(ex, st0, v), G(st, "nctor", I) > G(st0, "nctor", I), m + 1 == INVALID))
            ex.oblige(st, "makeAllocator (throwing): no name, id or resource changes", self.unchanged(ex, st0, st, ids=False))
            self.keep_inv(ex, st, "makeAllocator (throwing)")
            self.unlocked(ex, st, "makeAllocator (throwing)")
        fs = [f for f in self.w.fns(RM + "::makeAllocator") if ("umpire::Tracking" in (f.dem or "").split("(", 1)[1]) == (kind == "tracking")]
        if not fs:
            raise ExtractError("function not found in the current source: " + RM + "::makeAllocator")
        return verify(self.w, RM + "::makeAllocator", setup, post, post_exc=post_exc, fn=fs[0], label=RM + "::makeAllocator" + (" (tracking)" if kind == "tracking" else ""))

    TRACKED = 0

    def szref(self, ex, st):
        a = z3.Int("sizeref")
        st.assume(a > 0, a < MAX64 - 4096, z3.Or(a + 4096 <= self.this, a >= self.this + 4096))
        return P(addr=a)

    # makeResource and lookups by name
    RES = ("HOST", "DEVICE", "UM", "PINNED", "DEVICE_CONST", "FILE", "NO_OP", "SHARED")

    def rtype(self, v):
        """MemoryResourceType of a resource name, -1 if it is none"""
        r = z3.IntVal(-1)
        for i, nm in enumerate(self.RES):
            r = z3.If(v == lit(self.w, nm), z3.IntVal(i), r)
        return r

    def v_string_to_resource(self):
        def setup(ex, st):
            self.base(ex, st)
            return [self.name(ex, st)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "string_to_resource: the type of that resource name", ret == self.rtype(sval(st0)[args[0].addr]))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "string_to_resource throws only for a name that is no resource", self.rtype(sval(st0)[args[0].addr]) == -1)
        return verify(self.w, "umpire::resource::string_to_resource", setup, post, post_exc=post_exc)

    def v_makeres(self):
        w = self.w

        def s2r(ex, st, args, ins):
            ex.used_contracts.add("umpire::resource::string_to_resource")
            t = self.rtype(sval(st)[T(ex, args[0])])
            s2 = st.copy()
            s2.assume(t == -1)
            st.assume(t != -1)
            return [(s2, 'exc', Exc()), (st, 'ret', t)]
        w.contracts["umpire::resource::string_to_resource"] = s2r
        w.merge.add(RM + "::makeResource")

        def devid(ex, st, args, ins):
            v = fint("device_id")
            st.assume(v >= 0, v < 2 ** 32)
            # it may throw for an index that is not a number: allowed only while nothing has changed
            ex.oblige(st, "makeResource (throwing, device index): no name, id or resource changes", self.unchanged(ex, ex.st0, st, ids=False))
            return [(st, 'ret', v)]
        w.contracts["umpire::resource::resource_to_device_id"] = devid
        w.pure = ("umpire::resource::resource_to_device_id",)

        def setup(ex, st):
            self.base(ex, st)
            f = self.pick(RM + "::makeResource", "MemoryResourceTraits")
            from .. import ir
            a = [self.sret(st), P(addr=self.this), self.name(ex, st)]
            t = z3.Int("traits")
            st.assume(t > 0, t < MAX64 - 4096, z3.Or(t + 4096 <= self.this, t >= self.this + 4096))
            return a + [P(addr=t)]

        def post(ex, st0, st, ret, args):
            v = sval(st0)[args[2].addr]
            S, m = self.get_alloc(ex, st, args[0]), self.rm.m_id
            b = ssub(v, z3.IntVal(0), sfind(v, lit(w, "::"), z3.IntVal(0)))
            ex.oblige(st, "makeResource: only a name not registered yet is accepted", z3.Not(self.has(ex, st0, self.N, v)))
            ex.oblige(st, "makeResource: one new resource, with that name and an id never used before", z3.And(G(st, "nmade", I) == G(st0, "nmade", I) + 1, S == G(st, "made", I), z3.Not(G(st0, "alive", AIB)[S]), self.nameof(S) == v, self.idof(S) == m(ex, st0, self.this), m(ex, st, self.this) == m(ex, st0, self.this) + 1))
            ex.oblige(st, "makeResource: the name and the id lead to the new resource", z3.And(self.maps(ex, st, self.N, v, S), self.maps(ex, st, self.D, self.idof(S), S)))
            n = z3.Int("mrn")
            o0, o1, k0, s0, s1, k1 = own(st0), own(st), ex.arr(st0, PAIR1), ex.arr(st0, SV), ex.arr(st, SV), ex.arr(st, PAIR1)
            ex.oblige(st, "makeResource: no other registered name changes (the name with index 0 of DEVICE aside) and ids keep their allocators",
                      z3.And(z3.ForAll([n], z3.Implies(z3.And(o0[n] == self.N, k0[n] != lit(w, "DEVICE::0")), z3.And(o1[n] == self.N, k1[n] == k0[n], s1[n] == s0[n])), patterns=[o0[n]]), self.same(ex, st0, st, self.D, self.idof(S))))
            ex.oblige(st, "makeResource: every new name leads to the new resource", z3.ForAll([n], z3.Implies(z3.And(o1[n] == self.N, o0[n] != self.N), s1[n] == S), patterns=[o1[n]]))
            self.keep_inv(ex, st, "makeResource")

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "makeResource (throwing): no name, id or resource changes", self.unchanged(ex, st0, st, ids=False))
            self.keep_inv(ex, st, "makeResource (throwing)")
        return verify(w, RM + "::makeResource", setup, post, post_exc=post_exc, fn=self.pick(RM + "::makeResource", "MemoryResourceTraits"))

    def havoc_maps(self, ex, st):
        for g, s in (("own", AII), ("csz", AII), ("rank", AII), ("alive", AIB)):
            st.g[g] = z3.Const(fresh_name(g), s)
        for k in (PAIR1, PAIR2, SV):
            st.heap[k] = z3.Const(fresh_name("pair"), AII)
        ex.setfld(st, self.rm.K_m_id, self.this + self.rm.A_m_id, fint("m_id"))
        m = self.rm.m_id(ex, st, self.this)
        st.assume(m >= 0, m < 2 ** 31)

    def use_getalloc(self):
        """getAllocator(name), only needed for its text in error messages"""
        w = self.w

        def h(ex, st, args, ins):
            s2 = st.copy()
            st0 = st.copy()
            self.havoc_maps(ex, st)
            for A, o in ((self.N, False), (self.D, False), (self.M, True)):
                st.assume(*cont_wf(ex, st, A, True, o))
            for _, f in self.inv(ex, st):
                st.assume(f)
            s = fint("strategy")
            st.assume(s > 0, s < MAX64 - 4096, G(st, "alive", AIB)[s])
            self.set_alloc(ex, st, args[0], s)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        w.contracts[RM + "::getAllocator"] = h

    def v_getstrategy(self):
        w, sp = self.w, self

        def mk(ex, st, args, ins):
            ex.used_contracts.add(RM + "::makeResource")
            v = sval(st)[T(ex, args[2])]
            ex.oblige(st, "a resource is created only under its own name, when that name is not registered", z3.And(T(ex, args[1]) == sp.this, z3.Not(sp.has(ex, st, sp.N, v)), sp.isres(v)), "pre")
            s2 = st.copy()
            ex.gset(s2, "nctor", G(s2, "nctor", I) + 1)
            st0 = st.copy()
            S = fint("new_strategy")
            sp.havoc_maps(ex, st)
            n = z3.Int("mkn")
            for A, o in ((sp.N, False), (sp.D, False), (sp.M, True)):
                st.assume(*cont_wf(ex, st, A, True, o))
            for _, f in sp.inv(ex, st):
                st.assume(f)
            N_ = fint("node")
            st.assume(S > 0, S < MAX64 - 4096, own(st)[N_] == sp.N, ex.arr(st, PAIR1)[N_] == v, sp.nval(ex, st)[N_] == S, sp.nameof(S) == v, G(st, "alive", AIB)[S])
            ex.gset(st, "made", S)
            ex.gset(st, "nmade", G(st, "nmade", I) + 1)
            sp.set_alloc(ex, st, args[0], S)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        w.contracts[RM + "::makeResource"] = mk

        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.name(ex, st)]

        def post(ex, st0, st, ret, args):
            v, s = sval(st0)[args[1].addr], T(ex, ret)
            ex.oblige(st, "lookup by name: a registered name leads to its allocator, and nothing changes", z3.Implies(self.has(ex, st0, self.N, v), z3.And(self.maps(ex, st0, self.N, v, s), self.unchanged(ex, st0, st))))
            ex.oblige(st, "lookup by name: a resource not made yet is made under its name", z3.Implies(z3.Not(self.has(ex, st0, self.N, v)), z3.And(self.isres(v), G(st, "nmade", I) == G(st0, "nmade", I) + 1, s == G(st, "made", I))))
            self.keep_inv(ex, st, "lookup by name")

        def post_exc(ex, st0, st, e, args):
            v = sval(st0)[args[1].addr]
            ex.oblige(st, "lookup by name throws only for an unknown name or a resource that cannot be made, changing nothing",
                      z3.And(z3.Not(self.has(ex, st0, self.N, v)), z3.Or(z3.Not(self.isres(v)), G(st, "nctor", I) > G(st0, "nctor", I)), self.unchanged(ex, st0, st, ids=False)))
        return verify(w, RM + "::getAllocationStrategy", setup, post, post_exc=post_exc)

    def v_getname(self, how):
        w, sp = self.w, self

        def h(ex, st, args, ins):
            ex.used_contracts.add(RM + "::getAllocationStrategy")
            s2 = st.copy()
            ex.gset(s2, "nctor", G(s2, "nctor", I) + 1)
            ex.gset(st, "asked", sval(st)[T(ex, args[1])])
            ex.gset(st, "nasked", G(st, "nasked", I) + 1)
            s = fint("strategy")
            st.assume(s > 0, s < MAX64 - 4096, G(st, "alive", AIB)[s])
            ex.gset(st, "made", s)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=s))]
        w.contracts[RM + "::getAllocationStrategy"] = h

        def setup(ex, st):
            self.base(ex, st)
            G(st, "asked", I), G(st, "nasked", I)
            if how == "type":
                t = z3.Int("type")
                st.assume(t >= 0, t < 9)
                x = t
            else:
                x = self.name(ex, st)
            return [self.sret(st), P(addr=self.this), x]

        def post(ex, st0, st, ret, args):
            s = self.get_alloc(ex, st, args[0])
            if how == "type":
                t = args[2]
                want = lit(w, "?")
                for i, nm in enumerate(("HOST", "DEVICE", "UM", "PINNED", "DEVICE_CONST", "FILE", "NO_OP", "SHARED")):
                    want = z3.If(t == i, lit(w, nm), want)
                ex.oblige(st, "getAllocator(type): the resource registered for the type, or the allocator of the type's name",
                          z3.If(self.has(ex, st0, self.M, t), z3.And(self.maps(ex, st0, self.M, t, s), G(st, "nasked", I) == G(st0, "nasked", I)), z3.And(G(st, "nasked", I) == G(st0, "nasked", I) + 1, G(st, "asked", I) == want, s == G(st, "made", I))))
            else:
                v = sval(st0)[args[2].addr] if how == "string" else cval(args[2].addr)
                ex.oblige(st, "getAllocator(name): the allocator of exactly that name", z3.And(G(st, "nasked", I) == G(st0, "nasked", I) + 1, G(st, "asked", I) == v, s == G(st, "made", I)))
            ex.oblige(st, "getAllocator: changes nothing itself", self.unchanged(ex, st0, st))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "getAllocator throws only if the lookup throws or the type is unknown", z3.Or(G(st, "nctor", I) > G(st0, "nctor", I), z3.And(args[2] >= 8) if how == "type" else z3.BoolVal(False)))
        return verify(w, RM + "::getAllocator", setup, post, post_exc=post_exc, fn=self.pick(RM + "::getAllocator", {"string": "basic_string", "chars": r"\(char const\*\)", "type": "MemoryResourceType"}[how]), label=RM + "::getAllocator(%s)" % how)

    def v_default(self, set_):
        w, sp = self.w, self

        def h(ex, st, args, ins):
            v = cstr(ex, st, args[2], ins.mod) if "char const*" in ex.cur_call[1].dem else sval(st)[T(ex, args[2])]
            s2 = st.copy()
            ex.gset(s2, "nctor", G(s2, "nctor", I) + 1)
            ex.gset(st, "asked", v)
            s = fint("strategy")
            st.assume(s > 0, s < MAX64 - 4096, G(st, "alive", AIB)[s])
            ex.gset(st, "made", s)
            sp.set_alloc(ex, st, args[0], s)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        w.contracts[RM + "::getAllocator"] = h
        d = self.rm.m_default_allocator

        def setup(ex, st):
            self.base(ex, st)
            G(st, "asked", I)
            x = d(ex, st, self.this)
            st.assume(x >= 0, x < MAX64 - 4096, z3.Implies(x != 0, G(st, "alive", AIB)[x]))
            return [P(addr=self.this), self.allocobj(ex, st)[0]] if set_ else [self.sret(st), P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            if set_:
                ex.oblige(st, "setDefaultAllocator: the default is the allocator given", d(ex, st, self.this) == z3.Int("allocator_strategy"))
            else:
                s, x = self.get_alloc(ex, st, args[0]), d(ex, st0, self.this)
                ex.oblige(st, "getDefaultAllocator: the default set last, or HOST if none was", z3.If(x != 0, s == x, z3.And(G(st, "asked", I) == lit(w, "HOST"), s == G(st, "made", I))))
                ex.oblige(st, "getDefaultAllocator: the answer is kept as the default", d(ex, st, self.this) == s)
            ex.oblige(st, "default allocator: names and ids are unaffected", self.unchanged(ex, st0, st))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "default allocator: throws only if HOST cannot be made, changing nothing", z3.And(z3.BoolVal(not set_), G(st, "nctor", I) > G(st0, "nctor", I), d(ex, st, self.this) == d(ex, st0, self.this)))
        return verify(w, RM + ("::setDefaultAllocator" if set_ else "::getDefaultAllocator"), setup, post, post_exc=post_exc)

    def all(self):
        r = [named("nm_isname", lambda: self.v_isname())]
        r += [named("nm_id", lambda f=f: self.v_isid(f)) for f in ("isAllocator", "getAllocator", "findAllocatorForId")]
        r += [named("nm_addalias", lambda: self.v_addalias()), named("nm_rmalias", lambda: self.v_rmalias())]
        r += [named("nm_make", lambda k=k: self.v_make(k)) for k in ("tracking", "default")]
        r += [named("nm_s2r", lambda: self.v_string_to_resource())]
        r += [named("nm_makeres", lambda: self.v_makeres()), named("nm_getstrategy", lambda: self.v_getstrategy())]
        r += [named("nm_getname", lambda h=h: self.v_getname(h)) for h in ("string", "chars", "type")]
        r += [named("nm_default", lambda s=s: self.v_default(s)) for s in (False, True)]
        return r
