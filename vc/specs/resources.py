"""Memory resources: HOST (malloc), FILE (mapped files), the null resource and NO_OP, over assumed contracts of the operating system
(open, ftruncate, mmap, munmap, close, remove, malloc, free) and the contract of MemoryMap (P17)."""
from ..lib import *
from ..strs import *
from .. import stl

FR, NR, OR = "umpire::resource::FileMemoryResource", "umpire::resource::NullMemoryResource", "umpire::resource::NoOpMemoryResource"
DR = "umpire::resource::DefaultMemoryResource"
MM = "umpire::util::MemoryMap"
TUS = ["umpire/resource/FileMemoryResource.cpp", "umpire/resource/NullMemoryResource.cpp", "umpire/resource/NoOpMemoryResource.cpp", "umpire/resource/HostResourceFactory.cpp"]
PAGE = 4096
RAW = ("R", "w64", 0)
num = ufun("decimal", I, I)  # digits of a number
tail = ufun("trailing_number", I, I)  # number formed by the digits at the end of a string
nodig = z3.Function("ends_without_digit", I, B)
starts = z3.Function("starts_with", I, I, B)
GH = (("mIn", AIB), ("mVal", AII), ("vIn", AIB), ("msz", AII), ("mfile", AII), ("fex", AIB), ("flen", AII), ("owner", AII), ("fdf", AII), ("mal", AIB), ("malsz", AII), ("sval", AII), ("ssv", AII))


def pages(n):
    return (n + (PAGE - 1)) / PAGE


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_strings(w)
        self.this = z3.Int("this")
        self.env = z3.Int("getenv_result")
        self.tamper = z3.Bool("tampered")
        self.kind = None
        self.install()
        w.all_cands.append(self.cands)

    def g(self, st, n):
        return G(st, n, dict(GH)[n])

    def put(self, ex, st, n, k, v):
        ex.gset(st, n, z3.Store(self.g(st, n), k, v))

    # value object at address a: size recorded and file name
    def vsize(self, ex, st, a):
        return ex.arr(st, RAW)[a] if self.kind == "null" else ex.arr(st, ("F", "struct.std::pair", 32))[a]

    def vname(self, st, a):
        return sval(st)[a]

    # ---- assumed contracts
    def install(self):
        w, C, sp = self.w, self.w.contracts, self

        def neg(n):
            return z3.IntVal(2 ** n - 1)

        def cat(st, a, b, lit_=None):
            v = cat2(a, b)
            st.assume(z3.ForAll([X], z3.Implies(starts(a, X), starts(v, X)), patterns=[starts(v, X)]))
            return v
        X = z3.Int("sx")

        def addnum(st, a, n):
            d = num(n)
            v = cat(st, a, d)
            st.assume(z3.Implies(z3.And(nodig(a), n >= 0), tail(v) == n), tail(d) == n)
            return v

        def addstr(st, a, b):
            v = cat(st, a, b)
            st.assume(z3.Implies(nodig(b), nodig(v)))
            return v

        def literal(ex, st, p, mod):
            v = cstr(ex, st, p, mod)
            for s, i in w.__dict__.get("strlits", {}).items():
                if z3.is_int_value(v) and i == v.as_long():
                    st.assume(nodig(v) == z3.BoolVal(bool(s) and not s[-1].isdigit()))
            return v
        # strings: c_str and conversion of numbers
        C["std::basic_string::c_str"] = C["std::basic_string::data"] = lambda ex, st, args, ins: self.cstr_of(ex, st, args[0])

        def to_string(ex, st, args, ins):
            n = args[1]
            st.assume(tail(num(n)) == n)
            ex.gset(st, "sval", z3.Store(sval(st), T(ex, args[0]), num(n)))
            return [(st, 'ret', None)]
        C["std::to_string"] = to_string
        oplus = C["std::operator+"]

        def plus(ex, st, args, ins):
            d = ex.cur_call[1].dem or ""
            ps = d[d.find("(") + 1:]
            if len(args) == 3 and "basic_string" in d:
                r0 = oplus(ex, st, args, ins)
                v = sval(st)[T(ex, args[0])]
                v = simp(v)
                if v.decl().name() == "concat":
                    a, b = v.arg(0), v.arg(1)
                    for q in (args[1], args[2]):
                        if isinstance(q, P) and isinstance(q.obj, str):
                            literal(ex, st, q, ins.mod)
                    addstr(st, a, b)
                    st.assume(z3.ForAll([X], z3.Implies(z3.And(b == num(X), nodig(a), X >= 0), tail(v) == X), patterns=[num(X)]))
                return r0
            return oplus(ex, st, args, ins)
        C["std::operator+"] = plus
        # string streams
        off = 16

        def mkss(ex, st, args, ins):
            sp.put(ex, st, "ssv", simp(T(ex, args[0]) + off), lit(w, ""))
            return [(st, 'ret', None)]

        def shl(ex, st, args, ins):
            d = (ex.cur_call[1].dem or "") if ex.cur_call[1] is not None else ""
            s = T(ex, args[0])
            old = self.g(st, "ssv")[s]
            ps = d[d.find("("):]
            x = args[1]
            if "basic_string" in ps:
                b = sval(st)[T(ex, x)]
                first = simp(old)
                v = cat(st, first, b)
                st.assume(z3.Implies(first == lit(w, ""), v == b))
                st.assume(z3.Implies(nodig(b), nodig(v)))
            elif isinstance(x, P) and "char const*" in ps:
                b = literal(ex, st, x, ins.mod)
                v = addstr(st, simp(old), b)
                st.assume(z3.Implies(old == lit(w, ""), v == b))
            elif not isinstance(x, P) and z3.is_expr(x) and x.sort() == I:
                v = addnum(st, simp(old), x)
            else:
                v = fint("streamed")
            sp.put(ex, st, "ssv", s, v)
            return [(st, 'ret', args[0])]

        def ssstr(ex, st, args, ins):
            ex.gset(st, "sval", z3.Store(sval(st), T(ex, args[0]), self.g(st, "ssv")[simp(T(ex, args[1]) + off)]))
            return [(st, 'ret', None)]
        C["std::basic_stringstream::basic_stringstream"] = mkss
        C["std::basic_stringstream::str"] = ssstr
        C["std::basic_ostream::operator<<"] = C["std::operator<<"] = C["std::ostream::operator<<"] = shl
        C["std::basic_ostream::operator_shl"] = C["std::operator_shl"] = C["std::ostream::operator_shl"] = shl
        # pairs of a name and a size are by value
        ps2 = ("F", "struct.std::pair", 32)

        # environment
        C["getenv"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=self.env))]
        C["secure_getenv"] = C["getenv"]
        pid = z3.Int("pid")

        def getpid(ex, st, args, ins):
            st.assume(pid > 0, pid < 2 ** 22)
            return [(st, 'ret', pid)]
        C["getpid"] = getpid

        def errno(ex, st, args, ins):
            return [(st, 'ret', P(addr=z3.Int("errno_address")))]
        C["__errno_location"] = errno
        C["strerror"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=self.pos(st, "message")))]
        C["sysconf"] = lambda ex, st, args, ins: [(st, 'ret', z3.IntVal(PAGE))]
        C["getpagesize"] = C["sysconf"]

        def two(st):
            return st, st.copy()

        def open_(ex, st, args, ins):
            f = cstr(ex, st, args[0], ins.mod)
            fl = simp(args[1])
            if z3.is_int_value(fl):
                ex.oblige(st, "allocate: the file is opened for reading and writing and created", z3.BoolVal((fl.as_long() & 3) == 2 and bool(fl.as_long() & 64)), "pre")
            ex.oblige(st, "allocate: the file is not that of another live allocation", z3.Not(self.g(st, "fex")[f]), "pre")
            dirv = z3.If(self.env == 0, lit(w, "./"), cval(self.env))
            ex.oblige(st, "allocate: the file lies in the configured directory", starts(f, dirv), "pre")
            ok, bad = two(st)
            fd = fint("fd")
            ok.assume(fd >= 0, fd < 2 ** 31, self.g(ok, "fdf")[fd] == 0, f != 0)
            self.put(ex, ok, "fdf", fd, f)
            self.put(ex, ok, "fex", f, z3.BoolVal(True))
            self.put(ex, ok, "flen", f, fint("oldlen"))
            bad.trace.append(("open fails",))
            return [(ok, 'ret', fd), (bad, 'ret', neg(32))]
        C["open"] = C["open64"] = open_

        def ftrunc(ex, st, args, ins):
            fd, n = args[0], args[1]
            f = self.g(st, "fdf")[fd]
            ex.oblige(st, "allocate: an open file is sized", f != 0, "pre")
            ok, bad = two(st)
            ok.assume(n < 2 ** 63)
            self.put(ex, ok, "flen", f, n)
            bad.trace.append(("ftruncate fails",))
            return [(ok, 'ret', z3.IntVal(0)), (bad, 'ret', neg(32))]
        C["ftruncate"] = C["ftruncate64"] = ftrunc

        def mmap(ex, st, args, ins):
            n, prot, fl, fd, o = args[1], simp(args[2]), simp(args[3]), args[4], args[5]
            f = self.g(st, "fdf")[fd]
            if self.kind == "file":
                ex.oblige(st, "allocate: the mapping covers an open file from its beginning and is not longer than it", z3.And(f != 0, o == 0, n <= self.g(st, "flen")[f]), "pre")
                if z3.is_int_value(fl) and z3.is_int_value(prot):
                    ex.oblige(st, "allocate: the mapping can be read and written and goes to the file", z3.BoolVal((prot.as_long() & 3) == 3 and (fl.as_long() & 3) == 1), "pre")
            elif z3.is_int_value(fl) and z3.is_int_value(prot):
                ex.oblige(st, "allocate: the range is reserved without access", z3.BoolVal(prot.as_long() == 0 and bool(fl.as_long() & 32)), "pre")
            ok, bad = two(st)
            p, q = fint("mapped"), z3.Int("mq")
            m = self.g(ok, "msz")
            ok.assume(n > 0, p > 0, p + n < MAX63, p % PAGE == 0, m[p] == 0, z3.Not(self.g(ok, "vIn")[p]))
            ok.assume(z3.ForAll([q], z3.Implies(m[q] > 0, z3.Or(q + m[q] <= p, p + n <= q)), patterns=[m[q]]))
            self.put(ex, ok, "msz", p, n)
            if self.kind == "file":
                self.put(ex, ok, "mfile", p, f)
                self.put(ex, ok, "owner", f, p)
            bad.trace.append(("mmap fails",))
            return [(ok, 'ret', P(addr=p)), (bad, 'ret', P(addr=neg(64)))]
        C["mmap"] = C["mmap64"] = mmap

        def close(ex, st, args, ins):
            ex.oblige(st, "an open descriptor is closed, once", self.g(st, "fdf")[args[0]] != 0, "pre")
            self.put(ex, st, "fdf", args[0], z3.IntVal(0))
            return [(st, 'ret', z3.IntVal(0))]
        C["close"] = close

        def munmap(ex, st, args, ins):
            p, n = T(ex, args[0]), args[1]
            m = self.g(st, "msz")
            ex.oblige(st, "a live mapping is unmapped, once and in its whole length", z3.And(m[p] > 0, n > 0, pages(n) == pages(m[p])), "pre")
            self.put(ex, st, "msz", p, z3.IntVal(0))
            return [(st, 'ret', z3.IntVal(0))]
        C["munmap"] = munmap

        def remove(ex, st, args, ins):
            f = cstr(ex, st, args[0], ins.mod)
            ex.oblige(st, "a file of this resource is removed, once", self.g(st, "fex")[f], "pre")
            self.put(ex, st, "fex", f, z3.BoolVal(False))
            ok, bad = two(st)
            bad.assume(self.tamper)
            bad.trace.append(("remove fails",))
            return [(ok, 'ret', z3.IntVal(0)), (bad, 'ret', neg(32))]
        C["remove"] = C["unlink"] = remove

        def malloc(ex, st, args, ins):
            ok, bad = two(st)
            p = fint("malloced")
            ok.assume(p > 0, p + args[0] < MAX63, z3.Not(self.g(ok, "mal")[p]))
            self.put(ex, ok, "mal", p, z3.BoolVal(True))
            self.put(ex, ok, "malsz", p, args[0])
            bad.trace.append(("malloc fails",))
            bad.g["mfail"] = 1
            return [(ok, 'ret', P(addr=p)), (bad, 'ret', P(addr=z3.IntVal(0)))]
        C["malloc"] = malloc

        def free(ex, st, args, ins):
            p = T(ex, args[0])
            ex.oblige(st, "only memory held from malloc is freed, once", z3.Or(p == 0, self.g(st, "mal")[p]), "pre")
            self.put(ex, st, "mal", p, z3.BoolVal(False))
            return [(st, 'ret', None)]
        C["free"] = free
        trust("operating system", "open, ftruncate, mmap, munmap, close, remove, malloc, free, getenv, getpid, sysconf by contract: each may fail as documented; mapping and heap memory returned is new; pages are %d bytes; unmapping a whole live mapping succeeds; files are not tampered with except where a failing remove is considered" % PAGE)
        # MemoryMap (P17), one map per resource
        def it(ex, st, a, k, v):
            """the iterator at a designates key k, value v"""
            for o, x in ((8, k), (16, v)):
                if isinstance(a.obj, int):
                    ex.store(st, ex.padd(a, None, o), P(addr=simp(x)), stl._PTR)
                else:
                    ex.setfld(st, PAIR1 if o == 8 else PAIR2, simp(a.addr + 8), x)

        def ismap(ex, st, a):
            ex.oblige(st, "records are kept in the resource's own map", T(ex, a) == self.map, "pre")

        def insert(ex, st, args, ins):
            ex.used_contracts.add(MM + "::insert")
            out, k, src = args[0], T(ex, args[2]), args[3]
            ismap(ex, st, args[1])
            ex.oblige(st, "allocate: a new mapping has no record yet", z3.Not(self.g(st, "mIn")[k]), "pre")
            v = fint("value")
            st.assume(v > 0, v < MAX63, z3.Not(self.g(st, "vIn")[v]))
            self.put(ex, st, "mIn", k, z3.BoolVal(True))
            self.put(ex, st, "mVal", k, v)
            self.put(ex, st, "vIn", v, z3.BoolVal(True))
            if self.kind == "null":
                ex.setfld(st, RAW, v, self.ld(ex, st, src, 0))
            else:
                ex.setfld(st, ps2, v, self.ld(ex, st, src, 32))
                ex.gset(st, "sval", z3.Store(sval(st), v, sval(st)[T(ex, src)]))
            it(ex, st, out, k, v)
            return [(st, 'ret', None)]
        C[MM + "::insert"] = insert

        def find(ex, st, args, ins):
            ex.used_contracts.add(MM + "::find")
            ismap(ex, st, args[1])
            k = T(ex, args[2])
            there = self.g(st, "mIn")[k]
            it(ex, st, args[0], z3.If(there, k, 0), z3.If(there, self.g(st, "mVal")[k], 0))
            return [(st, 'ret', None)]
        C[MM + "::find"] = find

        def erase(ex, st, args, ins):
            ex.used_contracts.add(MM + "::erase")
            ismap(ex, st, args[0])
            d = (ex.cur_call[1].dem or "")
            k = T(ex, args[1])
            if "Iterator" in d.rsplit("(", 1)[-1]:
                k = T(ex, ex.load(st, ex.padd(args[1], None, 8), stl._PTR)) if isinstance(args[1].obj, int) else ex.fld(st, PAIR1, simp(k + 8))
            ex.oblige(st, "the record removed is present", self.g(st, "mIn")[k], "pre")
            v = self.g(st, "mVal")[k]
            self.put(ex, st, "mIn", k, z3.BoolVal(False))
            self.put(ex, st, "vIn", v, z3.BoolVal(False))
            # the value is destroyed and its storage may be reused
            kk = RAW if self.kind == "null" else ps2
            ex.setfld(st, kk, v, fint("gone"))
            ex.gset(st, "sval", z3.Store(sval(st), v, fint("gone")))
            return [(st, 'ret', None)]
        C[MM + "::erase"] = erase
        # iteration in ascending order of keys
        k = z3.Int("nk")

        def first_after(st, lo):
            n, mIn = fint("next"), self.g(st, "mIn")
            st.assume(n >= 0, n < MAX63, z3.Or(n == 0, z3.And(mIn[n], n > lo)), z3.ForAll([k], z3.Implies(z3.And(mIn[k], k > lo), z3.And(n != 0, k >= n)), patterns=[mIn[k]]))
            return n

        def key_at(ex, st, a):
            return T(ex, ex.load(st, ex.padd(a, None, 8), stl._PTR)) if isinstance(a.obj, int) else ex.fld(st, PAIR1, simp(a.addr + 8))

        def begin(ex, st, args, ins):
            ex.used_contracts.add(MM + "::begin")
            ismap(ex, st, args[1])
            n = first_after(st, z3.IntVal(0))
            it(ex, st, args[0], n, self.g(st, "mVal")[n])
            return [(st, 'ret', None)]

        def end(ex, st, args, ins):
            ex.used_contracts.add(MM + "::end")
            it(ex, st, args[0], z3.IntVal(0), z3.IntVal(0))
            return [(st, 'ret', None)]

        def inc(ex, st, args, ins):
            ex.used_contracts.add(MM + "::Iterator_::operator++")
            if len(args) != 1:
                return NotImplemented
            c = key_at(ex, st, args[0])
            ex.oblige(st, "the iterator advanced is at a present record", self.g(st, "mIn")[c], "pre")
            n = first_after(st, c)
            it(ex, st, args[0], n, self.g(st, "mVal")[n])
            return [(st, 'ret', args[0])]

        def cmp(neg):
            def h(ex, st, args, ins):
                a, b = key_at(ex, st, args[0]), key_at(ex, st, args[1])
                return [(st, 'ret', a != b if neg else a == b)]
            return h
        C[MM + "::begin"], C[MM + "::end"] = begin, end
        for n in (MM + "::Iterator_::operator", "umpire::util::MemoryMap::Iterator_::operator"):
            C[n + "++"], C[n + "!="], C[n + "=="] = inc, cmp(True), cmp(False)

        def clear(ex, st, args, ins):
            ex.gset(st, "cleared", z3.IntVal(1))
            return [(st, 'ret', None)]
        C[MM + "::~MemoryMap"] = clear
        # std::vector<void*>: elements at consecutive addresses; no iterator is held across a push_back
        V = "std::vector"

        def vctor(ex, st, args, ins):
            b = fint("storage")
            e = z3.Const(fresh_name("vel"), AIB)
            c = z3.Const(fresh_name("vcnt"), AIB)
            st.assume(b > 0, b < MAX63, z3.ForAll([k], z3.And(z3.Not(e[k]), z3.Not(c[k])), patterns=[e[k], c[k]]))
            for n, v in (("vb", b), ("ve", b), ("vn", z3.IntVal(0)), ("vel", e), ("vcnt", c)):
                ex.gset(st, n, v)
            return [(st, 'ret', None)]

        def push(ex, st, args, ins):
            x = T(ex, ex.load(st, args[1], stl._PTR)) if isinstance(args[1].obj, int) else ex.fld(st, PAIR1, args[1].addr)
            e = G(st, "ve", I)
            ex.setfld(st, RAW, e, x)
            ex.gset(st, "vel", z3.Store(G(st, "vel", AIB), e, z3.BoolVal(True)))
            ex.gset(st, "vcnt", z3.Store(G(st, "vcnt", AIB), x, z3.BoolVal(True)))
            ex.gset(st, "vaddr", z3.Store(G(st, "vaddr", AII), x, e))
            ex.gset(st, "ve", simp(e + 8))
            ex.gset(st, "vi", z3.Store(G(st, "vi", AII), x, G(st, "vn", I)))
            ex.gset(st, "vn", simp(G(st, "vn", I) + 1))
            st.assume(e + 8 < MAX63)
            return [(st, 'ret', None)]

        def unfold(st, a):
            st.assume(G(st, "vel", AIB)[a] == z3.And(a >= G(st, "vb", I), a < G(st, "ve", I), (a - G(st, "vb", I)) % 8 == 0))

        def vbegin(ex, st, args, ins):
            b = G(st, "vb", I)
            unfold(st, b)
            return [(st, 'ret', P(addr=b))]

        def vinc(ex, st, args, ins):
            a = T(ex, ex.load(st, args[0], stl._PTR))
            unfold(st, simp(a + 8))
            unfold(st, a)
            return NotImplemented
        C[V + "::vector"], C[V + "::push_back"], C[V + "::emplace_back"], C[V + "::~vector"] = vctor, push, push, lambda ex, st, args, ins: [(st, 'ret', None)]
        C[V + "::begin"], C[V + "::end"] = vbegin, lambda ex, st, args, ins: [(st, 'ret', P(addr=G(st, "ve", I)))]
        C["__gnu_cxx::__normal_iterator::operator++"] = vinc
        C["umpire::strategy::AllocationStrategy::~AllocationStrategy"] = lambda ex, st, args, ins: [(st, 'ret', None)]

    def cands(self, ctx, vars_):
        ex, k = ctx.ex, z3.Int("ck")
        if self.kind != "file" or "vel" not in ctx.entry.g:
            return []
        mIn = lambda st: self.g(st, "mIn")
        vc, va, vel = (lambda st: G(st, "vcnt", AIB)), (lambda st: G(st, "vaddr", AII)), (lambda st: G(st, "vel", AIB))
        vb, ve = (lambda st: G(st, "vb", I)), (lambda st: G(st, "ve", I))
        n = len(self.inv(ex, ctx.entry))
        out = [("invariant %d" % i, lambda st, vals, i=i: self.inv(ex, st)[i][1]) for i in range(n)]
        out += [("listed keys are elements", lambda st, vals: z3.ForAll([k], z3.Implies(vc(st)[k], z3.And(va(st)[k] >= vb(st), va(st)[k] < ve(st), va(st)[k] == vb(st) + 8 * G(st, "vi", AII)[k], ex.arr(st, RAW)[va(st)[k]] == k)), patterns=[vc(st)[k]])),
                ("elements are listed keys", lambda st, vals: z3.ForAll([k], z3.Implies(vel(st)[k], z3.And(k < ve(st), vc(st)[ex.arr(st, RAW)[k]], va(st)[ex.arr(st, RAW)[k]] == k)), patterns=[vel(st)[k]])),
                ("storage grows by elements", lambda st, vals: z3.And(ve(st) >= vb(st), ve(st) == vb(st) + 8 * G(st, "vn", I), ve(st) < MAX63))]
        for j, (nm, ty) in enumerate(vars_):
            if ty.kind != 'ptr':
                continue
            v = lambda vals, j=j: ex.pterm(vals[j][2])
            x = ctx.entry.loc.get((nm[1], nm[2])) if nm[0] == "loc" else None
            x = simp(ex.pterm(x)) if isinstance(x, P) else None
            if x is None or not x.eq(simp(vb(ctx.entry))):
                out += [("a key or the end %d" % j, lambda st, vals, v=v: z3.And(v(vals) >= 0, z3.Or(v(vals) == 0, mIn(st)[v(vals)]))),
                        ("keys passed are listed %d" % j, lambda st, vals, v=v: z3.ForAll([k], z3.Implies(z3.And(mIn(st)[k], z3.Or(v(vals) == 0, k < v(vals))), vc(st)[k]), patterns=[mIn(st)[k]])),
                        ("keys listed were passed %d" % j, lambda st, vals, v=v: z3.ForAll([k], z3.Implies(vc(st)[k], z3.And(mIn(st)[k], z3.Or(v(vals) == 0, k < v(vals)))), patterns=[vc(st)[k]]))]
            if x is None or x.eq(simp(vb(ctx.entry))):
                out += [("an element or the end %d" % j, lambda st, vals, v=v: z3.And(v(vals) >= vb(st), v(vals) <= ve(st), (v(vals) - vb(st)) % 8 == 0, z3.Or(v(vals) == ve(st), vel(st)[v(vals)]))),
                        ("records left lie ahead %d" % j, lambda st, vals, v=v: z3.ForAll([k], z3.Implies(mIn(st)[k], z3.And(vc(st)[k], va(st)[k] >= v(vals))), patterns=[mIn(st)[k]])),
                        ("records ahead are left %d" % j, lambda st, vals, v=v: z3.ForAll([k], z3.Implies(z3.And(vc(st)[k], va(st)[k] >= v(vals)), mIn(st)[k]), patterns=[vc(st)[k]]))]
        return out

    def pos(self, st, n):
        v = fint(n)
        st.assume(v > 0, v < MAX63)
        return v

    def cstr_of(self, ex, st, p):
        v = fint("cstr")
        st.assume(v > 0, v < MAX63, cval(v) == sval(st)[T(ex, p)])
        return [(st, 'ret', P(addr=v))]

    def ld(self, ex, st, p, off):
        if isinstance(p.obj, int):
            return ex.load(st, ex.padd(p, None, off), stl._I64)
        return ex.arr(st, ("F", "struct.std::pair", off) if off else RAW)[p.addr]

    # ---- invariant
    def inv(self, ex, st):
        k, x = z3.Ints("ik ix")
        mIn, mVal, m = self.g(st, "mIn"), self.g(st, "mVal"), self.g(st, "msz")
        vi, fex, fdf, mf, ow = self.g(st, "vIn"), self.g(st, "fex"), self.g(st, "fdf"), self.g(st, "mfile"), self.g(st, "owner")
        r = [("every live mapping is recorded and every record is of a live mapping", z3.ForAll([k], z3.And(m[k] >= 0, mIn[k] == (m[k] > 0), z3.Implies(m[k] > 0, k > 0)), patterns=[m[k], mIn[k]])),
             ("a record holds the length of its mapping", z3.ForAll([k], z3.Implies(mIn[k], z3.And(mVal[k] > 0, vi[mVal[k]], self.pg(self.vsize(ex, st, mVal[k]), m[k]))), patterns=[mIn[k]])),
             ("records are distinct", z3.ForAll([k, x], z3.Implies(z3.And(mIn[k], mIn[x], k != x), mVal[k] != mVal[x]), patterns=[z3.MultiPattern(mIn[k], mIn[x])]))]
        if self.kind == "file":
            r += [("a record names the file of its mapping", z3.ForAll([k], z3.Implies(mIn[k], z3.And(mf[k] == self.vname(st, mVal[k]), fex[mf[k]], ow[mf[k]] == k)), patterns=[mIn[k]])),
                  ("every file left belongs to a live mapping", z3.ForAll([x], z3.Implies(fex[x], z3.And(mIn[ow[x]], mf[ow[x]] == x)), patterns=[fex[x]])),
                  ("file numbers used lie below the counter", z3.ForAll([x], z3.Implies(fex[x], tail(x) < self.counter(ex, st)), patterns=[fex[x]])),
                  ("no descriptor stays open", z3.ForAll([x], fdf[x] == 0, patterns=[fdf[x]]))]
        return r

    def pg(self, a, b):
        """same length up to the page (equal lengths suffice)"""
        return a == b

    def counter(self, ex, st):
        return ex.arr(st, ("G", "_ZN6umpire8resource18FileMemoryResource14s_file_counterE", 0), 32)[0]

    def pre(self, ex, st, kind):
        self.kind = kind
        self.map = simp(self.this + self.w.off(FR if kind == "file" else NR, "m_size_map")) if kind in ("file", "null") else None
        st.assume(self.this > 0, self.this < MAX63 - 100000, self.env >= 0, self.env < MAX63)
        for n, s in GH:
            G(st, n, s)
        st.assume(starts(cval(self.env), cval(self.env)), starts(lit(self.w, "./"), lit(self.w, "./")))
        if kind in ("file", "null"):
            for _, f in self.inv(ex, st):
                st.assume(f)
        if kind == "file":
            st.assume(self.counter(ex, st) >= 0, self.counter(ex, st) < 2 ** 31 - 1)

    def keep(self, ex, st0, st, tag, but=None):
        name_arrays(st)
        for lab, f in self.inv(ex, st):
            ex.oblige(st, tag + ": " + lab, f)
        k = z3.Int("kk")
        m0, m1 = self.g(st0, "msz"), self.g(st, "msz")
        ne = z3.BoolVal(True) if but is None else k != but
        ex.oblige(st, tag + ": other allocations stay as they are", z3.ForAll([k], z3.Implies(ne, z3.And(m1[k] == m0[k], self.g(st, "mfile")[k] == self.g(st0, "mfile")[k])), patterns=[m1[k]]))

    def v_alloc(self, kind, cls):
        tag = {"file": "FILE", "null": "null resource"}[kind] + " allocate"

        def setup(ex, st):
            self.pre(ex, st, kind)
            n = z3.Int("bytes")
            st.assume(n >= 0, n < MAX64)
            return [P(addr=self.this), n]

        def post(ex, st0, st, ret, args):
            p, n = T(ex, ret), args[1]
            m = self.g(st, "msz")
            ex.oblige(st, tag + ": the result is a new mapping of at least the size asked for", z3.And(p > 0, self.g(st0, "msz")[p] == 0, m[p] >= n, m[p] > 0))
            self.keep(ex, st0, st, tag, p)

        def post_exc(ex, st0, st, e, args):
            self.keep(ex, st0, st, tag + " (throwing)")
        return verify(self.w, cls + "::allocate", setup, post, post_exc=post_exc)

    def v_dealloc(self, kind, cls):
        tag = {"file": "FILE", "null": "null resource"}[kind] + " deallocate"

        def setup(ex, st):
            self.pre(ex, st, kind)
            p, n = z3.Int("ptr"), z3.Int("size")
            st.assume(p > 0, p < MAX63, n >= 0, n < MAX64, self.g(st, "mIn")[p])
            return [P(addr=self.this), P(addr=p), n]

        def post(ex, st0, st, ret, args):
            p = z3.Int("ptr")
            ex.oblige(st, tag + ": the mapping is gone", self.g(st, "msz")[p] == 0)
            if kind == "file":
                ex.oblige(st, tag + ": its file is gone", z3.Not(self.g(st, "fex")[self.g(st0, "mfile")[p]]))
            self.keep(ex, st0, st, tag, p)

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, tag + ": throws only if the file was tampered with", self.tamper if kind == "file" else z3.BoolVal(False))
            self.keep(ex, st0, st, tag + " (throwing)", z3.Int("ptr"))
        return verify(self.w, cls + "::deallocate", setup, post, post_exc=post_exc)

    def v_file_dtor(self):
        k = z3.Int("dk")

        def setup(ex, st):
            self.pre(ex, st, "file")
            st.assume(z3.Not(self.tamper))
            G(st, "vaddr", AII)
            G(st, "vi", AII)
            G(st, "cleared", I)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            name_arrays(st)
            m, fex = self.g(st, "msz"), self.g(st, "fex")
            ex.oblige(st, "destructor: no mapping is left", z3.ForAll([k], m[k] == 0, patterns=[m[k]]))
            ex.oblige(st, "destructor: no file is left", z3.ForAll([k], z3.Not(fex[k]), patterns=[fex[k]]))
        return verify(self.w, FR + "::~FileMemoryResource", setup, post, post_exc=never_throws("destructor"))

    def v_host(self, de):
        def setup(ex, st):
            self.pre(ex, st, "host")
            n, p = z3.Int("bytes"), z3.Int("ptr")
            st.assume(n >= 0, n < MAX64, p > 0, p < MAX63)
            if de:
                st.assume(self.g(st, "mal")[p])
            return [P(addr=self.this)] + ([P(addr=p)] if de else []) + [n]

        def others(st0, st, p):
            k = z3.Int("hk")
            a, b = self.g(st0, "mal"), self.g(st, "mal")
            return z3.ForAll([k], z3.Implies(k != p, a[k] == b[k]), patterns=[b[k]])

        def post(ex, st0, st, ret, args):
            name_arrays(st)
            if de:
                p = args[1].addr
                ex.oblige(st, "HOST deallocate: the memory is freed", z3.Not(self.g(st, "mal")[p]))
            else:
                p = T(ex, ret)
                ex.oblige(st, "HOST allocate: the result is new memory of at least the size asked for, never null", z3.And(p > 0, z3.Not(self.g(st0, "mal")[p]), self.g(st, "mal")[p], self.g(st, "malsz")[p] >= args[1]))
            ex.oblige(st, "HOST: other memory stays as it is", others(st0, st, p))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, "HOST: throws only if malloc failed, holding nothing", z3.And(z3.BoolVal(bool(st.g.get("mfail")) and not de), self.g(st, "mal") == self.g(st0, "mal")))
        return verify(self.w, DR + "::" + ("deallocate" if de else "allocate"), setup, post, post_exc=post_exc)

    def v_noop(self, de):
        F = Flds(self.w, OR, ["m_count"])

        def setup(ex, st):
            self.pre(ex, st, "noop")
            n, p = z3.Int("bytes"), z3.Int("ptr")
            st.assume(n >= 0, n < 2 ** 61, p >= 0, p < MAX63, F.m_count(ex, st, self.this) > 0, F.m_count(ex, st, self.this) < 2 ** 61)
            return [P(addr=self.this)] + ([P(addr=p)] if de else []) + [n]

        def post(ex, st0, st, ret, args):
            c0, c1 = F.m_count(ex, st0, self.this), F.m_count(ex, st, self.this)
            if de:
                ex.oblige(st, "NO_OP deallocate: does nothing", c1 >= c0)
            else:
                r = T(ex, ret)
                ex.oblige(st, "NO_OP allocate: the range returned was never returned before", z3.And(r >= c0, r + args[1] <= c1, r > 0))
        return verify(self.w, OR + "::" + ("deallocate" if de else "allocate"), setup, post, post_exc=never_throws("NO_OP"))

    def v_access(self, cls, yes, tag):
        """accessible from exactly the platforms in yes among those in the enumeration"""
        def setup(ex, st):
            self.pre(ex, st, "access")
            p = z3.Int("platform")
            st.assume(p >= 0, p < 2 ** 31)
            return [P(addr=self.this), p]

        def post(ex, st0, st, ret, args):
            r = ret if z3.is_bool(ret) else ret != 0
            ex.oblige(st, "%s: accessible from exactly the platforms that can use the memory" % tag, r == (z3.Or([args[1] == y for y in yes]) if yes else z3.BoolVal(False)))
        return verify(self.w, cls + "::isAccessibleFrom", setup, post, post_exc=never_throws(tag))

    def all(self):
        return [named("file_allocate", lambda: self.v_alloc("file", FR)), named("file_deallocate", lambda: self.v_dealloc("file", FR)), named("file_dtor", lambda: self.v_file_dtor()),
                named("null_allocate", lambda: self.v_alloc("null", NR)), named("null_deallocate", lambda: self.v_dealloc("null", NR)),
                named("host_allocate", lambda: self.v_host(False)), named("host_deallocate", lambda: self.v_host(True)),
                named("noop_allocate", lambda: self.v_noop(False)), named("noop_deallocate", lambda: self.v_noop(True)),
                named("file_access", lambda: self.v_access(FR, [1], "FILE")), named("host_access", lambda: self.v_access(DR, [1, 4], "HOST")),
                named("null_access", lambda: self.v_access(NR, [], "null resource")), named("noop_access", lambda: self.v_access(OR, [], "NO_OP"))]
