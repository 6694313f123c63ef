"""Memory operations: copy, memset, reallocate, move and deallocate of the resource manager stay inside the allocations involved and preserve contents."""
from ..lib import *
from ..strs import *
from .front import rn, rsz, rst, AS, ALC, RM, AR

AM = "umpire::util::AllocationMap"
OP = "umpire::op::MemoryOperation"
REG = "umpire::op::MemoryOperationRegistry"
TUS = ["umpire/ResourceManager.cpp", "umpire/op/HostCopyOperation.cpp", "umpire/op/HostMemsetOperation.cpp", "umpire/op/HostReallocateOperation.cpp",
       "umpire/op/GenericReallocateOperation.cpp", "umpire/op/MemoryOperation.cpp", "umpire/op/MemoryOperationRegistry.cpp", HERE + "/vc/tu/front.cpp", "umpire/Allocator.cpp", "umpire/strategy/NamedAllocationStrategy.cpp"]
SPTR = ("F", "struct.std::shared_ptr", 0)


class _PTR:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


class _I64:
    kind, w, size, name, elts = 'int', 64, 8, None, None


def rv(ex, st, ins):
    return None if ins.ty.kind == 'void' else ex.fresh_val(st, ins.ty, "event")


def live(st, p):
    return rn(st)[p] > 0


def top(st, p):
    d = rn(st)[p] - 1
    return rsz(st)[p][d], rst(st)[p][d]


LOG = ("ncopy", "cdst", "csrc", "clen", "nset", "sptr", "sval_", "slen_", "nrealloc", "nopfail", "nfail", "nalloc", "nfree", "fptr", "fstrat", "aptr", "asz", "astrat")


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        install_strings(w)
        self.r = Flds(w, AR, ["ptr", "size", "strategy"])
        self.a = Flds(w, ALC, ["m_allocator"])
        self.s = Flds(w, AS, ["m_current_size", "m_high_watermark", "m_allocation_count"])
        self.rm = Flds(w, RM, ["m_default_allocator"])
        self.this = z3.Int("this")
        self.o = {n: w.off(AR, n) for n in ("ptr", "size", "strategy")}
        self.plat = ufun("platform_of", I, I)
        self.idof = ufun("id_of", I, I)
        self.opk = ufun("operation_kind", I, I)
        self.opplat = ufun("operation_platforms", I, I)
        self.install()

    def g(self, st, n):
        return G(st, n, I)

    # ---- callees
    def install(self):
        w, C, sp = self.w, self.w.contracts, self
        C[RM + "::getInstance"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=sp.this))]
        C[REG + "::getInstance"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=z3.Int("the_registry")))]

        def find(ex, st, args, ins):
            ex.used_contracts.add(AM + "::find")
            p = T(ex, args[1])
            s2 = st.copy()
            x = z3.Int("fx")
            n = rn(s2)
            inside = lambda s_, b: z3.And(live(s_, b), b <= p, z3.Or(p == b, p < b + top(s_, b)[0]))
            s2.assume(z3.Not(inside(s2, p)))
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            R, b = fint("record"), fint("base")
            st.assume(R > 0, R < MAX64 - 4096, inside(st, b), b > 0, b < MAX64)
            st.assume(z3.Implies(live(st, p), b == p))  # the nearest registered address is the pointer itself
            sz, sg_ = top(st, b)
            st.assume(sz >= 0, sz < MAX63, sg_ > 0, sg_ < MAX64 - 4096, b + sz < MAX64)
            for R2, b2 in st.g.get("recs", ()):  # records of different addresses are different objects
                st.assume(z3.Or(b == b2, R >= R2 + 4096, R2 >= R + 4096))
            for f, v in (("ptr", b), ("size", sz), ("strategy", sg_)):
                ex.setfld(st, getattr(sp.r, "K_" + f), R + getattr(sp.r, "A_" + f), v)
            st.g["recs"] = st.g.get("recs", ()) + ((R, b),)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=R, s=sp.w.struct(AR), so=0, sb=R))]
        C[AM + "::find"] = find

        def dead_records(ex, st, p):
            """the record of p is gone: its memory holds anything from now on"""
            for R, b in st.g.get("recs", ()):
                for f in ("ptr", "size", "strategy"):
                    v = fint("gone")
                    st.assume(v >= 0, v < MAX64)
                    k, a = getattr(sp.r, "K_" + f), R + getattr(sp.r, "A_" + f)
                    ex.setfld(st, k, a, z3.If(b == p, v, ex.fld(st, k, a)))
        self.dead_records = dead_records

        def push(ex, st, p, size, strat):
            d = rn(st)[p]
            st.assume(d >= 0)
            ex.gset(st, "rsz", z3.Store(rsz(st), p, z3.Store(rsz(st)[p], d, size)))
            ex.gset(st, "rst", z3.Store(rst(st), p, z3.Store(rst(st)[p], d, strat)))
            ex.gset(st, "rn", z3.Store(rn(st), p, d + 1))
        self.push = push

        def pop(ex, st, p):
            dead_records(ex, st, p)
            ex.gset(st, "rn", z3.Store(rn(st), p, rn(st)[p] - 1))
        self.pop = pop

        # umpire::Allocator by its contract (P16)
        def actor(ex, st, args, ins):
            d = ex.cur_call[1].dem if ex.cur_call[1] is not None else ""
            if len(args) == 2 and "AllocationStrategy*" in d:
                sp.set_alloc(ex, st, args[0], T(ex, args[1]))
                return [(st, 'ret', None)]
            if len(args) == 2:
                sp.set_alloc(ex, st, args[0], sp.get_alloc(ex, st, args[1]))
                return [(st, 'ret', None)]
            return NotImplemented
        C[ALC + "::Allocator"] = actor
        C[ALC + "::getAllocationStrategy"] = lambda ex, st, args, ins: [(st, 'ret', P(addr=sp.get_alloc(ex, st, args[0])))]
        C[ALC + "::getName"] = fresh_ret
        C[ALC + "::getId"] = lambda ex, st, args, ins: (st.assume(sp.idof(sp.get_alloc(ex, st, args[0])) >= 0, sp.idof(sp.get_alloc(ex, st, args[0])) < 2 ** 31), [(st, 'ret', sp.idof(sp.get_alloc(ex, st, args[0])))])[1]
        for n in (AS + "::getId",):
            h = lambda ex, st, args, ins: (st.assume(sp.idof(T(ex, args[0])) >= 0, sp.idof(T(ex, args[0])) < 2 ** 31), [(st, 'ret', sp.idof(T(ex, args[0])))])[1]
            C[n] = h
            w.virt[n] = h

        def getplat(ex, st, args, ins):
            v = sp.plat(T(ex, args[0]))
            st.assume(v >= 0, v < 2 ** 31)
            return [(st, 'ret', v)]
        w.virt[AS + "::getPlatform"] = getplat

        def aalloc(ex, st, args, ins):
            ex.used_contracts.add(ALC + "::allocate")
            s, n = sp.get_alloc(ex, st, args[0]), args[-1]
            s2 = st.copy()
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            p, x = fint("newptr"), z3.Int("ax")
            st.assume(p > 0, n < MAX63, p + n < MAX64, z3.Not(z3.And(live(st, p), top(st, p)[1] == s)))
            for h_ in st.g.get("held", ()):  # the caller still holds h_: new memory is elsewhere
                st.assume(z3.Implies(live(st, h_), p != h_))
            push(ex, st, p, n, s)
            for k, v in (("nalloc", sp.g(st, "nalloc") + 1), ("aptr", p), ("asz", n), ("astrat", s)):
                ex.gset(st, k, v)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=p))]
        C[ALC + "::allocate"] = aalloc

        def adealloc(ex, st, args, ins):
            ex.used_contracts.add(ALC + "::deallocate")
            s, p = sp.get_alloc(ex, st, args[0]), T(ex, args[1])
            s2 = st.copy()
            s2.assume(p != 0, z3.Not(z3.And(live(s2, p), top(s2, p)[1] == s)))
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            outs = [(s2, 'exc', Exc())] if ex.feasible_q(s2) else []
            st.assume(p != 0, live(st, p), top(st, p)[1] == s)
            if ex.feasible_q(st):
                for k, v in (("nfree", sp.g(st, "nfree") + 1), ("fptr", p), ("fstrat", s)):
                    ex.gset(st, k, v)
                pop(ex, st, p)
                outs.append((st, 'ret', None))
            return outs
        C[ALC + "::deallocate"] = adealloc

        # operations
        def opfind(ex, st, args, ins):
            ex.used_contracts.add(REG + "::find")
            s2 = st.copy()
            ex.gset(s2, "nopfail", sp.g(s2, "nopfail") + 1)
            nm = sval(st)[T(ex, args[2])]
            o = fint("op")
            st.assume(o > 0, o < MAX64 - 4096, sp.opk(o) == nm)
            if len(args) == 5:
                a, b = sp.plat(T(ex, args[3])), sp.plat(T(ex, args[4]))
                pl = a + 2 ** 32 * b
            else:
                pl = args[3]
            st.assume(sp.opplat(o) == pl)
            ex.store(st, args[0], P(addr=o), _PTR)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        self.opfind = opfind
        C[REG + "::find"] = opfind
        for c in ("std::shared_ptr", "std::__shared_ptr"):
            n = c.split("::")[-1]
            C[c + "::~" + n] = fresh_ret

            def sp_ctor(ex, st, args, ins):
                if len(args) == 1:
                    ex.store(st, args[0], P(addr=z3.IntVal(0)), _PTR)
                elif len(args) == 2:
                    ex.store(st, args[0], ex.load(st, args[1], _PTR), _PTR)
                else:
                    return NotImplemented
                return [(st, 'ret', None)]

            def sp_asg(ex, st, args, ins):
                ex.store(st, args[0], ex.load(st, args[1], _PTR), _PTR)
                return [(st, 'ret', args[0])]
            C[c + "::" + n] = sp_ctor
            C[c + "::operator="] = sp_asg
        get = lambda ex, st, args, ins: [(st, 'ret', ex.load(st, args[0], _PTR))]
        C["std::__shared_ptr_access::operator_arrow"] = C["std::__shared_ptr::get"] = C["std::__shared_ptr_access::operator*"] = get

        def rec(ex, st, p, n):
            return getattr(sp.r, n)(ex, st, T(ex, p))

        def transform(ex, st, args, ins, off=0, ctx=False):
            op, src, pdst, srec, drec, n = args[off:off + 6]
            o = T(ex, op)
            s, d = T(ex, src), T(ex, ex.load(st, pdst, _PTR))
            L = lit(w, "COPY")
            isc = sp.opk(o) == L
            isr = sp.opk(o) == lit(w, "REALLOCATE")
            ex.oblige(st, "only the copy and reallocate operations are applied this way", z3.Or(isc, isr), "pre")
            sR, dR = T(ex, srec), T(ex, drec)
            f = lambda R, k: getattr(sp.r, k)(ex, st, R)
            ok = lambda R, p: z3.And(p >= f(R, "ptr"), p - f(R, "ptr") + n <= f(R, "size"))
            ex.oblige(st, "a copy reads and writes only inside the two allocations", z3.Implies(isc, z3.And(ok(sR, s), ok(dR, d))), "pre")
            ex.oblige(st, "a reallocation is given the allocation's own address, its record and a non-zero size",
                      z3.Implies(isr, z3.And(s == f(sR, "ptr"), live(st, s), f(sR, "size") == top(st, s)[0], f(sR, "strategy") == top(st, s)[1], sR == dR, n > 0)), "pre")
            pl = lambda a, b: sp.plat(f(a, "strategy")) + 2 ** 32 * sp.plat(f(b, "strategy"))
            hostp = 1 + 2 ** 32
            ex.oblige(st, "the copy operation is the one registered for the two platforms", z3.Implies(isc, sp.opplat(o) == pl(sR, dR)), "pre")
            ex.oblige(st, "the reallocate operation is the generic one or the platform's own", z3.Implies(isr, z3.Or(sp.opplat(o) == 0, sp.opplat(o) == pl(sR, dR))), "pre")
            ex.oblige(st, "the C library's realloc is applied only to memory of the HOST resource itself",
                      z3.Implies(z3.And(isr, sp.opplat(o) == hostp), sp.idof(f(sR, "strategy")) == sp.idof(ufun("strategy_named", I, I)(lit(w, "HOST")))), "pre")
            outs = []
            s1 = st.copy()
            s1.assume(isc)
            if ex.feasible_q(s1):
                for k, v in (("ncopy", sp.g(s1, "ncopy") + 1), ("cdst", d), ("csrc", s), ("clen", n)):
                    ex.gset(s1, k, v)
                outs.append((s1, 'ret', rv(ex, s1, ins)))
            st.assume(isr)
            if ex.feasible_q(st):
                s2 = st.copy()
                ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
                outs.append((s2, 'exc', Exc()))
                q = fint("realloced")
                st.assume(q > 0, q < MAX64, z3.Or(q == s, rn(st)[q] == 0))
                g_ = top(st, s)[1]
                pop(ex, st, s)
                push(ex, st, q, n, g_)
                ex.store(st, pdst, P(addr=q), _PTR)
                for k, v in (("nrealloc", sp.g(st, "nrealloc") + 1), ("cdst", q), ("csrc", s), ("clen", n)):
                    ex.gset(st, k, v)
                outs.append((st, 'ret', rv(ex, st, ins)))
            return outs

        def apply(ex, st, args, ins, off=0):
            op, p, r_, val, n = args[off:off + 5]
            R, a = T(ex, r_), T(ex, p)
            f = lambda k: getattr(sp.r, k)(ex, st, R)
            ex.oblige(st, "only the memset operation is applied this way", sp.opk(T(ex, op)) == lit(w, "MEMSET"), "pre")
            ex.oblige(st, "the memset operation is the one registered for the platform", sp.opplat(T(ex, op)) == sp.plat(f("strategy")) * (1 + 2 ** 32), "pre")
            ex.oblige(st, "memset writes only inside the allocation", z3.And(a >= f("ptr"), a - f("ptr") + n <= f("size")), "pre")
            for k, v in (("nset", sp.g(st, "nset") + 1), ("sptr", a), ("sval_", val), ("slen_", n)):
                ex.gset(st, k, v)
            return [(st, 'ret', rv(ex, st, ins))]
        self.transform, self.apply = transform, apply
        w.virt[OP + "::transform"] = transform
        w.virt[OP + "::apply"] = apply
        w.virt[OP + "::transform_async"] = transform
        w.virt[OP + "::apply_async"] = apply
        w.rx.append((re.compile(r"^camp::"), pure_call))
        C[AS + "::getName"] = fresh_ret
        w.virt[AS + "::getName"] = fresh_ret

        def insert(ex, st, args, ins):
            ex.used_contracts.add(AM + "::insert")
            p, R = T(ex, args[1]), args[2]
            v = {n: sp.rec_load(ex, st, R, n) for n in ("ptr", "size", "strategy")}
            ex.oblige(st, "the record inserted for an address holds that address", v["ptr"] == p, "pre")
            push(ex, st, p, v["size"], v["strategy"])
            return [(st, 'ret', None)]

        def remove(ex, st, args, ins):
            ex.used_contracts.add(AM + "::remove")
            out, p = args[0], T(ex, args[2])
            s2 = st.copy()
            s2.assume(z3.Not(live(s2, p)))
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            outs = [(s2, 'exc', Exc())] if ex.feasible_q(s2) else []
            st.assume(live(st, p))
            if ex.feasible_q(st):
                sz, sg_ = top(st, p)
                st.assume(sz >= 0, sz < MAX64, sg_ >= 0, sg_ < MAX64)
                pop(ex, st, p)
                for n, v in (("ptr", p), ("size", sz), ("strategy", sg_)):
                    sp.rec_store(ex, st, out, n, v)
                outs.append((st, 'ret', None))
            return outs

        def contains(ex, st, args, ins):
            ex.used_contracts.add(AM + "::contains")
            r, p, b = fint("contains"), T(ex, args[1]), z3.Int("cb")
            st.g["contains_ret"] = (p, r)
            st.assume(r >= 0, r <= 1)
            return [(st, 'ret', r == 1 if ins.ty.w == 1 else r)]
        C[AM + "::insert"] = insert
        C[AM + "::remove"] = remove
        C[AM + "::contains"] = contains
        trust("umpire::util::AllocationMap (contract, decided by P12)", "find returns the newest record of the nearest registered address at or below the pointer, if the pointer lies in it, and throws otherwise")
        trust("umpire::Allocator (contract, decided by P16)", "allocate returns a new registered allocation of the requested size or throws with nothing changed; deallocate removes and returns exactly a live allocation of that allocator or throws")

    def rec_load(self, ex, st, p, n):
        q = ex.padd(p, None, self.o[n]) if isinstance(p.obj, int) else P(addr=simp(p.addr + self.o[n]), s=self.w.struct(AR), so=self.o[n], sb=p.addr)
        return T(ex, ex.load(st, q, _I64))

    def rec_store(self, ex, st, p, n, v):
        q = ex.padd(p, None, self.o[n]) if isinstance(p.obj, int) else P(addr=simp(p.addr + self.o[n]), s=self.w.struct(AR), so=self.o[n], sb=p.addr)
        ex.store(st, q, v if n == "size" else P(addr=v), _I64 if n == "size" else _PTR)

    def alloc_ptr(self, ex, p):
        off = self.w.off(ALC, "m_allocator")
        return ex.padd(p, None, off) if isinstance(p.obj, int) else P(addr=simp(p.addr + off), s=self.w.struct(ALC), so=off, sb=p.addr)

    def set_alloc(self, ex, st, p, s):
        ex.store(st, self.alloc_ptr(ex, p), P(addr=s), _PTR)

    def get_alloc(self, ex, st, p):
        return T(ex, ex.load(st, self.alloc_ptr(ex, p), _PTR))

    # ---- state
    def base(self, ex, st):
        st.assume(self.this > 0, self.this < MAX64 - 100000)
        rn(st), rsz(st), rst(st), sval(st)
        for n in LOG:
            G(st, n, I)
        x, d = z3.Ints("bx bd")
        st.assume(rn(st)[0] == 0, z3.ForAll([x], rn(st)[x] >= 0, patterns=[rn(st)[x]]))
        st.assume(z3.Int("the_registry") > 0)

    def ptr(self, st, n, nz=True):
        p = z3.Int(n)
        st.assume(p > 0 if nz else p >= 0, p < MAX64)
        return P(addr=p)

    def size(self, st, n):
        v = z3.Int(n)
        st.assume(v >= 0, v < MAX64)
        return v

    def allocobj(self, ex, st, n="allocator"):
        a, s = z3.Int(n), z3.Int(n + "_strategy")
        st.assume(a > 0, a < MAX64 - 4096, s > 0, s < MAX64 - 4096)
        p = P(addr=a, s=self.w.struct(ALC), so=0, sb=a)
        self.set_alloc(ex, st, p, s)
        return p, s

    def reg_same(self, st0, st, *exc):
        x, d = z3.Ints("rgx rgd")
        c = z3.And([x != e for e in exc]) if exc else z3.BoolVal(True)
        n0, n1, z0, z1, t0, t1 = rn(st0), rn(st), rsz(st0), rsz(st), rst(st0), rst(st)
        return z3.ForAll([x], z3.Implies(c, z3.And(n1[x] == n0[x], z3.Implies(n0[x] > 0, z3.And(z1[x][n0[x] - 1] == z0[x][n0[x] - 1], t1[x][n0[x] - 1] == t0[x][n0[x] - 1])))), patterns=[n1[x]])

    def nothing(self, st0, st, but=()):
        """no memory is touched and no record changes"""
        return z3.And([self.g(st, n) == self.g(st0, n) for n in ("ncopy", "nset", "nrealloc", "nalloc", "nfree") if n not in but] + [self.reg_same(st0, st)])

    def enclosing(self, st, p, b):
        sz, _ = top(st, b)
        return z3.And(live(st, b), b <= p, z3.Or(p == b, p < b + sz))

    def base_of(self, ex, st, j):
        """the base address of the j-th record looked up"""
        return st.g["recs"][j][1]

    def pick(self, short, np, pred=None):
        fs = [f for f in self.w.fns(short) if ir.NumParams(f.raw) == np and (pred is None or pred(f.name))]
        if not fs:
            raise ExtractError("function not found in the current source: %s with %d parameters" % (short, np))
        return fs[0]

    # ---- copy and memset
    def v_copy(self, async_):
        k = 0

        def setup(ex, st):
            self.base(ex, st)
            a = [P(addr=self.this), self.ptr(st, "dst"), self.ptr(st, "src")] + ([self.ptr(st, "ctx")] if async_ else []) + [self.size(st, "size")]
            return a
        nm = "copy" + (" (resource)" if async_ else "")

        def bounds(ex, st0, st, args):
            dst, src, n = args[k + 1].addr, args[k + 2].addr, args[-1]
            bs = {}
            x = z3.Int("ebx")
            return dst, src, n

        def post(ex, st0, st, ret, args):
            dst, src, n = bounds(ex, st0, st, args)
            recs = st.g.get("recs", ())
            ex.oblige(st, nm + ": both pointers lie in registered allocations", z3.And(
                z3.Or([self.enclosing(st0, src, b) for _, b in recs] or [z3.BoolVal(False)]), z3.Or([self.enclosing(st0, dst, b) for _, b in recs] or [z3.BoolVal(False)])))
            ex.oblige(st, nm + ": exactly one copy, from the source to the destination", z3.And(self.g(st, "ncopy") == self.g(st0, "ncopy") + 1, self.g(st, "cdst") == dst, self.g(st, "csrc") == src))
            rest = z3.Or([z3.And(self.enclosing(st0, src, b), self.g(st, "clen") == b + top(st0, b)[0] - src) for _, b in recs] or [z3.BoolVal(False)])
            ex.oblige(st, nm + ": copies the requested size, or the rest of the source if none is given", z3.If(n == 0, rest, self.g(st, "clen") == n))
            ex.oblige(st, nm + ": nothing else changes", self.nothing(st0, st, ("ncopy",)))

        def post_exc(ex, st0, st, e, args):
            dst, src, n = bounds(ex, st0, st, args)
            recs = st.g.get("recs", ())
            rem = lambda p, b: b + top(st0, b)[0] - p
            too = []
            for _, b in recs:
                too.append(z3.And(self.enclosing(st0, src, b), n > rem(src, b)))
                too.append(z3.And(self.enclosing(st0, dst, b), n > rem(dst, b)))
                for _, c in recs:
                    too.append(z3.And(n == 0, self.enclosing(st0, src, b), self.enclosing(st0, dst, c), rem(src, b) > rem(dst, c)))
            ex.oblige(st, nm + " (throwing): nothing is copied and nothing changes", self.nothing(st0, st))
            ex.oblige(st, nm + " is refused only for unregistered pointers, a size beyond either allocation, or a missing operation",
                      z3.Or(self.g(st, "nfail") > self.g(st0, "nfail"), self.g(st, "nopfail") > self.g(st0, "nopfail"), *too))
        return verify(self.w, RM + "::copy", setup, post, post_exc=post_exc, label=RM + "::" + nm, fn=self.pick(RM + "::copy", 5 if async_ else 4))

    def v_memset(self, async_):
        k = 0
        nm = "memset" + (" (resource)" if async_ else "")

        def setup(ex, st):
            self.base(ex, st)
            v = z3.Int("value")
            st.assume(v >= 0, v < 2 ** 32)
            a = [P(addr=self.this), self.ptr(st, "ptr"), v] + ([self.ptr(st, "ctx")] if async_ else []) + [self.size(st, "length")]
            return a

        def post(ex, st0, st, ret, args):
            p, v, n = args[k + 1].addr, args[k + 2], args[-1]
            recs = st.g.get("recs", ())
            ex.oblige(st, nm + ": exactly one fill of the pointer with the value", z3.And(self.g(st, "nset") == self.g(st0, "nset") + 1, self.g(st, "sptr") == p, self.g(st, "sval_") == v))
            rest = z3.Or([z3.And(self.enclosing(st0, p, b), self.g(st, "slen_") == b + top(st0, b)[0] - p) for _, b in recs] or [z3.BoolVal(False)])
            ex.oblige(st, nm + ": fills the requested length, or the rest of the allocation if none is given", z3.If(n == 0, rest, self.g(st, "slen_") == n))
            ex.oblige(st, nm + ": nothing else changes", self.nothing(st0, st, ("nset",)))

        def post_exc(ex, st0, st, e, args):
            p, n = args[k + 1].addr, args[-1]
            recs = st.g.get("recs", ())
            ex.oblige(st, nm + " (throwing): nothing is written and nothing changes", self.nothing(st0, st))
            ex.oblige(st, nm + " is refused only for an unregistered pointer, a length beyond the allocation, or a missing operation",
                      z3.Or(self.g(st, "nfail") > self.g(st0, "nfail"), self.g(st, "nopfail") > self.g(st0, "nopfail"),
                            *[z3.And(self.enclosing(st0, p, b), n > b + top(st0, b)[0] - p) for _, b in recs]))
        return verify(self.w, RM + "::memset", setup, post, post_exc=post_exc, label=RM + "::" + nm, fn=self.pick(RM + "::memset", 5 if async_ else 4))

    # ---- the host operations themselves
    def v_hostcopy(self):
        w = self.w

        def h(ex, st, args, ins):
            for k, v in (("ncopy", self.g(st, "ncopy") + 1), ("cdst", T(ex, args[0])), ("csrc", T(ex, args[1])), ("clen", args[2])):
                ex.gset(st, k, v)
            return [(st, 'ret', args[0])]
        w.contracts["memcpy"] = w.contracts["memmove"] = h

        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.ptr(st, "src"), self.cell(ex, st, "dst"), self.ptr(st, "srec"), self.ptr(st, "drec"), self.size(st, "length")]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "host copy: copies exactly the requested bytes from the source to the destination, once",
                      z3.And(self.g(st, "ncopy") == self.g(st0, "ncopy") + 1, self.g(st, "csrc") == args[1].addr, self.g(st, "cdst") == z3.Int("dst"), self.g(st, "clen") == args[5]))
            ex.oblige(st, "host copy: the destination pointer is unchanged", self.cellv(ex, st) == z3.Int("dst"))
        return verify(w, "umpire::op::HostCopyOperation::transform", setup, post, post_exc=never_throws("host copy"))

    def v_hostset(self):
        w = self.w

        def h(ex, st, args, ins):
            for k, v in (("nset", self.g(st, "nset") + 1), ("sptr", T(ex, args[0])), ("sval_", args[1]), ("slen_", args[2])):
                ex.gset(st, k, v)
            return [(st, 'ret', args[0])]
        w.contracts["memset"] = h

        def setup(ex, st):
            self.base(ex, st)
            v = z3.Int("value")
            st.assume(v >= 0, v < 2 ** 32)
            return [P(addr=self.this), self.ptr(st, "ptr"), self.ptr(st, "rec"), v, self.size(st, "length")]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "host memset: fills exactly the requested bytes with the value's low byte, once",
                      z3.And(self.g(st, "nset") == self.g(st0, "nset") + 1, self.g(st, "sptr") == args[1].addr, (self.g(st, "sval_") - args[3]) % 256 == 0, self.g(st, "slen_") == args[4]))
        return verify(w, "umpire::op::HostMemsetOperation::apply", setup, post, post_exc=never_throws("host memset"))

    CELL = P(addr=z3.Int("cell"))

    def cell(self, ex, st, n=None):
        st.assume(z3.Int("cell") > 0, z3.Int("cell") < MAX64 - 8, z3.Int("cell") % 8 == 0)
        if n:
            p = z3.Int(n)
            st.assume(p > 0, p < MAX64)
            ex.store(st, P(addr=z3.Int("cell")), P(addr=p), _PTR)
        return P(addr=z3.Int("cell"))

    def cellv(self, ex, st):
        return T(ex, ex.load(st, P(addr=z3.Int("cell")), _PTR))

    # ---- reallocate operations
    def use_copy(self):
        """ResourceManager::copy by its contract, for pointers that are registered themselves"""
        w, sp = self.w, self

        def h(ex, st, args, ins):
            ex.used_contracts.add(RM + "::copy")
            d, s, n = T(ex, args[1]), T(ex, args[2]), args[-1]
            ex.oblige(st, "copy is called with registered allocations", z3.And(live(st, d), live(st, s)), "pre")
            ln = z3.If(n == 0, top(st, s)[0], n)
            s2 = st.copy()
            ex.gset(s2, "nopfail", sp.g(s2, "nopfail") + 1)
            s3 = st.copy()
            s3.assume(z3.Or(ln > top(s3, s)[0], ln > top(s3, d)[0]))
            ex.gset(s3, "ncopyrefused", sp.g(s3, "ncopyrefused") + 1)
            outs = [(s2, 'exc', Exc())] + ([(s3, 'exc', Exc())] if ex.feasible_q(s3) else [])
            st.assume(ln <= top(st, s)[0], ln <= top(st, d)[0])
            for k, v in (("ncopy", sp.g(st, "ncopy") + 1), ("cdst", d), ("csrc", s), ("clen", ln)):
                ex.gset(st, k, v)
            return outs + [(st, 'ret', rv(ex, st, ins))]
        w.contracts[RM + "::copy"] = h

    def use_registry(self):
        w, sp = self.w, self

        def register(ex, st, args, ins):
            ex.used_contracts.add(RM + "::registerAllocation")
            p, R = T(ex, args[1]), args[2]
            v = {n: sp.rec_load(ex, st, R, n) for n in ("ptr", "size", "strategy")}
            ex.oblige(st, "the record registered for an address holds that address and is not null", z3.And(v["ptr"] == p, p != 0), "pre")
            sp.push(ex, st, p, v["size"], v["strategy"])
            return [(st, 'ret', None)]

        def deregister(ex, st, args, ins):
            ex.used_contracts.add(RM + "::deregisterAllocation")
            return w.contracts[AM + "::remove"](ex, st, args, ins)
        w.contracts[RM + "::registerAllocation"] = register
        w.contracts[RM + "::deregisterAllocation"] = deregister

    def current(self, ex, st):
        """a registered allocation, its record, and a non-zero new size"""
        p, s, R, n = z3.Ints("current_ptr strategy record new_size")
        st.assume(p > 0, p < MAX64, R > 0, R < MAX64 - 4096, n > 0, n < MAX64, live(st, p), s > 0, s < MAX64 - 4096)
        sz, g_ = top(st, p)
        st.assume(sz >= 0, sz < MAX63, g_ == s, p + sz < MAX64)
        for f, v in (("ptr", p), ("size", sz), ("strategy", s)):
            ex.setfld(st, getattr(self.r, "K_" + f), R + getattr(self.r, "A_" + f), v)
        st.g["recs"] = ((R, p),)
        return p, s, R, n

    def v_realloc_op(self, cls, fn, host):
        self.use_copy()
        self.use_registry()
        w, sp = self.w, self
        tag = cls + "::" + fn

        def realloc(ex, st, args, ins):
            p, n = T(ex, args[0]), args[1]
            ex.oblige(st, "::realloc is called with memory obtained from malloc (not a zero-byte allocation) and a non-zero size", z3.And(p == z3.Int("current_ptr"), z3.Int("current_ptr") != 0, top(st.g["pre"], p)[0] > 0, n > 0), "pre")
            s2 = st.copy()
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            q = fint("realloced")
            # a new block: not an address this strategy still has handed out
            st.assume(q > 0, q < MAX64, n < MAX63, q + n < MAX64, z3.Not(z3.And(live(st, q), top(st, q)[1] == z3.Int("strategy"))))
            osz = top(st.g["pre"], p)[0]
            for k, v in (("ncopy", sp.g(st, "ncopy") + 1), ("cdst", q), ("csrc", p), ("clen", z3.If(osz < n, osz, n)), ("nlibc", sp.g(st, "nlibc") + 1)):
                ex.gset(st, k, v)
            return [(s2, 'ret', P(addr=z3.IntVal(0))), (st, 'ret', P(addr=q))]
        w.contracts["realloc"] = realloc

        def stat(ex, st, m):
            return getattr(self.s, m)(ex, st, z3.Int("strategy"))

        def setup(ex, st):
            self.base(ex, st)
            p, s, R, n = self.current(ex, st)
            G(st, "nlibc", I), G(st, "ncopyrefused", I)
            c, h_ = stat(ex, st, "m_current_size"), stat(ex, st, "m_high_watermark")
            st.assume(c >= 0, c < MAX63, h_ >= c, h_ < MAX64, c >= top(st, p)[0], c + n < MAX64)
            st.g["pre"] = st.copy()
            r = [P(addr=self.this), P(addr=p), self.cell(ex, st), P(addr=R), P(addr=R), n]
            return r + ([self.ptr(st, "ctx")] if fn.endswith("async") else [])

        def post(ex, st0, st, ret, args):
            p, s, n = args[1].addr, z3.Int("strategy"), args[5]
            q = self.cellv(ex, st)
            sz = top(st0, p)[0]
            ex.oblige(st, tag + ": the result is one registered allocation of exactly the new size and of the same strategy", z3.And(q != 0, live(st, q), top(st, q)[0] == n, top(st, q)[1] == s))
            ex.oblige(st, tag + ": the first min(old, new) bytes are carried over", z3.Or(z3.And(z3.Or(sz == 0, n == 0), self.g(st, "ncopy") == self.g(st0, "ncopy")),
                      z3.And(self.g(st, "ncopy") == self.g(st0, "ncopy") + 1, self.g(st, "cdst") == q, self.g(st, "csrc") == p, self.g(st, "clen") == z3.If(sz < n, sz, n))))
            ex.oblige(st, tag + ": the old allocation is gone: its record is removed and its memory released exactly once",
                      z3.And(z3.If(q == p, rn(st)[p] == rn(st0)[p], rn(st)[p] == rn(st0)[p] - 1),
                             z3.If(self.g(st, "nlibc") > self.g(st0, "nlibc"), self.g(st, "nfree") == self.g(st0, "nfree"),
                                   z3.And(self.g(st, "nfree") == self.g(st0, "nfree") + 1, self.g(st, "fptr") == p, self.g(st, "fstrat") == s))))
            ex.oblige(st, tag + ": no other record changes", self.reg_same(st0, st, p, q))
            ex.oblige(st, tag + ": nothing is registered twice", z3.Implies(q != p, rn(st)[q] == rn(st0)[q] + 1))
            if host:
                c0, c1, h0, h1 = stat(ex, st0, "m_current_size"), stat(ex, st, "m_current_size"), stat(ex, st0, "m_high_watermark"), stat(ex, st, "m_high_watermark")
                lib = self.g(st, "nlibc") > self.g(st0, "nlibc")
                ex.oblige(st, tag + ": the strategy's current size follows the size change", z3.Implies(lib, c1 == c0 - sz + n))
                ex.oblige(st, tag + ": the high watermark is the maximum of the old mark and the new size", z3.Implies(lib, h1 == z3.If(c1 > h0, c1, h0)))
                ex.oblige(st, tag + ": the allocation count is unchanged", z3.Implies(lib, stat(ex, st, "m_allocation_count") == stat(ex, st0, "m_allocation_count")))

        def post_exc(ex, st0, st, e, args):
            p = args[1].addr
            ex.oblige(st, tag + " throws only if memory or the copy operation is missing", z3.And(z3.Or(self.g(st, "nfail") > self.g(st0, "nfail"), self.g(st, "nopfail") > self.g(st0, "nopfail")), self.g(st, "ncopyrefused") == self.g(st0, "ncopyrefused")))
            ex.oblige(st, tag + " (throwing): the old allocation stays valid and registered", z3.And(rn(st)[p] == rn(st0)[p], top(st, p)[0] == top(st0, p)[0], top(st, p)[1] == top(st0, p)[1], self.g(st, "nfree") == self.g(st0, "nfree"), self.g(st, "nlibc") == self.g(st0, "nlibc")))
            ex.oblige(st, tag + " (throwing for lack of memory): no record changes", z3.Implies(self.g(st, "nopfail") == self.g(st0, "nopfail"), self.reg_same(st0, st)))
            ex.oblige(st, tag + " (throwing): the strategy's statistics are unchanged", z3.And([stat(ex, st, m) == stat(ex, st0, m) for m in ("m_current_size", "m_high_watermark", "m_allocation_count")]))
        return verify(w, "umpire::op::" + tag, setup, post, post_exc=post_exc)

    def v_default_async(self, fn):
        """the asynchronous forms fall back to the synchronous operation with the same arguments"""
        w = self.w
        seen = []

        def h(ex, st, args, ins):
            for i, a in enumerate(args):
                ex.gset(st, "darg%d" % i, T(ex, a))
            ex.gset(st, "ndef", self.g(st, "ndef") + 1)
            s2 = st.copy()
            ex.gset(s2, "nfail", self.g(s2, "nfail") + 1)
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        sync = fn.replace("_async", "")
        w.virt[OP + "::" + sync] = h

        def setup(ex, st):
            self.base(ex, st)
            for i in range(7):
                self.g(st, "darg%d" % i)
            self.g(st, "ndef")
            if sync == "transform":
                a = [P(addr=self.this), self.ptr(st, "src"), self.cell(ex, st, "dst"), self.ptr(st, "srec"), self.ptr(st, "drec"), self.size(st, "length")]
            else:
                v = z3.Int("value")
                st.assume(v >= 0, v < 2 ** 32)
                a = [P(addr=self.this), self.ptr(st, "src"), self.ptr(st, "srec"), v, self.size(st, "length")]
            return a + [self.ptr(st, "ctx")]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, fn + ": the synchronous operation runs exactly once with the same arguments", z3.And([self.g(st, "ndef") == self.g(st0, "ndef") + 1] + [self.g(st, "darg%d" % i) == T(ex, a) for i, a in enumerate(args[:-1])]))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, fn + " throws only if the synchronous operation does", self.g(st, "nfail") > self.g(st0, "nfail"))
        return verify(w, OP + "::" + fn, setup, post, post_exc=post_exc)

    # ---- reallocate, move, deallocate and queries of the resource manager
    def use_getalloc(self):
        w, sp = self.w, self

        def h(ex, st, args, ins):
            ex.used_contracts.add(RM + "::getAllocator")
            s2 = st.copy()
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            d = ex.cur_call[1].dem
            v = cstr(ex, st, args[2], ins.mod) if "char const*" in d else sval(st)[T(ex, args[2])]
            f = ufun("strategy_named", I, I)
            st.assume(f(v) > 0, f(v) < MAX64 - 4096)
            sp.set_alloc(ex, st, args[0], f(v))
            return [(s2, 'exc', Exc()), (st, 'ret', None)]
        w.contracts[RM + "::getAllocator"] = h

    def v_realloc_impl(self, ctx):
        self.use_getalloc()
        nm = "reallocate_impl" + (" (resource)" if ctx else "")

        def setup(ex, st):
            self.base(ex, st)
            a, s = self.allocobj(ex, st)
            self.g(st, "ngeneric"), self.g(st, "ncopyrefused")
            return [P(addr=self.this), self.ptr(st, "current_ptr", nz=False), self.size(st, "new_size"), a] + ([self.ptr(st, "ctx")] if ctx else [])
        return verify(self.w, RM + "::reallocate_impl", setup, self.realloc_post(nm, True), post_exc=self.realloc_exc(nm, True), label=RM + "::" + nm, fn=self.pick(RM + "::reallocate_impl", 5 if ctx else 4))

    def realloc_strategy(self, ex, st0, st, args, given):
        if given:
            return z3.Int("allocator_strategy")
        return None

    def realloc_post(self, nm, given):
        def post(ex, st0, st, ret, args):
            p, n, q = args[1].addr, args[2], T(ex, ret)
            s = z3.Int("allocator_strategy") if given else z3.If(p == 0, self.default(ex, st), top(st0, p)[1])
            g = lambda x, k: self.g(x, k)
            ex.oblige(st, nm + ": the result is a registered allocation of exactly the new size and of the expected strategy", z3.And(q != 0, live(st, q), top(st, q)[0] == n, top(st, q)[1] == s))
            ex.oblige(st, nm + ": a null pointer means a plain allocation", z3.Implies(p == 0, z3.And(g(st, "nalloc") == g(st0, "nalloc") + 1, g(st, "nrealloc") == g(st0, "nrealloc"), g(st, "nfree") == g(st0, "nfree"), self.reg_same(st0, st, q), rn(st)[q] == rn(st0)[q] + 1)))
            ex.oblige(st, nm + ": only an allocation's own address, with its own allocator, is accepted", z3.Implies(p != 0, z3.And(live(st0, p), top(st0, p)[1] == s)))
            ex.oblige(st, nm + ": size zero releases the allocation and yields a zero-byte one", z3.Implies(z3.And(p != 0, n == 0), z3.And(
                g(st, "nfree") == g(st0, "nfree") + 1, g(st, "fptr") == p, g(st, "nalloc") == g(st0, "nalloc") + 1, g(st, "nrealloc") == g(st0, "nrealloc"), self.reg_same(st0, st, p, q))))
            ex.oblige(st, nm + ": otherwise exactly one reallocate operation runs on the allocation", z3.Implies(z3.And(p != 0, n != 0), z3.And(
                g(st, "nrealloc") == g(st0, "nrealloc") + 1, g(st, "csrc") == p, g(st, "cdst") == q, g(st, "clen") == n, g(st, "nalloc") == g(st0, "nalloc"), g(st, "nfree") == g(st0, "nfree"), self.reg_same(st0, st, p, q))))
        return post

    def default(self, ex, st):
        return self.rm.m_default_allocator(ex, st, self.this)

    def realloc_exc(self, nm, given):
        def post_exc(ex, st0, st, e, args):
            p, n = args[1].addr, args[2]
            g = lambda x, k: self.g(x, k)
            bad = z3.BoolVal(False) if not given else z3.And(p != 0, z3.Or([z3.And(self.enclosing(st0, p, b), top(st0, b)[1] != z3.Int("allocator_strategy")) for _, b in st.g.get("recs", ())] or [z3.BoolVal(False)]))
            ex.oblige(st, nm + " throws only for a pointer that is not an allocation of the allocator, or if memory or the operation is missing",
                      z3.Or(g(st, "nfail") > g(st0, "nfail"), g(st, "nopfail") > g(st0, "nopfail"), bad, z3.And(p != 0, z3.Not(live(st0, p)))))
            ex.oblige(st, nm + " (throwing): the old allocation stays registered unless size zero was asked for", z3.Implies(n != 0, self.nothing(st0, st)))
        return post_exc

    def v_realloc(self, given, ctx):
        self.use_getalloc()
        w, sp = self.w, self
        nm = "reallocate" + (" (allocator)" if given else "") + (" (resource)" if ctx else "")

        def impl(ex, st, args, ins):
            ex.used_contracts.add(RM + "::reallocate_impl")
            p, n, s = T(ex, args[1]), args[2], sp.get_alloc(ex, st, args[3])
            if given:
                ex.oblige(st, "the allocator given is passed on", s == z3.Int("allocator_strategy"), "pre")
            ex.oblige(st, "the resource manager and arguments are passed on", z3.And(T(ex, args[0]) == sp.this, p == z3.Int("current_ptr"), n == z3.Int("new_size")), "pre")
            s2 = st.copy()
            ex.gset(s2, "nfail", sp.g(s2, "nfail") + 1)
            ex.gset(s2, "nimpl", sp.g(s2, "nimpl") + 1)
            ex.gset(st, "nimpl", sp.g(st, "nimpl") + 1)
            ex.gset(st, "istrat", s)
            q = fint("result")
            st.assume(q > 0, q < MAX64)
            ex.gset(st, "iret", q)
            return [(s2, 'exc', Exc()), (st, 'ret', P(addr=q))]
        w.contracts[RM + "::reallocate_impl"] = impl

        def setup(ex, st):
            self.base(ex, st)
            for n in ("nimpl", "istrat", "iret"):
                self.g(st, n)
            p, n = self.ptr(st, "current_ptr", nz=False), self.size(st, "new_size")
            a = [P(addr=self.this), p, n]
            if given:
                a.append(self.allocobj(ex, st)[0])
            d = self.default(ex, st)
            st.assume(d >= 0, d < MAX64 - 4096)
            return a + ([self.ptr(st, "ctx")] if ctx else [])

        def post(ex, st0, st, ret, args):
            p = args[1].addr
            ex.oblige(st, nm + ": reallocates exactly once and returns that result", z3.And(self.g(st, "nimpl") == self.g(st0, "nimpl") + 1, T(ex, ret) == self.g(st, "iret"), self.nothing(st0, st)))
            if not given:
                d0 = self.default(ex, st0)
                host = ufun("strategy_named", I, I)(lit(w, "HOST"))
                encl = z3.Or([z3.And(self.enclosing(st0, p, b), self.g(st, "istrat") == top(st0, b)[1]) for _, b in st.g.get("recs", ())] or [z3.BoolVal(False)])
                ex.oblige(st, nm + ": the allocation's own strategy is used, or the default allocator for a null pointer", z3.If(p == 0, self.g(st, "istrat") == z3.If(d0 == 0, host, d0), encl))
                ex.oblige(st, nm + ": an existing default allocator is kept", z3.Implies(d0 != 0, self.default(ex, st) == d0))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, nm + " throws only if the pointer is unknown or the reallocation throws", self.g(st, "nfail") > self.g(st0, "nfail"))
            ex.oblige(st, nm + " (throwing): nothing else changes", self.nothing(st0, st))
        rx = {(False, False): "EPvm$", (False, True): "EPvmRN4camp", (True, False): "AllocatorE$", (True, True): "AllocatorERN4camp"}[(given, ctx)]
        fs = [f for f in w.fns(RM + "::reallocate") if re.search(rx, f.name)]
        if not fs:
            raise ExtractError("function not found in the current source: " + RM + "::reallocate")
        return verify(w, RM + "::reallocate", setup, post, post_exc=post_exc, label=RM + "::" + nm, fn=fs[0])

    def v_move(self):
        self.use_copy()

        def setup(ex, st):
            self.base(ex, st)
            self.g(st, "ncopyrefused")
            a, s = self.allocobj(ex, st)
            st.g["held"] = (z3.Int("ptr"),)
            return [P(addr=self.this), self.ptr(st, "ptr"), a]

        def post(ex, st0, st, ret, args):
            p, s, q = args[1].addr, z3.Int("allocator_strategy"), T(ex, ret)
            g = lambda x, k: self.g(x, k)
            recs = st.g.get("recs", ())
            same = z3.Or([z3.And(self.enclosing(st0, p, b), top(st0, b)[1] == s) for _, b in recs] or [z3.BoolVal(False)])
            moved = z3.And(live(st0, p), live(st, q), top(st, q)[1] == s, top(st, q)[0] == top(st0, p)[0], g(st, "ncopy") == g(st0, "ncopy") + 1, g(st, "cdst") == q, g(st, "csrc") == p, g(st, "clen") == top(st0, p)[0],
                           g(st, "nfree") == g(st0, "nfree") + 1, g(st, "fptr") == p, g(st, "fstrat") == top(st0, p)[1], g(st, "nalloc") == g(st0, "nalloc") + 1, self.reg_same(st0, st, p, q))
            ex.oblige(st, "move: a pointer already of that allocator stays where it is; otherwise the whole content is in one new allocation of that allocator and the old one is released, exactly once",
                      z3.Or(z3.And(same, q == p, self.nothing(st0, st)), moved))
            ex.oblige(st, "move: only allocations themselves are moved between allocators", z3.Or(same, live(st0, p)))

        def post_exc(ex, st0, st, e, args):
            p, s = args[1].addr, z3.Int("allocator_strategy")
            g = lambda x, k: self.g(x, k)
            ex.oblige(st, "move throws only for a pointer that is not an allocation, or if memory or the copy operation is missing",
                      z3.And(z3.Or(g(st, "nfail") > g(st0, "nfail"), g(st, "nopfail") > g(st0, "nopfail"), z3.Not(live(st0, p))), g(st, "ncopyrefused") == g(st0, "ncopyrefused")))
            ex.oblige(st, "move (throwing): the allocation stays valid and registered", z3.And(g(st, "nfree") == g(st0, "nfree"), z3.Implies(live(st0, p), z3.And(rn(st)[p] >= rn(st0)[p], rsz(st)[p][rn(st0)[p] - 1] == top(st0, p)[0], rst(st)[p][rn(st0)[p] - 1] == top(st0, p)[1]))))
            ex.oblige(st, "move (throwing for lack of memory): no record changes", z3.Implies(g(st, "nopfail") == g(st0, "nopfail"), self.reg_same(st0, st)))
        return verify(self.w, RM + "::move", setup, post, post_exc=post_exc)

    def v_rm_deallocate(self):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.ptr(st, "ptr")]

        def post(ex, st0, st, ret, args):
            p = args[1].addr
            ex.oblige(st, "deallocate: the allocation is released exactly once, through the strategy that made it", z3.And(live(st0, p), self.g(st, "nfree") == self.g(st0, "nfree") + 1, self.g(st, "fptr") == p, self.g(st, "fstrat") == top(st0, p)[1], rn(st)[p] == rn(st0)[p] - 1, self.reg_same(st0, st, p)))

        def post_exc(ex, st0, st, e, args):
            p = args[1].addr
            ex.oblige(st, "deallocate throws only for an unregistered pointer and changes nothing", z3.And(z3.Not(live(st0, p)), self.nothing(st0, st)))
        return verify(self.w, RM + "::deallocate", setup, post, post_exc=post_exc)

    def v_lookup(self, fn):
        tag = fn

        def setup(ex, st):
            self.base(ex, st)
            return ([self.ptr(st, "result")] if fn == "getAllocator" else []) + [P(addr=self.this), self.ptr(st, "ptr")]

        def post(ex, st0, st, ret, args):
            p = args[-1].addr
            recs = st.g.get("recs", ())
            if fn == "getSize":
                v = lambda b: ret == top(st0, b)[0]
            elif fn == "findAllocatorForPointer":
                v = lambda b: T(ex, ret) == top(st0, b)[1]
            elif fn == "getAllocator":
                v = lambda b: self.get_alloc(ex, st, args[0]) == top(st0, b)[1]
            else:
                v = lambda b: z3.And([getattr(self.r, k)(ex, st, T(ex, ret)) == x for k, x in (("ptr", b), ("size", top(st0, b)[0]), ("strategy", top(st0, b)[1]))])
            ex.oblige(st, tag + ": answers for the registered allocation that holds the pointer (the pointer's own record if it has one)",
                      z3.Or([z3.And(self.enclosing(st0, p, b), z3.Implies(live(st0, p), b == p), v(b)) for _, b in recs] or [z3.BoolVal(False)]))
            ex.oblige(st, tag + ": changes nothing", self.nothing(st0, st))

        def post_exc(ex, st0, st, e, args):
            p = args[-1].addr
            ex.oblige(st, tag + ": throws only for a pointer in no registered allocation, changing nothing", z3.And(self.g(st, "nfail") > self.g(st0, "nfail"), self.nothing(st0, st)))
        fs = self.w.fns(RM + "::" + fn)
        if fn == "getAllocator":
            fs = [f for f in fs if f.name.endswith("EPv")]
        if not fs:
            raise ExtractError("function not found in the current source: %s::%s" % (RM, fn))
        return verify(self.w, RM + "::" + fn, setup, post, post_exc=post_exc, fn=fs[0], label=RM + "::" + fn + "(pointer)")

    def v_has(self):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this), self.ptr(st, "ptr")]

        def post(ex, st0, st, ret, args):
            p, r = st.g.get("contains_ret", (None, None))
            ex.oblige(st, "hasAllocator: answers whether the pointer lies in a registered allocation, changing nothing", z3.BoolVal(False) if p is None else z3.And(p == args[1].addr, (r == 1) == (ret if z3.is_bool(ret) else ret == 1), self.nothing(st0, st)))
        return verify(self.w, RM + "::hasAllocator", setup, post, post_exc=never_throws("hasAllocator"))

    def v_regs(self, de):
        def setup(ex, st):
            self.base(ex, st)
            if de:
                return [self.ptr(st, "result"), P(addr=self.this), self.ptr(st, "ptr")]
            p = self.ptr(st, "ptr", nz=False)
            R = z3.Int("record")
            st.assume(R > 0, R < MAX64 - 4096)
            q = P(addr=R, s=self.w.struct(AR), so=0, sb=R)
            n, s = self.size(st, "rsize"), self.ptr(st, "rstrat")
            for f, v in (("ptr", p.addr), ("size", n), ("strategy", s.addr)):
                self.rec_store(ex, st, q, f, v)
            return [P(addr=self.this), p, q]

        def post(ex, st0, st, ret, args):
            p = args[-1].addr if de else args[1].addr
            if de:
                out = args[0]
                ex.oblige(st, "deregisterAllocation: removes and returns exactly the pointer's newest record", z3.And(live(st0, p), rn(st)[p] == rn(st0)[p] - 1, self.reg_same(st0, st, p),
                          self.rec_load(ex, st, out, "ptr") == p, self.rec_load(ex, st, out, "size") == top(st0, p)[0], self.rec_load(ex, st, out, "strategy") == top(st0, p)[1]))
            else:
                ex.oblige(st, "registerAllocation: adds exactly this record for the pointer", z3.And(p != 0, rn(st)[p] == rn(st0)[p] + 1, top(st, p)[0] == z3.Int("rsize"), top(st, p)[1] == z3.Int("rstrat"), self.reg_same(st0, st, p)))

        def post_exc(ex, st0, st, e, args):
            p = args[-1].addr if de else args[1].addr
            ex.oblige(st, ("de" if de else "") + "registerAllocation throws only for " + ("an unregistered" if de else "a null") + " pointer, changing nothing", z3.And(z3.Not(live(st0, p)) if de else p == 0, self.nothing(st0, st)))
        return verify(self.w, RM + ("::deregisterAllocation" if de else "::registerAllocation"), setup, post, post_exc=post_exc)

    def all(self):
        r = [named("op_copy", lambda a=a: self.v_copy(a)) for a in (False, True)]
        r += [named("op_memset", lambda a=a: self.v_memset(a)) for a in (False, True)]
        r += [named("op_hostcopy", lambda: self.v_hostcopy()), named("op_hostset", lambda: self.v_hostset())]
        r += [named("op_realloc_op", lambda c=c, f=f, h=h: self.v_realloc_op(c, f, h)) for c, f, h in (("GenericReallocateOperation", "transform", False), ("GenericReallocateOperation", "transform_async", False), ("HostReallocateOperation", "transform", True))]
        r += [named("op_default_async", lambda f=f: self.v_default_async(f)) for f in ("transform_async", "apply_async")]
        r += [named("op_realloc_impl", lambda c=c: self.v_realloc_impl(c)) for c in (False, True)]
        r += [named("op_reallocate", lambda g=g, c=c: self.v_realloc(g, c)) for g in (False, True) for c in (False, True)]
        r += [named("op_move", lambda: self.v_move()), named("op_rmdealloc", lambda: self.v_rm_deallocate()), named("op_has", lambda: self.v_has())]
        r += [named("op_lookup", lambda f=f: self.v_lookup(f)) for f in ("getSize", "findAllocatorForPointer", "findAllocationRecord", "getAllocator")]
        r += [named("op_regs", lambda d=d: self.v_regs(d)) for d in (False, True)]
        return r
