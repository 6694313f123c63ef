"""Questions about registered ranges (umpire/Umpire.cpp): overlap, containment, external registration, accessibility of an allocator's root resource."""
from . import ops
from .ops import *
from .front import AS

TUS = ["umpire/Umpire.cpp", "umpire/resource/NullMemoryResource.cpp"] + ops.TUS
root = ufun("root_of", I, I)
unw = ufun("unwrapped", I, I)
acc = ufun("accessible", I, I, I)


class Spec(ops.Spec):
    def __init__(self, w):
        super().__init__(w)
        w.memcpy_type = lambda ex, ins, d, s, n, mod: w.struct(AR) if w.sizeof(AR) == n else None

    def v_range(self, fn):
        def setup(ex, st):
            self.base(ex, st)
            return [self.ptr(st, "left"), self.ptr(st, "right")]

        def post(ex, st0, st, ret, args):
            l, r = args[0].addr, args[1].addr
            recs = st.g.get("recs", ())

            def want(a, b):
                na, nb = top(st0, a)[0], top(st0, b)[0]
                st_in = z3.And(b >= a, b < a + na)
                return z3.And(st_in, b + nb > a + na) if fn == "pointer_overlaps" else z3.And(st_in, b + nb <= a + na)
            res = ret if z3.is_bool(ret) else ret != 0
            ok = lambda p, b: z3.And(self.enclosing(st0, p, b), z3.Implies(live(st0, p), b == p))
            ex.oblige(st, fn + ": compares the registered ranges of the two pointers exactly",
                      z3.Or([z3.And(ok(l, a), ok(r, b), res == want(a, b)) for i, (_, a) in enumerate(recs) for j, (_, b) in enumerate(recs) if i != j] or [z3.BoolVal(False)]))
            ex.oblige(st, fn + ": changes nothing", self.nothing(st0, st))

        def post_exc(ex, st0, st, e, args):
            ex.oblige(st, fn + ": throws only if a pointer is in no registered allocation, changing nothing", z3.And(self.g(st, "nfail") > self.g(st0, "nfail"), self.nothing(st0, st)))
        return verify(self.w, "umpire::" + fn, setup, post, post_exc=post_exc)

    def v_external(self, de):
        def setup(ex, st):
            self.base(ex, st)
            if de:
                return [self.ptr(st, "result"), self.ptr(st, "ptr")]
            p = self.ptr(st, "ptr", nz=False)
            R = z3.Int("record")
            st.assume(R > 0, R < MAX64 - 4096)
            q = P(addr=R, s=self.w.struct(AR), so=0, sb=R)
            n, s = self.size(st, "rsize"), self.ptr(st, "rstrat")
            for f, v in (("ptr", p.addr), ("size", n), ("strategy", s.addr)):
                self.rec_store(ex, st, q, f, v)
            return [p, q]

        def post(ex, st0, st, ret, args):
            if de:
                out, p = args[0], args[1].addr
                ex.oblige(st, "deregister_external_allocation: removes and returns exactly the pointer's newest record", z3.And(live(st0, p), rn(st)[p] == rn(st0)[p] - 1, self.reg_same(st0, st, p),
                          self.rec_load(ex, st, out, "ptr") == p, self.rec_load(ex, st, out, "size") == top(st0, p)[0], self.rec_load(ex, st, out, "strategy") == top(st0, p)[1]))
            else:
                p = args[0].addr
                ex.oblige(st, "register_external_allocation: adds exactly this record for the pointer", z3.And(p != 0, rn(st)[p] == rn(st0)[p] + 1, top(st, p)[0] == z3.Int("rsize"), top(st, p)[1] == z3.Int("rstrat"), self.reg_same(st0, st, p)))

        def post_exc(ex, st0, st, e, args):
            p = args[1].addr if de else args[0].addr
            ex.oblige(st, ("de" if de else "") + "register_external_allocation throws only for " + ("an unregistered" if de else "a null") + " pointer, changing nothing", z3.And(z3.Not(live(st0, p)) if de else p == 0, self.nothing(st0, st)))
        return verify(self.w, "umpire::" + ("de" if de else "") + "register_external_allocation", setup, post, post_exc=post_exc)

    def v_accessible(self):
        w = self.w
        k, adj = w.field("umpire::strategy::AllocationStrategy", "m_parent")
        par = lambda ex, st, x: ex.arr(st, k)[x + adj]

        def getparent(ex, st, args, ins):
            x = T(ex, args[0])
            v = par(ex, st, x)
            st.assume(root(x) == z3.If(v == 0, x, root(v)), v >= 0, v < MAX64 - 4096)
            return [(st, 'ret', P(addr=simp(v)))]
        w.contracts[AS + "::getParent"] = getparent
        w.virt[AS + "::getParent"] = getparent

        def unwrap(ex, st, args, ins):
            return [(st, 'ret', P(addr=unw(T(ex, args[-1]))))]
        w.contracts["umpire::util::unwrap_allocation_strategy"] = unwrap
        w.virt["umpire::resource::MemoryResource::isAccessibleFrom"] = lambda ex, st, args, ins: (st.assume(z3.Or(acc(T(ex, args[0]), args[1]) == 0, acc(T(ex, args[0]), args[1]) == 1)), [(st, 'ret', acc(T(ex, args[0]), args[1]))])[1]
        start = z3.Int("start")

        def cands(ctx, vars_):
            out = []
            for j, (nm, ty) in enumerate(vars_):
                if ty.kind == 'ptr':
                    out.append(("same root %d" % j, lambda st, vals, j=j: z3.And(root(ctx.ex.pterm(vals[j][2])) == root(start), ctx.ex.pterm(vals[j][2]) > 0)))
            ptrs = [j for j, (nm, ty) in enumerate(vars_) if ty.kind == 'ptr']
            for i in ptrs:
                for j in ptrs:
                    if i != j:
                        def rel(st, vals, i=i, j=j):
                            x, v = ctx.ex.pterm(vals[i][2]), ctx.ex.pterm(vals[j][2])
                            return z3.And(v == par(ctx.ex, st, x), v >= 0, root(x) == z3.If(v == 0, x, root(v)))
                        out.append(("%d is the parent of %d" % (j, i), rel))
            return out
        w.all_cands.append(cands)

        def setup(ex, st):
            self.base(ex, st)
            a = self.ptr(st, "allocator")
            p = z3.Int("platform")
            st.assume(p >= 0, p < 2 ** 31, start > 0, start < MAX64 - 4096)
            self.set_alloc(ex, st, a, start)
            return [p, a]

        def post(ex, st0, st, ret, args):
            r = z3.If(ret, 1, 0) if z3.is_bool(ret) else ret
            ex.oblige(st, "is_accessible: the answer of the root resource for this platform", r == acc(unw(root(start)), args[0]))
        try:
            return verify(w, "umpire::is_accessible", setup, post, post_exc=never_throws("is_accessible"))
        finally:
            w.all_cands.remove(cands)

    def all(self):
        return [named("q_overlaps", lambda: self.v_range("pointer_overlaps")), named("q_contains", lambda: self.v_range("pointer_contains")),
                named("q_register", lambda: self.v_external(False)), named("q_deregister", lambda: self.v_external(True)), named("q_accessible", lambda: self.v_accessible())] + \
               [named("q_lookup", lambda f=f: self.v_lookup(f)) for f in ("getSize", "findAllocatorForPointer", "findAllocationRecord", "getAllocator")] + [named("q_has", lambda: self.v_has())]
