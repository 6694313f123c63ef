"""Diagnostics: the output buffer that forwards to the attached streams, log levels, and relative fragmentation."""
from ..lib import *

OB = "umpire::util::OutputBuffer"
LG = "umpire::util::Logger"
RF = "umpire::util::relative_fragmentation"
TUS = ["umpire/util/OutputBuffer.cpp", "umpire/util/Logger.cpp", "umpire/util/allocation_statistics.cpp", HERE + "/vc/tu/diag.cpp"]
EOF = 2 ** 32 - 1


class Spec:
    def __init__(self, w):
        self.w = w
        install_all(w)
        C = w.contracts
        self.o = Flds(w, OB, ["d_console_stream", "d_file_stream"])
        self.this = z3.Int("buffer")
        self.nput, self.last, self.nsync = (lambda st, n=n: G(st, n, AII) for n in ("nput", "last", "nsync"))

        def sputc(ex, st, args, ins):
            b, c = T(ex, args[0]), args[1]
            ex.oblige(st, "a character is put only to an attached stream", b > 0, "pre")
            ex.gset(st, "nput", z3.Store(self.nput(st), b, self.nput(st)[b] + 1))
            ex.gset(st, "last", z3.Store(self.last(st), b, c % 256))
            s2 = st.copy()
            ex.gset(s2, "failed", z3.BoolVal(True))
            return [(s2, 'ret', z3.IntVal(EOF)), (st, 'ret', simp(c % 256))]

        def pubsync(ex, st, args, ins):
            b = T(ex, args[0])
            ex.oblige(st, "only an attached stream is synchronised", b > 0, "pre")
            ex.gset(st, "nsync", z3.Store(self.nsync(st), b, self.nsync(st)[b] + 1))
            s2 = st.copy()
            ex.gset(s2, "failed", z3.BoolVal(True))
            return [(s2, 'ret', z3.IntVal(EOF)), (st, 'ret', z3.IntVal(0))]

        def rdbuf(ex, st, args, ins):
            v = fint("rdbuf")
            st.assume(v > 0, v < MAX64)
            ex.gset(st, "rd", v)
            return [(st, 'ret', P(addr=v))]
        C["std::basic_streambuf::sputc"], C["std::basic_streambuf::pubsync"], C["std::basic_ios::rdbuf"] = sputc, pubsync, rdbuf
        for n in ("basic_streambuf", "~basic_streambuf"):
            C["std::basic_streambuf::" + n] = fresh_ret
        self.level, self.fragv = None, None
        w.all_cands.append(self.cands)
        trust("std::streambuf", "sputc and pubsync deliver to the stream or report EOF / -1; rdbuf is the stream's buffer")

    def base(self, ex, st, attached=True):
        st.assume(self.this > 0, self.this < MAX63)
        zero = z3.K(I, z3.IntVal(0))
        for g in ("nput", "nsync"):
            ex.gset(st, g, z3.Const("z_" + g, AII))
            x = z3.Int("zx")
            st.assume(z3.ForAll([x], st.g[g][x] == 0, patterns=[st.g[g][x]]))
        self.last(st)
        ex.gset(st, "failed", z3.BoolVal(False))
        ex.gset(st, "rd", z3.IntVal(0))

    def streams(self, ex, st):
        return self.o.d_console_stream(ex, st, self.this), self.o.d_file_stream(ex, st, self.this)

    def once(self, ex, st0, st, cnt):
        """each attached stream is served once per place it is attached at, and nothing else is"""
        c, f = self.streams(ex, st0)
        x = z3.Int("ox")
        return z3.ForAll([x], cnt(st)[x] == z3.If(z3.And(x == c, c != 0), 1, 0) + z3.If(z3.And(x == f, f != 0), 1, 0))

    def kept(self, ex, st0, st):
        return z3.And(*[a == b for a, b in zip(self.streams(ex, st0), self.streams(ex, st))])

    def v_overflow(self):
        ch = z3.Int("ch")

        def setup(ex, st):
            self.base(ex, st)
            st.assume(ch >= 0, ch < 2 ** 32)
            return [P(addr=self.this), ch]

        def post(ex, st0, st, ret, args):
            c, f = self.streams(ex, st0)
            x = z3.Int("oz")
            fl = st.g["failed"]
            ex.oblige(st, "overflow: end of file writes nothing and is no failure", z3.Implies(ch == EOF, z3.And(z3.ForAll([x], self.nput(st)[x] == 0), ret != EOF)))
            ex.oblige(st, "overflow: the character reaches every attached stream exactly once", z3.Implies(ch != EOF, self.once(ex, st0, st, self.nput)))
            ex.oblige(st, "overflow: what is written is the character", z3.Implies(ch != EOF, z3.And(z3.Implies(c != 0, self.last(st)[c] == ch % 256), z3.Implies(f != 0, self.last(st)[f] == ch % 256))))
            ex.oblige(st, "overflow: reports failure exactly when a stream failed", z3.Implies(ch != EOF, (ret == EOF) == fl))
            ex.oblige(st, "overflow: the streams stay attached", self.kept(ex, st0, st))
        return verify(self.w, OB + "::overflow", setup, post, post_exc=never_throws("overflow"))

    def v_sync(self, fn):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, fn + ": every attached stream is synchronised once", self.once(ex, st0, st, self.nsync))
            if fn == "sync":
                ex.oblige(st, "sync: reports failure exactly when a stream failed", z3.And((ret == 0) == z3.Not(st.g["failed"]), z3.Or(ret == 0, ret == EOF)))
                ex.oblige(st, "sync: the streams stay attached", self.kept(ex, st0, st))
        name = OB + ("::sync" if fn == "sync" else "::~OutputBuffer")
        return verify(self.w, name, setup, post, post_exc=never_throws(fn), **({} if fn == "sync" else dict(fn=[f for f in self.w.byshort[name] if "D2" in f.name][0])))

    def v_set(self, fn):
        s = z3.Int("stream")

        def setup(ex, st):
            self.base(ex, st)
            st.assume(s >= 0, s < MAX63)
            return [P(addr=self.this), P(addr=s)]

        def post(ex, st0, st, ret, args):
            (c0, f0), (c, f) = self.streams(ex, st0), self.streams(ex, st)
            new, kept = ((c, f == f0) if "Console" in fn else (f, c == c0))
            ex.oblige(st, fn + ": the given stream is attached, or none for null", z3.And(z3.Implies(s == 0, new == 0), z3.Implies(s != 0, z3.And(new == st.g["rd"], new > 0))))
            ex.oblige(st, fn + ": the other stream is unaffected", kept)
        return verify(self.w, OB + "::" + fn, setup, post, post_exc=never_throws(fn))

    def v_ctor(self):
        def setup(ex, st):
            self.base(ex, st)
            return [P(addr=self.this)]

        def post(ex, st0, st, ret, args):
            ex.oblige(st, "constructor: no stream is attached", z3.And(*[x == 0 for x in self.streams(ex, st)]))
        return verify(self.w, "vc::make_buffer", setup, post, post_exc=never_throws("constructor"), label=OB + "::OutputBuffer")

    def cands(self, ctx, vars_):
        ex, out = ctx.ex, []
        for j, (n, ty) in enumerate(vars_):
            if self.level is not None and ty.kind == 'int':
                out.append(("levels below %d are set" % j, lambda st, v, j=j: z3.And(v[j][2] >= 0, *[z3.Implies(k < v[j][2], self.flag(ex, st, k) == z3.If(k <= self.level, 1, 0)) for k in range(4)])))
            if self.fragv is not None:
                b, e, tot, mx = self.fragv
                if ty.kind == 'ptr':
                    out.append(("%d in the list" % j, lambda st, v, j=j: self.elem(v[j][2])))
                    out.append(("%d past the first" % j, lambda st, v, j=j: v[j][2] > b))
                    for i, (n2, ty2) in enumerate(vars_):
                        if ty2.kind == 'int':
                            for nm, f in (("sum", tot), ("largest", mx)):
                                out.append(("%d is the %s before %d" % (i, nm, j), lambda st, v, i=i, j=j, f=f: v[i][2] == f(v[j][2])))
                        elif i != j:
                            out.append(("%d follows %d" % (j, i), lambda st, v, i=i, j=j: v[j][2] == v[i][2] + self.fragS))
        return out

    # ---- levels
    def flag(self, ex, st, i):
        k, adj = self.w.field(LG, "m_is_enabled")
        return ex.arr(st, ("R", "bool", 0), 8)[self.this + k[2] + i]

    def v_level(self):
        lv = z3.Int("level")
        self.level = lv

        def setup(ex, st):
            self.base(ex, st)
            st.assume(lv >= 0, lv < 4)
            return [P(addr=self.this), lv]

        def post(ex, st0, st, ret, args):
            for i in range(4):
                ex.oblige(st, "setLoggingMsgLevel: exactly the levels up to the given one are enabled (%d)" % i, (self.flag(ex, st, i) != 0) == (i <= lv))
        try:
            return verify(self.w, LG + "::setLoggingMsgLevel", setup, post, post_exc=never_throws("setLoggingMsgLevel"))
        finally:
            self.level = None

    # ---- relative fragmentation
    def v_frag(self):
        S = self.w.sizeof("umpire::util::AllocationRecord")
        r = Flds(self.w, "umpire::util::AllocationRecord", ["ptr", "size"])
        tot, mx = ufun("gaps_before", I, I), ufun("largest_gap_before", I, I)
        v, b, e = z3.Int("recs"), z3.Int("first"), z3.Int("past")
        gap = lambda ex, st, p: r.ptr(ex, st, p) - r.ptr(ex, st, p - S) - r.size(ex, st, p - S)

        def setup(ex, st):
            self.base(ex, st)
            x = z3.Int("rx")
            # elem(x): x is the address of a record or the end of the list; defined as b <= x <= e and x - b a multiple of S
            self.elem = elem = ufun("is_record", I, z3.BoolSort())
            st.assume(v > 0, v < MAX63, b > 0, e >= b, e < MAX63, elem(b), elem(e), z3.Implies(b != e, elem(b + S)))
            st.assume(z3.ForAll([x], z3.Implies(elem(x), z3.And(x >= b, x <= e, z3.Or(x == b, x >= b + S), z3.Or(x == e, x + S <= e))), patterns=[elem(x)]))
            st.assume(z3.ForAll([x], z3.Implies(z3.And(elem(x), x != e), elem(x + S)), patterns=[z3.MultiPattern(elem(x), elem(x + S))]))
            K = lambda o: ("F", "struct.std::_Vector_base<umpire::util::AllocationRecord, std::allocator<umpire::util::AllocationRecord>>::_Vector_impl_data", o)
            for o, t in ((0, b), (8, e)):
                ex.setfld(st, K(o), v, t)
            # records in ascending order of address and disjoint; their gaps sum up to less than the address space
            st.assume(tot(b + S) == 0, mx(b + S) == 0)
            inside = z3.And(x >= b + S, x < e)
            st.assume(z3.ForAll([x], r.size(ex, st, x) < MAX63, patterns=[r.size(ex, st, x)]))
            st.assume(z3.ForAll([x], z3.Implies(inside, z3.And(gap(ex, st, x) >= 0, gap(ex, st, x) < MAX64)), patterns=[elem(x)]))
            st.assume(z3.ForAll([x], z3.Implies(inside, tot(x + S) == tot(x) + gap(ex, st, x)), patterns=[z3.MultiPattern(tot(x), tot(x + S))]))
            st.assume(z3.ForAll([x], z3.Implies(inside, mx(x + S) == z3.If(gap(ex, st, x) > mx(x), gap(ex, st, x), mx(x))), patterns=[z3.MultiPattern(mx(x), mx(x + S))]))
            st.assume(z3.ForAll([x], z3.And(tot(x) >= 0, tot(x) < MAX64, mx(x) >= 0, mx(x) <= tot(x)), patterns=[tot(x), mx(x)]))
            return [P(addr=v)]

        def post(ex, st0, st, ret, args):
            eps = z3.RealVal("1") / z3.RealVal(2 ** 23)
            want = z3.If(b == e, z3.RealVal(0), 1 - z3.ToReal(mx(e)) / (z3.ToReal(tot(e)) + eps))
            ex.oblige(st, "relative_fragmentation: one minus the largest gap over the sum of the gaps, zero for no records", ret.t == want)
        self.fragS, self.fragv = S, (b, e, tot, mx)
        try:
            return verify(self.w, RF, setup, post, post_exc=never_throws("relative_fragmentation"))
        finally:
            self.fragv = None

    def all(self):
        return [named("overflow", lambda: self.v_overflow()), named("sync", lambda: self.v_sync("sync")), named("dtor", lambda: self.v_sync("destructor")),
                named("setConsole", lambda: self.v_set("setConsoleStream")), named("setFile", lambda: self.v_set("setFileStream")), named("ctor", lambda: self.v_ctor()), named("level", lambda: self.v_level()), named("frag", lambda: self.v_frag())]
