"""Assumed contract of std::string, by value: a ghost map from string objects to abstract values; literals are interned by content."""
import z3
from .engine import *
from .stl import *

cval = ufun("cstring_value", I, I)  # value of a C string that is not a literal
cat2 = ufun("concat", I, I, I)
sfind = ufun("str_find", I, I, I, I)
ssub = ufun("substr", I, I, I, I)
slen = ufun("strlen_", I, I)


def sval(st):
    return G(st, "sval", AII)


def lit(w, s):
    """the abstract value of a literal"""
    d = w.__dict__.setdefault("strlits", {})
    return z3.IntVal(d.setdefault(s, 10 ** 6 + len(d)))


def cstr(ex, st, p, mod):
    if isinstance(p, P) and isinstance(p.obj, str) and not p.off:
        c = ex.w.global_init(p.obj, mod)
        if c is not None and c.kind == 'str':
            return lit(ex.w, (c.v if isinstance(c.v, str) else c.v.decode("latin1")).rstrip("\0"))
    return cval(ex.pterm(p))


def install_strings(w):
    C = w.contracts

    def dem(ex):
        f = ex.cur_call[1]
        return (f.dem or "") if f is not None else ""

    def params(ex):
        d = dem(ex)
        i, depth = len(d) - 1, 0
        j = d.rfind(")")
        for i in range(j, -1, -1):
            depth += {")": 1, "(": -1}.get(d[i], 0)
            if depth == 0:
                break
        return d[i + 1:j]

    def of(ex, st, p, text, ins):
        """value of an argument, string object or C string"""
        if "basic_string" in text or "std::string" in text:
            return sval(st)[ex.pterm(p)]
        return cstr(ex, st, p, ins.mod)

    def setv(ex, st, p, v):
        ex.gset(st, "sval", z3.Store(sval(st), ex.pterm(p), v))

    def ctor(ex, st, args, ins):
        ps = params(ex)
        if len(args) == 1:
            setv(ex, st, args[0], lit(w, ""))
        elif ps.startswith("char const*") and (len(args) == 2 or "allocator" in ps):
            setv(ex, st, args[0], cstr(ex, st, args[1], ins.mod))
        elif "basic_string" in ps and len(args) == 2:
            setv(ex, st, args[0], sval(st)[ex.pterm(args[1])])
        else:
            setv(ex, st, args[0], fint("str"))
        return [(st, 'ret', None)]

    def assign(ex, st, args, ins):
        setv(ex, st, args[0], of(ex, st, args[1], params(ex), ins) if len(args) == 2 else fint("str"))
        return [(st, 'ret', args[0])]

    def compare(ex, st, args, ins):
        if len(args) != 2:
            return fresh_ret(ex, st, args, ins)
        r = fint("cmp")
        eq = sval(st)[ex.pterm(args[0])] == of(ex, st, args[1], params(ex), ins)
        st.assume(r >= 0, r < 2 ** 32, (r == 0) == eq)
        return [(st, 'ret', r)]

    def opcmp(neg):
        old = C.get("std::operator!=" if neg else "std::operator==")

        def h(ex, st, args, ins):
            ps = params(ex)
            if "basic_string" in ps and len(args) == 2:
                a = ps.split(", char const*") if ps.rstrip().endswith("char const*") else None
                x = sval(st)[ex.pterm(args[0])]
                y = cstr(ex, st, args[1], ins.mod) if a else sval(st)[ex.pterm(args[1])]
                return [(st, 'ret', x != y if neg else x == y)]
            return old(ex, st, args, ins) if old else NotImplemented
        return h

    def find(ex, st, args, ins):
        v = sfind(sval(st)[ex.pterm(args[0])], of(ex, st, args[1], params(ex), ins), args[2] if len(args) > 2 and not isinstance(args[2], P) else z3.IntVal(0))
        st.assume(v >= 0, v < MAX64)
        return [(st, 'ret', v)]

    def substr(ex, st, args, ins):  # sret
        setv(ex, st, args[0], ssub(sval(st)[ex.pterm(args[1])], args[2], args[3]))
        return [(st, 'ret', None)]

    def plus(ex, st, args, ins):
        ps = params(ex)
        if len(args) != 3 or "basic_string" not in ps:
            return fresh_ret(ex, st, args, ins)
        l = sval(st)[ex.pterm(args[1])] if not ps.startswith("char const*") else cstr(ex, st, args[1], ins.mod)
        r = cstr(ex, st, args[2], ins.mod) if ps.endswith("char const*") else sval(st)[ex.pterm(args[2])]
        setv(ex, st, args[0], cat2(l, r))
        return [(st, 'ret', None)]

    B_ = "std::basic_string"
    C[B_ + "::basic_string"] = ctor
    C[B_ + "::operator="] = C[B_ + "::assign"] = assign
    C[B_ + "::~basic_string"] = fresh_ret
    C[B_ + "::compare"] = compare
    C[B_ + "::find"] = find
    C[B_ + "::substr"] = substr
    C["std::operator+"] = plus
    C["std::operator=="] = opcmp(False)
    C["std::operator!="] = opcmp(True)
    trust("std::string", "strings as abstract values: construction, copy, assignment and comparison by value; concatenation, substring and search as functions of the values")
