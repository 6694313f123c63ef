"""Assumed contracts of the dependencies (C++ runtime, libstdc++, fmt, OS): the trusted boundary.
Each handler states what the dependency guarantees; none of it is code of LLNL/Umpire."""
import re
import z3
from .engine import *
from . import ir

TRUSTED = {}  # name -> statement (reported in the evidence)


def trust(name, text):
    TRUSTED[name] = text


def T(ex, v):
    return ex.pterm(v)


def ret(ex, st, ins, v=None):
    return [(st, 'ret', v)]


def fresh_ret(ex, st, args, ins):
    if ins.ty.kind == 'void':
        return [(st, 'ret', None)]
    return [(st, 'ret', ex.fresh_val(st, ins.ty, "r"))]


def arg0(ex, st, args, ins):
    return [(st, 'ret', args[0] if ins.ty.kind != 'void' else None)]


PAIR1, PAIR2 = ("F", "struct.std::pair", 0), ("F", "struct.std::pair", 8)
AII = z3.ArraySort(I, I)
AIB = z3.ArraySort(I, B)


def G(st, name, sort=None):
    """ghost variable, created on first use (same constant on all paths)"""
    if name not in st.g:
        st.g[name] = z3.Const("ghost_" + name + "0", sort if sort is not None else AII)
    return st.g[name]


# --------------------------------------------------------------- runtime / exceptions / formatting
def install_runtime(w):
    C = w.contracts

    def alloc_exc(ex, st, args, ins):
        ex.nalloca += 1
        return [(st, 'ret', P(obj=ex.nalloca, off=0))]

    def cxa_throw(ex, st, args, ins):
        ty = args[1].obj if isinstance(args[1], P) else None
        return [(st, 'exc', Exc(ty, args[0]))]

    def begin_catch(ex, st, args, ins):
        e = args[0] if isinstance(args[0], Exc) else Exc()
        st.caught.append(e)
        if e.tag is not None and isinstance(e.tag, P):
            return [(st, 'ret', e.tag)]
        ex.nalloca += 1
        return [(st, 'ret', P(obj=ex.nalloca, off=0))]

    def end_catch(ex, st, args, ins):
        if st.caught:
            st.caught.pop()
        return [(st, 'ret', None)]

    def rethrow(ex, st, args, ins):
        e = st.caught[-1] if st.caught else Exc()
        return [(st, 'exc', e)]

    def dead(ex, st, args, ins):
        return []

    C["__cxa_allocate_exception"] = alloc_exc
    C["__cxa_free_exception"] = fresh_ret
    C["__cxa_throw"] = cxa_throw
    C["__cxa_begin_catch"] = begin_catch
    C["__cxa_end_catch"] = end_catch
    C["__cxa_rethrow"] = rethrow
    C["__cxa_get_exception_ptr"] = lambda ex, st, args, ins: [(st, 'ret', UNDEF)]
    def ends(ex, st, args, ins):
        ex.oblige(st, "the process is not terminated", z3.BoolVal(False), "pre")
        return []
    for n in ("__clang_call_terminate", "std::terminate", "abort", "exit", "__assert_fail"):
        C[n] = ends
    for n in ("std::__throw_bad_function_call",
              "std::__glibcxx_assert_fail", "std::__throw_bad_alloc", "std::__throw_bad_array_new_length"):
        C[n] = dead
    C["std::__throw_length_error"] = dead
    C["std::__throw_out_of_range_fmt"] = lambda ex, st, args, ins: [(st, 'exc', Exc("_ZTISt12out_of_range"))]
    C["std::__throw_out_of_range"] = lambda ex, st, args, ins: [(st, 'exc', Exc("_ZTISt12out_of_range"))]
    trust("C++ runtime", "exception allocation/throw/catch per the Itanium ABI; std::terminate/abort end the process")

    def op_new(ex, st, args, ins):
        p = new_object(ex, st, "new")
        return [(st, 'ret', P(addr=p))]

    for n in ("operator new", "operator new[]"):
        C[n] = op_new
    for n in ("operator delete", "operator delete[]"):
        C[n] = fresh_ret
    trust("operator new", "returns a non-null address of an object distinct from every live object; bad_alloc not modelled")

    pure = re.compile(r"^(fmt::|std::basic_string|std::to_string|std::allocator|std::__new_allocator|std::basic_ostream"
                      r"|std::basic_stringstream|std::ostream|std::ios|std::operator_shl|std::operator\+|std::char_traits"
                      r"|std::exception|std::runtime_error|std::chrono|std::endl|umpire::util::flush_files"
                      r"|umpire::event::|umpire::runtime_error|umpire::out_of_memory_error|umpire::resource_error"
                      r"|umpire::unknown_pointer_error|umpire::util::Exception|umpire::util::backtrace|umpire::log"
                      r"|umpire::error|umpire::util::backtracer|umpire::\w*_error::|std::locale|umpire::out"
                      r"|std::__format|std::setw|std::hex|std::dec|std::left|umpire::util::Logger)")
    w.rx.append((pure, pure_call))
    trust("formatting/logging/events", "fmt::, std::string, std::ostream, umpire::event::record, Logger, exception objects: "
          "no effect on allocator state, do not throw (UMPIRE_LOG is compiled out in the verified configuration)")


def pure_call(ex, st, args, ins):
    if ins.ty.kind == 'void':
        return [(st, 'ret', None)]
    return [(st, 'ret', ex.fresh_val(st, ins.ty, "pure"))]


def new_object(ex, st, h="obj"):
    """address of a fresh object: not among the live ones (ghost set 'alive')"""
    alive = G(st, "alive", AIB)
    p = fint(h)
    st.assume(p > 0, p < MAX64, z3.Not(z3.Select(alive, p)))
    ex.gset(st, "alive", z3.Store(alive, p, z3.BoolVal(True)))
    return p


# --------------------------------------------------------------- node containers
def own(st):
    return G(st, "own", AII)


def csz(st):
    return G(st, "csz", AII)


endnode = ufun("endnode", I, I)


def In(st, A, n):
    return z3.Select(own(st), n) == A


class NodeMap:
    """std::map / multimap / unordered_map by the guarantees of [associative.reqmts]: nodes with stable identity."""

    def __init__(self, ex, ordered, multi):
        self.ex, self.ordered, self.multi = ex, ordered, multi

    def key(self, st):
        return self.ex.arr(st, PAIR1)

    def val(self, st):
        return self.ex.arr(st, PAIR2)


def rank(st):
    return G(st, "rank", AII)


def is_end(st, A, n):
    st.assume(z3.Select(own(st), endnode(A)) != A, endnode(A) > 0)
    return n == endnode(A)


def cont_wf(ex, st, A, unique, ordered=True):
    """type invariant of a container (assumed of the library): unique keys, unique ranks, size>=0, emptiness"""
    n, m = z3.Ints("cn cm")
    o, k, rk = own(st), ex.arr(st, PAIR1), rank(st)
    fs = [z3.Select(o, endnode(A)) != A, endnode(A) > 0, z3.Select(csz(st), A) >= 0,
          z3.ForAll([n], z3.Implies(o[n] == A, z3.And(n > 0, csz(st)[A] >= 1)), patterns=[o[n]])]
    pat = z3.MultiPattern(o[n], o[m])
    ns = ex.w.node_size
    if ns:
        fs.append(z3.ForAll([n, m], z3.Implies(z3.And(o[n] == A, o[m] == A, n != m), z3.Or(n + ns <= m, m + ns <= n)), patterns=[pat]))
    fs.append(z3.ForAll([n, m], z3.Implies(z3.And(o[n] == A, o[m] == A, rk[n] == rk[m]), n == m), patterns=[pat]))
    if unique:
        fs.append(z3.ForAll([n, m], z3.Implies(z3.And(o[n] == A, o[m] == A, k[n] == k[m]), n == m), patterns=[pat]))
    if ordered:
        fs.append(z3.ForAll([n, m], z3.Implies(z3.And(o[n] == A, o[m] == A, k[n] < k[m]), rk[n] < rk[m]), patterns=[pat]))
    return fs


def kkind(ex):
    """key kind of the container whose method is being called: 'str', 'i32', 'i32pair' or 'word'"""
    f = ex.cur_call[1]
    d = (f.dem or "") if f is not None else ""
    k = None
    for m in re.finditer(r"std::(?:unordered_)?(?:multi)?map<\s*", d):
        # the class itself, not a template argument of the return type
        if d.count("<", 0, m.start()) == d.count(">", 0, m.start()):
            k = d[m.end():]
            break
    if k is None:
        return 'word'
    if k.startswith("std::__cxx11::basic_string"):
        return 'str'
    if re.match(r"(int|unsigned int|umpire::resource::MemoryResourceType)\b", k):
        return 'i32'
    if re.match(r"std::pair<camp::resources::Platform", k):
        return 'i32pair'
    return 'word'


def voff(ex):
    """offset of the mapped value in a node's pair"""
    return 32 if kkind(ex) == 'str' else 8


class _I32:
    kind, w, size, name, elts = 'int', 32, 4, None, None


def keyarg(ex, st, p, ins, ty=None):
    """value of a key passed by reference"""
    kk = kkind(ex)
    if kk == 'str':
        return G(st, "sval", AII)[ex.pterm(p)]
    if kk == 'i32':
        return ex.pterm(ex.load(st, p, _I32, None, ins.mod))
    if kk == 'i32pair':
        a = ex.load(st, p, _I32, None, ins.mod)
        b = ex.load(st, ex.padd(p, None, 4) if isinstance(p.obj, int) else P(addr=simp(p.addr + 4)), _I32, None, ins.mod)
        return a + 2 ** 32 * b
    class _T:
        kind, w, size, name = 'int', 64, 8, None
    v = ex.load(st, p, _T, None, ins.mod)
    return ex.pterm(v)


class _I64:
    kind, w, size, name, elts = 'int', 64, 8, None, None


class _PTR:
    kind, w, size, name, elts = 'ptr', 64, 8, None, None


def pairarg(ex, st, p, ins):
    """(first, second) of a pair passed by reference (local temporary or heap)"""
    if kkind(ex) != 'word':
        o = voff(ex)
        return keyarg(ex, st, p, ins), ex.pterm(ex.load(st, ex.padd(p, None, o) if isinstance(p.obj, int) else P(addr=simp(p.addr + o)), _PTR))
    if isinstance(p.obj, int):
        a = ex.load(st, P(obj=p.obj, off=p.off), _I64)
        b = ex.load(st, P(obj=p.obj, off=p.off + 8), _I64)
        return ex.pterm(a), ex.pterm(b)
    t = ex.pterm(p)
    return ex.fld(st, PAIR1, t), ex.fld(st, PAIR2, t)


def iter_ret(ex, ins, n):
    """an iterator returned by value: {ptr} coerced to ptr"""
    return P(addr=n)


def iter_of(ex, st, p, ins):
    """iterator passed by reference -> node term"""
    return ex.pterm(ex.load(st, P(obj=p.obj, off=p.off, addr=p.addr, s=p.s, so=p.so, sb=p.sb, leaf=p.leaf), _PTR, None, ins.mod)) \
        if isinstance(p.obj, int) or p.s is not None else ex.fld(st, ("F", "struct.std::_Rb_tree_iterator", 0), p.addr)


def m_insert_node(ex, st, A, k, v, ordered):
    n = fint("node")
    o = own(st)
    st.assume(n > 0, n < MAX64, z3.Select(o, n) == 0, n != endnode(A))
    x = z3.Int("ie")
    # a new node is no container's past-the-end position
    st.assume(z3.ForAll([x], endnode(x) != n, patterns=[endnode(x)]))
    r = fint("rk")
    m = z3.Int("m")
    o0, key0, rk0 = o, ex.arr(st, PAIR1), rank(st)
    if ex.w.node_size:
        ns = ex.w.node_size
        st.assume(z3.ForAll([m], z3.Implies(o0[m] == A, z3.Or(n + ns <= m, m + ns <= n)), patterns=[o0[m]]))
    st.assume(z3.ForAll([m], z3.Implies(o0[m] == A, rk0[m] != r), patterns=[o0[m]]))
    if ordered:
        st.assume(z3.ForAll([m], z3.Implies(o0[m] == A, z3.And(z3.Implies(key0[m] < k, rk0[m] < r),
                                                               z3.Implies(key0[m] > k, rk0[m] > r))), patterns=[o0[m]]))
    ex.gset(st, "own", z3.Store(o, n, A))
    ex.gset(st, "rank", z3.Store(rk0, n, r))
    ex.gset(st, "csz", z3.Store(csz(st), A, z3.Select(csz(st), A) + 1))
    ex.setfld(st, PAIR1, n, k)
    if v is not None:
        ex.setfld(st, ("F", "struct.std::pair", voff(ex)), n, v)
    if kkind(ex) == 'str':
        ex.gset(st, "sval", z3.Store(G(st, "sval", AII), n, k))
    return n


def m_erase_node(ex, st, A, n):
    ex.gset(st, "own", z3.Store(own(st), n, z3.IntVal(0)))
    ex.gset(st, "csz", z3.Store(csz(st), A, z3.Select(csz(st), A) - 1))
    m = z3.Int("m")
    # cardinality lemma: a non-empty container has size at least one
    st.assume(z3.Select(csz(st), A) >= 0, z3.ForAll([m], z3.Implies(own(st)[m] == A, csz(st)[A] >= 1), patterns=[own(st)[m]]))


def m_next(ex, st, A, n):
    """node after n in iteration order (n member or just erased member with rank)"""
    r = fint("nxt")
    o, rk = own(st), rank(st)
    m = z3.Int("m")
    st.assume(z3.Select(o, endnode(A)) != A, endnode(A) > 0)
    st.assume(z3.Or(z3.And(r == endnode(A), z3.ForAll([m], z3.Implies(o[m] == A, rk[m] <= rk[n]), patterns=[o[m]])),
                    z3.And(o[r] == A, r > 0, rk[r] > rk[n],
                           z3.ForAll([m], z3.Implies(z3.And(o[m] == A, rk[m] > rk[n]), rk[m] >= rk[r]), patterns=[o[m]]))))
    return r


def m_begin(ex, st, A):
    r = fint("beg")
    o, rk = own(st), rank(st)
    m = z3.Int("m")
    st.assume(z3.Select(o, endnode(A)) != A, endnode(A) > 0)
    st.assume(z3.Or(z3.And(r == endnode(A), csz(st)[A] == 0, z3.ForAll([m], o[m] != A, patterns=[o[m]])),
                    z3.And(o[r] == A, r > 0, csz(st)[A] >= 1, z3.ForAll([m], z3.Implies(o[m] == A, rk[m] >= rk[r]), patterns=[o[m]]))))
    return r


def m_last(ex, st, A):
    r = fint("last")
    o, rk = own(st), rank(st)
    m = z3.Int("m")
    st.assume(z3.Implies(csz(st)[A] >= 1, z3.And(o[r] == A, r > 0, z3.ForAll([m], z3.Implies(o[m] == A, rk[m] <= rk[r]), patterns=[o[m]]))))
    return r


def m_find(ex, st, A, k):
    r = fint("fnd")
    o, key = own(st), ex.arr(st, PAIR1)
    m = z3.Int("m")
    st.assume(z3.Select(o, endnode(A)) != A, endnode(A) > 0)
    st.assume(z3.Or(z3.And(r == endnode(A), z3.ForAll([m], z3.Implies(o[m] == A, key[m] != k), patterns=[o[m]])),
                    z3.And(o[r] == A, r > 0, key[r] == k)))
    return r


def m_lower_bound(ex, st, A, k, strict=False):
    r = fint("lb")
    o, key, rk = own(st), ex.arr(st, PAIR1), rank(st)
    m = z3.Int("m")
    ok = (lambda x: x > k) if strict else (lambda x: x >= k)
    st.assume(z3.Select(o, endnode(A)) != A, endnode(A) > 0)
    st.assume(z3.Or(z3.And(r == endnode(A), z3.ForAll([m], z3.Implies(o[m] == A, z3.Not(ok(key[m]))), patterns=[o[m]])),
                    z3.And(o[r] == A, r > 0, ok(key[r]),
                           z3.ForAll([m], z3.Implies(z3.And(o[m] == A, ok(key[m])), z3.And(key[m] >= key[r], rk[m] >= rk[r])), patterns=[o[m]]))))
    return r


CONT = {"std::map": (True, False), "std::multimap": (True, True), "std::unordered_map": (False, False)}


def _name_of(ins, ex):
    return ex.cur_call[0]


def install_maps(w):
    C = w.contracts

    def kd(ex):
        c = ex.cur_call[0].rsplit("::", 1)[0]
        return CONT[c]

    def cbegin(ex, st, args, ins):
        return [(st, 'ret', P(addr=m_begin(ex, st, T(ex, args[0]))))]

    def cend(ex, st, args, ins):
        A = T(ex, args[0])
        st.assume(z3.Select(own(st), endnode(A)) != A, endnode(A) > 0)
        return [(st, 'ret', P(addr=endnode(A)))]

    def csize(ex, st, args, ins):
        v = z3.Select(csz(st), T(ex, args[0]))
        st.assume(v >= 0, v < MAX64)
        return [(st, 'ret', v)]

    def cempty(ex, st, args, ins):
        return [(st, 'ret', z3.Select(csz(st), T(ex, args[0])) == 0)]

    def cfind(ex, st, args, ins):
        return [(st, 'ret', P(addr=m_find(ex, st, T(ex, args[0]), keyarg(ex, st, args[1], ins))))]

    def ccount(ex, st, args, ins):
        A = T(ex, args[0])
        r = m_find(ex, st, A, keyarg(ex, st, args[1], ins))
        if kd(ex)[1]:
            return fresh_ret(ex, st, args, ins)
        return [(st, 'ret', z3.If(r == endnode(A), z3.IntVal(0), z3.IntVal(1)))]

    def clb(ex, st, args, ins):
        return [(st, 'ret', P(addr=m_lower_bound(ex, st, T(ex, args[0]), keyarg(ex, st, args[1], ins))))]

    def cub(ex, st, args, ins):
        return [(st, 'ret', P(addr=m_lower_bound(ex, st, T(ex, args[0]), keyarg(ex, st, args[1], ins), True)))]

    def do_insert(ex, st, A, k, v, ordered, multi, ins):
        if multi:
            n = m_insert_node(ex, st, A, k, v, ordered)
            return [(st, 'ret', P(addr=n) if ins.ty.kind == 'ptr' else (P(addr=n), z3.IntVal(1)))]
        outs = []
        r = m_find(ex, st, A, k)
        s2 = st.copy()
        st.assume(r != endnode(A))
        s2.assume(r == endnode(A))
        mk = lambda n, b: (P(addr=n) if ins.ty.kind == 'ptr' else (P(addr=n), z3.IntVal(b)))
        if ex.feasible_q(st):
            outs.append((st, 'ret', mk(r, 0)))
        if ex.feasible_q(s2):
            n = m_insert_node(ex, s2, A, k, v, ordered)
            outs.append((s2, 'ret', mk(n, 1)))
        return outs

    def cinsert(ex, st, args, ins):
        ordered, multi = kd(ex)
        if len(args) != 2:
            raise Unsupported("container insert overload")
        k, v = pairarg(ex, st, args[1], ins)
        return do_insert(ex, st, T(ex, args[0]), k, v, ordered, multi, ins)

    def cemplace(ex, st, args, ins):
        ordered, multi = kd(ex)
        if len(args) == 3:
            k = keyarg(ex, st, args[1], ins)
            v = keyarg(ex, st, args[2], ins)
        elif len(args) == 2:
            k, v = pairarg(ex, st, args[1], ins)
        else:
            raise Unsupported("container emplace overload")
        return do_insert(ex, st, T(ex, args[0]), k, v, ordered, multi, ins)

    def cindex(ex, st, args, ins):
        ordered, multi = kd(ex)
        A, k = T(ex, args[0]), keyarg(ex, st, args[1], ins)
        r = m_find(ex, st, A, k)
        s2 = st.copy()
        st.assume(r != endnode(A))
        s2.assume(r == endnode(A))
        outs = []
        vo = voff(ex)
        sp = lambda n: P(addr=simp(n + vo), s=pair_ty(ex), so=vo, sb=n)
        if ex.feasible_q(st):
            outs.append((st, 'ret', sp(r)))
        if ex.feasible_q(s2):
            n = m_insert_node(ex, s2, A, k, z3.IntVal(0), ordered)
            outs.append((s2, 'ret', sp(n)))
        return outs

    def cat(ex, st, args, ins):
        A, k = T(ex, args[0]), keyarg(ex, st, args[1], ins)
        r = m_find(ex, st, A, k)
        s2 = st.copy()
        st.assume(r != endnode(A))
        s2.assume(r == endnode(A))
        return [(st, 'ret', P(addr=simp(r + voff(ex)), s=pair_ty(ex), so=voff(ex), sb=r)), (s2, 'exc', Exc("_ZTISt12out_of_range"))]

    def cerase(ex, st, args, ins):
        ordered, multi = kd(ex)
        A = T(ex, args[0])
        dem = ex.cur_call[1].dem if ex.cur_call[1] is not None else ""
        tail = dem[dem.rfind("::erase"):]
        if "iterator" in tail:
            n = T(ex, args[1])
            ex.oblige(st, "container erase: iterator is a valid element", In(st, A, n), "pre")
            st.assume(In(st, A, n))
            m_erase_node(ex, st, A, n)
            if ins.ty.kind == 'ptr':
                return [(st, 'ret', P(addr=m_next(ex, st, A, n)))]
            return [(st, 'ret', None)]
        if multi:
            raise Unsupported("multimap erase by key")
        k = keyarg(ex, st, args[1], ins)
        r = m_find(ex, st, A, k)
        s2 = st.copy()
        st.assume(r != endnode(A))
        s2.assume(r == endnode(A))
        outs = []
        if ex.feasible_q(st):
            m_erase_node(ex, st, A, r)
            outs.append((st, 'ret', z3.IntVal(1)))
        if ex.feasible_q(s2):
            outs.append((s2, 'ret', z3.IntVal(0)))
        return outs

    def cclear(ex, st, args, ins):
        A = T(ex, args[0])
        o = own(st)
        n = z3.Int("n")
        o2 = z3.Const(fresh_name("own"), AII)
        st.assume(z3.ForAll([n], o2[n] == z3.If(o[n] == A, 0, o[n]), patterns=[o2[n]]))
        ex.gset(st, "own", o2)
        ex.gset(st, "csz", z3.Store(csz(st), A, z3.IntVal(0)))
        return [(st, 'ret', None)]

    def cctor(ex, st, args, ins):
        """default construction: an empty container"""
        A = T(ex, args[0])
        n = z3.Int("n")
        st.assume(z3.ForAll([n], own(st)[n] != A, patterns=[own(st)[n]]))
        ex.gset(st, "csz", z3.Store(csz(st), A, z3.IntVal(0)))
        return [(st, 'ret', None)]

    def crbegin(ex, st, args, ins):
        # reverse_iterator (sret): base() node kept as a one-past marker: store the last node itself, deref gives it
        n = m_last(ex, st, T(ex, args[-1]))
        if len(args) == 2:
            ex.store(st, args[0], P(addr=n), _PTR)
            return [(st, 'ret', None)]
        return [(st, 'ret', P(addr=n))]

    for c in CONT:
        short = c.split("::")[-1]
        C[c + "::begin"] = C[c + "::cbegin"] = cbegin
        C[c + "::end"] = C[c + "::cend"] = cend
        C[c + "::size"] = csize
        C[c + "::empty"] = cempty
        C[c + "::find"] = cfind
        C[c + "::count"] = ccount
        C[c + "::lower_bound"] = clb
        C[c + "::upper_bound"] = cub
        C[c + "::insert"] = cinsert
        C[c + "::emplace"] = cemplace
        C[c + "::operator[]"] = cindex
        C[c + "::at"] = cat
        C[c + "::erase"] = cerase
        C[c + "::clear"] = cclear
        C[c + "::" + short] = cctor
        C[c + "::rbegin"] = C[c + "::crbegin"] = crbegin
        C[c + "::~" + short] = fresh_ret
    C["std::multimap::begin"] = cbegin

    def it_deref(ex, st, args, ins):
        n = iter_of(ex, st, args[0], ins)
        ex.oblige(st, "container iterator dereferenced only at an element", z3.And(z3.Select(own(st), n) != 0, n > 0), "pre")
        return [(st, 'ret', P(addr=n))]

    def it_inc(ex, st, args, ins):
        n = iter_of(ex, st, args[0], ins)
        A = z3.Select(own(st), n)
        r = m_next(ex, st, A, n)
        st.assume(r > 0)
        ex.store(st, args[0], P(addr=r), _PTR)
        if len(args) == 2:  # postfix: returns old
            return [(st, 'ret', P(addr=n))]
        return [(st, 'ret', args[0])]

    def it_eq(neg):
        def h(ex, st, args, ins):
            a, b = iter_of(ex, st, args[0], ins), iter_of(ex, st, args[1], ins)
            r = a == b
            return [(st, 'ret', z3.Not(r) if neg else r)]
        return h

    for c in ("std::_Rb_tree_iterator", "std::_Rb_tree_const_iterator", "std::__detail::_Node_iterator",
              "std::__detail::_Node_const_iterator"):
        C[c + "::operator*"] = it_deref
        C[c + "::operator_arrow"] = it_deref
        C[c + "::operator++"] = it_inc
        short = c.split("::")[-1]

    def rev_deref(ex, st, args, ins):
        f = ex.cur_call[1]
        if f is not None and "_Rb_tree" not in (f.dem or ""):
            return NotImplemented  # an iterator over contiguous storage: inlined from the library's headers
        n = iter_of(ex, st, args[0], ins)
        return [(st, 'ret', P(addr=n))]

    C["std::reverse_iterator::operator*"] = rev_deref
    C["std::reverse_iterator::operator_arrow"] = rev_deref

    def opeq(neg):
        h = it_eq(neg)

        def g(ex, st, args, ins):
            d = ex.cur_call[1].dem if ex.cur_call[1] is not None else ""
            if "_Rb_tree_" in d or "_Node_iterator_base" in d or "_Node_" in d:
                return h(ex, st, args, ins)
            return NotImplemented
        return g

    C["std::operator=="] = opeq(False)
    C["std::operator!="] = opeq(True)
    C["std::__detail::operator=="] = opeq(False)
    C["std::__detail::operator!="] = opeq(True)
    trust("libstdc++ map/multimap/unordered_map", "C++ standard container semantics over node identities: insert adds one "
          "node, erase removes exactly it, find/lower_bound per key, iteration visits each element once in order, "
          "iterators to other elements stay valid; node allocation does not fail")


_pt = {}


def pair_ty(ex):
    class _P:
        kind, name = 'struct', "struct.std::pair"
        elts = [_I64, _I64]
        offs = [0, 8]
        size = 16
    if kkind(ex) == 'str':
        class _S:
            kind, w, size, name, elts, offs = 'struct', 64, 32, "class.std::basic_string", [_I64] * 4, [0, 8, 16, 24]

        class _Q:
            kind, name = 'struct', "struct.std::pair"
            elts = [_S, _I64]
            offs = [0, 32]
            size = 40
        return _Q
    return _P


def install_mutex(w):
    C = w.contracts

    def lock(ex, st, A):
        h = G(st, "held", AII)
        ex.oblige(st, "mutex not already held by this thread when locked", z3.Select(h, A) == 0, "pre")
        ex.gset(st, "held", z3.Store(h, A, z3.Select(h, A) + 1))

    def unlock(ex, st, A):
        h = G(st, "held", AII)
        ex.oblige(st, "mutex held when unlocked", z3.Select(h, A) == 1, "pre")
        ex.gset(st, "held", z3.Store(h, A, z3.IntVal(0)))

    def lg_ctor(ex, st, args, ins):
        A = T(ex, args[1])
        lock(ex, st, A)
        ex.store(st, args[0], args[1], _PTR)
        return [(st, 'ret', None)]

    def lg_dtor(ex, st, args, ins):
        A = T(ex, ex.load(st, args[0], _PTR))
        unlock(ex, st, A)
        return [(st, 'ret', None)]

    C["std::lock_guard::lock_guard"] = lg_ctor
    C["std::lock_guard::~lock_guard"] = lg_dtor
    C["std::unique_lock::unique_lock"] = lg_ctor
    C["std::unique_lock::~unique_lock"] = lg_dtor
    C["std::mutex::lock"] = lambda ex, st, args, ins: (lock(ex, st, T(ex, args[0])), [(st, 'ret', None)])[1]
    C["std::mutex::unlock"] = lambda ex, st, args, ins: (unlock(ex, st, T(ex, args[0])), [(st, 'ret', None)])[1]
    trust("std::mutex/lock_guard/unique_lock", "lock blocks until exclusive, unlock releases; modelled by a per-mutex held count")


def install_function(w):
    C = w.contracts
    C["std::function::operator_call"] = fresh_ret
    C["std::function::function"] = fresh_ret
    C["std::function::~function"] = fresh_ret
    C["std::function::operator="] = arg0
    trust("std::function heuristics", "a pool heuristic is an arbitrary function of the pool: any result, no side effect, no exception")


# --------------------------------------------------------------- the upstream allocation strategy (interface contract)
def upb(st):
    return G(st, "up", AIB)


def ups(st):
    return G(st, "upsz", AII)


def up_wf(st):
    """blocks held from the upstream strategy are pairwise disjoint, non-wrapping"""
    a, b = z3.Ints("ua ub")
    u, s = upb(st), ups(st)
    return [z3.ForAll([a], z3.Implies(u[a], z3.And(a > 0, s[a] >= 0, s[a] < MAX63, a + s[a] < MAX64)), patterns=[u[a]]),
            z3.ForAll([a, b], z3.Implies(z3.And(u[a], u[b], a != b), z3.Or(a + s[a] <= b, b + s[b] <= a)),
                      patterns=[z3.MultiPattern(u[a], u[b])])]


def install_upstream(w, may_throw=True, zero_ok=True, check_size=True):
    """AllocationStrategy::allocate_internal / deallocate_internal as seen by a client strategy"""
    S = "umpire::strategy::AllocationStrategy::"

    def alloc(ex, st, args, ins):
        ex.used_contracts.add(S + "allocate_internal (interface)")
        b = args[-1]
        outs = []
        if may_throw:
            s2 = st.copy()
            s2.trace.append(("upstream throws",))
            G(s2, "nthrow", I)
            ex.gset(s2, "nthrow", s2.g["nthrow"] + 1)
            outs.append((s2, 'exc', Exc()))
        p = fint("upblk")
        u, s = upb(st), ups(st)
        x = z3.Int("x")
        st.assume(p > 0, b < MAX63, p + b < MAX64, z3.Not(u[p]))
        st.assume(z3.ForAll([x], z3.Implies(u[x], z3.Or(p + b <= x, x + s[x] <= p)), patterns=[u[x]]))
        ex.gset(st, "up", z3.Store(u, p, z3.BoolVal(True)))
        ex.gset(st, "upsz", z3.Store(s, p, b))
        G(st, "nup", I)
        ex.gset(st, "nup", st.g["nup"] + 1)
        outs.append((st, 'ret', P(addr=p)))
        return outs

    def dealloc(ex, st, args, ins):
        ex.used_contracts.add(S + "deallocate_internal (interface)")
        p, n = T(ex, args[1]), args[2]
        u, s = upb(st), ups(st)
        ex.oblige(st, "block returned upstream was obtained from upstream and is returned once", u[p], "pre")
        if check_size:
            ex.oblige(st, "block returned upstream with the size it was obtained with", s[p] == n, "pre")
        if w.on_up_release:
            for lab, g in w.on_up_release(ex, st, p):
                ex.oblige(st, lab, g, "pre")
        st.assume(u[p])
        ex.gset(st, "up", z3.Store(u, p, z3.BoolVal(False)))
        G(st, "nup", I)
        ex.gset(st, "nup", st.g["nup"] - 1)
        return [(st, 'ret', None)]

    w.on_up_release = None
    w.contracts[S + "allocate_internal"] = alloc
    w.contracts[S + "allocate_named_internal"] = alloc
    w.contracts[S + "deallocate_internal"] = dealloc
    w.virt[S + "allocate"] = alloc
    w.virt[S + "allocate_named"] = alloc
    w.virt[S + "deallocate"] = dealloc
    w.virt[S + "getPlatform"] = fresh_ret
    w.virt[S + "getTraits"] = fresh_ret
    w.virt[S + "getName"] = fresh_ret
    w.contracts[S + "getName"] = fresh_ret
    w.contracts[S + "getId"] = fresh_ret
    trust("upstream strategy (interface contract)", "allocate_internal(b) throws without effect or returns a block of b bytes "
          "disjoint from every block this strategy still holds; verified for each strategy that provides it, assumed of "
          "the C library and user-written strategies; the upstream object is not this object; blocks do not wrap the address space and no block exceeds PTRDIFF_MAX")


def install_all(w):
    install_runtime(w)
    install_maps(w)
    install_mutex(w)
    install_function(w)
    install_upstream(w)
    C = w.contracts
    C["umpire::strategy::AllocationStrategy::AllocationStrategy"] = fresh_ret
    C["umpire::strategy::AllocationStrategy::~AllocationStrategy"] = fresh_ret
    return w
