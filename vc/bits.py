"""Single bits of 32-bit words: `1 << b`, and/or/xor with it, ffs. The facts about words used here are checked as
bit-vector obligations once per run (lemma_obligations)."""
from .lib import *

bit = ufun("bit", I, I, z3.BoolSort())
onebit = ufun("one_shifted", I, I)
FULL = 2 ** 32 - 1


def rng(b):
    return z3.And(b >= 0, b < 32)


def with_bit(ex, st, w, b, v):
    """word w with bit b replaced"""
    r, j = fint("word"), z3.Int("bj")
    st.assume(r >= 0, r <= FULL, z3.ForAll([j], z3.Implies(rng(j), bit(r, j) == z3.If(j == b, v, bit(w, j))), patterns=[bit(r, j), bit(w, j)]), bit(r, b) == v)
    return r


def install_bits(w):
    def h(ex, st, op, a, b):
        if op == 'shl':
            if not (isnum(a) and a.as_long() == 1):
                return None
            ex.oblige(st, "a word is shifted by less than its width", rng(b), "pre")
            n = fint("bitno")
            st.assume(n == b, onebit(n) > 0, onebit(n) <= 2 ** 31)
            return onebit(n)
        for x, y in ((a, b), (b, a)):
            if z3.is_app(y) and y.decl().eq(onebit):
                n = y.arg(0)
                if op == 'xor':
                    return with_bit(ex, st, x, n, z3.Not(bit(x, n)))
                if op == 'or':
                    return with_bit(ex, st, x, n, z3.BoolVal(True))
                if op == 'and':
                    return z3.If(bit(x, n), y, z3.IntVal(0))
            c = simp(FULL - y)
            if op == 'and' and z3.is_app(c) and c.decl().eq(onebit):
                return with_bit(ex, st, x, c.arg(0), z3.BoolVal(False))
        return None
    w.bits = h

    def ffs(ex, st, args, ins):
        r, j = fint("ffs"), z3.Int("fj")
        x = fint("word")
        st.assume(x == args[0])
        st.assume(r >= 0, r <= 32, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < z3.If(r == 0, 32, r - 1)), z3.Not(bit(x, j))), patterns=[bit(x, j)]), z3.Implies(r > 0, bit(x, r - 1)))
        return [(st, 'ret', r)]
    w.contracts["ffs"] = ffs
    trust("ffs", "the number of the least significant bit set, counted from one, zero for zero (C library)")


def axioms(st):
    j = z3.Int("aj")
    st.assume(z3.ForAll([j], z3.Implies(rng(j), bit(FULL, j)), patterns=[bit(FULL, j)]))


def lemma_obligations(ex, st):
    """the facts above hold of machine words"""
    w, b, j = z3.BitVecs("bvw bvb bvj", 32)
    one = z3.BitVecVal(1, 32)
    t = lambda x, k: z3.LShR(x, k) & one == one
    r = z3.And(z3.ULT(b, 32), z3.ULT(j, 32))
    for lab, x, v in (("xor", w ^ (one << b), z3.Not(t(w, b))), ("or", w | (one << b), z3.BoolVal(True)), ("and not", w & ~(one << b), z3.BoolVal(False))):
        ex.oblige(st, "machine words: %s with one bit" % lab, z3.Implies(r, t(x, j) == z3.If(j == b, v, t(w, j))), "lemma")
    ex.oblige(st, "machine words: and with one bit", z3.Implies(r, (w & (one << b)) == z3.If(t(w, b), one << b, z3.BitVecVal(0, 32))), "lemma")
    ex.oblige(st, "machine words: all bits set", z3.Implies(r, t(z3.BitVecVal(FULL, 32), j)), "lemma")
