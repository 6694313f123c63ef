"""std::vector of a struct: storage between _M_start and _M_finish with elements of a fixed size (inlined from the
library's headers); only growth and shrinkage are by contract, since they move the elements."""
from .lib import *


elem = ufun("vector_element", I, I, I, z3.BoolSort())


class Vec:
    def __init__(self, w, owner, member, elem, fields):
        """elem: class of the elements; fields: (name, width) of its members"""
        self.w, self.elem = w, elem
        k, self.adj = w.field(owner, member)
        self.KB, self.KE, self.KC = k, (k[0], k[1], k[2] + 8), (k[0], k[1], k[2] + 16)
        self.size = w.sizeof(elem)
        self.f = Flds(w, elem, fields)
        self.names = fields

    def begin(self, ex, st, this):
        return ex.arr(st, self.KB)[this + self.adj]

    def end(self, ex, st, this):
        return ex.arr(st, self.KE)[this + self.adj]

    def count(self, ex, st, this):
        return (self.end(ex, st, this) - self.begin(ex, st, this)) / self.size

    def inv(self, ex, st, this, p):
        """p is the address of an element"""
        b, e = self.begin(ex, st, this), self.end(ex, st, this)
        return elem(b, e, p)

    def axioms(self, st):
        """elements lie in the storage (the rest of the definition is unfolded at the addresses the code uses)"""
        b, e, p, q = z3.Ints("vb ve vp vq")
        st.assume(z3.ForAll([b, e, p, q], z3.Implies(z3.And(elem(b, e, p), elem(b, e, q), p < q), p + self.size <= q), patterns=[z3.MultiPattern(elem(b, e, p), elem(b, e, q))]),
                  z3.ForAll([b, e, p], z3.Implies(elem(b, e, p), z3.And(p >= b, p < e)), patterns=[elem(b, e, p)]))

    def unfold(self, ex, st, this, p):
        b, e = self.begin(ex, st, this), self.end(ex, st, this)
        st.assume(elem(b, e, p) == z3.And(p >= b, p < e, (p - b) % self.size == 0))

    def watch(self, this):
        """unfold the definition of an element at every address accessed"""
        for n in self.names:
            k, adj = self.key(n), getattr(self.f, "A_" + n)
            old = self.w.guarded.get(k)

            def g(ex, st, p, write, old=old, adj=adj):
                self.unfold(ex, st, this, simp(p - adj))
                if old is not None:
                    old(ex, st, p, write)
            self.w.guarded[k] = g

    def wf(self, ex, st, this):
        b, e = self.begin(ex, st, this), self.end(ex, st, this)
        return [b >= 0, e >= b, e < MAX63, (e - b) % self.size == 0, z3.Implies(e > b, b > 0)]

    def fld(self, ex, st, name, p):
        return getattr(self.f, name)(ex, st, p)

    def key(self, name):
        return getattr(self.f, "K_" + name)

    def grow(self, ex, st, this):
        """room for one more element at the end: elements keep their contents, their addresses may all change; -> address of the new one"""
        b0, e0 = self.begin(ex, st, this), self.end(ex, st, this)
        b, q = fint("vec"), z3.Int("vq")
        ex.setfld(st, self.KB, this + self.adj, b)
        e = simp(b + (e0 - b0))
        ex.setfld(st, self.KE, this + self.adj, simp(e + self.size))
        ex.setfld(st, self.KC, this + self.adj, fint("cap"))
        b1, e1 = simp(b), simp(e + self.size)
        st.assume(b > 0, e + self.size < MAX63, elem(b1, e1, e), z3.ForAll([q], elem(b1, e1, q) == z3.Or(q == e, elem(b0, e0, q - b + b0)), patterns=[elem(b1, e1, q)]))
        for n in self.names:
            k, adj = self.key(n), getattr(self.f, "A_" + n)
            old = ex.arr(st, k, ex.keyw.get(k, 64))
            new = ex.havoc_key(st, k)
            st.assume(z3.ForAll([q], z3.Implies(z3.And(q >= b + adj, q < e + adj), new[q] == old[q - b + b0]), patterns=[new[q]]))
        return e

    def loop_facts(self, ex, this, ptrs):
        """candidates: pointer variables inside the storage"""
        out = []
        for lab, v in ptrs:
            out.append(("%s inside the vector" % lab, lambda st, vals, v=v: z3.And(v(vals) >= self.begin(ex, st, this), v(vals) <= self.end(ex, st, this), (v(vals) - self.begin(ex, st, this)) % self.size == 0)))
            out.append(("%s not the first" % lab, lambda st, vals, v=v: v(vals) > self.begin(ex, st, this), "weak"))
        return out
