"""Objects of the symbolic heap.

A family is a set of objects base(i) .. base(i)+size(i), i any index with guard(i); a single object is a family without
index.  All objects (of all families) are pairwise disjoint, outside the stack and below 2^47: that is the meaning of a
family, assumed of the initial state by a precondition (or granted by the contract that hands the object out).
Addresses base(i) + offset that are shown to lie inside the object are compared as (family, index, offset), so that the
disjointness of objects is used without the solver having to reason about sums of 64-bit addresses.
cell(st, i, off, n), if given, defines the initial content of the objects: the heap predicate of the family."""
import z3

B = z3.BitVecSort(64)
LIM = 1 << 46
STACK_LO = 0x7ffe00000000


def bv(v, n=64):
    return z3.BitVecVal(v, n)


class Fam:
    def __init__(self, name, size, base=None, fn=None, guard=None, facts=None, cell=None, minsize=0, align=8):
        self.name, self._size, self.base, self.fn = name, size, base, fn
        self.guard = guard
        self.facts, self.cell, self.minsize, self.align = facts, cell, minsize, align
        if isinstance(size, int):
            self.minsize = size
        self.key = base.decl().name() if fn is None else fn.name()

    def size(self, i):
        s = self._size
        if callable(s):
            s = s(i)
        return bv(s) if isinstance(s, int) else s

    def addr(self, i=None):
        return self.base if self.fn is None else self.fn(i)

    def shape(self, i):
        a, s = self.addr(i), self.size(i)
        out = [z3.UGE(a, bv(4096)), z3.ULE(a, bv(STACK_LO)), z3.ULE(s, bv(LIM)), z3.ULE(a + s, bv(STACK_LO))]
        if self.align > 1:
            out.append(a & (self.align - 1) == 0)
        if not z3.is_bv_value(s):
            out.append(z3.UGE(s, bv(self.minsize)))
        return out


class Havoc:
    """A heap update by a callee, the environment or earlier iterations of a loop: cells of which keep(st, fam, i, off, n)
    holds are unchanged; the others have the content cell(st, fam, i, off, n) or, where that is None, any."""

    def __init__(self, keep=None, cell=None):
        self.keep, self.cell = keep, cell


def addends(e):
    if z3.is_app_of(e, z3.Z3_OP_BADD):
        out = []
        for c in e.children():
            out += addends(c)
        return out
    return [e]


def total(xs):
    if not xs:
        return bv(0)
    r = xs[0]
    for x in xs[1:]:
        r = r + x
    return z3.simplify(r)
