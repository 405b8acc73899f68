"""Ghost sequences: an intrusive doubly linked list of any length as functions of an index.

Node i (0 = first) is the object A(i) of a family, N the length.  The links are part of the initial content of the nodes
and of the list head (cells), so that the whole list is in the precondition; invariants and postconditions about all
nodes are proved at arbitrary (Skolem) indices."""
import z3
from .engine import bv, STACK_LO
from .heap import Fam, B, LIM


def ite(c, a, b):
    return z3.simplify(z3.If(c, a, b))


class Seq:
    def __init__(self, name, N, head, off, prev_off=0, next_off=8):
        self.name, self.N, self.H, self.off = name, N, head, off
        self.A = z3.Function(name + '_A', B, B)
        self.po, self.no = prev_off, next_off

    def next(self, i):
        """link that follows node i"""
        return ite(i + 1 == self.N, self.H, self.A(z3.simplify(i + 1)) + self.off)

    def prev(self, i, first=None):
        """link before node i (of a list that starts at node `first')"""
        return ite(i == (bv(0) if first is None else first), self.H, self.A(z3.simplify(i - 1)) + self.off)

    def first(self, c=None):
        c = bv(0) if c is None else c
        return ite(self.N == c, self.H, self.A(c) + self.off)

    def last(self, c=None):
        c = bv(0) if c is None else c
        return ite(self.N == c, self.H, self.A(z3.simplify(self.N - 1)) + self.off)

    def at(self, i):
        """link of node i, or the head after the last one"""
        return ite(i == self.N, self.H, self.A(i) + self.off)


class Sum:
    """Prefix sums F of elem over a sequence of length N: F(0) = 0, F(i+1) = F(i) + elem(i), monotone, no wrap."""

    def __init__(self, name, elem, N):
        self.F, self.elem, self.N = z3.Function(name, B, B), elem, N

    def __call__(self, i):
        return self.F(z3.simplify(bv(i) if isinstance(i, int) else i))

    def facts(self, i, others):
        """about element i < N"""
        F = self
        out = [F(i + 1) == F(i) + self.elem(i), z3.ULE(F(i), F(i + 1)), z3.ULE(F(i + 1), F(self.N)), F(bv(0)) == 0,
               z3.Implies(i + 1 == self.N, F(i + 1) == F(self.N)), z3.Implies(i == 0, F(i) == 0)]
        for j in others:
            out += [z3.Implies(z3.ULT(i, j), z3.ULE(F(i + 1), F(j))), z3.Implies(z3.ULT(j, i), z3.ULE(F(j + 1), F(i))),
                    z3.Implies(i == j, F(i) == F(j))]
        return out
