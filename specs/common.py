"""Contracts shared by several specifications."""
import z3
from smallvc.engine import bv, is_num, simp


def small_align(vc, st, a):
    """proved for P01: the least multiple of the power of two al that is not below v"""
    v, al = a
    if is_num(v) and is_num(al):
        return simp((v + al - 1) & ~(al - 1))
    st.prove(z3.And(al != 0, al & (al - 1) == 0), 'pre(small_align):power of two')
    st.prove(z3.ULE(v, v + (al - 1)), 'pre(small_align):no wrap')
    r = vc.fresh('align')
    st.assume(z3.ULE(v, r), z3.ULT(r - v, al), r & (al - 1) == 0, z3.Implies(v == 0, r == 0))
    return r


def under(st, cond):
    """the state restricted by cond; None if impossible.  Use as: for f in under(...): ..."""
    if isinstance(cond, bool):
        cond = z3.BoolVal(cond)
    if st.vc.possible(cond):
        st.vc.solver.push()
        f = st.fork()
        f.assume(cond)
        yield f
        st.vc.solver.pop()


def at_least(off, n):
    return z3.UGE(off, bv(n))


def is_cell(off, n, o, w=8):
    """[off, off+n) meets the cell at o"""
    n = bv(n) if isinstance(n, int) else n
    return z3.And(z3.ULT(off, bv(o + w)), z3.ULT(bv(o), off + n))


