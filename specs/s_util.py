"""Contracts of the size helpers (P01)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv

PW2 = lambda a: z3.And(a != 0, a & (a - 1) == 0)


@proof('small_align', 'P01', 'util')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    size, al = z3.BitVec('size', 64), z3.BitVec('alignment', 64)
    st.assume(PW2(al), z3.ULE(size, bv(-1) - al))
    st.foot = []

    def post(st, r):
        st.prove(r & (al - 1) == 0, 'post:multiple of the alignment')
        st.prove(z3.UGE(r, size), 'post:not below size')
        st.prove(z3.ULT(r - size, al), 'post:nearest')
    vc.verify('small_align', [size, al], post=post)


@proof('small_align_down', 'P01', 'util')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    size, al = z3.BitVec('value', 64), z3.BitVec('alignment', 64)
    st.assume(PW2(al))
    st.foot = []

    def post(st, r):
        st.prove(r & (al - 1) == 0, 'post:multiple of the alignment')
        st.prove(z3.ULE(r, size), 'post:not above value')
        st.prove(z3.ULT(size - r, al), 'post:nearest')
    vc.verify('small_align_down', [size, al], post=post)


@proof('small_round', 'P01', 'util')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    size = z3.BitVec('size', 64)
    st.assume(z3.ULE(size, bv(1 << 63)))
    st.foot = []

    def post(st, r):
        st.prove(z3.Implies(size == 0, r == 0), 'post:zero stays zero')
        st.prove(z3.Implies(size != 0, PW2(r)), 'post:power of two')
        st.prove(z3.UGE(r, size), 'post:not below size')
        st.prove(z3.Implies(z3.UGT(size, bv(1)), z3.ULT(z3.LShR(r, 1), size)), 'post:least')
        st.prove(z3.Implies(size == 1, r == 1), 'post:one stays one')
    vc.verify('small_round', [size], post=post)


@proof('small_lb', 'P01', 'util')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    size = z3.BitVec('size', 64)
    st.assume(size != 0)
    st.foot = []

    def post(st, r):
        st.prove(z3.ULT(r, bv(64)), 'post:range')
        st.prove(z3.LShR(size, r) == 1, 'post:position of the highest set bit')
    vc.verify('small_lb', [size], post=post)


@proof('small_getpagesize', 'P01', 'util', assumes=['sysconf returns any long'])
def _(mk, mod):
    vc = mk(contracts={'sysconf': lambda vc, st, a: vc.fresh('sysconf')})
    st = vc.new_state()
    st.foot = []
    vc.verify('small_getpagesize', [], post=lambda st, r: st.prove(r >= 1, 'post:positive'))
