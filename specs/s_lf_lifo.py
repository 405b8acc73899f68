"""Contracts of the lock-free LIFO (P04): sequential effect and, under rely/guarantee, the ABA argument.

Ghost: p = number of pushes so far (the version), d = depth, E(p, i) = i-th element from the bottom while the
version is p (elements are distinct).  Environment steps between any two of our accesses: pushes raise p; with
no push the stack can only lose elements from the top.  Assumption (in the property): fewer than 2^16 pushes
happen between our read of the head and our compare-and-swap."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, simp

M = 0xffff
P = lambda v: v & bv(0xffffffffffff0000)
T = lambda v: v & bv(M)
E = z3.Function('E', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))


def env_step(vc, st):
    """The environment takes any number of steps."""
    p, d = vc.fresh('p'), vc.fresh('d')
    if 'p' in st.ghost:
        p0, d0 = st.ghost['p'], st.ghost['d']
        st.assume(z3.UGE(p, p0), z3.Implies(p == p0, z3.ULE(d, d0)))
    st.assume(z3.ULT(p, bv(1 << 62)), z3.ULT(d, bv(1 << 48)))
    st.assume(P(E(p, d)) == E(p, d), z3.Implies(d == 0, E(p, d) == 0), z3.Implies(d != 0, E(p, d) != 0))
    for (pp, dd) in st.ghost.get('seen', ()):
        # distinct elements within one version
        st.assume(z3.Implies(z3.And(pp == p, E(pp, dd) == E(p, d)), dd == d))
    st.ghost['p'], st.ghost['d'] = p, d
    st.ghost['seen'] = st.ghost.get('seen', ()) + ((p, d),)
    return p, d


def mk_vc(mk, fn, elem=None, auto=()):
    box = {}

    def shared(addr):
        a = simp(addr)
        if elem is not None and a.eq(elem):
            return False
        return True

    def rely(vc, st, addr):
        a = simp(addr)
        p, d = env_step(vc, st)
        if a.eq(box['h']):
            v = E(p, d) | T(p)
            st.env_store(a, v)
            if 'nextread' not in st.ghost:
                st.ghost['readat'] = (p, d)
            # fewer than 2^16 pushes since the head was read in this iteration
            p0 = st.ghost['readat'][0]
            st.assume(z3.ULT(p - p0, bv(1 << 16)))
        else:
            # the next link of some element: known only while that element is on top in the same version
            x = vc.fresh('next')
            p0, d0 = st.ghost['readat']
            st.assume(P(E(p0, d0 - 1)) == E(p0, d0 - 1), z3.Implies(d0 == 1, E(p0, d0 - 1) == 0))
            st.assume(z3.Implies(z3.And(p == p0, d == d0, a == E(p0, d0)), P(x) == E(p0, d0 - 1)))
            st.env_store(a, x)
            st.ghost['nextread'] = True
    vc = mk(rely=rely, shared=shared, auto=list(auto))
    st = vc.st if hasattr(vc, 'st') else vc.new_state()
    h = box['h'] = vc.ptr(st, 'head', 8)
    return vc, st, h


@proof('lf_lifo_push', 'P04', 'lf_lifo', assumes=['fewer than 2^16 pushes happen between a read of the head and the compare-and-swap that uses it'])
def _(mk, mod):
    elem = z3.BitVec('elem', 64)
    vc, st, h = mk_vc(mk, 'push', elem, auto=[(elem, 8)])
    st.assume(P(elem) == elem, elem != 0, z3.ULT(elem, bv(1 << 47)), z3.Or(z3.ULE(h + 8, elem), z3.ULE(elem + 8, h)))
    st.foot = [('range', h, 8), ('range', elem, 8)]

    def on_atomic(vc, st, addr, old, new):
        st.prove(addr == h, 'guarantee:only the head is swapped')
        st.prove(P(new) == elem, 'guarantee:the element becomes the top')
        st.prove(T(new) == T(old + 1), 'guarantee:the version grows with every push')
        st.prove(P(st.load(elem, 8)) == P(old), 'guarantee:the element links to the old top')
        st.prove(z3.BoolVal(st.ghost.get('steps', 0) == 0), 'guarantee:pushed once')
        st.ghost['steps'] = st.ghost.get('steps', 0) + 1
    vc.on_atomic = on_atomic
    vc.verify('lf_lifo_push', [h, elem], post=lambda st, r: (
        st.prove(z3.BoolVal(st.ghost.get('steps', 0) == 1), 'post:pushed'),
        st.prove(r == h, 'post:returns the list')))


@proof('lf_lifo_pop', 'P04', 'lf_lifo', assumes=['fewer than 2^16 pushes happen between a read of the head and the compare-and-swap that uses it',
                                                 'the memory of a popped element stays readable'])
def _(mk, mod):
    vc, st, h = mk_vc(mk, 'pop')
    st.foot = [('range', h, 8)]

    def on_atomic(vc, st, addr, old, new):
        p, d = st.ghost['p'], st.ghost['d']
        st.prove(addr == h, 'guarantee:only the head is swapped')
        st.prove(z3.And(d != 0, P(old) == E(p, d)), 'guarantee:the popped element is the current top')
        st.prove(P(new) == E(p, d - 1), 'guarantee:the new top is the current second element (no ABA)')
        st.prove(T(new) == T(old), 'guarantee:the version never goes back')
        st.prove(z3.BoolVal(st.ghost.get('steps', 0) == 0), 'guarantee:popped once')
        st.ghost['steps'] = st.ghost.get('steps', 0) + 1
        st.ghost['popped'] = E(p, d)
    vc.on_atomic = on_atomic

    def post(st, r):
        if st.ghost.get('steps', 0):
            st.prove(z3.And(r == st.ghost['popped'], r != 0), 'post:returns what was popped')
        else:
            st.prove(r == 0, 'post:NULL when nothing is popped')
            st.prove(st.ghost['d'] == 0, 'post:NULL only when empty at the moment of the read')
    vc.verify('lf_lifo_pop', [h], post=post)


@proof('lf_lifo_pop/sequential', 'P04', 'lf_lifo', fns=['lf_lifo_pop'])
def _(mk, mod):
    # without interference: NULL exactly when empty, top element and links exact, nothing else written
    vc = mk(auto=[])
    st = vc.new_state()
    h = vc.ptr(st, 'head', 8)
    v = st.load(h, 8)
    top = P(v)
    st.assume(z3.Implies(top != 0, z3.And(z3.ULT(top, bv(1 << 47)), z3.Or(z3.ULE(h + 8, top), z3.ULE(top + 8, h)))))
    nxt = st.load(top, 8)
    st.foot = [('range', h, 8)]

    def post(st, r):
        st.prove(r == top, 'post:returns the top or NULL')
        v2 = st.load(h, 8)
        st.prove(z3.If(top == 0, v2 == v, P(v2) == P(nxt)), 'post:the second element becomes the top')
        st.prove(T(v2) == T(v), 'post:version kept')
    vc.verify('lf_lifo_pop', [h], post=post)


@proof('lf_lifo_push/sequential', 'P04', 'lf_lifo', fns=['lf_lifo_push'])
def _(mk, mod):
    elem = z3.BitVec('elem', 64)
    vc = mk(auto=[(elem, 8)])
    st = vc.new_state()
    h = vc.ptr(st, 'head', 8)
    v = st.load(h, 8)
    st.assume(P(elem) == elem, elem != 0, z3.ULT(elem, bv(1 << 47)), z3.Or(z3.ULE(h + 8, elem), z3.ULE(elem + 8, h)))
    st.foot = [('range', h, 8), ('range', elem, 8)]

    def post(st, r):
        v2 = st.load(h, 8)
        st.prove(P(v2) == elem, 'post:the element is the top')
        st.prove(P(st.load(elem, 8)) == P(v), 'post:on top of the former top')
        st.prove(T(v2) == T(v + 1), 'post:version grows, wrapping')
    vc.verify('lf_lifo_push', [h, elem], post=post)


@proof('lf_lifo_is_empty', 'P04', 'lf_lifo')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    h = vc.ptr(st, 'head', 8)
    v = st.load(h, 8)
    st.foot = []
    vc.verify('lf_lifo_is_empty', [h], post=lambda st, r: st.prove(r == (P(v) == 0), 'post:empty exactly when there is no top'))


@proof('lf_lifo_init', 'P04', 'lf_lifo')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    h = vc.ptr(st, 'head', 8)
    st.foot = [('range', h, 8)]
    vc.verify('lf_lifo_init', [h], post=lambda st, r: st.prove(P(st.load(h, 8)) == 0, 'post:empty'))
