"""Contracts of quota (P02) and quota_lessor (P03).

The quota word is shared: before every read of it the environment may have taken any number of steps
(rely: used <= total still holds, and bytes this thread has charged stay charged); every successful
compare-and-swap of this thread must be exactly the specified step (guarantee)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, simp

U = 1024
QUOTA_MAX = U * (2 ** 32 - 1)
TOT = lambda v: z3.LShR(v, 32)
USED = lambda v: v & 0xffffffff
units = lambda s: z3.UDiv(s + (U - 1), bv(U))


def setup(mk, step, rely_extra=None):
    """step(old, new, st) -> Bool: the only transition this call may make."""
    box = {}

    def shared(addr):
        return simp(addr).eq(box['q'])

    def rely(vc, st, addr):
        # interference by other threads: any number of their steps
        v = vc.fresh('q_env')
        st.env_store(box['q'], v)
        st.assume(z3.ULE(USED(v), TOT(v)))
        if rely_extra:
            st.assume(rely_extra(v))

    def on_atomic(vc, st, addr, old, new):
        st.prove(addr == box['q'], 'guarantee:only the quota word is updated')
        st.prove(step(old, new, st), 'guarantee:exact step')
        st.prove(z3.ULE(USED(new), TOT(new)), 'guarantee:usage within the limit')
        st.prove(z3.BoolVal(st.ghost.get('steps', 0) == 0), 'guarantee:one step only')
        st.ghost['steps'] = st.ghost.get('steps', 0) + 1
        st.ghost['old'] = old
    vc = mk(rely=rely, shared=shared, auto=[])
    vc.on_atomic = on_atomic
    st = vc.new_state()
    box['q'] = vc.ptr(st, 'quota', 8)
    st.foot = [('range', box['q'], 8)]
    return vc, st, box['q'], rely


@proof('quota_use', 'P02', 'quota')
def _(mk, mod):
    size = z3.BitVec('size', 64)
    vc, st, q, rely = setup(mk, lambda o, n, s: z3.And(TOT(n) == TOT(o), USED(n) == USED(o) + units(size)))
    st.assume(size != 0)
    seen = []

    def post(st, r):
        steps = st.ghost.get('steps', 0)
        if steps:
            st.prove(r == units(size) * U, 'post:returns the charged amount')
            st.prove(r >= 0, 'post:success is not negative')
            st.prove(z3.UGE(r, size), 'post:charge covers the request')
        else:
            st.prove(r == -1, 'post:failure is -1 and changes nothing')
            # refused only if the last observed state had no room (or the size is above the maximum)
            last = st.load(q, 8)
            st.prove(z3.Or(z3.UGT(size, bv(QUOTA_MAX)), z3.UGT(USED(last) + units(size), TOT(last))),
                     'post:refused only when the limit would be exceeded')
    vc.verify('quota_use', [q, size], post=post)


@proof('quota_release', 'P02', 'quota')
def _(mk, mod):
    size = z3.BitVec('size', 64)
    # the caller has at least this much charged, so the environment cannot release it
    vc, st, q, rely = setup(mk, lambda o, n, s: z3.And(TOT(n) == TOT(o), USED(n) == USED(o) - units(size)),
                            lambda v: z3.UGE(USED(v), units(size)))
    st.assume(size != 0, z3.ULE(size, bv(QUOTA_MAX)))

    def post(st, r):
        st.prove(z3.BoolVal(st.ghost.get('steps', 0) == 1), 'post:releases exactly once')
        st.prove(r == units(size) * U, 'post:returns the released amount')
    vc.verify('quota_release', [q, size], post=post)


@proof('quota_set', 'P02', 'quota')
def _(mk, mod):
    nt = z3.BitVec('new_total', 64)
    vc, st, q, rely = setup(mk, lambda o, n, s: z3.And(TOT(n) == units(nt), USED(n) == USED(o)))
    st.assume(z3.ULE(nt, bv(QUOTA_MAX)))

    def post(st, r):
        if st.ghost.get('steps', 0):
            st.prove(r == units(nt) * U, 'post:returns the limit set')
        else:
            last = st.load(q, 8)
            st.prove(r == -1, 'post:failure is -1 and changes nothing')
            st.prove(z3.UGT(USED(last), units(nt)), 'post:refused only below the usage')
    vc.verify('quota_set', [q, nt], post=post)


@proof('quota_init', 'P02', 'quota')
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    q = vc.ptr(st, 'quota', 8)
    t = z3.BitVec('total', 64)
    st.assume(z3.ULE(t, bv(QUOTA_MAX)))
    st.foot = [('range', q, 8)]

    def post(st, r):
        v = st.get(q, 'quota', 'value')
        st.prove(TOT(v) == units(t), 'post:limit rounded up to units')
        st.prove(USED(v) == 0, 'post:nothing used')
    vc.verify('quota_init', [q, t], post=post)


def getter(name, f):
    @proof(name, 'P02', 'quota')
    def _(mk, mod):
        vc = mk()
        st = vc.new_state()
        q = vc.ptr(st, 'quota', 8)
        st.foot = []
        v = st.get(q, 'quota', 'value')
        vc.verify(name, [q], post=lambda st, r: st.prove(r == f(v) * U, 'post:value in bytes'))


getter('quota_total', TOT)
getter('quota_used', USED)


@proof('quota_get_total_and_used', 'P02', 'quota')
def _(mk, mod):
    # total and used come from one and the same moment: the word is read once
    reads = []
    box = {}

    def rely(vc, st, addr):
        v = vc.fresh('q_env')
        st.store(box['q'], v, 8)
        st.ghost['reads'] = st.ghost.get('reads', ()) + (v,)
    vc = mk(rely=rely, shared=lambda a: simp(a).eq(box['q']))
    st = vc.new_state()
    q = box['q'] = vc.ptr(st, 'quota', 8)
    pt, pu = vc.ptr(st, 'total', 8), vc.ptr(st, 'used', 8)
    apart = lambda a, b: z3.And(z3.UGE(a - b, bv(8)), z3.UGE(b - a, bv(8)))
    st.assume(apart(pt, pu), apart(pt, q), apart(pu, q))
    st.foot = [('range', pt, 8), ('range', pu, 8)]

    def post(st, r):
        rd = st.ghost.get('reads', ())
        st.prove(z3.Or(*[z3.And(st.load(pt, 8) == TOT(v) * U, st.load(pu, 8) == USED(v) * U) for v in rd]),
                 'post:limit and usage of one moment')
    vc.verify('quota_get_total_and_used', [q, pt, pu], post=post)


# ---------------------------------------------------------------- lessor
# quota contracts as proved above, for the caller's view: the quota word itself is opaque.
# ghost 'charged' is what the quota has been told by this lessor (use minus release).

def lessor(mk, extra=None):
    def c_use(vc, st, a):
        size = a[1]
        st.prove(a[0] == vc.q, 'pre(quota_use):own source')
        st.prove(size != 0, 'pre(quota_use):size is not zero')

        def ok(s):
            s.assume(z3.ULE(size, bv(QUOTA_MAX)))
            s.ghost['charged'] = s.ghost['charged'] + units(size) * U
            # whole quota: nobody holds more than the maximum in total
            s.assume(z3.ULE(s.ghost['charged'], bv(QUOTA_MAX)))
            return units(size) * U

        def fail(s):
            return bv(-1)
        return [('use-ok', ok), ('use-fail', fail)]

    def c_release(vc, st, a):
        size = a[1]
        st.prove(a[0] == vc.q, 'pre(quota_release):own source')
        st.prove(z3.And(size != 0, z3.ULE(size, bv(QUOTA_MAX))), 'pre(quota_release):size in range')
        st.prove(z3.ULE(units(size) * U, st.ghost['charged']), 'pre(quota_release):charged by this lessor')
        st.ghost['charged'] = st.ghost['charged'] - units(size) * U
        return units(size) * U
    vc = mk(contracts={'quota_use': c_use, 'quota_release': c_release,
                       'quota_total': lambda vc, st, a: vc.fresh('total')})
    st = vc.new_state()
    l = vc.ptr(st, 'lessor', 24)
    vc.q = st.get(l, 'quota_lessor', 'source')
    used, leased = st.get(l, 'quota_lessor', 'used'), st.get(l, 'quota_lessor', 'leased')
    st.ghost['charged'] = used
    st.foot = [('range', l, mod_size(mk, vc))]
    return vc, st, l, used, leased


def mod_size(mk, vc):
    return vc.mod.struct_size('quota_lessor')


def inv(st, l, used, leased):
    return [z3.ULE(leased, used), used & (U - 1) == 0, z3.ULE(used, bv(QUOTA_MAX))]


def post_inv(st, l, q):
    used, leased = st.get(l, 'quota_lessor', 'used'), st.get(l, 'quota_lessor', 'leased')
    st.prove(z3.ULE(leased, used), 'inv:leased within the charge')
    st.prove(used & (U - 1) == 0, 'inv:charge is whole units')
    st.prove(used == st.ghost['charged'], 'inv:charge equals what the quota was told')
    st.prove(st.get(l, 'quota_lessor', 'source') == q, 'inv:source unchanged')
    return used, leased


@proof('quota_lease', 'P03', 'quota', assumes=['lease sizes are not negative'])
def _(mk, mod):
    vc, st, l, used, leased = lessor(mk)
    size = z3.BitVec('size', 64)
    st.assume(inv(st, l, used, leased), size >= 0)

    def post(st, r):
        u2, l2 = post_inv(st, l, vc.q)
        st.prove(z3.Or(r == size, r == -1), 'post:all or nothing')
        st.prove(z3.Implies(r == size, l2 == leased + size), 'post:leases exactly the size')
        st.prove(z3.Implies(r != size, z3.And(l2 == leased, u2 == used)), 'post:failure changes nothing')
        st.prove(z3.UGE(u2, used), 'post:leasing never gives charge back')
        st.prove(z3.Implies(z3.ULE(size, used - leased), z3.And(r == size, u2 == used)), 'post:uses what is available first')
    vc.verify('quota_lease', [l, size], post=post)


@proof('quota_end_lease', 'P03', 'quota')
def _(mk, mod):
    vc, st, l, used, leased = lessor(mk)
    size = z3.BitVec('size', 64)
    st.assume(inv(st, l, used, leased), z3.ULE(size, leased))

    def post(st, r):
        u2, l2 = post_inv(st, l, vc.q)
        st.prove(l2 == leased - size, 'post:ends exactly this lease')
        st.prove(r == size, 'post:returns the size')
        st.prove(z3.ULE(u2, used), 'post:charge does not grow')
        st.prove(z3.ULT(u2 - l2, bv(2 * U * 1024)), 'post:surplus is given back')
    vc.verify('quota_end_lease', [l, size], post=post)


@proof('quota_lessor_destroy', 'P03', 'quota')
def _(mk, mod):
    vc, st, l, used, leased = lessor(mk)
    st.assume(inv(st, l, used, leased))

    def post(st, r):
        st.prove(st.ghost['charged'] == 0, 'post:the whole charge is returned')
        st.prove(st.get(l, 'quota_lessor', 'used') == 0, 'post:nothing charged')
        st.prove(z3.Implies(used != 0, st.get(l, 'quota_lessor', 'leased') == 0), 'post:nothing leased')
    vc.verify('quota_lessor_destroy', [l], post=post)


@proof('quota_lessor_create', 'P03', 'quota')
def _(mk, mod):
    vc, st, l, used, leased = lessor(mk)
    q = z3.BitVec('source', 64)
    vc.contracts['quota_total'] = lambda vc, st, a: (st.assume(z3.UGE(z3.BitVec('tot', 64), bv(U * 1024))), z3.BitVec('tot', 64))[1]

    def post(st, r):
        st.prove(st.get(l, 'quota_lessor', 'used') == 0, 'post:nothing charged')
        st.prove(st.get(l, 'quota_lessor', 'leased') == 0, 'post:nothing leased')
        st.prove(st.get(l, 'quota_lessor', 'source') == q, 'post:source')
    vc.verify('quota_lessor_create', [l, q], post=post)


@proof('quota_leased', 'P03', 'quota')
def _(mk, mod):
    vc, st, l, used, leased = lessor(mk)
    vc.verify('quota_leased', [l], post=lambda st, r: st.prove(r == leased, 'post:bytes leased'))


@proof('quota_available', 'P03', 'quota')
def _(mk, mod):
    vc, st, l, used, leased = lessor(mk)
    st.assume(inv(st, l, used, leased))
    vc.verify('quota_available', [l], post=lambda st, r: st.prove(r == used - leased, 'post:charged but not leased'))
