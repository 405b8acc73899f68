"""Contracts of slab_arena (P05).

S is the slab size (a power of two from 2^16 to 2^31).  Shared between threads: the usage counter (every access may be
preceded by any number of steps of other threads), the list of cached slabs and the quota (both by their contracts: P04,
P02).  Every step on the counter either adds S or takes back an S that this call has added beyond the preallocated
range, so min(used, prealloc) never shrinks: the step that raises it from k S to (k + 1) S hands out the k-th slab of the
range, once.  Memory of the system: an interval per mapping; what is unmapped is cut off at an end."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from specs.common import under

M = 'slab_arena'
ASSUME = ['mmap returns page-aligned fresh memory below 2^46 or fails; munmap of mapped whole pages succeeds', 'slab size at most 2^31, usage below 2^62',
          'lf_lifo, quota by contract (their own proofs: P04, P02)']
MAP_FAILED = bv(-1)


class O:
    pass


def arena(mk, shared=False, contracts=None, split=True, **kw):
    x = O()
    cs = dict(mmap=mmap, munmap=munmap, madvise=lambda x, vc, st, a: z3.BitVecVal(0, 32), lf_lifo_pop=pop, lf_lifo_push=push, quota_use=quota_use,
              quota_release=quota_release, strerror_r=lambda x, vc, st, a: vc.fresh('err'), fprintf=lambda x, vc, st, a: z3.BitVecVal(0, 32),
              __errno_location=lambda x, vc, st, a: x.errno)
    cs.update(contracts or {})
    cs = {n: (lambda f: lambda vc, st, a: f(x, vc, st, a))(f) for n, f in cs.items()}
    if shared:
        kw.update(shared=lambda a: simp(a).eq(x.ua), rely=lambda vc, st, a: rely(x, vc, st, a), auto=[])
    vc = x.vc = mk(contracts=cs, bits=True, **kw)
    if shared:
        vc.on_atomic = lambda vc, st, addr, old, new: step(x, vc, st, addr, old, new)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    x.size = mod.struct_size('slab_arena')
    x.p = vc.ptr(st, 'arena', x.size)
    x.errno = vc.ptr(st, 'errno', 4)
    f = lambda n: mod.field('slab_arena', n)[0]
    x.of = {n: f(n) for n in ('cache', 'arena', 'prealloc', 'used', 'quota', 'slab_size', 'flags')}
    x.ua = simp(x.p + x.of['used'])
    x.S = z3.BitVec('S', 64)
    st.assume(x.S & (x.S - 1) == 0, z3.UGE(x.S, bv(1 << 16)), z3.ULE(x.S, bv(1 << 31)))
    x.quota, x.base, x.pre = z3.BitVec('quota', 64), z3.BitVec('base', 64), z3.BitVec('prealloc', 64)
    st.ghost.update(maps=0, live=[], charged=bv(0), released=bv(0), popped=[], pushed=[], steps=[], own=None, qfail=False, mfail=0)
    return x


def made(x):
    """a created arena"""
    st = x.st
    for n, v in (('slab_size', z3.Extract(31, 0, x.S)), ('quota', x.quota), ('arena', x.base), ('prealloc', x.pre)):
        st.put(x.p, 'slab_arena', n, v)
    st.assume(x.pre & (x.S - 1) == 0, z3.ULE(x.pre, bv(1 << 46)), (x.pre == 0) == (x.base == 0), x.base & (x.S - 1) == 0, z3.ULE(x.base, bv(1 << 46)))
    st.foot = [('range', x.ua, 8)]


def rely(x, vc, st, addr):
    v = vc.fresh('used_env')
    st.env_store(x.ua, v)
    st.assume(v & (x.S - 1) == 0, z3.ULE(v, bv(1 << 62)))
    own = st.ghost['own']
    if own is not None:
        # slabs handed out of the range stay so; what this call added beyond the range is still there
        st.assume(z3.UGE(v, z3.If(z3.ULT(own, x.pre), own + x.S, x.pre + x.S)))


def step(x, vc, st, addr, old, new):
    st.prove(addr == x.ua, 'guarantee:only the usage counter is updated')
    n = len(st.ghost['steps'])
    mn = lambda v: z3.If(z3.ULT(v, x.pre), v, x.pre)
    st.prove(z3.UGE(mn(new), mn(old)), 'guarantee:slabs of the preallocated range are never handed out twice')
    if n == 0:
        st.prove(new == old + x.S, 'guarantee:one slab more')
        st.ghost['own'] = old
    else:
        st.prove(n == 1, 'guarantee:at most two steps')
        st.prove(z3.And(new == old - x.S, z3.UGE(st.ghost['own'], x.pre)), 'guarantee:only what this call added beyond the range is taken back')
        st.ghost['own'] = None
    st.ghost['steps'] = st.ghost['steps'] + [(old, new)]


def mmap(x, vc, st, a):
    addr, n = a[0], a[1]
    st.prove(z3.Or(*[l[0] == l[1] for l in st.ghost['live']]) if st.ghost['live'] else True, 'pre(mmap):nothing mapped is forgotten')
    w = lambda v: v if v.size() == 64 else z3.SignExt(64 - v.size(), v)
    prot, fl, fd, off = (w(v) for v in a[2:6])
    st.prove(z3.And(addr == 0, prot == 3, fd == bv(-1), off == 0, fl & 0x20 != 0), 'pre(mmap):anonymous memory that can be read and written')

    def ok(s):
        m = vc.fresh('map')
        s.assume(n != 0, z3.ULE(n, bv(1 << 46)), m & 4095 == 0, m != 0, z3.ULT(m, bv(1 << 46)))
        s.ghost['live'] = [(m, simp(m + n))]
        s.ghost['maps'] += 1
        return m

    def no(s):
        s.ghost['mfail'] += 1
        return MAP_FAILED
    return [('mapped', ok), ('no-mapping', no)]


def munmap(x, vc, st, a):
    p, n = a
    if len(st.ghost['live']) != 1:
        st.prove(False, 'pre(munmap):mapped memory')
        return z3.BitVecVal(0, 32)
    lo, hi = st.ghost['live'][0]
    st.prove(z3.And(n != 0, p & 4095 == 0, n & 4095 == 0), 'pre(munmap):whole pages')
    front = z3.And(p == lo, z3.ULE(n, hi - lo))
    back = z3.And(p + n == hi, z3.ULE(n, hi - lo))
    st.prove(z3.Or(front, back), 'pre(munmap):one end of the mapped memory')
    st.ghost['live'] = [(simp(z3.If(front, lo + n, lo)), simp(z3.If(front, hi, p)))]
    return z3.BitVecVal(0, 32)


def pop(x, vc, st, a):
    st.prove(a[0] == simp(x.p + x.of['cache']), "pre(lf_lifo_pop):the arena's list")

    def some(s):
        c = z3.BitVec('C', 64)
        s.assume(c != 0, c & (x.S - 1) == 0)
        s.ghost['popped'] = s.ghost['popped'] + [c]
        return c
    return [('cached', some), ('none', lambda s: bv(0))]


def push(x, vc, st, a):
    st.prove(a[0] == simp(x.p + x.of['cache']), "pre(lf_lifo_push):the arena's list")
    st.ghost['pushed'] = st.ghost['pushed'] + [a[1]]
    return a[0]


def quota_use(x, vc, st, a):
    st.prove(a[0] == x.quota, "pre(quota_use):the arena's quota")
    st.prove(a[1] != 0, 'pre(quota_use):not zero')

    def ok(s):
        s.ghost['charged'] = s.ghost['charged'] + a[1]
        return bv(1024)

    def no(s):
        s.ghost['qfail'] = True
        return bv(-1)
    return [('charged', ok), ('refused', no)]


def quota_release(x, vc, st, a):
    st.prove(a[0] == x.quota, "pre(quota_release):the arena's quota")
    st.ghost['released'] = st.ghost['released'] + a[1]
    return bv(1024)


def live(st):
    l = st.ghost['live']
    return l[0] if l else (bv(0), bv(0))


@proof('mmap_checked', 'P05', M, assumes=ASSUME)
def _(mk, mod):
    x = arena(mk)
    st = x.st
    n, fl = z3.BitVec('size', 64), z3.BitVec('flags', 32)
    st.assume(n & (x.S - 1) == 0, n != 0)
    st.foot = []

    def post(st, r):
        lo, hi = live(st)
        for f in under(st, r == 0):
            f.prove(z3.And(lo == hi, f.ghost['mfail'] == 1), 'failure:only if a mapping fails, and nothing stays mapped')
        for f in under(st, r != 0):
            f.prove(r & (x.S - 1) == 0, 'post:aligned')
            f.prove(z3.And(lo == r, hi == r + n), 'post:just the size stays mapped')
    x.vc.verify('mmap_checked', [n, x.S, fl], post=post)


def map_contract(x, vc, st, a):
    st.prove(z3.And(a[0] != 0, a[0] & (a[1] - 1) == 0, a[1] == x.S), 'pre(mmap_checked):whole slabs, aligned')
    n = a[0]

    def ok(s):
        m = vc.fresh('map')
        s.assume(m != 0, m & (x.S - 1) == 0, z3.ULE(n, bv(1 << 46)), z3.ULT(m, bv(1 << 46)))
        s.ghost['live'] = s.ghost['live'] + [(m, simp(m + n))]
        return m

    def no(s):
        s.ghost['mfail'] += 1
        return bv(0)
    return [('mapped', ok), ('no-mapping', no)]


@proof('slab_map', 'P05', M, assumes=ASSUME)
def _(mk, mod):
    x = arena(mk, shared=True, contracts=dict(mmap_checked=map_contract))
    made(x)

    def post(st, r):
        g = st.ghost
        l, steps, pops = g['live'], g['steps'], g['popped']
        net = g['charged'] - g['released']
        if pops:
            st.prove(len(pops) == 1 and not steps and not l, 'post:a cached slab costs nothing')
            st.prove(z3.And(r == pops[0], g['charged'] == 0, g['released'] == 0), 'post:a cached slab is charged already')
            return
        for f in under(st, r == 0):
            f.prove(net == 0, 'failure:nothing stays charged')
            f.prove(not l, 'failure:nothing stays mapped')
            f.prove(len(steps) in (0, 2), 'failure:usage as before')
            f.prove(g['qfail'] or g['mfail'] > 0, 'failure:only if quota or memory is refused')
        for f in under(st, r != 0):
            f.prove(net == x.S, 'post:charged once')
            f.prove(len(steps) == 1, 'post:counted once')
            old = steps[0][0]
            f.prove(r & (x.S - 1) == 0, 'post:aligned')
            if l:
                f.prove(len(l) == 1, 'post:one mapping')
                f.prove(z3.And(r == l[0][0], l[0][1] == r + x.S), 'post:a mapping of a slab')
            else:
                f.prove(z3.And(z3.ULT(old, x.pre), r == x.base + old), 'post:the slab of the range that this step on the counter took')
    x.vc.verify('slab_map', [x.p], post=post)


@proof('slab_unmap', 'P05', M, assumes=ASSUME)
def _(mk, mod):
    x = arena(mk)
    made(x)
    x.st.foot = []
    s = z3.BitVec('slab', 64)

    def post(st, r):
        p = st.ghost['pushed']
        st.prove((s != 0) if p else (s == 0), 'post:a slab is cached for reuse')
        st.prove(len(p) <= 1, 'post:once')
        if p:
            st.prove(p[0] == s, 'post:that slab')
    x.vc.verify('slab_unmap', [x.p, s], post=post)


@proof('slab_arena_create', 'P05', M, assumes=ASSUME + ['valid flags'])
def _(mk, mod):
    qt = z3.BitVec('quota_total', 64)

    def rnd(x, vc, st, a):
        st.prove(z3.And(z3.UGE(a[0], bv(1 << 16)), z3.ULE(a[0], bv(1 << 31))), 'pre(small_round):range')
        st.assume(z3.UGE(x.S, a[0]), z3.ULT(z3.LShR(x.S, 1), a[0]))
        return x.S

    def align(x, vc, st, a):
        v, al = a
        st.prove(al == x.S, 'pre(small_align):by the slab size')
        st.prove(z3.ULE(v, v + (al - 1)), 'pre(small_align):no wrap')
        r = vc.fresh('align')
        st.assume(z3.ULE(v, r), z3.ULT(r - v, al), r & (al - 1) == 0, z3.Implies(v == 0, r == 0))
        return r
    x = arena(mk, contracts=dict(mmap_checked=map_contract, small_round=rnd, small_align=align, quota_total=lambda x, vc, st, a: qt,
                                 lf_lifo_init=lambda x, vc, st, a: st.ghost.update(inited=a[0])))
    st = x.st
    q, pre, ss, fl = z3.BitVec('quota', 64), z3.BitVec('want', 64), z3.BitVec('slab_size', 32), z3.BitVec('flags', 32)
    st.assume(z3.ULE(ss, z3.BitVecVal(1 << 31, 32)), z3.ULE(qt, bv(1 << 42)))
    # flags as the interface has them
    mark = 0x80000000
    st.assume(z3.Or(fl == 1, fl == 2, z3.And(fl & mark != 0, fl & 3 != 0)))
    st.foot = [('range', x.p, x.size)]

    def post(st, r):
        g = lambda n: st.get(x.p, 'slab_arena', n)
        S = z3.ZeroExt(32, g('slab_size'))
        w = z3.ZeroExt(32, ss)
        st.prove(z3.And(S == x.S, z3.UGE(S, w)), 'post:slab size is a power of two, not below the wish')
        st.prove(z3.Or(S == 1 << 16, z3.ULT(z3.LShR(S, 1), w)), 'post:the least one')
        st.prove(z3.And(g('quota') == q, g('used') == 0), 'post:nothing used')
        st.prove(st.ghost['inited'] == simp(x.p + x.of['cache']) if 'inited' in st.ghost else False, 'post:nothing cached')
        p = g('prealloc')
        least = z3.If(z3.ULE(pre, qt), pre, qt)
        st.prove(z3.And(p & (x.S - 1) == 0, z3.UGE(p, least), z3.ULT(p - least, x.S)), 'post:whole slabs, within the quota')
        l = st.ghost['live']
        for f in under(st, r & 0xffffffff != 0):
            f.prove(z3.And(p != 0, g('arena') == 0, st.ghost['mfail'] == 1), 'failure:only if the mapping fails')
            f.prove(not l, 'failure:nothing is mapped')
        for f in under(st, r & 0xffffffff == 0):
            f.prove((p != 0) if l else z3.And(p == 0, g('arena') == 0), 'post:preallocated if asked')
            if l:
                f.prove(z3.And(g('arena') == l[0][0], l[0][1] == l[0][0] + p, g('arena') & (x.S - 1) == 0), 'post:the preallocated range is mapped and aligned')
    x.vc.verify('slab_arena_create', [x.p, q, pre, ss, fl], post=post)


@proof('slab_arena_destroy', 'P05', M, assumes=ASSUME + ['all slabs are given back before'])
def _(mk, mod):
    T, C = z3.Function('T', B, B), z3.Function('CACHED', B, B)
    N = z3.BitVec('N', 64)

    def outside(c):
        return z3.Or(z3.ULT(C(c), x.base), z3.UGE(C(c), x.base + x.pre))

    def pop(x, vc, st, a):
        st.prove(a[0] == simp(x.p + x.of['cache']), "pre(lf_lifo_pop):the arena's list")
        n = st.ghost['n']
        st.prove(st.ghost['un'] == n, 'pre(lf_lifo_pop):the slab before is dealt with')

        def some(s):
            s.assume(z3.ULT(n, N), C(n) != 0, z3.ULT(C(n), bv(1 << 46)), C(n) & (x.S - 1) == 0, T(n + 1) == T(n) + x.S, z3.ULE(T(n + 1), T(N)))
            s.assume(z3.Implies(n + 1 == N, T(n + 1) == T(N)))
            s.ghost['n'] = simp(n + 1)
            # a slab of the preallocated range needs nothing
            s.ghost['un'] = simp(z3.If(outside(n), n, n + 1))
            return C(n)

        def none(s):
            s.assume(n == N)
            return bv(0)
        return [('cached', some), ('none', none)]

    def un(x, vc, st, a):
        n = st.ghost['n']
        p, sz = a
        if st.vc.possible(st.ghost['un'] != n):
            st.prove(z3.And(st.ghost['un'] == n - 1, outside(n - 1), p == C(n - 1), sz == x.S), 'pre(munmap):a slab mapped on its own, whole, once')
            st.ghost['un'] = n
        else:
            st.prove(z3.And(n == N, x.base != 0, p == x.base, sz == x.pre), 'pre(munmap):the preallocated range, after its slabs')
            st.ghost['range'] += 1
        return z3.BitVecVal(0, 32)
    x = arena(mk, contracts=dict(lf_lifo_pop=pop, munmap=un))
    made(x)
    st = x.st
    st.foot = []
    st.assume(T(bv(0)) == 0, z3.ULT(N, bv(1 << 40)), z3.Implies(N == 0, T(N) == 0), z3.ULE(T(N), bv(1 << 60)))
    st.put(x.p, 'slab_arena', 'used', T(N))
    st.ghost.update(n=bv(0), un=bv(0), range=0)

    def inv(st, g):
        c = g['c']
        return [('slabs', z3.And(st.ghost['n'] == c, st.ghost['un'] == c, z3.ULE(c, N))), ('sum', st.local('total') == T(c))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, N), z3.Implies(c == N, T(c) == T(N)))
        st.ghost['n'] = st.ghost['un'] = c
        st.set_local('total', T(c))
        return dict(c=c)
    x.vc.loops = {('slab_arena_destroy', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)), variant=lambda st, g: N - g['c'])}

    def post(st, r):
        st.prove(st.ghost['n'] == N, 'post:every slab')
        st.prove((x.base != 0) if st.ghost['range'] else (x.base == 0), 'post:the preallocated range is unmapped')
        st.prove(st.ghost['range'] <= 1, 'post:once')
    x.vc.verify('slab_arena_destroy', [x.p], post=post)
