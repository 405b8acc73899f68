"""Contracts of the small allocator (P11).

Pool i is the element P(i) of the allocator's array, i < n; OS(i) is its object size, which grows with i; G(i) its group, which
has the pools F(g) .. LA(g), at most 32, all with slabs of one size (MASK(g)).  AM(g) marks the pools of the group that are in
use, the last one always.  Invariant:
  used_pool(i) = the first pool not before i marked in AM(G(i)): at least as large, same group
  waste(i) >= the sum over the live objects of size class i of (object size of the owning pool - OS(i))
and every live object of class i belongs to a slab of a pool of group G(i), not before i.
mempool_* by contract (P08, P09), small_class_* by contract (P10), slab_get_large / slab_put_large by contract (P06)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B, addends, total
from specs.common import under

M = 'small'
ASSUME = ['a block is given back once, with the size it was allocated with', 'mempool_* by contract (P08, P09), small_class_* by contract (P10), slab_get_large / slab_put_large by contract (P06)',
          'the waste of a pool stays below 2^62', 'slabs are aligned to their size, which the pools of a group share (P06; proved for small_mempool_create_group)']
MAXP = 1024
BOOL = z3.BoolSort()


class O:
    pass


def pick(off, m):
    """offset -> (index, constant) with off = constant + m * index"""
    c, ts = 0, []
    for t in addends(simp(off)):
        if is_num(t):
            c += num(t)
        elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and is_num(t.arg(0)):
            f = num(t.arg(0))
            f = f - (1 << 64) if f >> 63 else f
            if f % m:
                return None
            ts.append(bv(f // m & (1 << 64) - 1) * t.arg(1))
        elif z3.is_app_of(t, z3.Z3_OP_CONCAT) and 1 << (m.bit_length() - 1) == m:
            z = t.children()[-1]
            k = m.bit_length() - 1
            if not (is_num(z) and z.size() >= k and num(z) % m == 0):
                return None
            ts.append(simp(z3.LShR(t, k)))
        else:
            return None
    if c >> 63:
        c -= 1 << 64
    return c, ts


def world(mk, contracts=None):
    x = O()
    cs = dict(contracts or {})
    cs = {n: (lambda f: lambda vc, st, a: f(x, vc, st, a))(f) for n, f in cs.items()}
    cs['llvm.cttz.i32'] = c_cttz
    vc = x.vc = mk(contracts=cs)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    U = z3.Function
    F = lambda s, n: mod.field(s, n)[0]
    x.a = z3.BitVec('alloc', 64)
    x.n32, x.ng32 = z3.BitVec('n', 32), z3.BitVec('ng', 32)
    x.n, x.ng = z3.ZeroExt(32, x.n32), z3.ZeroExt(32, x.ng32)
    x.psz, x.gsz = mod.struct_size('small_mempool'), mod.struct_size('small_mempool_group')
    x.po, x.go = F('small_alloc', 'small_mempool_cache'), F('small_alloc', 'small_mempool_groups')
    x.P = lambda i: simp(x.a + x.po + x.psz * i)
    x.GP = lambda g: simp(x.a + x.go + x.gsz * g)
    x.OS0, x.G0, x.F0, x.LA0, x.AM0 = U('OS', B, W), U('G', B, B), U('F', B, B), U('LA', B, B), U('AM', B, W)
    x.WA, x.MASK, x.WM = U('WASTE', B, B), U('MASK', B, B), U('WM', B, B)
    x.cache, x.max32 = z3.BitVec('cache', 64), z3.BitVec('objsize_max', 32)
    x.OS, x.G, x.F, x.LA = (lambda f: lambda i: f(simp(i)))(x.OS0), (lambda i: x.G0(simp(i))), (lambda g: x.F0(simp(g))), (lambda g: x.LA0(simp(g)))
    st.assume(z3.ULE(x.n, bv(MAXP)), z3.UGE(x.n, bv(1)), z3.ULE(x.ng, x.n), z3.ULT(x.a, bv(1 << 46)))
    st.ghost.update(AM=x.AM0, idx=[], gidx=[], waste=x.WA)
    x.pf = {F('small_mempool', f): f for f in ('group', 'used_pool', 'appropriate_pool_mask', 'waste')}
    x.pf.update({F('small_mempool', 'pool') + F('mempool', f): f for f in ('objsize', 'slab_ptr_mask', 'small_mempool', 'cache')})
    x.gf = {F('small_mempool_group', f): f for f in ('first', 'last', 'active_pool_mask', 'waste_max')}
    x.fa = st.fam(Fam('alloc', mod.struct_size('small_alloc'), base=x.a, cell=lambda st, i, off, n: cell(x, st, off, n, None)))
    st.put(x.a, 'small_alloc', 'small_mempool_cache_size', x.n32)
    st.put(x.a, 'small_alloc', 'small_mempool_groups_size', x.ng32)
    st.put(x.a, 'small_alloc', 'objsize_max', x.max32)
    st.put(x.a, 'small_alloc', 'cache', x.cache)
    st.foot = [('obj', x.fa, lambda i, off, n: True)]
    x.q = z3.BitVec('q', 64)
    st.assume(z3.ULT(x.q, x.n))
    reg(x, st, x.q)
    return x


def where(x, off):
    """('pool' | 'group', index, field) of an offset in the allocator"""
    for kind, o, m, tab, end in (('pool', x.po, x.psz, x.pf, x.po + MAXP * x.psz), ('group', x.go, x.gsz, x.gf, x.go + MAXP * x.gsz)):
        r = pick(off, m)
        if r is None:
            continue
        c, ts = r
        if not ts and not o <= c < end:
            continue
        if ts and abs(c - o) > 64 * m:
            continue
        c -= o
        i = simp(total(ts + [bv(c // m & (1 << 64) - 1)])) if ts else bv(c // m)
        return kind, i, tab.get(c % m)
    return None


# Masks: LOW(v) is the number of the lowest bit set in v, AMOK(m, l) says that l is the highest bit set in m.  The arithmetic
# over pools is done with integers, what is needed of the bits is proved for pool_masks.
W = z3.BitVecSort(32)
LOW = z3.Function('LOW', W, W)
AMOK = z3.Function('AMOK', W, W, BOOL)


def congr(st, t, pairs):
    """t with equals replaced by equals"""
    for a, b in pairs:
        st.prove(a == b, 'lemma:equal')
        st.assume(a == b)
    r = simp(z3.substitute(t, *pairs))
    st.assume(t == r)
    return r


def c_cttz(vc, st, a):
    v = simp(a[0])
    if st.ghost.get('same'):
        v = congr(st, v, st.ghost['same'])
        st.ghost['more'](st)
    st.assume(z3.Implies(v != 0, z3.ULT(LOW(v), 32)))
    return LOW(v)


def rel(x, i):
    return z3.Extract(31, 0, simp(i - x.F(x.G(i))))


def app(x, i):
    return z3.BitVecVal(0xffffffff, 32) << rel(x, i)


def route(x, i, AM):
    """the pool that serves pool i: the first marked one not before i"""
    g = x.G(i)
    return simp(x.F(g) + z3.ZeroExt(32, LOW(simp(AM(g) & app(x, i)))))


def marked(x, i, AM):
    return simp(AM(x.G(i)) & (z3.BitVecVal(1, 32) << rel(x, i))) != 0


def routes(x, st, i, AM, pairs=()):
    sub = lambda t: simp(z3.substitute(t, *pairs)) if pairs else t
    for a, b in pairs:
        st.prove(a == b, 'lemma:equal')
    g = simp(x.G(i))
    u = sub(route(x, i, AM))
    v = sub(simp(AM(g) & app(x, i)))
    g = sub(g)
    ok = AMOK(simp(AM(g)), z3.Extract(31, 0, simp(x.LA(g) - x.F(g))))
    st.assume(z3.Implies(z3.And(ok, z3.ULE(x.F(g), i), z3.ULE(i, x.LA(g))),
                         z3.And(v != 0, z3.ULT(LOW(v), 32), z3.ULE(i, u), z3.ULE(u, x.LA(g)), x.G(u) == g, z3.ULE(x.OS(i), x.OS(u)), sub(marked(x, i, AM)) == (u == i))))
    return u


def am_ok(x, g, AM):
    """marks only for pools of the group, the last one always marked"""
    return AMOK(simp(AM(g)), z3.Extract(31, 0, simp(x.LA(g) - x.F(g))))


def cell(x, st, off, n, AM):
    w = where(x, off)
    if w is None or w[2] is None:
        return None
    kind, i, f = w
    AM = AM or x.AM0
    if kind == 'group':
        v = {'first': lambda: x.P(x.F(i)), 'last': lambda: x.P(x.LA(i)), 'active_pool_mask': lambda: AM(i), 'waste_max': lambda: x.WM(i)}[f]()
    else:
        v = {'group': lambda: x.GP(x.G(i)), 'used_pool': lambda: x.P(route(x, i, AM)), 'appropriate_pool_mask': lambda: app(x, i), 'waste': lambda: x.WA(i),
             'objsize': lambda: x.OS(i), 'slab_ptr_mask': lambda: x.MASK(x.G(i)), 'small_mempool': lambda: x.P(i), 'cache': lambda: x.cache}[f]()
    return v if v.size() == 8 * n else None


def group(x, st, g, guard):
    g = simp(g)
    if any(j.eq(g) for j in st.ghost['gidx']):
        return
    st.ghost['gidx'] = st.ghost['gidx'] + [g]
    c = z3.And(z3.ULT(g, x.ng), z3.ULE(x.F(g), x.LA(g)), z3.ULT(x.LA(g), x.n), z3.ULE(x.LA(g) - x.F(g), bv(31)), am_ok(x, g, st.ghost['AM']))
    st.assume(c if guard is None else z3.Implies(guard, c))


def reg(x, st, i, guard=None):
    """what the invariant says of pool i < n"""
    i = simp(i)
    if any(j.eq(i) for j in st.ghost['idx']):
        return
    g = simp(x.G(i))
    group(x, st, g, guard)
    out = [z3.ULE(x.F(g), i), z3.ULE(i, x.LA(g)), z3.ULT(x.WA(i), bv(1 << 62)), z3.ULT(x.OS(i), z3.BitVecVal(1 << 31, 32))]
    for j in st.ghost['idx']:
        out += [z3.ULT(i, j) == z3.ULT(x.OS(i), x.OS(j)), z3.ULT(j, i) == z3.ULT(x.OS(j), x.OS(i)), (x.OS(i) == x.OS(j)) == (i == j)]
        for k, m in ((i, j), (j, i)):
            h = simp(x.G(m))
            out.append(z3.Implies(z3.And(z3.ULE(x.F(h), k), z3.ULE(k, x.LA(h))), x.G(k) == h))
    st.assume(*(out if guard is None else [z3.Implies(guard, e) for e in out]))
    st.ghost['idx'] = st.ghost['idx'] + [i]
    routes(x, st, i, st.ghost['AM'])


def pool_at(x, st, p, what):
    q = x.vc.place(st, p, 8)
    w = where(x, q[2]) if q is not None and q[0] is x.fa else None
    if w is None or w[0] != 'pool' or x.P(w[1]).get_id() != simp(p).get_id() and x.vc.possible(x.P(w[1]) != p):
        raise Unsupported('not a pool: ' + what)
    st.prove(z3.ULT(w[1], x.n), 'pre(%s):a pool of the allocator' % what)
    reg(x, st, w[1])
    return w[1]


def routing(x, st, tag, AM):
    """the marks are those of AM now, and the routes follow"""
    def keep(st, f, i, off, n):
        if f is not x.fa:
            return True
        w = where(x, off)
        return w is None or w[2] not in ('active_pool_mask', 'used_pool')
    st.objhavoc(Havoc(keep=keep, cell=lambda st, f, i, off, n: cell(x, st, off, n, AM) if f is x.fa else None), tag)
    marks(x, st, AM)


def marks(x, st, AM):
    st.ghost['AM'] = AM
    for g in st.ghost['gidx']:
        st.assume(am_ok(x, g, AM))
    for i in st.ghost['idx']:
        routes(x, st, i, AM)


def change(x, st, i, on):
    """the marks after pool i is marked, or unmarked (not the last of its group)"""
    AM, g = st.ghost['AM'], simp(x.G(i))
    b = z3.BitVecVal(1, 32) << rel(x, i)
    return lambda h: simp(z3.If(h == g, AM(h) | b if on else AM(h) & ~b, AM(h)))


def c_activate(x, vc, st, a):
    i = pool_at(x, st, a[0], 'small_mempool_activate')
    st.prove(z3.Not(marked(x, i, st.ghost['AM'])), 'pre(small_mempool_activate):not active')
    routing(x, st, 'activate', change(x, st, i, True))
    return None


def c_deactivate(x, vc, st, a):
    i = pool_at(x, st, a[0], 'small_mempool_deactivate')
    st.prove(marked(x, i, st.ghost['AM']), 'pre(small_mempool_deactivate):active')
    st.prove(i != x.LA(x.G(i)), 'pre(small_mempool_deactivate):not the last of the group')
    routing(x, st, 'deactivate', change(x, st, i, False))
    return None


def invariant(x, st):
    AM = st.ghost['AM']
    g = simp(x.G(x.q))
    st.prove(st.get(x.P(x.q), 'small_mempool', 'used_pool') == x.P(route(x, x.q, AM)), 'inv:the route of every pool')
    st.prove(st.get(x.GP(g), 'small_mempool_group', 'active_pool_mask') == AM(g), 'inv:marks')
    st.prove(am_ok(x, g, AM), 'inv:the last pool of a group is marked')


def update(mk, fname, on):
    x = world(mk)
    st = x.st
    i = z3.BitVec('i', 64)
    st.assume(z3.ULT(i, x.n))
    reg(x, st, i)
    g = simp(x.G(i))
    if on:
        st.assume(z3.Not(marked(x, i, x.AM0)))
    else:
        st.assume(marked(x, i, x.AM0), i != x.LA(g))
    AM = change(x, st, i, on)
    for h in st.ghost['gidx']:
        st.assume(am_ok(x, h, AM))
    routes(x, st, x.q, AM)

    def inv(st, gh):
        c = gh['c']
        out = [('position', st.local('pool') == x.P(c)), ('range', z3.And(z3.ULE(x.F(g), c), z3.ULE(c, x.LA(g) + 1)))]
        if not gh.get('assumed'):
            st.prove(st.get(x.GP(g), 'small_mempool_group', 'active_pool_mask') == AM(g), 'loop:marks')
            for b in (True, False):
                for f in under(st, z3.And(x.G(x.q) == g, z3.ULT(x.q, c)) == b):
                    if b and 'c' in st.ghost:
                        d = st.ghost['c']
                        for h in under(f, x.q == d):
                            r = congr(h, route(x, x.q, AM), [(simp(x.G(x.q)), g), (x.q, d)])
                            h.prove(h.get(x.P(x.q), 'small_mempool', 'used_pool') == x.P(r), 'loop:route of this pool')
                        f.assume(x.q != d) if f.vc.possible(x.q != d) else None
                    f.prove(f.get(x.P(x.q), 'small_mempool', 'used_pool') == x.P(route(x, x.q, AM if b else x.AM0)), 'loop:routes')
        return out

    def havoc(st, gh):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(x.F(g), c), z3.ULE(c, x.LA(g) + 1), z3.Implies(z3.ULE(c, x.LA(g)), x.G(c) == g))

        def cl(st, f, _, off, n):
            w = where(x, off) if f is x.fa else None
            if w is None or n != 8 or w[2] != 'used_pool':
                return None
            return z3.If(z3.And(x.G(w[1]) == g, z3.ULT(w[1], c)), x.P(route(x, w[1], AM)), x.P(route(x, w[1], x.AM0)))

        def keep(st, f, _, off, n):
            w = where(x, off) if f is x.fa else None
            return w is None or w[2] != 'used_pool'
        st.objhavoc(Havoc(keep=keep, cell=cl), 'update loop')
        st.set_local('pool', x.P(c))
        st.ghost['c'] = c
        st.ghost['same'] = [(simp(x.G(c)), g)]
        st.ghost['more'] = lambda st: routes(x, st, c, AM, [(simp(x.G(c)), g)])
        return dict(c=c, assumed=True)
    x.vc.loops = {('small_mempool_update_group', 0): Loop(inv, init=lambda st: dict(c=x.F(g)), havoc=havoc, step=lambda st, gh: dict(c=simp(gh['c'] + 1)), variant=lambda st, gh: x.LA(g) + 1 - gh['c'])}

    def post(st, r):
        st.ghost['AM'] = AM
        invariant(x, st)
    x.vc.verify(fname, [x.P(i)], post=post)


@proof('small_mempool_activate', 'P11', M, fns=['small_mempool_activate', 'small_mempool_update_group', 'small_mempool_get_group_index'], assumes=ASSUME)
def _(mk, mod):
    update(mk, 'small_mempool_activate', True)


@proof('small_mempool_deactivate', 'P11', M, fns=['small_mempool_deactivate', 'small_mempool_update_group', 'small_mempool_get_group_index'], assumes=ASSUME)
def _(mk, mod):
    update(mk, 'small_mempool_deactivate', False)


@proof('pool_masks', 'P11', M, fns=['small_mempool_get_group_index'])
def _(mk, mod):
    """what the other proofs use of the masks (verify: small_mempool_get_group_index)"""
    vc = mk(bits=True)
    st = vc.new_state()
    sz = mod.struct_size('small_mempool')
    p, g, first = (z3.BitVec(n, 64) for n in ('pool', 'group', 'first'))
    k = z3.BitVec('k', 64)
    fp = st.fam(Fam('pool', sz, base=p))
    fg = st.fam(Fam('group', mod.struct_size('small_mempool_group'), base=g))
    st.put(p, 'small_mempool', 'group', g)
    st.put(g, 'small_mempool_group', 'first', simp(p - sz * k))
    st.assume(z3.ULT(k, bv(32)))
    st.foot = []

    def post(st, r):
        st.prove(r == z3.Extract(31, 0, k), 'post:the number of the pool in its group')
        m, l, i, j, lo = (z3.BitVec(n, 32) for n in ('m', 'l', 'i', 'j', 'lo'))
        one = z3.BitVecVal(1, 32)
        ok = lambda m, l: z3.LShR(m, l) == 1
        low = lambda v, r: z3.And(z3.ULT(r, 32), z3.LShR(v, r) & 1 == 1, v & ((one << r) - 1) == 0)
        st.assume(z3.ULT(l, 32), z3.ULE(i, l), ok(m, l))
        v = m & (z3.BitVecVal(0xffffffff, 32) << i)
        st.prove(v != 0, 'masks:a pool can be found')
        st.assume(z3.Implies(v != 0, low(v, lo)))
        st.prove(z3.And(z3.ULE(i, lo), z3.ULE(lo, l)), 'masks:it is of the group and not smaller')
        st.prove((m & (one << i) != 0) == (lo == i), 'masks:a marked pool serves itself, and only it does')
        st.prove(ok(m | (one << i), l), 'masks:after marking')
        st.prove(z3.Implies(i != l, ok(m & ~(one << i), l)), 'masks:after unmarking')
        st.prove(ok(one << l, l), 'masks:the last pool alone')
        lo2 = z3.BitVec('lo2', 32)
        v2 = m & ~(one << j) & (z3.BitVecVal(0xffffffff, 32) << i)
        st.assume(z3.ULT(j, l), low(v2, lo2))
        st.prove(z3.ULE(lo, lo2), 'masks:after unmarking, routes only move up')
    vc.verify('small_mempool_get_group_index', [p], post=post)


# ------------------------------------------------------------ allocation
def c_search(x, vc, st, a):
    """the smallest pool that fits (proved for small_mempool_search)"""
    st.prove(a[0] == x.a, 'pre(small_mempool_search):the allocator')
    size = simp(a[1])

    def large(s):
        s.assume(z3.UGT(size, z3.ZeroExt(32, x.max32)))
        return bv(0)

    def small(s):
        i = vc.fresh('i')
        s.assume(z3.ULT(i, x.n), z3.ULE(size, z3.ZeroExt(32, x.OS(i))), z3.ULE(size, z3.ZeroExt(32, x.max32)))
        reg(x, s, i)
        s.ghost['i'] = i
        return x.P(i)
    return [('large', large), ('pool', small)]


MUT = None


def c_pool_alloc(x, vc, st, a):
    """mempool_alloc: an object of the pool, or NULL; changes nothing of the allocator but the pool itself"""
    u = pool_at(x, st, a[0], 'mempool_alloc')
    routes(x, st, u, st.ghost['AM'])

    def ok(s):
        s.prove('from' not in s.ghost, 'pre(mempool_alloc):one object')
        s.ghost['from'] = u
        inner(x, s, 'mempool_alloc')
        return x.obj
    return [('object', ok), ('none', lambda s: bv(0))]


def inner(x, st, tag):
    """a pool function changes the pool's own fields other than its geometry"""
    fixed = [x.mod.field('mempool', f) for f in ('cache', 'objsize', 'slab_order', 'objcount', 'offset', 'slab_ptr_mask', 'small_mempool')]

    def keep(st, f, i, off, n):
        if f is not x.fa:
            return True
        r = pick(off, x.psz)
        if r is None:
            return True
        w = where(x, off)
        if w is None or w[0] != 'pool':
            return True
        k = (r[0] - x.po) % x.psz
        return k >= x.mod.struct_size('mempool') or any(o <= k < o + z for o, z in fixed)
    st.objhavoc(Havoc(keep=keep), tag)


def c_sweep(x, vc, st, a):
    st.prove(a[0] == x.a, 'pre(sweep):the allocator')
    inner(x, st, 'sweep')
    f = z3.Function(str(vc.fresh('AM_sweep')), B, W)
    routing(x, st, 'sweep', lambda g: f(simp(g)))
    # pools are only unmarked, so that routes only move up
    for i in st.ghost['idx']:
        r, t = route(x, i, x.AM0), route(x, i, st.ghost['AM'])
        st.assume(z3.ULE(r, t), z3.ULE(x.OS(r), x.OS(t)))
    return None


@proof('smalloc', 'P11', M, assumes=ASSUME)
def _(mk, mod):
    LG = z3.BitVec('large', 64)

    def large(x, vc, st, a):
        st.prove(a[0] == x.cache, "pre(slab_get_large):the allocator's cache")
        st.ghost['large'] = simp(a[1])

        def ok(s):
            return LG
        return [('slab', ok), ('no-slab', lambda s: bv(0))]
    x = world(mk, contracts=dict(small_mempool_search=c_search, mempool_alloc=c_pool_alloc, small_mempool_group_sweep_sparse=c_sweep, small_mempool_activate=c_activate, slab_get_large=large))
    st = x.st
    x.obj = z3.BitVec('object', 64)
    size = z3.BitVec('size', 64)
    st.assume(x.obj != 0, LG != 0, z3.ULT(LG, bv(1 << 47)))
    hs = (mod.struct_size('slab') + 7) // 8 * 8

    def post(st, r):
        if 'large' in st.ghost:
            st.prove(st.ghost['large'] == size, 'post:a large block of the size')
            st.prove(z3.UGT(size, z3.ZeroExt(32, x.max32)), 'post:large blocks are for sizes above the largest pool')
            st.prove(z3.Or(r == 0, r == simp(LG + hs)), 'post:the data of the large slab')
        elif 'from' in st.ghost:
            i, u = st.ghost['i'], st.ghost['from']
            Z = lambda v: z3.ZeroExt(32, v)
            st.prove(r == x.obj, 'post:the object of the pool')
            st.prove(z3.ULE(size, Z(x.OS(u))), 'post:the object is large enough')
            st.prove(z3.And(x.G(u) == x.G(i), z3.ULE(i, u)), 'post:from a pool of the group, not smaller: freeing finds its slab')
            w = st.get(x.P(i), 'small_mempool', 'waste')
            st.prove(z3.UGE(w, simp(x.WA(i) + Z(x.OS(u)) - Z(x.OS(i)))), 'post:waste is accounted')
            for f in under(st, x.q != i):
                f.prove(f.get(x.P(x.q), 'small_mempool', 'waste') == x.WA(x.q), 'post:waste of other pools')
        else:
            st.prove(r == 0, 'post:no object')
            st.prove(st.get(x.P(x.q), 'small_mempool', 'waste') == x.WA(x.q), 'post:waste unchanged')
        invariant(x, st)
    x.vc.verify('smalloc', [x.a, size], post=post)


@proof('smfree', 'P11', M, assumes=ASSUME)
def _(mk, mod):
    hs = (mod.struct_size('slab') + 7) // 8 * 8
    PTR, SL = z3.BitVec('ptr', 64), z3.BitVec('slab', 64)
    own = z3.BitVec('o', 64)

    def from_ptr(x, vc, st, a):
        st.prove(a[0] == PTR, 'pre(slab_from_ptr):the block')
        st.prove(a[1] == x.MASK(x.G(own)), 'pre(slab_from_ptr):the mask of the pool that owns the block')
        return SL

    def put(x, vc, st, a):
        st.prove(z3.And(a[0] == x.cache, a[1] == simp(PTR - hs)), 'pre(slab_put_large):the large slab of the block')
        st.prove('freed' not in st.ghost, 'pre(slab_put_large):once')
        st.ghost['freed'] = 'large'
        return None

    def free(x, vc, st, a):
        st.prove(a[0] == x.P(own), 'pre(mempool_free_slab):the pool that owns the block')
        st.prove(z3.And(a[1] == SL, a[2] == PTR), 'pre(mempool_free_slab):the slab and the block')
        st.prove('freed' not in st.ghost, 'pre(mempool_free_slab):once')
        st.ghost['freed'] = 'pool'
        inner(x, st, 'free')
        return None

    def search(x, vc, st, a):
        def small(s, f):
            r = f(s)
            i = s.ghost['i']
            # what smalloc promised for a block of this size
            s.assume(z3.ULT(own, x.n), x.G(own) == x.G(i), z3.ULE(i, own), z3.UGE(x.WA(i), z3.ZeroExt(32, x.OS(own)) - z3.ZeroExt(32, x.OS(i))))
            reg(x, s, own)
            return r
        st.prove(a[1] == size, 'pre(small_mempool_search):the size')
        return [(n, (lambda f: lambda s: small(s, f))(f) if n == 'pool' else f) for n, f in c_search(x, vc, st, a)]
    x = world(mk, contracts=dict(small_mempool_search=search, slab_from_ptr=from_ptr, slab_put_large=put, mempool_free_slab=free))
    st = x.st
    size = z3.BitVec('size', 64)
    fm = st.fam(Fam('mslab', mod.struct_size('mslab'), base=SL))
    st.put(SL, 'mslab', 'mempool', x.P(own))

    def post(st, r):
        big = z3.UGT(size, z3.ZeroExt(32, x.max32))
        st.prove(st.ghost.get('freed') is not None, 'post:the block is given back')
        st.prove(big == (st.ghost['freed'] == 'large'), 'post:large blocks, and only they, to the slab cache')
        if st.ghost['freed'] == 'pool':
            i = st.ghost['i']
            st.prove(st.get(x.P(i), 'small_mempool', 'waste') == simp(x.WA(i) - z3.ZeroExt(32, x.OS(own)) + z3.ZeroExt(32, x.OS(i))), 'post:waste')
            for f in under(st, x.q != i):
                f.prove(f.get(x.P(x.q), 'small_mempool', 'waste') == x.WA(x.q), 'post:waste of other pools')
        invariant(x, st)
    x.vc.verify('smfree', [x.a, PTR, size], post=post)


@proof('small_alloc_info', 'P11', M, assumes=ASSUME)
def _(mk, mod):
    x = world(mk, contracts=dict(small_mempool_search=c_search))
    st = x.st
    size, info = z3.BitVec('size', 64), z3.BitVec('info', 64)
    fi = st.fam(Fam('info', mod.struct_size('small_alloc_info'), base=info))
    st.foot = [('obj', fi, lambda i, off, n: True)]

    def post(st, r):
        st.prove((st.get(info, 'small_alloc_info', 'is_large') == 1) == z3.UGT(size, z3.ZeroExt(32, x.max32)), 'post:large')
        st.prove(z3.UGE(st.get(info, 'small_alloc_info', 'real_size'), size), 'post:real size')
    x.vc.verify('small_alloc_info', [x.a, z3.BitVec('ptr', 64), size, info], post=post)


@proof('small_mempool_search', 'P11', M, assumes=ASSUME + ['objsize of pool i is the smaller of the size of class i and objsize_max, that of the last pool is objsize_max (small_mempool_create)'])
def _(mk, mod):
    CS = z3.Function('CS', B, W)         # size of a class
    size = z3.BitVec('size', 64)

    def cls(x, vc, st, a):
        """P10: the smallest class not below the size"""
        st.prove(a[0] == simp(x.a + mod.field('small_alloc', 'small_class')[0]), "pre(small_class):the allocator's classes")
        s = simp(a[1])
        st.prove(z3.ZeroExt(32, s) == size, 'pre(small_class):the size')
        r = vc.fresh('class', 32)
        R = z3.ZeroExt(32, r)
        st.assume(z3.ULE(s, CS(R)), z3.Implies(r != 0, z3.ULT(CS(simp(R - 1)), s)))
        # class sizes grow
        last = simp(x.n - 1)
        st.assume(z3.Implies(z3.ULT(last, R), z3.ULE(CS(last), CS(simp(R - 1)))))
        x.cls = R
        return r
    x = world(mk, contracts=dict(small_class_calc_offset_by_size=cls))
    st = x.st
    last = simp(x.n - 1)
    mn = lambda a, b: z3.If(z3.ULT(a, b), a, b)
    st.assume(z3.ULE(x.max32, CS(last)), x.OS(last) == x.max32)
    st.foot = []

    def post(st, r):
        big = z3.UGT(size, z3.ZeroExt(32, x.max32))
        for f in under(st, big):
            f.prove(r == 0, 'post:no pool for large sizes')
        for f in under(st, z3.Not(big)):
            i = x.cls
            f.prove(r == x.P(i), 'post:the pool of the class')
            f.prove(z3.ULT(i, x.n), 'post:a pool')
            f.assume(x.OS(i) == mn(CS(i), x.max32), z3.Implies(i != 0, x.OS(simp(i - 1)) == mn(CS(simp(i - 1)), x.max32)))
            f.prove(z3.ULE(size, z3.ZeroExt(32, x.OS(i))), 'post:large enough')
            f.prove(z3.Implies(i != 0, z3.ULT(z3.ZeroExt(32, x.OS(simp(i - 1))), size)), 'post:the smallest that is')
    x.vc.verify('small_mempool_search', [x.a, size], post=post)


@proof('small_mempool_group_sweep_sparse', 'P11', M, fns=['small_mempool_group_sweep_sparse', 'small_mempool_can_be_deactivated'], assumes=ASSUME)
def _(mk, mod):
    def spare(x, vc, st, a):
        i = pool_at(x, st, a[0], 'mempool_free_spare_slab')
        st.prove(st.get(x.P(i), 'small_mempool', 'pool.spare') != 0, 'pre(mempool_free_spare_slab):a spare slab')
        inner(x, st, 'free_spare')
        return None

    def deact(x, vc, st, a):
        AM = st.ghost['AM']
        c_deactivate(x, vc, st, a)
        for i in st.ghost['idx']:
            st.assume(z3.ULE(route(x, i, AM), route(x, i, st.ghost['AM'])))       # proved for pool_masks
        return None
    x = world(mk, contracts=dict(mempool_free_spare_slab=spare, small_mempool_deactivate=deact, mempool_count=lambda x, vc, st, a: vc.fresh('count')))
    st = x.st
    waste = lambda st: st.get(x.P(x.q), 'small_mempool', 'waste')

    def inv(st, gh):
        c = gh['c']
        out = [('position', z3.And(st.local('i') == z3.Extract(31, 0, c), z3.ULE(c, x.n)))]
        if not gh.get('assumed'):
            invariant(x, st)
            st.prove(z3.ULE(route(x, x.q, x.AM0), route(x, x.q, st.ghost['AM'])), 'loop:routes only move up')
            st.prove(waste(st) == x.WA(x.q), 'loop:waste unchanged')
        return out

    def havoc(st, gh):
        c = simp(z3.ZeroExt(32, z3.BitVec('c', 32)))
        st.assume(z3.ULE(c, x.n))
        f = z3.Function(str(x.vc.fresh('AM_loop')), B, W)
        inner(x, st, 'sweep loop')
        routing(x, st, 'sweep loop', lambda g: f(simp(g)))
        st.assume(z3.ULE(route(x, x.q, x.AM0), route(x, x.q, st.ghost['AM'])))
        reg(x, st, c, z3.ULT(c, x.n))
        st.set_local('i', simp(z3.Extract(31, 0, c)))
        return dict(c=c, assumed=True)
    x.vc.loops = {('small_mempool_group_sweep_sparse', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, gh: dict(c=simp(gh['c'] + 1)), variant=lambda st, gh: x.n - gh['c'])}

    def post(st, r):
        invariant(x, st)
        st.prove(z3.ULE(route(x, x.q, x.AM0), route(x, x.q, st.ghost['AM'])), 'post:routes only move up')
        st.prove(waste(st) == x.WA(x.q), 'post:waste unchanged')
    x.vc.verify('small_mempool_group_sweep_sparse', [x.a], post=post)
