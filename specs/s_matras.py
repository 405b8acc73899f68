"""Contracts of matras (P20 - P22).

Geometry: extents of 2^le bytes, blocks of 2^lb bytes.  Block id lives in the third level extent number id >> shift2, which
the second level extent number id >> shift1 points to.  The tables of a version are families of extents: A3(k), A2(n1), R;
their cells hold the addresses of the level below, which is what makes them tables of that version."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from specs.common import under

M = 'matras'
GEO = ['extent_size is a power of two in 2^4..2^31 and block_size a power of two not above it (documented preconditions, asserted by the code)']
W = z3.BitVecSort(32)
Z = lambda v, n=64: z3.ZeroExt(n - v.size(), v)


class O:
    pass


class Real:
    """the shifts and masks as they are"""

    def __init__(x, st):
        x.le, x.lb = z3.BitVec('le', 32), z3.BitVec('lb', 32)
        st.assume(z3.UGE(x.le, 4), z3.ULE(x.le, 31), z3.ULE(x.lb, x.le))
        d = 2 * x.le - x.lb - 3
        x.s1 = simp(z3.If(z3.UGT(d, 31), z3.BitVecVal(31, 32), d))
        x.s2 = x.le - x.lb
        x.E, x.BS = bv(1, 32) << x.le, bv(1, 32) << x.lb
        x.m1, x.m2 = (bv(1, 32) << x.s1) - 1, (bv(1, 32) << x.s2) - 1
        c = 3 * x.le - x.lb - 6
        x.cap = simp(bv(1) << Z(z3.If(z3.UGT(c, 32), z3.BitVecVal(32, 32), c)))
        x.N1, x.N2 = lambda i: z3.LShR(i, x.s1), lambda i: z3.LShR(i, x.s2)
        x.M1, x.M2, x.MUL = lambda i: i & x.m1, lambda i: i & x.m2, lambda i: i * x.BS
        x.J1, x.J2 = lambda i: i * (Z(x.m1) + 1), lambda i: i * (Z(x.m2) + 1)
        x.T = lambda i, j: z3.LShR(x.J1(i) + x.J2(j), Z(x.s2))


class Abstract:
    """the same as functions of which only the lemmas geo1 and geo2 are known"""

    def __init__(x, st):
        for f in ('s1', 's2', 'E', 'BS', 'm1', 'm2'):
            setattr(x, f, z3.BitVec(dict(s1='shift1', s2='shift2', m1='mask1', m2='mask2', E='extent_size', BS='block_size')[f], 32))
        x.cap = z3.BitVec('capacity', 64)
        st.assume(*geo0(x))
        for f in ('N1', 'N2', 'M1', 'M2', 'MUL'):
            setattr(x, f, z3.Function(f, W, W))
        x.J1, x.J2 = z3.Function('J1', B, B), z3.Function('J2', B, B)
        x.T = z3.Function('T', B, B, B)

    def op(x, op, a, b):
        if a.size() != 32:
            return None
        for o, arg, f in (('lshr', x.s1, x.N1), ('lshr', x.s2, x.N2), ('and', x.m1, x.M1), ('and', x.m2, x.M2), ('mul', x.BS, x.MUL)):
            if op == o and b.eq(arg):
                return f(a)
            if op == o and op != 'lshr' and a.eq(arg):
                return f(b)
        if op == 'udiv' and a.eq(x.E) and b.eq(x.BS):
            return simp(x.m2 + 1)
        return None


def geo0(x):
    return [z3.ULE(x.s1, 31), z3.ULE(x.s2, 31), z3.UGE(x.E, 16), z3.ULE(x.E, bv(1 << 31, 32)), z3.UGE(x.BS, 1), z3.ULE(x.BS, x.E),
            z3.ULE(x.cap, bv(1 << 32)), z3.UGE(x.cap, 1), z3.ULE(x.m1, bv((1 << 31) - 1, 32)), z3.ULE(x.m2, x.E - 1), z3.ULE(x.m2, bv((1 << 31) - 1, 32))]


def geo1(x, i):
    """of an id below the capacity"""
    n1, n2, n3 = x.N1(i), x.N2(x.M1(i)), x.M2(i)
    return z3.Implies(z3.ULT(Z(i), x.cap), z3.And(
        z3.ULE(Z(n1) * 8 + 8, Z(x.E)), z3.ULE(Z(n2) * 8 + 8, Z(x.E)), z3.ULE(Z(x.MUL(n3)) + Z(x.BS), Z(x.E)), z3.ULE(n3, x.m2),
        x.M2(x.M1(i)) == n3, z3.ULE(x.M1(i), x.m1), z3.Implies(x.M1(i) == 0, n3 == 0), z3.Implies(i == 0, z3.And(x.M1(i) == 0, n1 == 0)), z3.Implies(x.M1(i) == 0, n2 == 0)))


def geo2(x, i, j):
    """of two ids below the capacity"""
    n = lambda k: (x.N1(k), x.N2(x.M1(k)))
    a, b = n(i), n(j)
    lt = z3.ULT(i, j)
    return z3.Implies(z3.And(z3.ULT(Z(i), x.cap), z3.ULT(Z(j), x.cap)), z3.And(
        (x.N2(i) == x.N2(j)) == z3.And(a[0] == b[0], a[1] == b[1]),
        z3.Implies(z3.And(x.N2(i) == x.N2(j), i != j), z3.And(x.M2(i) != x.M2(j), z3.Or(*[z3.ULE(Z(x.MUL(x.M2(p))) + Z(x.BS), Z(x.MUL(x.M2(q)))) for p, q in ((i, j), (j, i))]))),
        z3.Implies(lt, z3.And(z3.ULE(a[0], b[0]), z3.ULE(x.N2(i), x.N2(j)), z3.Implies(a[0] == b[0], z3.ULE(a[1], b[1])),
                              z3.Implies(x.M1(j) == 0, z3.ULT(a[0], b[0])), z3.Implies(x.M2(j) == 0, z3.ULT(x.N2(i), x.N2(j))))),
        z3.Implies(i == j - 1, z3.Implies(j != 0, z3.And(b[0] == z3.If(x.M1(j) != 0, a[0], a[0] + 1), x.N2(j) == z3.If(x.M2(j) != 0, x.N2(i), x.N2(i) + 1))))))


def geo3(x, i, c, t):
    """of c ids from i on, a range as matras_alloc_range takes it: c a power of two that divides i and the blocks of an extent"""
    return z3.Implies(z3.And(c != 0, c & (c - 1) == 0, z3.ULE(c - 1, x.m2), i & (c - 1) == 0, z3.ULT(t, c), z3.ULT(Z(i), x.cap)),
                      z3.And(z3.ULE(Z(i) + Z(c), x.cap), x.N2(i + t) == x.N2(i), x.MUL(x.M2(i + t)) == x.MUL(x.M2(i)) + x.MUL(t), z3.ULE(Z(x.MUL(x.M2(i))) + Z(x.MUL(t)) + Z(x.BS), Z(x.E))))


def geo4(x, i1, i2, q):
    """of a walk over a version: J1(i1), J2(i2): the first block of second level extent i1, of third level extent i2 in one;
    T(i1, i2): the number of third level extents before; q any block"""
    n1, m = Z(x.N1(q)), x.M1(q)
    n2 = Z(x.N2(m))
    b = x.J1(i1) + x.J2(i2)
    k = low(b)
    ok = z3.And(z3.ULE(i1, bv(1 << 32)), z3.ULE(i2, bv(1 << 32)), z3.ULT(Z(q), x.cap))
    t = x.T(i1, i2)
    return [x.T(bv(0), bv(0)) == 0, z3.Implies(z3.And(z3.ULE(x.J1(i1), bv(1 << 34)), ok, z3.ULE(x.J2(i2), bv(1 << 33))), x.T(i1, i2 + 1) == t + 1),
            z3.Implies(z3.And(z3.ULE(i1, bv(1 << 32)), z3.ULE(i2, bv(1 << 32)), z3.ULE(x.J2(i2), Z(x.m1) + Z(x.m2) + 1), z3.UGT(x.J2(i2), Z(x.m1))), t == x.T(i1 + 1, bv(0))),
            z3.Implies(z3.And(ok, z3.ULE(x.J2(i2), bv(1 << 33))), z3.UGT(b, Z(q)) == z3.UGT(t, Z(x.N2(q)))),
            x.J1(bv(0)) == 0, x.J2(bv(0)) == 0, x.J1(i1 + 1) == x.J1(i1) + (Z(x.m1) + 1), x.J2(i2 + 1) == x.J2(i2) + (Z(x.m2) + 1),
            z3.Implies(ok, z3.And(z3.ULE(i2, x.J2(i2)), z3.ULE(x.J1(i1), Z(q)) == z3.ULE(i1, n1), z3.ULE(x.J2(i2), Z(m)) == z3.ULE(i2, n2), Z(q) == x.J1(n1) + Z(m),
                                  z3.ULE(x.J1(i1), bv(1 << 63)), z3.ULE(x.J2(i2), bv(1 << 63)))),
            z3.Implies(z3.And(ok, z3.ULE(x.J2(i2), Z(x.m1)), z3.ULT(b, x.cap)),
                       z3.And(t == Z(x.N2(k)), Z(k) == b, Z(x.N1(k)) == i1, Z(x.N2(x.M1(k))) == i2, x.M2(k) == 0, z3.Implies(i2 == 0, x.M1(k) == 0)))]


def geometry(part, parts):
    """the lemmas, for each geometry by itself"""
    def go(mk, mod):
        vc = mk(bits=True)
        st = vc.new_state()
        x = Real(st)
        i, j, t = z3.BitVec('i', 32), z3.BitVec('j', 32), z3.BitVec('t', 32)
        i1, i2 = z3.BitVec('i1', 64), z3.BitVec('i2', 64)
        for le in range(4, 32):
            for lb in range(le + 1):
                if (le + lb) % parts != part:
                    continue
                c = z3.And(*geo0(x), geo1(x, i), geo2(x, i, j), geo3(x, i, j, t), *geo4(x, i1, i2, i), z3.UDiv(x.E, x.BS) == x.m2 + 1)
                c = z3.simplify(z3.substitute(c, (x.le, bv(le, 32)), (x.lb, bv(lb, 32))))
                st.prove(c, 'lemma:places of ids, extents of 2^%d, blocks of 2^%d' % (le, lb))
    return go


for k in range(4):
    proof('geometry_%d' % k, 'P20 P21 P22', M, fns=[], assumes=GEO)(geometry(k, 4))


@proof('matras_create', 'P20', M, assumes=GEO)
def _(mk, mod):
    vc = mk(bits=True)
    st = vc.new_state()
    x = Real(st)
    m = vc.ptr(st, 'm', mod.struct_size('matras'))
    al = vc.ptr(st, 'allocator', mod.struct_size('matras_allocator'))
    stats = z3.BitVec('stats', 64)
    st.put(al, 'matras_allocator', 'extent_size', Z(x.E))
    st.foot = [('range', m, bv(mod.struct_size('matras')))]
    dummy = []

    def post(st, r):
        g = lambda f: st.get(m, 'matras', f)
        st.prove(z3.And(g('head.block_count') == 0, g('head.prev_view') == 0, g('head.next_view') == 0, g('extent_count') == 0), 'post:empty, no views')
        st.prove(z3.And(g('block_size') == x.BS, g('extent_size') == x.E, g('allocator') == al), 'post:sizes and allocator')
        st.prove(z3.Implies(stats != 0, g('stats') == stats), 'post:statistics')
        st.prove(g('capacity') == x.cap, 'post:capacity')
        s1, s2, m1, m2 = (g(f) for f in ('shift1', 'shift2', 'mask1', 'mask2'))
        st.prove(z3.And(s1 == x.s1, s2 == x.s2, m1 == x.m1, m2 == x.m2), 'post:shifts and masks')
        # what the shifts and masks are for: every id below the capacity has its own place within the tables
        i, j = z3.BitVec('id', 32), z3.BitVec('id2', 32)
        n = lambda i: (z3.LShR(i, s1), z3.LShR(i & m1, s2), i & m2)
        ptrs = bv(1, 32) << (x.le - 3)
        st.assume(z3.ULT(Z(i), g('capacity')), z3.ULT(Z(j), g('capacity')))
        st.prove(z3.And(z3.ULT(n(i)[0], ptrs), z3.ULT(n(i)[1], ptrs), z3.ULE(n(i)[2], x.m2)), 'post:every id has a place in the tables')
        st.prove(z3.Implies(i != j, z3.Or(*[a != b for a, b in zip(n(i), n(j))])), 'post:different ids have different places')
    vc.verify('matras_create', [m, simp(x.BS), al, stats], post=post)


# ---------------------------------------------------------------- the tables

BOOL = z3.BoolSort()
ASSUME = GEO + ['the extents of a matras come from one allocator that hands out memory not in use (matras_allocator_alloc and _free by contract, proved for it)',
                'matras_id_t counts (extent_count, statistics) do not wrap']


def world(mk, contracts=None, prev=None, **kw):
    """The extents of a matras, of its read views and new ones are the members of one family; IN: used by some version, LV its
    level, PK its position in the level; C(e, off): the extent that the table e points to at offset off.  A version is a root
    and a number of blocks."""
    cs = dict(matras_allocator_alloc=c_alloc, matras_allocator_free=c_free)
    cs.update(contracts or {})
    box = []
    X = lambda: box[0]
    vc = mk(contracts={n: (lambda f: lambda vc, st, a: f(X(), vc, st, a))(f) for n, f in cs.items()}, abstract=lambda *a: X().op(*a), **kw)
    st = vc.new_state()
    x = Abstract(st)
    box.append(x)
    x.vc, x.st = vc, st
    x.mod = vc.mod
    U = z3.Function
    x.X, x.C, x.IN, x.LV, x.PK = U('X', B, B), U('C', B, B, B), U('IN', B, BOOL), U('LV', B, B), U('PK', B, W)
    x.Esz = simp(Z(x.E))
    x.f = st.fam(Fam('ext', lambda i: x.Esz, fn=x.X, minsize=16, cell=lambda st, i, off, n: cell(x, st, i, off, n)))
    for o, n in (('m', 'matras'), ('al', 'matras_allocator'), ('stats', 'matras_stats')):
        setattr(x, o, z3.BitVec(n, 64))
        st.fam(Fam(n, vc.mod.struct_size(n), base=getattr(x, o)))
    x.R, x.n = z3.BitVec('root', 64), z3.BitVec('block_count', 64)
    x.ec, x.sc, x.sr = (z3.BitVec(n, 32) for n in ('extent_count', 'stat_extents', 'stat_view_extents'))
    st.assume(z3.ULE(x.n, x.cap))
    x.root0 = simp(z3.If(x.n == 0, z3.BitVec('no_root', 64), x.X(x.R)))
    for f, v in (('head.root', x.root0), ('head.block_count', x.n), ('head.next_view', bv(0)), ('block_size', x.BS), ('extent_size', x.E),
                 ('extent_count', x.ec), ('capacity', x.cap), ('shift1', x.s1), ('shift2', x.s2), ('mask1', x.m1), ('mask2', x.m2),
                 ('allocator', x.al), ('stats', x.stats)):
        st.put(x.m, 'matras', f, v)
    st.put(x.stats, 'matras_stats', 'extent_count', x.sc)
    st.put(x.stats, 'matras_stats', 'read_view_extent_count', x.sr)
    st.ghost.update(new=[], freed=[], ids=[], nomem=False)
    return x


def cell(x, st, e, off, n):
    if n == 8 and st.must(z3.Or(x.LV(e) == 1, x.LV(e) == 2)):
        return x.X(x.C(e, off))
    return None


def o1(x, i):
    return simp(Z(x.N1(i)) * 8)


def o2(x, i):
    return simp(Z(x.N2(x.M1(i))) * 8)


def o3(x, i):
    return simp(Z(x.MUL(x.M2(i))))


def path(x, R, i):
    e2 = x.C(R, o1(x, i))
    return e2, x.C(e2, o2(x, i))


def geo(x, st, *ids):
    """the lemmas of the geometry for these ids and the others"""
    for i in ids:
        if any(i.eq(j) for j in st.ghost['ids']):
            continue
        st.assume(geo1(x, i), *[c for j in st.ghost['ids'] for c in (geo2(x, i, j), geo2(x, j, i))])
        st.ghost['ids'] = st.ghost['ids'] + [i]


def has(x, n, i):
    """a version of n blocks has the extents that block i falls into"""
    return z3.And(n != 0, z3.ULE(x.N2(i), x.N2(z3.Extract(31, 0, n - 1))))


def geo_pairs(x, st, ids, others):
    """the lemmas of the geometry for these ids, each with each of the others"""
    st.assume(*[geo1(x, i) for i in ids if not any(i.eq(j) for j in st.ghost['ids'])])
    st.ghost['ids'] = st.ghost['ids'] + list(ids)
    st.assume(*[c for i in ids for j in others if not i.eq(j) for c in (geo2(x, i, j), geo2(x, j, i))])


def extents(x, n):
    """how many extents n blocks need"""
    l = low(n - 1)
    return z3.If(n == 0, bv(0, 32), x.N1(l) + x.N2(l) + 3)


def version(x, st, R, n, i, on=True):
    """the invariant of the version (R, n), of the block i; returns the extents on the way to it"""
    e2, e3 = path(x, R, i)
    for e in (R, e2, e3):
        st.meet(x.f, e)
    c = z3.And(on, has(x, n, i))
    st.assume(z3.Implies(c, z3.And(x.IN(R), x.LV(R) == 1, x.PK(R) == 0)),
              z3.Implies(c, z3.And(x.IN(e2), x.LV(e2) == 2, x.PK(e2) == x.N1(i))),
              z3.Implies(c, z3.And(x.IN(e3), x.LV(e3) == 3, x.PK(e3) == x.N2(i))))
    return R, e2, e3


def lookup(x, st, root, i):
    """the addresses on the way to block i"""
    a2 = st.load(simp(root + o1(x, i)), 8)
    a3 = st.load(simp(a2 + o2(x, i)), 8)
    return a2, a3


def at(x, st, a, pred):
    """the extent at address a"""
    q = x.vc.place(st, a, 16)
    if q is None or q[0] is not x.f or not is_num(q[2]) or num(q[2]) != 0:
        raise Unsupported('not an extent')
    return q[1]


def c_alloc(x, vc, st, a):
    st.prove(a[0] == x.al, "pre(matras_allocator_alloc):the matras's allocator")

    def ok(s):
        e = vc.fresh('new')
        s.meet(x.f, e)
        s.assume(z3.Not(x.IN(e)), x.LV(e) == 0, *[e != o for o in s.ghost['new']])
        s.ghost['new'] = s.ghost['new'] + [e]
        return x.X(e)
    def none(s):
        s.ghost['nomem'] = True
        return bv(0)
    return [('obtained', ok), ('no memory', none)]


def c_free(x, vc, st, a):
    st.prove(a[0] == x.al, "pre(matras_allocator_free):the matras's allocator")
    e = at(x, st, a[1], None)
    st.prove(z3.And(z3.Or(x.IN(e), *[e == o for o in st.ghost['new']]), *[e != o for o in st.ghost['freed']]), 'pre(matras_allocator_free):an extent in use, not freed yet')
    st.ghost['freed'] = st.ghost['freed'] + [e]
    return None


def older(x, st, ids=[], tag='w', lemma=True):
    """any older read view (R, n), and any block i of it"""
    R, n, i = z3.BitVec(tag + '_root', 64), z3.BitVec(tag + '_count', 64), z3.BitVec(tag + '_id', 32)
    st.assume(z3.ULE(n, x.cap), z3.ULT(Z(i), n))
    geo(x, st, i, low(n - 1), *ids)
    e = version(x, st, R, n, i)
    for k in ids:
        version(x, st, R, n, k)
    if lemma:
        st.assume(grows(x, x.X(x.R), n, R, x.n, lambda k: [x.X(a) for a in path(x, x.R, k)]))
    return R, n, i, e


def low(n):
    return simp(z3.Extract(31, 0, n))


def grows(x, root, nw, Rw, n, look):
    """where the head (root, n blocks) has fewer blocks than an older view, it does not share what it writes when it grows;
    look(k): the addresses of the extents of the head that block k falls into"""
    k = low(n)
    few = z3.And(z3.ULT(n, nw), n != 0)
    ew = path(x, Rw, k)
    a = look(k)
    return z3.Implies(few, z3.And(root != x.X(Rw), z3.Implies(x.M1(k) != 0, a[0] != x.X(ew[0])), z3.Implies(x.M2(k) != 0, a[1] != x.X(ew[1]))))


def same_path(x, st, root, i, e, name):
    a2, a3 = lookup(x, st, root, i)
    st.prove(a2 == x.X(e[1]), name + ':second level')
    st.prove(a3 == x.X(e[2]), name + ':third level')


def counted(x, st, d, views=0):
    st.prove(z3.And(st.get(x.m, 'matras', 'extent_count') == x.ec + d, st.get(x.stats, 'matras_stats', 'extent_count') == x.sc + d,
                    st.get(x.stats, 'matras_stats', 'read_view_extent_count') == x.sr + views), 'post:extents are counted')


def grown(x, st, Rw, nw, n, name):
    root = st.get(x.m, 'matras', 'head.root')
    for f in under(st, z3.And(n != 0, z3.ULT(n, nw))):
        k = low(n)
        f.prove(root != x.X(Rw), name + ':root')
        for h in under(f, x.M1(k) != 0):
            h.prove(lookup(x, h, root, k)[0] != x.X(path(x, Rw, k)[0]), name + ':second level')
        for h in under(f, x.M2(k) != 0):
            h.prove(lookup(x, h, root, k)[1] != x.X(path(x, Rw, k)[1]), name + ':third level')


FEET = lambda x: [('range', x.m, bv(x.mod.struct_size('matras'))), ('range', x.stats, bv(8)), ('obj', x.f, lambda e, off, n: x.LV(e) != 3)]


@proof('alloc_internal', 'P20 P21 P22', M, fns=['matras_alloc_internal', 'matras_alloc_extent', 'matras_free_extent'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk)
    vc, st = x.vc, x.st
    st.assume(z3.ULT(x.n, x.cap))
    k = low(x.n)
    st.meet(x.f, x.R)
    # the blocks there are: the last one, and any other
    j = z3.BitVec('j', 32)
    st.assume(z3.Implies(x.n != 0, z3.ULT(Z(j), x.n)))
    geo(x, st, j, k, k - 1, k + 1)
    ej = version(x, st, x.R, x.n, j)
    version(x, st, x.R, x.n, k - 1)
    # the extents that the new block falls into, where they are there already, are those of the last block
    eh = path(x, x.R, k)
    Rw, nw, w, ew = older(x, st, [k, k + 1])
    st.foot = FEET(x)

    def post(st, r):
        g = lambda f: st.get(x.m, 'matras', f)
        new, freed = st.ghost['new'], st.ghost['freed']
        d = bv(len(new) - len(freed), 32)
        counted(x, st, d)
        st.prove(g('head.block_count') == x.n, 'post:not counted here')
        for f in under(st, z3.And(x.n != 0)):
            f.prove(f.get(x.m, 'matras', 'head.root') == x.X(x.R), 'post:the root stays')
            same_path(x, f, x.X(x.R), j, ej, 'post:no block moves')
        same_path(x, st, x.X(Rw), w, ew, 'post:a read view keeps its blocks')
        for f in under(st, r == 0):
            f.prove(z3.And(*[z3.Or(*[e == o for o in freed]) for e in new]), 'post:nothing leaks')
            f.prove(len(freed) == len(new), 'post:only new extents are freed')
            f.prove(f.ghost['nomem'], 'post:fails only without memory')
            grown(x, f, Rw, nw, x.n, 'post:ready to grow')
        for f in under(st, r != 0):
            a2, a3 = lookup(x, f, f.get(x.m, 'matras', 'head.root'), k)
            f.prove(not f.ghost['nomem'], 'post:no memory is reported')
            f.prove(len(freed) == 0, 'post:nothing is freed')
            f.prove(r == a3 + o3(x, k), 'post:the address is that of the new id')
            have = [(x.n != 0, x.X(x.R), f.get(x.m, 'matras', 'head.root')), (x.M1(k) != 0, x.X(eh[0]), a2), (x.M2(k) != 0, x.X(eh[1]), a3)]
            for c, old, now in have:
                for h in under(f, c):
                    h.prove(now == old, 'post:extents there already are used')
                for h in under(f, z3.Not(c)):
                    h.prove(z3.Or(*[now == x.X(e) for e in new]), 'post:others are new')
            need = z3.If(x.n == 0, bv(1, 32), bv(0, 32)) + z3.If(x.M1(k) == 0, bv(1, 32), bv(0, 32)) + z3.If(x.M2(k) == 0, bv(1, 32), bv(0, 32))
            f.prove(d == need, 'post:as many extents as needed')
            f.prove(extents(x, simp(x.n + 1)) == extents(x, x.n) + d, 'post:the number of extents is that for the blocks')
            grown(x, f, Rw, nw, simp(x.n + 1), 'post:ready to grow')
    vc.verify('matras_alloc_internal', [x.m], post=post)


# ---------------------------------------------------------------- touch

def with_prev(x, st, id, ids=()):
    """the head has a previous view (RP, np)"""
    x.pv = z3.BitVec('prev_view', 64)
    st.fam(Fam('prev_view', x.mod.struct_size('matras_view'), base=x.pv))
    x.RP, x.np = z3.BitVec('prev_root', 64), z3.BitVec('prev_count', 64)
    st.assume(z3.ULE(x.np, x.cap))
    st.put(x.m, 'matras', 'head.prev_view', x.pv)
    st.meet(x.f, x.RP)
    st.put(x.pv, 'matras_view', 'root', z3.If(x.np == 0, z3.BitVec('no_prev_root', 64), x.X(x.RP)))
    st.put(x.pv, 'matras_view', 'block_count', x.np)
    geo(x, st, id, low(x.np - 1), *ids)
    for i in (id,) + tuple(ids):
        version(x, st, x.RP, x.np, i)


def chain(x, st, Rw, nw, i):
    """what the head shares with an older view at block i, it shares with the previous view"""
    eh, ep, ew = path(x, x.R, i), path(x, x.RP, i), path(x, Rw, i)
    c = z3.And(has(x, nw, i), has(x, x.n, i))
    p = has(x, x.np, i)
    st.assume(z3.Implies(z3.And(x.n != 0, nw != 0, x.R == Rw), z3.And(x.np != 0, x.RP == Rw)),
              z3.Implies(z3.And(c, eh[0] == ew[0]), z3.And(x.np != 0, z3.ULE(x.N1(i), x.N1(low(x.np - 1))), ep[0] == ew[0])),
              z3.Implies(z3.And(c, eh[1] == ew[1]), z3.And(p, ep[1] == ew[1])))


def touch_proof(what):
    """what: 'no view', or with a previous view: the 'block' itself, 'others' of the main version, older 'views', room to 'grow'"""
    def go(mk, mod):
        x = world(mk)
        vc, st = x.vc, x.st
        st.assume(x.n != 0)
        st.meet(x.f, x.R)
        id, j = z3.BitVec('block', 32), z3.BitVec('j', 32)
        st.assume(z3.ULT(Z(id), x.n))
        geo(x, st, id, low(x.n - 1))
        ei = version(x, st, x.R, x.n, id)
        if what == 'no view':
            st.put(x.m, 'matras', 'head.prev_view', bv(0))
        else:
            with_prev(x, st, id)
        ids = []
        if what == 'others':
            ids = [j]
            st.assume(z3.ULT(Z(j), x.n))
        if what == 'grow':
            ids = [low(x.n)]
        geo(x, st, *ids)
        for i in ids:
            version(x, st, x.R, x.n, i)
            if what != 'no view':
                version(x, st, x.RP, x.np, i)
        if what in ('block', 'views', 'grow'):
            Rw, nw, w, ew = older(x, st, [id] + ids, lemma=what == 'grow')
            chain(x, st, Rw, nw, id)
            if what == 'views':
                version(x, st, x.R, x.n, w)
                chain(x, st, Rw, nw, w)
                version(x, st, x.RP, x.np, w)
        st.foot = FEET(x)
        s0 = st.fork()
        a0 = simp(x.X(ei[2]) + o3(x, id))

        def post(st, r):
            new = st.ghost['new']
            root = st.get(x.m, 'matras', 'head.root')
            if what in ('no view', 'block'):
                counted(x, st, bv(len(new), 32), bv(len(new), 32))
                st.prove(len(st.ghost['freed']) == 0, 'post:nothing is freed')
                st.prove(z3.And(st.get(x.m, 'matras', 'head.block_count') == x.n), 'post:as many blocks')
            if what == 'no view':
                st.prove(r == a0, 'post:without views the block stays')
                st.prove(len(new) == 0, 'post:no extents without views')
                same_path(x, st, root, id, ei, 'post:no block moves')
            if what == 'block':
                # what matras_touch_reserve counts on
                st.prove(z3.ULE(bv(len(new), 32), z3.If(z3.And(x.np != 0, x.R == x.RP), bv(3, 32), bv(2, 32))), 'post:at most two extents and the root')
                st.prove(z3.Implies(has(x, x.np, id), z3.Or(root != x.X(x.RP), st.ghost['nomem'])), 'post:the root is copied once')
                for f in under(st, r == 0):
                    f.prove(f.ghost['nomem'], 'post:fails only without memory')
                for f in under(st, r != 0):
                    f.prove(not f.ghost['nomem'], 'post:no memory is reported')
            if what == 'views':
                same_path(x, st, x.X(Rw), w, ew, 'post:a read view keeps its blocks')
                for f in under(st, x.np != 0):
                    f.prove(f.get(x.pv, 'matras_view', 'root') == x.X(x.RP), 'post:views as before')
            if what == 'others':
                ej = path(x, x.R, j)
                a2, a3 = lookup(x, st, root, j)
                for f in under(st, z3.Or(r == 0, x.N2(j) != x.N2(id))):
                    f.prove(a3 == x.X(ej[1]), 'post:other extents of blocks stay')
                st.prove(z3.Or(a3 == x.X(ej[1]), *[a3 == x.X(e) for e in new]), 'post:an extent of the version or a new one')
            if what == 'grow':
                grown(x, st, Rw, nw, x.n, 'post:ready to grow')
            if what != 'block':
                return
            # every new extent is used by the main version, what it replaces by the previous view
            b2, b3 = lookup(x, st, root, id)
            ep = path(x, x.RP, id)
            for e in new:
                st.prove(z3.Or(x.X(e) == root, x.X(e) == b2, x.X(e) == b3), 'post:no new extent is lost')
            for now, old, p in ((root, x.R, x.RP), (b2, ei[1], ep[0]), (b3, ei[2], ep[1])):
                st.prove(z3.Or(now == x.X(old), old == p), 'post:what is replaced belongs to the previous view')
            for f in under(st, r != 0):
                f.prove(r == b3 + o3(x, id), 'post:the address is that of the id')
                eid = path(x, Rw, id)[1]
                f.prove(z3.Implies(has(x, nw, id), b3 != x.X(eid)), 'post:no view uses the extent of a touched block')
                f.prove(z3.Or(b3 == x.X(ei[2]), *[b3 == x.X(e) for e in new]), 'post:an extent of that place or a new one')
                t = z3.BitVec('t', 64)
                for h in under(f, z3.ULT(t, Z(x.BS))):
                    h.prove(h.load(simp(r + t), 1) == s0.load(simp(a0 + t), 1), 'post:the same content')
                for h in under(f, z3.Not(has(x, x.np, id))):
                    h.prove(len(h.ghost['new']) == 0, 'post:nothing to copy')
        vc.verify('matras_touch', [x.m, id], post=post)
    return go


for k in ('no view', 'block', 'others', 'views', 'grow'):
    proof('touch_%s' % k.replace(' ', '_'), {'no view': 'P20 P21 P22', 'block': 'P21 P22', 'others': 'P20 P22'}.get(k, 'P21'), M, fns=['matras_touch', 'matras_touch_no_check', 'matras_needs_touch', 'matras_get', 'matras_copy_read_view_extent'],
          assumes=ASSUME)(touch_proof(k))


# ---------------------------------------------------------------- lookups

@proof('matras_get', 'P20', M, fns=['matras_get', 'matras_view_get', 'matras_view_get_no_check'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk)
    vc, st = x.vc, x.st
    st.meet(x.f, x.R)
    i, j = z3.BitVec('id', 32), z3.BitVec('other', 32)
    st.assume(z3.ULT(Z(i), x.n), z3.ULT(Z(j), x.n))
    geo(x, st, i, j, low(x.n - 1))
    ei = version(x, st, x.R, x.n, i)
    ej = version(x, st, x.R, x.n, j)
    st.foot = []

    def post(st, r):
        st.prove(r == x.X(ei[2]) + o3(x, i), 'post:the block of the id')
        st.prove(z3.ULE(o3(x, i), x.Esz - Z(x.BS)), 'post:the block lies in its extent')
        st.prove(z3.Implies(i != j, z3.Or(ei[2] != ej[2], z3.ULE(o3(x, i) + Z(x.BS), o3(x, j)), z3.ULE(o3(x, j) + Z(x.BS), o3(x, i)))), 'post:blocks of different ids are disjoint')
    vc.verify('matras_get', [x.m, i], post=post, st=st.fork())
    # through a view that is not open: the main version; through an open one: that view
    v = z3.BitVec('view', 64)
    st.fam(Fam('view', mod.struct_size('matras_view'), base=v))
    st.put(v, 'matras_view', 'next_view', bv(0))
    vc.verify('matras_view_get', [x.m, v, i], post=post, st=st.fork())
    s = st.fork()
    Rv, nv, k = z3.BitVec('view_root', 64), z3.BitVec('view_count', 64), z3.BitVec('view_id', 32)
    s.assume(z3.ULE(nv, x.cap), z3.ULT(Z(k), nv))
    geo(x, s, k, low(nv - 1))
    ev = version(x, s, Rv, nv, k)
    for f, w in (('next_view', z3.BitVec('next', 64)), ('root', x.X(Rv)), ('block_count', nv)):
        s.put(v, 'matras_view', f, w)
    s.assume(z3.BitVec('next', 64) != 0)
    vc.verify('matras_view_get', [x.m, v, k], post=lambda st, r: st.prove(r == x.X(ev[2]) + o3(x, k), 'post:the block of the view'), st=s)


# ---------------------------------------------------------------- allocation of ids

def c_internal(x, vc, st, a):
    st.prove(z3.And(a[0] == x.m, z3.ULT(st.get(x.m, 'matras', 'head.block_count'), x.cap)), 'pre(matras_alloc_internal):room for one more')
    rt, ec = x.mod.field('matras', 'head.root')[0], x.mod.field('matras', 'extent_count')[0]

    def keep(st, f, i, off, n):
        n = n if isinstance(n, int) else 1
        if f.name == 'm':
            return is_num(off) and all(num(off) + n <= o or num(off) >= o + w for o, w in ((rt, 8), (ec, 4)))
        return f.name not in ('ext', 'stats')
    st.objhavoc(Havoc(keep=keep), 'alloc_internal')
    r = vc.fresh('block')
    return [('obtained', lambda s: (s.assume(r != 0), r)[1]), ('no memory', lambda s: bv(0))]


def alloc_proof(ranged):
    def go(mk, mod):
        x = world(mk, contracts=dict(matras_alloc_internal=c_internal))
        vc, st = x.vc, x.st
        st.assume(z3.ULE(x.cap, bv(1 << 32)))
        idp = z3.BitVec('result', 64)
        st.fam(Fam('result', 4, base=idp, align=4))
        st.put(x.m, 'matras', 'head.prev_view', z3.BitVec('prev_view', 64))
        c, t = z3.BitVec('range_count', 32), z3.BitVec('t', 32)
        k = low(x.n)
        if ranged:
            st.assume(c != 0, c & (c - 1) == 0, z3.ULE(c - 1, x.m2), z3.Extract(31, 0, x.n) & (c - 1) == 0, z3.ULT(t, c))
            # the same, as the asserts of the code have it
            st.assume(z3.URem(x.n, Z(c)) == 0, z3.URem(x.m2 + 1, c) == 0)
            st.assume(geo3(x, k, c, t))
        st.foot = [('range', x.m, bv(mod.struct_size('matras'))), ('range', idp, bv(4))]
        id0 = st.load(idp, 4)

        def post(st, r):
            g = lambda f: st.get(x.m, 'matras', f)
            d = Z(c) if ranged else bv(1)
            for f in under(st, r == 0):
                f.prove(z3.And(f.get(x.m, 'matras', 'head.block_count') == x.n), 'post:as many blocks')
            for f in under(st, r != 0):
                f.prove(f.get(x.m, 'matras', 'head.block_count') == x.n + d, 'post:that many more blocks')
                f.prove(f.load(idp, 4) == k, 'post:the next id')
                f.prove(z3.ULE(x.n + d, x.cap), 'post:within the capacity')
                if ranged:
                    f.prove(z3.And(x.N2(k + t) == x.N2(k), o3(x, k + t) == o3(x, k) + Z(x.MUL(t))), 'post:the ids of the range are one block after another')
            for f in under(st, z3.UGT(x.n + d, x.cap)):
                f.prove(r == 0, 'post:no ids beyond the capacity')
        vc.verify('matras_alloc_range' if ranged else 'matras_alloc', [x.m, idp] + ([c] if ranged else []), post=post)
    return go


proof('matras_alloc', 'P20 P22', M, assumes=ASSUME)(alloc_proof(False))
proof('matras_alloc_range', 'P20 P22', M, assumes=ASSUME + ['range_count is a power of two that divides block_count and the number of blocks of an extent (documented; asserted by the code)'])(alloc_proof(True))


# ---------------------------------------------------------------- deallocation

def dealloc_proof(what, ranged):
    """what: 'none' (no view), 'head' the main version, 'views' an older view"""
    def go(mk, mod):
        def only_ok(x, vc, st, a):
            return c_alloc(x, vc, st, a)[:1]
        x = world(mk, contracts=dict(matras_allocator_alloc=only_ok))
        vc, st = x.vc, x.st
        c = z3.BitVec('range_count', 32) if ranged else bv(1, 32)
        st.assume(x.n != 0)
        if ranged:
            st.assume(c != 0, z3.ULE(Z(c), x.n), z3.URem(x.n, Z(c)) == 0, z3.URem(x.m2 + 1, c) == 0)
        id, j = z3.BitVec('id', 32), z3.BitVec('j', 32)
        st.assume(Z(id) == x.n - Z(c))
        st.meet(x.f, x.R)
        geo(x, st, id, low(x.n - 1), *([id - 1] if what == 'none' else []))
        if ranged:
            st.assume(geo3(x, id, c, c - 1), geo3(x, id, c, bv(0, 32)), low(x.n - 1) == id + (c - 1), c & (c - 1) == 0, z3.ULE(c - 1, x.m2), id & (c - 1) == 0)
        ei = version(x, st, x.R, x.n, id)
        ids = []
        if what != 'views':
            ids = [j]
            st.assume(z3.Implies(id != 0, z3.ULT(j, id)))
        geo(x, st, *ids)
        for i in ids:
            version(x, st, x.R, x.n, i)
        if what == 'none':
            st.put(x.m, 'matras', 'head.prev_view', bv(0))
        else:
            with_prev(x, st, id)
            for i in ids:
                version(x, st, x.RP, x.np, i)
        if what == 'views':
            Rw, nw, w, ew = older(x, st, [id], lemma=False)
            chain(x, st, Rw, nw, id)
            chain(x, st, Rw, nw, w)
            version(x, st, x.R, x.n, w)
            version(x, st, x.RP, x.np, w)
        st.foot = FEET(x)

        def post(st, r):
            new, freed = st.ghost['new'], st.ghost['freed']
            root = st.get(x.m, 'matras', 'head.root')
            d = bv(len(new) - len(freed), 32)
            counted(x, st, d, bv(len(new), 32))
            st.prove(st.get(x.m, 'matras', 'head.block_count') == Z(id), 'post:the last blocks are gone')
            if what != 'views':
                # the extents only the freed blocks needed are freed, of the version as it is after the touch
                for h in under(st, id != 0):
                    ej = path(x, x.R, j)
                    a2, a3 = lookup(x, h, root, j)
                    h.prove(z3.And(*[z3.And(root != x.X(e), a2 != x.X(e), a3 != x.X(e)) for e in freed]), 'post:what other blocks need stays')
                    for k in under(h, x.N2(j) != x.N2(id)):
                        k.prove(a3 == x.X(ej[1]), 'post:no other block moves')
                b2, b3 = lookup(x, st, root, id)
                for cnd, e in ((id == 0, root), (x.M1(id) == 0, b2), (x.M2(id) == 0, b3)):
                    for h in under(st, cnd):
                        h.prove(z3.Or(*[e == x.X(o) for o in freed]), 'post:an extent without blocks is freed')
                    for h in under(st, z3.Not(cnd)):
                        h.prove(z3.And(*[e != x.X(o) for o in freed]), 'post:an extent with blocks is not freed')
                if what == 'none':
                    st.prove(extents(x, Z(id)) == extents(x, x.n) + d, 'post:the number of extents is that for the blocks')
            else:
                same_path(x, st, x.X(Rw), w, ew, 'post:a read view keeps its blocks')
                st.prove(z3.And(*[z3.And(e != Rw, e != ew[1], e != ew[2]) for e in freed]), 'post:no extent of a view is freed')
                grown(x, st, Rw, nw, Z(id), 'post:ready to grow')
        vc.verify('matras_dealloc_range' if ranged else 'matras_dealloc', [x.m] + ([c] if ranged else []), post=post)
    return go


for r in (False, True):
    for k in ('none', 'head', 'views'):
        proof('dealloc%s_%s' % ('_range' if r else '', k), 'P21' if k == 'views' else 'P20', M, fns=['matras_dealloc_range' if r else 'matras_dealloc'],
              assumes=ASSUME + ['the touch of the last block in matras_dealloc obtains its extents (the opposite is the known finding of P22)'])(dealloc_proof(k, r))


# ---------------------------------------------------------------- read views

def has2(x, n, i):
    return z3.And(n != 0, z3.ULE(x.N1(i), x.N1(low(n - 1))))


def shares(x, Ra, na, Rb, nb, i):
    """do two versions share the root, the extents that block i falls into?"""
    a, b = path(x, Ra, i), path(x, Rb, i)
    return (z3.And(na != 0, nb != 0, Ra == Rb), z3.And(has2(x, na, i), has2(x, nb, i), a[0] == b[0]), z3.And(has(x, na, i), has(x, nb, i), a[1] == b[1]))


def privately(x, Ra, na, Rb, nb):
    """the newer version a, where it has fewer blocks than b, does not share what it would grow into"""
    k = low(na)
    a, b = path(x, Ra, k), path(x, Rb, k)
    return z3.Implies(z3.And(na != 0, z3.ULT(na, nb)), z3.And(Ra != Rb, z3.Implies(x.M1(k) != 0, a[0] != b[0]), z3.Implies(x.M2(k) != 0, a[1] != b[1])))


def destroy_view(head, prev):
    """destroying a view whose next view is the head or a view, with or without a previous one"""
    def go(mk, mod):
        x = world(mk, contracts=dict(matras_allocator_free=free))
        vc, st = x.vc, x.st
        F = lambda f: mod.field('matras_view', f)[0]
        szv = mod.struct_size('matras_view')
        x.v = z3.BitVec('view', 64)
        fv = st.fam(Fam('view', szv, base=x.v))
        x.Rv, x.nv = z3.BitVec('view_root', 64), z3.BitVec('view_count', 64)
        x.vs = [(x.Rv, x.nv)]
        x.pv = bv(0)
        if prev:
            x.pv = z3.BitVec('prev_view', 64)
            st.fam(Fam('prev_view', szv, base=x.pv))
            x.RP, x.np = z3.BitVec('prev_root', 64), z3.BitVec('prev_count', 64)
            x.vs.append((x.RP, x.np))
        if head:
            x.nx, x.RN, x.nn = x.m, x.R, x.n
        else:
            x.nx = z3.BitVec('next_view', 64)
            st.fam(Fam('next_view', szv, base=x.nx))
            x.RN, x.nn = z3.BitVec('next_root', 64), z3.BitVec('next_count', 64)
        x.vs.append((x.RN, x.nn))

        def view(a, R, n, pv, nx, tag):
            st.assume(z3.ULE(n, x.cap))
            st.meet(x.f, R)
            for f, w in (('root', z3.If(n == 0, z3.BitVec('no_root_' + tag, 64), x.X(R))), ('block_count', n), ('prev_view', pv), ('next_view', nx)):
                st.put(a, 'matras_view', f, w)
        view(x.v, x.Rv, x.nv, x.pv, x.nx, 'v')
        view(x.nx, x.RN, x.nn, x.v, bv(0) if head else z3.BitVec('after', 64), 'n')
        if prev:
            view(x.pv, x.RP, x.np, z3.BitVec('before', 64), x.v, 'p')
        lasts = [low(n - 1) for _, n in x.vs]
        x.ids = []
        q = x.q = z3.BitVec('q', 32)
        st.assume(z3.Implies(x.nv != 0, z3.ULT(Z(q), x.nv)), z3.ULT(Z(q), x.cap))
        ks = [low(x.nn)] + ([low(x.nv)] if prev == 'more' else [])
        geo_pairs(x, st, lasts, [])
        geo_pairs(x, st, ks, lasts)
        geo_pairs(x, st, [q], lasts + ks)
        st.assume(privately(x, x.RN, x.nn, x.Rv, x.nv))
        if prev:
            st.assume(privately(x, x.Rv, x.nv, x.RP, x.np), privately(x, x.RN, x.nn, x.RP, x.np))
        if prev:
            # one proof for each relation to the previous view
            st.assume({'more': z3.UGE(x.np, x.nv), 'empty': z3.And(x.np == 0, x.nv != 0), 'apart_long': z3.And(x.np != 0, z3.ULT(x.np, x.nv), x.RP != x.Rv, z3.UGE(x.nn, x.nv)),
                       'apart_short': z3.And(x.np != 0, z3.ULT(x.np, x.nv), x.RP != x.Rv, z3.ULT(x.nn, x.nv)),
                       'shared': z3.And(z3.ULT(x.np, x.nv), x.np != 0, x.RP == x.Rv)}[prev])
        x.at = lambda s, b: [version(x, s, R, n, b) for R, n in x.vs]
        for b in [q] + ks:
            x.at(st, b)

        def keeps(s, i):
            """not used by a remaining neighbour: to be freed"""
            un = [z3.BoolVal(True)] * 3
            for R, n in x.vs[1:]:
                sh = shares(x, x.Rv, x.nv, R, n, i)
                un = [z3.And(u, z3.Not(h)) for u, h in zip(un, sh)]
            return un
        x.un = keeps(st, q)
        eq = (x.Rv,) + path(x, x.Rv, q)
        x.eq = eq
        st.ghost.update(fr=(z3.BoolVal(False),) * 3, nf=bv(0, 32), i1=bv(0), i2=bv(0))
        n1, n2 = Z(x.N1(q)), Z(x.N2(x.M1(q)))
        lo = mod.field('matras', 'extent_count')[0]
        st.foot = [('range', x.m, bv(mod.struct_size('matras'))), ('range', x.stats, bv(8)), ('range', x.v, bv(szv)), ('range', x.nx, bv(szv))] + ([('range', x.pv, bv(szv))] if prev else [])
        walk(x, st, q, bv(0), bv(0), lasts)

        def gone(st, i1, i2):
            """what of the way to q is freed when the walk is at (i1, i2)"""
            past = z3.ULT(n1, i1) if i2 is None else z3.Or(z3.ULT(n1, i1), z3.And(n1 == i1, z3.ULT(n2, i2)))
            return [('the root is not freed yet', z3.Not(st.ghost['fr'][0])),
                    ('second level', st.ghost['fr'][1] == z3.And(z3.ULT(n1, i1), x.un[1])), ('third level', st.ghost['fr'][2] == z3.And(past, x.un[2])),
                    ('counts', z3.And(st.get(x.m, 'matras', 'extent_count') == x.ec - st.ghost['nf'], st.get(x.stats, 'matras_stats', 'extent_count') == x.sc - st.ghost['nf'],
                                      st.get(x.stats, 'matras_stats', 'read_view_extent_count') == x.sr - st.ghost['nf']))]

        def havoc(st, i1, i2, tag):
            def keep(st, f, i, off, n):
                n = n if isinstance(n, int) else 1
                if f is x.f:
                    return z3.Or(x.LV(i) == 1, z3.And(x.LV(i) == 2, z3.UGE(Z(x.PK(i)), i1)))
                if f.name == 'm':
                    return is_num(off) and (num(off) + n <= lo or num(off) >= lo + 4)
                return f.name != 'stats'
            st.objhavoc(Havoc(keep=keep), tag)
            st.ghost['fr'] = tuple(z3.Bool('fr%d_%s' % (k, tag)) for k in range(3))
            nf = st.ghost['nf'] = z3.BitVec('nf_' + tag, 32)
            for s, f, v in ((x.m, ('matras', 'extent_count'), x.ec), (x.stats, ('matras_stats', 'extent_count'), x.sc), (x.stats, ('matras_stats', 'read_view_extent_count'), x.sr)):
                st.put(s, f[0], f[1], v - nf)
            st.ghost.update(i1=i1, i2=i2)
            walk(x, st, q, i1, i2, lasts)
            for b in (x.J1(i1), x.J1(i1) + x.J2(i2)):
                b = low(b)
                geo_pairs(x, st, [b], lasts + ks + [q])
                x.at(st, b)

        lim = lambda i, n: z3.ULE(i, Z(n) + 1)

        def inv1(st, g):
            i1 = st.local('i1')
            walk(x, st, q, i1, bv(0), lasts)
            return [('block', st.local('j1') == x.J1(i1)), ('bound', lim(i1, x.N1(lasts[0])))] + gone(st, i1, None)

        def havoc1(st, g):
            i1 = z3.BitVec('i1', 64)
            st.assume(lim(i1, x.N1(lasts[0])))
            st.set_local('i1', i1)
            st.set_local('j1', x.J1(i1))
            havoc(st, i1, bv(0), 'outer')
            return {}

        def inv2(st, g):
            i1, i2 = st.ghost['i1'], st.local('i2')
            walk(x, st, q, i1, i2, lasts)
            return [('block', st.local('j2') == x.J2(i2)), ('outer', st.local('i1') == i1), ('bound of j2', z3.ULE(x.J2(i2), Z(x.m1) + Z(x.m2) + 1)), ('bound of i2', z3.ULE(i2, Z(x.m1) + 1))] + gone(st, i1, i2)

        def havoc2(st, g):
            i1, i2 = st.ghost['i1'], z3.BitVec('i2', 64)
            st.assume(z3.ULE(i2, Z(x.m1) + 1))
            st.set_local('i2', i2)
            st.set_local('j2', x.J2(i2))
            havoc(st, i1, i2, 'inner')
            return {}
        fn = 'matras_destroy_read_view'
        vc.loops = {(fn, 0): Loop(inv1, havoc=havoc1, variant=lambda st, g: bv(1 << 33) - st.local('i1')),
                    (fn, 1): Loop(inv2, havoc=havoc2, variant=lambda st, g: bv(1 << 33) - st.local('i2'))}

        def post(st, r):
            g = lambda a, f: st.get(a, 'matras_view', f)
            st.prove(g(x.v, 'next_view') == 0, 'post:the view is not open any more')
            st.prove(g(x.nx, 'prev_view') == x.pv, 'post:the next view has the previous one before it')
            if prev:
                st.prove(g(x.pv, 'next_view') == x.nx, 'post:the previous view has the next one after it')
            fr = st.ghost['fr']
            for f in under(st, x.nv != 0):
                for k, w in enumerate(('root', 'second level', 'third level')):
                    f.prove(fr[k] == x.un[k], 'post:exactly what no neighbour uses is freed:' + w)
            for f in under(st, x.nv == 0):
                f.prove(z3.Not(z3.Or(*fr)), 'post:nothing to free')
            nf = st.ghost['nf']
            st.prove(z3.And(st.get(x.m, 'matras', 'extent_count') == x.ec - nf, st.get(x.stats, 'matras_stats', 'extent_count') == x.sc - nf,
                            st.get(x.stats, 'matras_stats', 'read_view_extent_count') == x.sr - nf), 'post:extents are counted')
        vc.verify(fn, [x.m, x.v], post=post)

    def free(x, vc, st, a):
        st.prove(a[0] == x.al, "pre(matras_allocator_free):the matras's allocator")
        e = at(x, st, a[1], None)
        i1, i2 = st.ghost['i1'], st.ghost['i2']
        b = low(x.J1(i1) + x.J2(i2))
        p = path(x, x.Rv, b)
        p1 = path(x, x.Rv, low(x.J1(i1)))
        st.prove(z3.Or(e == x.Rv, e == p1[0], e == p[1]), 'pre(matras_allocator_free):an extent of the view')
        fr = st.ghost['fr']
        st.prove(z3.And(*[z3.Implies(e == o, z3.Not(f)) for o, f in zip(x.eq, fr)]), 'pre(matras_allocator_free):not freed yet')
        st.ghost['fr'] = tuple(simp(z3.Or(f, e == o)) for o, f in zip(x.eq, fr))
        st.ghost['nf'] = simp(st.ghost['nf'] + 1)
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: i != e if f is x.f else True), 'free')
        return None
    return go


def walk(x, st, q, i1, i2, lasts):
    i1, i2 = simp(i1), simp(i2)
    for p in (q, lasts[0]):
        st.assume(*geo4(x, i1, i2, p))


for h in (False, True):
    for k in ('', 'more', 'empty', 'apart_long', 'apart_short', 'shared'):
        proof('destroy_view_%s%s' % ('head' if h else 'view', '_prev_' + k if k else ''), 'P21', M, thorough=bool(k) and not (h and k in ('empty', 'shared')), fns=['matras_destroy_read_view', 'matras_free_read_view_extent'],
              assumes=ASSUME)(destroy_view(h, k))


@proof('create_view', 'P21', M, fns=['matras_create_read_view', 'matras_head_read_view', 'matras_is_read_view_created'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk)
    vc, st = x.vc, x.st
    szv = mod.struct_size('matras_view')
    v = z3.BitVec('view', 64)
    st.fam(Fam('view', szv, base=v))
    pv = z3.BitVec('prev_view', 64)
    st.fam(Fam('prev_view', szv, base=pv))
    st.assume(x.n != 0)
    for some in (False, True):
        s = st.fork()
        s.put(x.m, 'matras', 'head.prev_view', pv if some else bv(0))
        s.foot = [('range', x.m, bv(mod.struct_size('matras'))), ('range', v, bv(szv)), ('range', pv, bv(szv))]
        q0 = z3.BitVec('before', 64)
        if some:
            for f, w in (('root', z3.BitVec('p_root', 64)), ('block_count', z3.BitVec('p_count', 64)), ('prev_view', q0), ('next_view', x.m)):
                s.put(pv, 'matras_view', f, w)

        def post(st, r, some=some):
            g = lambda a, f: st.get(a, 'matras_view', f)
            st.prove(z3.And(g(v, 'root') == x.X(x.R), g(v, 'block_count') == x.n), 'post:the view has the tables and the blocks of the main version')
            st.prove(z3.And(g(x.m, 'root') == x.X(x.R), g(x.m, 'block_count') == x.n, g(x.m, 'next_view') == 0), 'post:the main version is as it was')
            st.prove(z3.And(g(v, 'next_view') == x.m, g(x.m, 'prev_view') == v, g(v, 'prev_view') == (pv if some else 0)), 'post:the view is the one before the main version')
            if some:
                st.prove(z3.And(g(pv, 'next_view') == v, g(pv, 'prev_view') == q0, g(pv, 'root') == z3.BitVec('p_root', 64), g(pv, 'block_count') == z3.BitVec('p_count', 64)), 'post:after the previous one')
            st.prove(z3.And(st.get(x.m, 'matras', 'extent_count') == x.ec), 'post:no extents')
        vc.verify('matras_create_read_view', [x.m, v], post=post, st=s)
    vc.verify('matras_head_read_view', [v], post=lambda st, r: st.prove(st.get(v, 'matras_view', 'next_view') == 0, 'post:not open'), st=st.fork())
    s = st.fork()
    nx = s.get(v, 'matras_view', 'next_view')
    vc.verify('matras_is_read_view_created', [v], post=lambda st, r: st.prove((r != 0) == (nx != 0), 'post:whether it is open'), st=s)


# ---------------------------------------------------------------- the extent allocator

def allocator(mk, contracts=None):
    """x.N extents in reserve: R(0) .. R(N-1), the last one first"""
    x = O()

    def ind(vc, st, tgt, args, where=None):
        st.prove(args[0] == x.al, 'pre(callback):the allocator')
        if tgt.eq(x.fa):
            def ok(s):
                k = len(s.ghost['new'])
                e = x.new[k]
                s.assume(e != 0)
                s.ghost['new'] = s.ghost['new'] + [e]
                s.ghost['calls'] = s.ghost['calls'] + 1
                return e

            def none(s):
                s.ghost['calls'] = s.ghost['calls'] + 1
                s.ghost['nomem'] = True
                return bv(0)
            return [('obtained', ok), ('no memory', none)]
        if tgt.eq(x.ff):
            st.ghost['freed'] = st.ghost['freed'] + [simp(args[1])]
            if x.hook:
                x.hook(st, args[1])
            return None
        raise Unsupported('callback')
    x.hook = None
    vc = x.vc = mk(indirect=ind, contracts=contracts or {})
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    x.al, x.fa, x.ff, x.N = (z3.BitVec(n, 64) for n in ('allocator', 'alloc_func', 'free_func', 'N'))
    x.E = z3.BitVec('extent_size', 64)
    st.assume(z3.UGE(x.E, 16), z3.ULE(x.E, bv(1 << 31)), z3.ULE(x.N, bv((1 << 31) - 1)), x.fa != x.ff)
    x.R = z3.Function('RES', B, B)
    x.res = st.fam(Fam('reserve', lambda i: x.E, fn=x.R, guard=lambda i: z3.ULT(i, x.N), minsize=16,
                       cell=lambda st, i, off, n: z3.If(i == 0, bv(0), x.R(simp(i - 1))) if n == 8 and is_num(off) and num(off) == 0 else None))
    x.fam = st.fam(Fam('allocator', mod.struct_size('matras_allocator'), base=x.al))
    x.new = []
    for k in range(2):
        e = z3.BitVec('fresh%d' % k, 64)
        st.fam(Fam('fresh%d' % k, lambda i: x.E, base=e, minsize=16))
        x.new.append(e)
    for f, w in (('extent_size', x.E), ('alloc_func', x.fa), ('free_func', x.ff), ('reserved_extents', top(x, x.N)), ('num_reserved_extents', z3.Extract(31, 0, x.N))):
        st.put(x.al, 'matras_allocator', f, w)
    st.ghost.update(new=[], freed=[], calls=0, nomem=False)
    st.foot = [('range', x.al, bv(mod.struct_size('matras_allocator')))]
    return x


def top(x, n):
    return simp(z3.If(n == 0, bv(0), x.R(simp(n - 1))))


def reserve_is(x, st, n, name):
    g = lambda f: st.get(x.al, 'matras_allocator', f)
    st.prove(g('num_reserved_extents') == z3.Extract(31, 0, n), name + ':count')
    st.prove(g('reserved_extents') == top(x, n), name + ':list')


@proof('allocator_alloc_free', 'P22', M, fns=['matras_allocator_alloc', 'matras_allocator_free', 'matras_allocator_create'])
def _(mk, mod):
    a = allocator(mk)
    vc2, s2 = a.vc, a.st

    def post2(st, r):
        gh = st.ghost
        for f in under(st, a.N != 0):
            f.prove(gh['calls'] == 0, 'post:no memory is asked for while there is a reserve')
            f.prove(r == a.R(simp(a.N - 1)), 'post:an extent of the reserve')
            reserve_is(a, f, simp(a.N - 1), 'post:the rest of the reserve')
        for f in under(st, a.N == 0):
            f.prove(gh['calls'] == 1, 'post:memory is asked for once')
            f.prove(r == (gh['new'][0] if gh['new'] else 0), 'post:what the callback gives')
            reserve_is(a, f, a.N, 'post:no reserve')
    vc2.verify('matras_allocator_alloc', [a.al], post=post2, st=s2.fork())
    ext = z3.BitVec('ext', 64)

    def post3(st, r):
        st.prove(len(st.ghost['freed']) == 1 and bool(st.ghost['freed'][0].eq(ext)), 'post:the extent is given back, once')
        reserve_is(a, st, a.N, 'post:the reserve stays')
    vc2.verify('matras_allocator_free', [a.al, ext], post=post3, st=s2.fork())
    es, af, ff = (z3.BitVec(n, 64) for n in ('es', 'af', 'ff'))

    def post4(st, r):
        g = lambda f: st.get(a.al, 'matras_allocator', f)
        st.prove(z3.And(g('extent_size') == es, g('alloc_func') == af, g('free_func') == ff, g('reserved_extents') == 0, g('num_reserved_extents') == 0), 'post:no reserve')
    vc2.verify('matras_allocator_create', [a.al, es, af, ff], post=post4, st=s2.fork())


@proof('allocator_reserve', 'P22', M, fns=['matras_allocator_reserve'])
def _(mk, mod):
    """the reserve is a list: extents reserved so far are R(0) .. R(c-1) with c the number of them"""
    x = allocator(mk)
    vc, st = x.vc, x.st
    want = z3.BitVec('count', 32)
    st.assume(want >= 0)
    # the family covers what is to come: its members beyond N are extents not obtained yet
    x.res.guard = lambda i: z3.ULT(i, bv(1 << 31))
    x.res.cell = lambda st, i, off, n: None
    st.ghost['c'] = x.N
    st.foot = [('range', x.al, bv(mod.struct_size('matras_allocator'))), ('obj', x.res, lambda i, off, n: z3.UGE(i, x.N))]

    def ind(vc, st, tgt, args, where=None):
        st.prove(args[0] == x.al, 'pre(callback):the allocator')
        st.prove(tgt == x.fa, 'the callback that gives extents')

        def ok(s):
            s.meet(x.res, s.ghost['c'])
            s.ghost['got'] = s.ghost['got'] + [s.ghost['c']]
            return x.R(s.ghost['c'])

        def none(s):
            s.ghost['nomem'] = True
            return bv(0)
        return [('obtained', ok), ('no memory', none)]
    vc.indirect = ind
    st.ghost['got'] = []
    lo = lambda c: z3.Extract(31, 0, c)

    def inv(st, g):
        c = st.ghost['c'] if not st.ghost['got'] else simp(st.ghost['c'] + 1)
        cs = [('count', st.get(x.al, 'matras_allocator', 'num_reserved_extents') == lo(c)), ('list', st.get(x.al, 'matras_allocator', 'reserved_extents') == top(x, c)),
              ('bound', z3.Or(c == x.N, z3.And(z3.UGT(c, x.N), z3.ULE(c, Z(want)))))]
        if st.ghost['got']:
            cs.append(('one at a time', z3.BoolVal(len(st.ghost['got']) == 1)))
            cs.append(('linked to the rest', st.load(x.R(st.ghost['c']), 8) == top(x, st.ghost['c'])))
        return cs

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, bv((1 << 31) - 1)), z3.UGE(c, x.N))
        st.ghost['c'] = c
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: z3.Or(z3.ULT(i, x.N), z3.UGE(i, c)) if f is x.res else f is not x.fam), 'reserve')
        for f, w in (('extent_size', x.E), ('alloc_func', x.fa), ('free_func', x.ff), ('reserved_extents', top(x, c)), ('num_reserved_extents', lo(c))):
            st.put(x.al, 'matras_allocator', f, w)
        return {}

    def post(st, r):
        c = st.ghost['c']
        for f in under(st, r == 0):
            f.prove(z3.UGE(c, Z(want)), 'post:as many as wanted')
            f.prove(not f.ghost['nomem'], 'post:success')
        for f in under(st, r != 0):
            f.prove(f.ghost['nomem'], 'post:fails only without memory')
        reserve_is(x, st, c, 'post:all that was obtained is in the reserve')
        st.prove(z3.UGE(c, x.N), 'post:nothing of the reserve is lost')
    vc.loops = {('matras_allocator_reserve', 0): Loop(inv, havoc=havoc, variant=lambda st, g: bv(1 << 31) - (st.ghost['c'] if not st.ghost['got'] else st.ghost['c'] + 1))}
    vc.verify('matras_allocator_reserve', [x.al, want], post=post)


@proof('allocator_destroy', 'P22', M, fns=['matras_allocator_destroy'])
def _(mk, mod):
    x = allocator(mk)
    vc, st = x.vc, x.st
    st.ghost['c'] = x.N

    def hook(st, e):
        c = st.ghost['c']
        st.prove(z3.And(c != 0, e == x.R(simp(c - 1))), 'pre(callback):each extent of the reserve once')
        st.ghost['c'] = simp(c - 1)
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: z3.ULT(i, c - 1) if f is x.res else True), 'freed')
    x.hook = hook

    def inv(st, g):
        c = st.ghost['c']
        return [('count', st.get(x.al, 'matras_allocator', 'num_reserved_extents') == z3.Extract(31, 0, c)), ('list', st.get(x.al, 'matras_allocator', 'reserved_extents') == top(x, c)),
                ('bound', z3.ULE(c, x.N))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.ghost['c'] = c
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: z3.ULT(i, c) if f is x.res else f is not x.fam), 'destroy')
        for f, w in (('extent_size', x.E), ('alloc_func', x.fa), ('free_func', x.ff), ('reserved_extents', top(x, c)), ('num_reserved_extents', z3.Extract(31, 0, c))):
            st.put(x.al, 'matras_allocator', f, w)
        st.meet(x.res, simp(c - 1))
        return {}
    vc.loops = {('matras_allocator_destroy', 0): Loop(inv, havoc=havoc, variant=lambda st, g: st.ghost['c'])}
    vc.verify('matras_allocator_destroy', [x.al], post=lambda st, r: (st.prove(st.ghost['c'] == 0, 'post:the whole reserve is given back'), reserve_is(x, st, bv(0), 'post:no reserve')))


@proof('touch_reserve', 'P22', M, fns=['matras_touch_reserve'], assumes=ASSUME + ['count < 2^30 (count * 2 + 1 is computed in int)'])
def _(mk, mod):
    """the reserve asked for covers the touches promised: a touch copies at most the two extents below the root (proved: touch_*),
    and the root only as long as the root is that of the previous view; no touch copies without a previous view that has blocks"""
    def reserve(x, vc, st, a):
        st.prove(a[0] == x.al, "pre(matras_allocator_reserve):the matras's allocator")
        st.prove(a[1] >= 0, 'pre(matras_allocator_reserve):count')
        st.ghost['asked'] = simp(a[1])
        st.ghost['got'] = r = vc.fresh('reserved', 32)
        return r
    x = world(mk, contracts=dict(matras_allocator_reserve=reserve))
    vc, st = x.vc, x.st
    st.meet(x.f, x.R)
    cnt = z3.BitVec('count', 32)
    st.assume(cnt >= 0, cnt < 1 << 30)
    for prev in (False, True):
        s = st.fork()
        if prev:
            with_prev(x, s, bv(0, 32))
        else:
            s.put(x.m, 'matras', 'head.prev_view', bv(0))
        s.foot = []

        def post(st, r, prev=prev):
            asked = st.ghost.get('asked')
            need = z3.BitVecVal(0, 32)
            if prev:
                need = z3.If(z3.Or(x.np == 0, cnt == 0), need, cnt * 2 + z3.If(z3.And(x.n != 0, x.R == x.RP), bv(1, 32), bv(0, 32)))
            if asked is None:
                st.prove(need == 0, 'post:nothing to reserve')
                st.prove(r == 0, 'post:success')
            else:
                st.prove(asked >= need, 'post:enough for the touches')
                st.prove(r == st.ghost['got'], 'post:the outcome of the reservation')
        vc.verify('matras_touch_reserve', [x.m, cnt], post=post, st=s)


@proof('matras_destroy', 'P20', M, fns=['matras_destroy', 'matras_reset'], assumes=ASSUME)
def _(mk, mod):
    """every view is destroyed, then every extent of the main version is freed, once"""
    def destroy(x, vc, st, a):
        st.prove(z3.And(a[0] == x.m, a[1] == x.VW(st.ghost['k'])), 'pre(matras_destroy_read_view):the last view')
        st.prove(z3.UGT(st.ghost['k'], 0), 'pre(matras_destroy_read_view):a view')
        k = st.ghost['k'] = simp(st.ghost['k'] - 1)
        st.put(x.m, 'matras', 'head.prev_view', z3.If(k == 0, bv(0), x.VW(k)))
        # without views the extents are those the blocks need (alloc_internal, dealloc_*, destroy_view_*)
        st.put(x.m, 'matras', 'extent_count', z3.If(k == 0, extents(x, x.n), vc.fresh('ec', 32)))
        return None

    def free(x, vc, st, a):
        st.prove(a[0] == x.al, "pre(matras_allocator_free):the matras's allocator")
        e = at(x, st, a[1], None)
        i1, i2 = st.ghost['i1'], st.ghost['i2']
        p = path(x, x.R, low(x.J1(i1) + x.J2(i2)))
        p1 = path(x, x.R, low(x.J1(i1)))
        st.prove(z3.Or(e == x.R, e == p1[0], e == p[1]), 'pre(matras_allocator_free):an extent of the version')
        fr = st.ghost['fr']
        st.prove(z3.And(*[z3.Implies(e == o, z3.Not(f)) for o, f in zip(x.eq, fr)]), 'pre(matras_allocator_free):not freed yet')
        st.ghost['fr'] = tuple(simp(z3.Or(f, e == o)) for o, f in zip(x.eq, fr))
        st.ghost['nf'] = simp(st.ghost['nf'] + 1)
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: i != e if f is x.f else True), 'free')
        return None
    x = world(mk, contracts=dict(matras_destroy_read_view=destroy, matras_allocator_free=free))
    vc, st = x.vc, x.st
    K = z3.BitVec('views', 64)
    x.VW = z3.Function('VIEW', B, B)
    fw = st.fam(Fam('views', mod.struct_size('matras_view'), fn=x.VW, guard=lambda i: z3.And(z3.UGE(i, 1), z3.ULE(i, K))))
    st.put(x.m, 'matras', 'head.prev_view', z3.If(K == 0, bv(0), x.VW(K)))
    st.assume(z3.Implies(K != 0, x.VW(K) != 0))
    st.put(x.m, 'matras', 'extent_count', z3.If(K == 0, extents(x, x.n), x.ec))
    st.meet(x.f, x.R)
    q = z3.BitVec('q', 32)
    st.assume(z3.Implies(x.n != 0, z3.ULT(Z(q), x.n)), z3.ULT(Z(q), x.cap))
    last = low(x.n - 1)
    geo_pairs(x, st, [last], [])
    geo_pairs(x, st, [q], [last])
    version(x, st, x.R, x.n, q)
    x.eq = (x.R,) + path(x, x.R, q)
    st.ghost.update(fr=(z3.BoolVal(False),) * 3, nf=bv(0, 32), i1=bv(0), i2=bv(0), k=K)
    n1, n2 = Z(x.N1(q)), Z(x.N2(x.M1(q)))
    lo = mod.field('matras', 'extent_count')[0]
    st.foot = [('range', x.m, bv(mod.struct_size('matras'))), ('range', x.stats, bv(8))]
    walk(x, st, q, bv(0), bv(0), [last])

    top3 = Z(x.N2(last)) + 1
    cut = lambda t: z3.If(z3.ULE(t, top3), t, top3)

    def gone(st, i1, i2):
        past = z3.ULT(n1, i1) if i2 is None else z3.Or(z3.ULT(n1, i1), z3.And(n1 == i1, z3.ULT(n2, i2)))
        c = i1 + (cut(x.T(i1, bv(0))) if i2 is None else x.T(i1, i2))
        return [('extents', z3.And(st.ghost['nf'] == low(c), st.get(x.m, 'matras', 'extent_count') == extents(x, x.n) - st.ghost['nf'])), ('the root is not freed yet', z3.Not(st.ghost['fr'][0])), ('second level', st.ghost['fr'][1] == z3.ULT(n1, i1)), ('third level', st.ghost['fr'][2] == past),
                ('counts', st.get(x.stats, 'matras_stats', 'extent_count') == x.sc - st.ghost['nf'])]

    def havoc(st, i1, i2, tag):
        def keep(st, f, i, off, n):
            n = n if isinstance(n, int) else 1
            if f is x.f:
                return z3.Or(x.LV(i) == 1, z3.And(x.LV(i) == 2, z3.UGE(Z(x.PK(i)), i1)))
            if f.name == 'm':
                return is_num(off) and (num(off) + n <= lo or num(off) >= lo + 4)
            return f.name != 'stats'
        st.objhavoc(Havoc(keep=keep), tag)
        st.ghost['fr'] = tuple(z3.Bool('fr%d_%s' % (k, tag)) for k in range(3))
        nf = st.ghost['nf'] = z3.BitVec('nf_' + tag, 32)
        for s, f, v in ((x.m, ('matras', 'extent_count'), extents(x, x.n)), (x.stats, ('matras_stats', 'extent_count'), x.sc)):
            st.put(s, f[0], f[1], v - nf)
        st.ghost.update(i1=i1, i2=i2)
        walk(x, st, q, i1, i2, [last])
        for b in (x.J1(i1), x.J1(i1) + x.J2(i2)):
            b = low(b)
            geo_pairs(x, st, [b], [last, q])
            version(x, st, x.R, x.n, b)

    lim = lambda i, n: z3.ULE(i, Z(n) + 1)

    def inv0(st, g):
        k = st.ghost['k']
        return [('the views left', st.get(x.m, 'matras', 'head.prev_view') == z3.If(k == 0, bv(0), x.VW(k))), ('bound', z3.ULE(k, K)),
                ('extents without views', z3.Implies(k == 0, st.get(x.m, 'matras', 'extent_count') == extents(x, x.n)))]

    def havoc0(st, g):
        k = st.ghost['k'] = z3.BitVec('k', 64)
        st.assume(z3.ULE(k, K))
        st.put(x.m, 'matras', 'head.prev_view', z3.If(k == 0, bv(0), x.VW(k)))
        st.put(x.m, 'matras', 'extent_count', z3.If(k == 0, extents(x, x.n), z3.BitVec('ec_views', 32)))
        for f in under(st, k != 0):
            f.meet(fw, k)
        st.assume(z3.Implies(k != 0, z3.UGE(x.VW(k), bv(4096))))
        return {}

    def inv1(st, g):
        i1 = st.local('i1')
        walk(x, st, q, i1, bv(0), [last])
        return [('block', st.local('j1') == x.J1(i1)), ('bound', lim(i1, x.N1(last))), ('bound of j1', z3.ULE(x.J1(i1), x.cap + Z(x.m1) + 1))] + gone(st, i1, None)

    def havoc1(st, g):
        i1 = z3.BitVec('i1', 64)
        st.assume(lim(i1, x.N1(last)), z3.ULE(x.J1(i1), x.cap + Z(x.m1) + 1))
        st.set_local('i1', i1)
        st.set_local('j1', x.J1(i1))
        havoc(st, i1, bv(0), 'outer')
        return {}

    def inv2(st, g):
        i1, i2 = st.ghost['i1'], st.local('i2')
        walk(x, st, q, i1, i2, [last])
        return [('block', st.local('j2') == x.J2(i2)), ('outer', st.local('i1') == i1), ('bound of j2', z3.ULE(x.J2(i2), Z(x.m1) + Z(x.m2) + 1)), ('bound of i2', z3.ULE(i2, Z(x.m1) + 1)), ('bound of extents', z3.ULE(x.T(i1, i2), top3))] + gone(st, i1, i2)

    def havoc2(st, g):
        i1, i2 = st.ghost['i1'], z3.BitVec('i2', 64)
        st.assume(z3.ULE(i2, Z(x.m1) + 1))
        st.set_local('i2', i2)
        st.set_local('j2', x.J2(i2))
        havoc(st, i1, i2, 'inner')
        return {}
    vc.loops = {('matras_destroy', 0): Loop(inv0, havoc=havoc0, variant=lambda st, g: st.ghost['k']),
                ('matras_destroy', 1): Loop(inv1, havoc=havoc1, variant=lambda st, g: bv(1 << 33) - st.local('i1')),
                ('matras_destroy', 2): Loop(inv2, havoc=havoc2, variant=lambda st, g: bv(1 << 33) - st.local('i2'))}

    def post(st, r):
        st.prove(st.ghost['k'] == 0, 'post:every view is destroyed')
        st.prove(st.get(x.m, 'matras', 'head.block_count') == 0, 'post:no blocks')
        for f in under(st, x.n != 0):
            f.prove(z3.And(*f.ghost['fr']), 'post:every extent is freed')
            f.prove(st.get(x.m, 'matras', 'extent_count') == 0, 'post:no extents')
        for f in under(st, x.n == 0):
            f.prove(z3.Not(z3.Or(*f.ghost['fr'])), 'post:nothing to free')
    vc.verify('matras_reset', [x.m], post=post)
