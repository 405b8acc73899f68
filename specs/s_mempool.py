"""Contracts of mempool (P08 objects, P09 accounting and slabs).

Slab i of the pool is the object A(i) (its header, a member of the family `mslab'); its places for objects are the members of
the family `slot': slot s is place NUM(s) of slab SLAB(s), SL(i, j) is place j of slab i.  State of slab i: T(i) places have
ever been used, L(i) of them are free and chained: CH(i, p), p < L(i), the last one first; LIVE(s): the object is handed out.
Invariant, for every slab i, slot s and position p:
  free_offset = start of place T(i), free_list = CH(i, L(i) - 1) or NULL, nfree = objcount - T(i) + L(i), T(i) <= objcount
  s is live, or s is CH(i, POS(s)), POS(s) < L(i), or NUM(s) >= T(i); exactly one of the three
  the first word of CH(i, p) is CH(i, p - 1), or NULL if p = 0
  hot (in the tree): 0 < nfree < objcount; cold: 0 < nfree < objcount / 8; spare: nfree = objcount; none of them: nfree = 0
  first_hot_slab is the hot slab of the lowest address, or NULL when there is none
The tree and list functions are used as operations on sets (P23, P24; P25)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from smallvc.seq import Seq
from specs.common import small_align, under

M = 'mempool'
ASSUME = ['objsize >= sizeof(void *) and small enough for one object per slab (documented precondition of mempool_create)',
          'an object is given back once, to the pool it came from, and is not written to afterwards',
          'slab_get_with_order / slab_put_with_order, mslab_tree_* and rlist_* by contract (their own proofs: P06, P23 - P25)',
          'a set of which an element is known has at least one element (the live objects of a slab are counted by T - L)']
BOOL = z3.BoolSort()
NONE, HOT, COLD = 0, 1, 2


class O:
    pass


def layout(x, st, mod):
    """what mempool_create_with_order establishes"""
    x.msz = (mod.struct_size('mslab') + 7) // 8 * 8
    x.osz32, x.oc32, x.off32 = (z3.BitVec(n, 32) for n in ('objsize', 'objcount', 'offset'))
    Z = lambda v: z3.ZeroExt(64 - v.size(), v)
    x.osz, x.oc, x.off = Z(x.osz32), Z(x.oc32), Z(x.off32)
    x.SS = z3.BitVec('slab_size', 64)
    st.assume(z3.UGE(x.osz, 8), z3.UGE(x.oc, 1), z3.UGE(x.off, x.msz), z3.ULE(x.osz, x.SS), z3.ULE(x.SS, bv(1 << 31)), z3.ULE(x.oc, x.SS), z3.ULT(x.off, x.SS))


def pool(mk, hot, spare, contracts=None):
    x = O()
    cs = dict(rlist_add=r_add, rlist_add_tail=r_add, rlist_del=r_del, rlist_shift=r_shift, rlist_empty=r_empty, rlist_create=r_create,
              mslab_tree_insert=t_insert, mslab_tree_remove=t_remove, mslab_tree_next=t_next, slab_from_ptr=c_from_ptr,
              slab_get_with_order=c_get, slab_put_with_order=c_put)
    cs.update(contracts or {})
    cs = {n: (lambda f: lambda vc, st, a: f(x, vc, st, a))(f) for n, f in cs.items()}
    cs['small_align'] = small_align
    vc = x.vc = mk(contracts=cs)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    layout(x, st, mod)
    F = lambda s, n: mod.field(s, n)[0]
    U = z3.Function
    x.p, x.cache = z3.BitVec('pool', 64), z3.BitVec('cache', 64)
    x.A, x.SA, x.SLAB, x.NUM, x.SL = U('A', B, B), U('SA', B, B), U('SLAB', B, B), U('NUM', B, B), U('SL', B, B, B)
    x.INP, x.LOC, x.LIVE = U('INP', B, BOOL), U('LOC', B, B), U('LIVE', B, BOOL)
    x.T, x.L, x.CH, x.POS = U('T', B, B), U('L', B, B), U('CH', B, B, B), U('POS', B, B)
    x.FO = U('FO', B, B)          # where place j of a slab starts
    x.Y = z3.BitVec('Y', 64)      # what slab_get_with_order returns
    x.FH, x.SP = z3.BitVec('FH', 64), z3.BitVec('SP', 64)
    x.hot, x.spare = hot, spare
    x.o = {n: F('mslab', n) for n in ('free_list', 'free_offset', 'nfree', 'next_in_hot', 'next_in_cold', 'in_hot_slabs', 'mempool', 'slab.next_in_list', 'slab.size', 'slab.order', 'slab.magic')}
    x.ord8 = z3.BitVec('order', 8)
    f8 = lambda st, i, off, n: head(x, i, off, n)
    x.fm = st.fam(Fam('mslab', x.msz, fn=x.A, guard=lambda i: z3.Or(x.INP(i), i == x.Y), cell=f8, align=16))
    x.fs = st.fam(Fam('slot', lambda i: x.osz, fn=x.SA, guard=lambda s: z3.And(z3.Or(x.INP(x.SLAB(s)), x.SLAB(s) == x.Y), z3.ULT(x.NUM(s), x.oc)), minsize=8, align=1,
                      cell=lambda st, s, off, n: link(x, s) if is_num(off) and num(off) == 0 and n == 8 else None))
    x.fp = st.fam(Fam('pool', mod.struct_size('mempool'), base=x.p))
    # a new slab: nothing in it, in no list
    st.assume(z3.Not(x.INP(x.Y)), x.T(x.Y) == 0, x.L(x.Y) == 0, x.LOC(x.Y) == NONE, x.FO(bv(0)) == x.off, x.FO(x.oc) == x.SS)
    for f, v in (('cache', x.cache), ('objsize', x.osz32), ('objcount', x.oc32), ('offset', x.off32), ('slab_order', x.ord8),
                 ('first_hot_slab', x.A(x.FH) if hot else bv(0)), ('spare', x.A(x.SP) if spare else bv(0))):
        st.put(x.p, 'mempool', f, v)
    x.used0, x.total0 = (z3.BitVec(n, 64) for n in ('used', 'total'))
    st.put(x.p, 'mempool', 'slabs.stats.used', x.used0)
    st.put(x.p, 'mempool', 'slabs.stats.total', x.total0)
    st.ghost.update(idx=[], slots=[], univ=[], loc=[], sl=[], got=False, put=[], created=[])
    st.foot = [('obj', x.fm, lambda i, off, n: True), ('obj', x.fp, lambda i, off, n: True),
               ('obj', x.fs, lambda s, off, n: z3.Or(z3.Not(x.LIVE(s)), s == st.ghost['mine'] if 'mine' in st.ghost else False))]
    # an arbitrary slab, slot of it, and position in its chain
    x.q, x.w, x.pp = z3.BitVec('q', 64), z3.BitVec('w', 64), z3.BitVec('p', 64)
    st.assume(x.INP(x.q))
    reg(x, st, x.q)
    slot(x, st, x.w)
    st.assume(x.SLAB(x.w) == x.q, z3.ULT(x.NUM(x.w), x.oc))
    if hot:
        st.assume(x.INP(x.FH))
        st.meet(x.fm, x.FH)
        reg(x, st, x.FH)
        st.assume(x.LOC(x.FH) == HOT)
    univ(x, st, lambda i: z3.Implies(z3.And(x.INP(i), x.LOC(i) == HOT), z3.UGE(x.A(i), x.A(x.FH)) if hot else z3.BoolVal(False)))
    if spare:
        st.assume(x.INP(x.SP))
        st.meet(x.fm, x.SP)
        reg(x, st, x.SP)
    x.nf = lambda i: x.oc - x.T(i) + x.L(i)
    return x


def chain(x, st, i, p):
    """the invariant for position p of the chain of slab i"""
    c = x.CH(i, p)
    st.assume(z3.Implies(z3.And(x.INP(i), z3.ULT(p, x.L(i))), z3.And(x.SLAB(c) == i, z3.ULT(x.NUM(c), x.T(i)), z3.Not(x.LIVE(c)), x.POS(c) == p)))
    slot(x, st, c)
    return c


def reg(x, st, i):
    """what the invariant says of slab i"""
    i = simp(i)
    if any(j.eq(i) for j in st.ghost['idx']):
        return
    nf = x.oc - x.T(i) + x.L(i)
    sp = i == x.SP if x.spare else z3.BoolVal(False)
    c = [z3.ULE(x.T(i), x.oc), z3.ULE(x.L(i), x.T(i)), z3.ULE(x.LOC(i), 2),
         z3.Implies(x.LOC(i) == HOT, z3.And(nf != 0, nf != x.oc)),
         z3.Implies(x.LOC(i) == COLD, z3.And(nf != 0, z3.ULT(nf, z3.LShR(x.oc, 3)))),
         z3.Implies(sp, z3.And(nf == x.oc, x.LOC(i) == NONE)),
         z3.Implies(z3.And(x.LOC(i) == NONE, z3.Not(sp)), nf == 0)]
    st.assume(*[z3.Implies(x.INP(i), e) for e in c])
    # where places start (proved for slot_layout)
    st.assume(z3.ULE(x.FO(x.T(i)), x.SS), z3.UGE(x.FO(x.T(i)), x.off),
              z3.Implies(z3.ULT(x.T(i), x.oc), z3.And(x.FO(x.T(i) + 1) == x.FO(x.T(i)) + x.osz, z3.ULE(x.FO(x.T(i) + 1), x.SS))))
    chain(x, st, i, simp(x.L(i) - 1))
    st.assume(*[(x.A(i) == x.A(j)) == (i == j) for j in st.ghost['idx']])
    st.ghost['idx'] = st.ghost['idx'] + [i]
    st.assume(*[f(i) for f in st.ghost['univ']])


def slot(x, st, s):
    """what the invariant says of slot s"""
    s = simp(s)
    if any(j.eq(s) for j in st.ghost['slots']):
        return
    i = x.SLAB(s)
    st.ghost['slots'] = st.ghost['slots'] + [s]
    st.assume(x.SL(i, x.NUM(s)) == s)
    st.assume(z3.Implies(x.INP(i), z3.And(z3.Implies(x.LIVE(s), z3.And(z3.ULT(x.NUM(s), x.T(i)), z3.ULT(x.L(i), x.T(i)))),
                                          z3.Implies(z3.And(z3.Not(x.LIVE(s)), z3.ULT(x.NUM(s), x.T(i))), z3.And(z3.ULT(x.POS(s), x.L(i)), x.CH(i, x.POS(s)) == s)))))


def univ(x, st, f):
    st.ghost['univ'] = st.ghost['univ'] + [f]
    st.assume(*[f(i) for i in st.ghost['idx']])


def head(x, i, off, n):
    """the initial content of a slab's header"""
    if not is_num(off):
        return None
    off = num(off)
    L, T = x.L(i), x.T(i)
    e = lambda v: z3.Extract(31, 0, simp(v))
    tab = {('slab.size', 8): lambda: x.SS, ('slab.order', 1): lambda: x.ord8, ('slab.magic', 4): lambda: z3.BitVecVal(0xeec0ffee, 32)}
    own = {('free_list', 8): lambda: z3.If(L == 0, bv(0), x.SA(x.CH(i, simp(L - 1)))), ('free_offset', 4): lambda: e(x.FO(T)),
           ('nfree', 4): lambda: e(x.oc - T + L), ('in_hot_slabs', 1): lambda: z3.If(x.LOC(i) == HOT, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)),
           ('mempool', 8): lambda: x.p}
    for (f, w), v in tab.items():
        if off == x.o[f] and n == w:
            return v()
    for (f, w), v in own.items():
        if off == x.o[f] and n == w:
            return z3.If(x.INP(i), v(), z3.Function('rest_' + f, B, z3.BitVecSort(8 * w))(i))
    return None


def link(x, s):
    i, p = x.SLAB(s), x.POS(s)
    inch = z3.And(x.INP(i), z3.Not(x.LIVE(s)), z3.ULT(x.NUM(s), x.T(i)))
    return z3.If(inch, z3.If(p == 0, bv(0), x.SA(x.CH(i, simp(p - 1)))), z3.Function('data', B, B)(s))


def slab_at(x, st, p):
    q = x.vc.place(st, p, 8)
    if q is None or q[0] is not x.fm or not is_num(q[2]) or num(q[2]) != 0:
        raise Unsupported('not a slab of the pool')
    reg(x, st, q[1])
    return q[1]


def item(x, st, p):
    q = x.vc.place(st, p, 16)
    if q is None or q[0] is not x.fm or not is_num(q[2]):
        raise Unsupported('list item')
    for m in ('next_in_cold', 'slab.next_in_list'):
        if num(q[2]) == x.o[m]:
            reg(x, st, q[1])
            return q[1], m
    raise Unsupported('list item')


def lhead(x, st, p):
    q = x.vc.place(st, p, 16)
    if q is not None and q[0] is x.fp and is_num(q[2]):
        for m, n in (('cold_slabs', 'next_in_cold'), ('slabs.slabs', 'slab.next_in_list')):
            if num(q[2]) == x.mod.field('mempool', m)[0]:
                return n
    raise Unsupported('list head')


def loc(x, st, i):
    """the set slab i is in now"""
    v = x.LOC(i)
    for k, n in st.ghost['loc']:
        v = z3.If(i == k, bv(n), v)
    return simp(v)


def move(x, st, i, n):
    st.ghost['loc'] = st.ghost['loc'] + [(i, n)]


def links(x, st, tag, tree=False):
    """an operation on a set changes its links only"""
    def keep(st, f, i, off, n):
        def out(a, w):
            return z3.Or(z3.ULE(off + n if not isinstance(n, int) else off + bv(n), bv(a)), z3.UGE(off, bv(a + w)))
        if f is x.fm:
            return out(x.o['next_in_hot'], 16) if tree else z3.And(out(x.o['next_in_cold'], 16), out(x.o['slab.next_in_list'], 16))
        if f is x.fp:
            g = lambda m: x.mod.field('mempool', m)
            return out(*g('hot_slabs')) if tree else z3.And(out(g('cold_slabs')[0], 16), out(g('slabs.slabs')[0], 16))
        return True
    st.objhavoc(Havoc(keep=keep), tag)


def r_create(x, vc, st, a):
    i, m = item(x, st, a[0])
    links(x, st, 'rlist_create')
    if m == 'next_in_cold':
        st.prove(loc(x, st, i) != COLD, 'pre(rlist_create):in no list')
        st.ghost['created'] = st.ghost['created'] + [i]
    return None


def r_add(x, vc, st, a):
    w = lhead(x, st, a[0])
    i, m = item(x, st, a[1])
    st.prove(w == m, 'pre(rlist_add):the link of that list')
    links(x, st, 'rlist_add')
    if m == 'next_in_cold':
        st.prove(loc(x, st, i) == NONE, 'pre(rlist_add):in no list or tree yet')
        move(x, st, i, COLD)
    else:
        st.ghost['sl'] = st.ghost['sl'] + [('add', i)]
    return None


def r_del(x, vc, st, a):
    i, m = item(x, st, a[0])
    links(x, st, 'rlist_del')
    if m == 'next_in_cold':
        # deleting an item that is in no list changes nothing
        st.prove(loc(x, st, i) != HOT, 'pre(rlist_del):not in the tree')
        st.prove(z3.Or(i != x.Y, *[i == j for j in st.ghost['created']]), 'pre(rlist_del):the item is initialized')
        move(x, st, i, NONE)
    else:
        st.ghost['sl'] = st.ghost['sl'] + [('del', i)]
    return None


def r_empty(x, vc, st, a):
    if lhead(x, st, a[0]) != 'next_in_cold':
        raise Unsupported('list')

    def full(s):
        t = vc.fresh('cold')
        s.assume(x.INP(t))
        reg(x, s, t)
        s.assume(loc(x, s, t) == COLD)
        s.ghost['wit'] = t
        return z3.BitVecVal(0, 32)

    def empty(s):
        univ(x, s, lambda i, ops=list(s.ghost['loc']): z3.Implies(x.INP(i), at(x, i, ops) != COLD))
        return z3.BitVecVal(1, 32)
    return [('members', full), ('empty', empty)]


def at(x, i, ops):
    v = x.LOC(i)
    for k, n in ops:
        v = z3.If(i == k, bv(n), v)
    return v


def r_shift(x, vc, st, a):
    if lhead(x, st, a[0]) != 'next_in_cold':
        raise Unsupported('list')
    st.prove(loc(x, st, st.ghost['wit']) == COLD if 'wit' in st.ghost else False, 'pre(rlist_shift):not empty')
    t = vc.fresh('first')
    st.assume(x.INP(t))
    reg(x, st, t)
    st.assume(loc(x, st, t) == COLD)
    links(x, st, 'rlist_shift')
    move(x, st, t, NONE)
    return simp(x.A(t) + x.o['next_in_cold'])


def tree(x, st, p):
    st.prove(p == simp(x.p + x.mod.field('mempool', 'hot_slabs')[0]), "pre(mslab_tree):the pool's tree")


def t_insert(x, vc, st, a):
    tree(x, st, a[0])
    i = slab_at(x, st, a[1])
    st.prove(loc(x, st, i) == NONE, 'pre(mslab_tree_insert):in no list or tree')
    links(x, st, 'tree_insert', True)
    move(x, st, i, HOT)
    return None


def t_remove(x, vc, st, a):
    tree(x, st, a[0])
    i = slab_at(x, st, a[1])
    st.prove(loc(x, st, i) == HOT, 'pre(mslab_tree_remove):in the tree')
    links(x, st, 'tree_remove', True)
    move(x, st, i, NONE)
    return None


def t_next(x, vc, st, a):
    tree(x, st, a[0])
    i = slab_at(x, st, a[1])
    st.prove(loc(x, st, i) == HOT, 'pre(mslab_tree_next):in the tree')

    def some(s):
        n = vc.fresh('next')
        s.assume(x.INP(n))
        reg(x, s, n)
        s.assume(loc(x, s, n) == HOT, z3.UGT(x.A(n), x.A(i)))
        univ(x, s, lambda j, ops=list(s.ghost['loc']): z3.Implies(z3.And(x.INP(j), at(x, j, ops) == HOT), z3.Or(z3.ULE(x.A(j), x.A(i)), z3.UGE(x.A(j), x.A(n)))))
        s.ghost['next'] = n
        return x.A(n)

    def none(s):
        univ(x, s, lambda j, ops=list(s.ghost['loc']): z3.Implies(z3.And(x.INP(j), at(x, j, ops) == HOT), z3.ULE(x.A(j), x.A(i))))
        return bv(0)
    return [('last', none), ('more', some)]


def c_from_ptr(x, vc, st, a):
    """slabs are aligned to their size and smaller than it is what lies behind their start (proved for slab_from_ptr)"""
    q = vc.place(st, a[0], 8)
    if q is None or q[0] is not x.fs:
        raise Unsupported('not an object')
    slot(x, st, q[1])
    i = simp(x.SLAB(q[1]))
    reg(x, st, i)
    return x.A(i)


def c_get(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_get_with_order):the pool's cache")
    st.prove(a[1] == x.ord8, "pre(slab_get_with_order):the pool's order")
    if st.ghost['got']:
        raise Unsupported('two slabs')

    def ok(s):
        s.ghost['got'] = True
        reg(x, s, x.Y)
        return x.A(x.Y)
    return [('slab', ok), ('no-slab', lambda s: bv(0))]


def c_put(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_put_with_order):the pool's cache")
    i = slab_at(x, st, a[1])
    st.prove(z3.And(x.INP(i), *[i != j for j in st.ghost['put']]), 'pre(slab_put_with_order):a slab of the pool, once')
    st.prove(x.now(st, 'T')(i) == x.now(st, 'L')(i), 'pre(slab_put_with_order):no live object in it')
    st.prove(loc(x, st, i) == NONE, 'pre(slab_put_with_order):in no list or tree')
    st.prove(z3.Or(*[i == j for k, j in st.ghost['sl'] if k == 'del']), "pre(slab_put_with_order):taken off the pool's list")
    st.ghost['put'] = st.ghost['put'] + [i]
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: j != i if f is x.fm else x.SLAB(j) != i if f is x.fs else True), 'put')
    return None


def invariant(x, st, T, L, CH, POS, LIVE, more=()):
    """the invariant of the new state, at the arbitrary slab q, slot w and position p (and the new slab)"""
    gone = lambda i: z3.Or(*[i == j for j in st.ghost['put']]) if st.ghost['put'] else z3.BoolVal(False)
    g = lambda f: st.get(x.p, 'mempool', f)
    first, spare = g('first_hot_slab'), g('spare')
    for i in [x.q] + ([x.Y] if st.ghost['got'] else []):
        for f in under(st, z3.Not(gone(i))):
            h = lambda n, w: f.load(simp(x.A(i) + x.o[n]), w)
            e = lambda v: z3.Extract(31, 0, simp(v))
            nf = x.oc - T(i) + L(i)
            f.prove(z3.And(z3.ULE(T(i), x.oc), z3.ULE(L(i), T(i))), 'inv:counts')
            f.prove(h('free_list', 8) == z3.If(L(i) == 0, bv(0), x.SA(CH(i, simp(L(i) - 1)))), 'inv:free list')
            f.prove(h('free_offset', 4) == e(x.FO(T(i))), 'inv:start of the untouched places')
            f.prove(h('nfree', 4) == e(nf), 'inv:number of free places')
            f.prove(h('mempool', 8) == x.p, 'inv:the pool')
            f.prove(z3.And(h('slab.size', 8) == x.SS, h('slab.order', 1) == x.ord8), 'inv:the slab header')
            c = loc(x, f, i)
            sp = spare == x.A(i)
            f.prove(h('in_hot_slabs', 1) == z3.If(c == HOT, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 'inv:hot mark')
            f.prove(z3.Implies(c == HOT, nf != 0), 'inv:no full slab is hot')
            f.prove(z3.Implies(nf == x.oc, sp), 'inv:an empty slab is the spare one')
            f.prove(z3.Implies(c == COLD, z3.And(nf != 0, z3.ULT(nf, z3.LShR(x.oc, 3)))), 'inv:cold slabs')
            f.prove(z3.Implies(sp, z3.And(nf == x.oc, c == NONE)), 'inv:the spare slab is empty')
            f.prove(z3.Implies(z3.And(c == NONE, z3.Not(sp)), nf == 0), 'inv:a slab with free places can be found')
            f.prove(z3.Implies(c == HOT, z3.And(first != 0, z3.ULE(first, x.A(i)))), 'inv:the first hot slab')
    isnow = lambda i: z3.And(z3.Or(x.INP(i), i == x.Y if st.ghost['got'] else False), z3.Not(gone(i)))
    fi = x.vc.place(st, first, 8)
    if fi is not None and fi[0] is x.fm:
        st.prove(z3.And(isnow(fi[1]), loc(x, st, fi[1]) == HOT), 'inv:the first hot slab is hot')
    else:
        st.prove(first == 0, 'inv:the first hot slab is hot')
    si = x.vc.place(st, spare, 8)
    st.prove(isnow(si[1]) if si is not None and si[0] is x.fm else spare == 0, 'inv:the spare slab is one of the pool')
    w, i, p = x.w, x.q, x.pp
    for f in under(st, z3.Not(gone(i))):
        f.prove(z3.Implies(LIVE(w), z3.ULT(x.NUM(w), T(i))), 'inv:live objects are in the used part')
        f.prove(z3.Implies(z3.And(z3.Not(LIVE(w)), z3.ULT(x.NUM(w), T(i))), z3.And(z3.ULT(POS(w), L(i)), CH(i, POS(w)) == w)), 'inv:free objects are in the chain')
        for k in under(f, z3.ULT(p, L(i))):
            k.prove(z3.Implies(p == x.pp, chain_ok(x, k, i, p, T, L, CH, POS, LIVE)), 'inv:the chain has free objects of the slab, each once')
            for c in (True, False):
                for m in under(k, (p == 0) == c):
                    d = CH(i, p)
                    if m.meet(x.fs, simp(d)):
                        m.prove(m.load(x.SA(simp(d)), 8) == (bv(0) if c else x.SA(CH(i, simp(p - 1)))), 'inv:links of the chain')


def chain_ok(x, st, i, p, T, L, CH, POS, LIVE):
    c = CH(i, p)
    return z3.And(x.SLAB(c) == i, z3.ULT(x.NUM(c), T(i)), z3.Not(LIVE(c)), POS(c) == p)


def upd(f, k, v):
    return lambda i: simp(z3.If(i == k, v, f(i)))


def alloc(mk, mod, hot, spare):
    x = pool(mk, hot, spare)
    st = x.st
    x.now = lambda st, w: getattr(x, w)
    # the slab the object comes from is fixed by the case
    chain(x, st, x.q, x.pp)

    def post(st, r):
        g = lambda f: st.get(x.p, 'mempool', f)
        st.prove(g('slabs.stats.total') == simp(x.total0 + (x.SS if st.ghost['got'] else bv(0))), 'post:total is the size of the slabs held')
        st.prove(len(st.ghost['sl']) == (1 if st.ghost['got'] else 0) and all(k == 'add' for k, i in st.ghost['sl']), 'post:a new slab is listed')
        st.prove(not st.ghost['put'], 'post:no slab is given back')
        if not st.vc.possible(r != 0):
            st.prove(g('slabs.stats.used') == x.used0, 'post:a failed allocation changes no figure')
            st.prove(not st.ghost['got'], 'post:fails only without a new slab')
            st.prove(x.nf(x.q) == 0, 'post:fails only when no object is free')
            st.prove(z3.And(g('first_hot_slab') == 0, g('spare') == 0) if not st.ghost['loc'] else False, 'post:a failed allocation changes nothing')
            return
        st.prove(r != 0, 'post:an object')
        st.prove(g('slabs.stats.used') == simp(x.used0 + x.osz), 'post:used grows by the object size')
        ins = [i for i, n in st.ghost['loc'] if n == HOT]
        i = ins[0] if ins else x.FH
        T0, L0 = x.T, x.L
        for c in (True, False):
            for f in under(st, (L0(i) == 0) == c):
                s = simp(x.SL(i, T0(i))) if c else simp(x.CH(i, simp(x.L(i) - 1)))
                if c:
                    # the next place never used, by its address
                    f.prove(z3.ULT(T0(i), x.oc), 'post:there is a place')
                    f.prove(r == simp(x.A(i) + x.FO(T0(i))), 'post:the object is a place of the slab')
                    f.assume(x.SA(s) == x.A(i) + x.FO(T0(i)), x.SLAB(s) == i, x.NUM(s) == T0(i))
                    slot(x, f, s)
                else:
                    f.prove(r == x.SA(s), 'post:the object is a place of the slab')
                    f.prove(z3.And(x.SLAB(s) == i, z3.ULT(x.NUM(s), x.oc)), 'post:of this slab')
                f.prove(z3.Implies(x.SLAB(s) != x.Y, z3.Not(x.LIVE(s))), 'post:the object was not in use')
                T1 = upd(T0, i, simp(T0(i) + 1)) if c else T0
                L1 = L0 if c else upd(L0, i, simp(L0(i) - 1))
                for nm, cond in (('is', x.w == s), ('not', x.w != s)):
                    for k in under(f, cond):
                        invariant(x, k, T1, L1, x.CH, x.POS, lambda v: z3.Or(x.LIVE(v), v == s))
    x.vc.verify('mempool_alloc', [x.p], post=post)


for hot in (True, False):
    for spare in (True, False):
        @proof('mempool_alloc/%s,%s' % ('a hot slab' if hot else 'none hot', 'a spare slab' if spare else 'none spare'), 'P08 P09', M, fns=['mempool_alloc', 'mslab_alloc', 'mslab_create'], assumes=ASSUME)
        def _(mk, mod, hot=hot, spare=spare):
            alloc(mk, mod, hot, spare)


def free(mk, mod, hot, spare):
    x = pool(mk, hot, spare)
    st = x.st
    v = x.v = z3.BitVec('v', 64)
    i = simp(x.SLAB(v))
    st.assume(x.INP(i), z3.ULT(x.NUM(v), x.oc), x.LIVE(v))
    st.ghost['mine'] = v
    reg(x, st, i)
    slot(x, st, v)
    chain(x, st, x.q, x.pp)
    chain(x, st, x.q, simp(x.pp - 1))
    # the live objects of a slab are counted by T - L: none but v is live when the count is one
    st.assume(z3.Implies(z3.And(x.SLAB(x.w) == i, x.w != v, x.LIVE(x.w)), z3.UGE(x.T(i) - x.L(i), bv(2))))
    L1 = upd(x.L, i, simp(x.L(i) + 1))
    CH1 = lambda j, p: simp(z3.If(z3.And(j == i, p == x.L(i)), v, x.CH(j, p)))
    POS1 = lambda s: simp(z3.If(s == v, x.L(i), x.POS(s)))
    x.now = lambda st, w: L1 if w == 'L' else getattr(x, w)

    def post(st, r):
        g = lambda f: st.get(x.p, 'mempool', f)
        n = len(st.ghost['put'])
        st.prove(n <= 1, 'post:at most one slab is given back')
        st.prove(g('slabs.stats.total') == simp(x.total0 - (x.SS if n else bv(0))), 'post:total is the size of the slabs held')
        st.prove([j.get_id() for k, j in st.ghost['sl'] if k == 'del'] == [j.get_id() for j in st.ghost['put']] and len(st.ghost['sl']) == n, 'post:the slabs listed are those held')
        st.prove(g('slabs.stats.used') == simp(x.used0 - x.osz), 'post:used shrinks by the object size')
        gone = z3.Or(*[i == j for j in st.ghost['put']]) if n else z3.BoolVal(False)
        for nm, cond in (('is', x.w == v), ('not', x.w != v)):
            for k in under(st, cond):
                invariant(x, k, x.T, L1, CH1, POS1, lambda s: z3.And(x.LIVE(s), s != v))
        st.prove(z3.Implies(z3.And(x.SLAB(x.w) != i, x.LIVE(x.w)), z3.Not(z3.Or(*[x.SLAB(x.w) == j for j in st.ghost['put']])) if n else z3.BoolVal(True)), 'post:no slab with live objects is given back')
    x.vc.verify('mempool_free', [x.p, x.SA(v)], post=post)


for hot in (True, False):
    for spare in (True, False):
        @proof('mempool_free/%s,%s' % ('a hot slab' if hot else 'none hot', 'a spare slab' if spare else 'none spare'), 'P08 P09', M, fns=['mempool_free', 'mempool_free_slab', 'mslab_free', 'mempool_free_spare_slab'], assumes=ASSUME)
        def _(mk, mod, hot=hot, spare=spare):
            free(mk, mod, hot, spare)


@proof('mempool_create_with_order', 'P08 P09', M, assumes=['objsize >= sizeof(void *), one object fits in a slab (asserted by the code), slabs of at most 2^31 bytes'])
def _(mk, mod):
    def size(vc, st, a):
        st.prove(a[0] == cache, 'pre(slab_order_size):the cache')
        st.prove(a[1] == order, 'pre(slab_order_size):the order of the pool')
        return SS
    vc = mk(contracts=dict(slab_order_size=size, small_align=small_align, mslab_tree_new=lambda vc, st, a: st.ghost.update(tree=a[0]),
                           rlist_create=lambda vc, st, a: st.ghost.update(made=st.ghost['made'] + [a[0]])), bits=True)
    st = vc.new_state()
    p, cache = z3.BitVec('pool', 64), z3.BitVec('cache', 64)
    fp = st.fam(Fam('pool', mod.struct_size('mempool'), base=p))
    fc = st.fam(Fam('cache', mod.struct_size('slab_cache'), base=cache))
    osz, order, k = z3.BitVec('objsize', 32), z3.BitVec('order', 8), z3.BitVec('k', 64)
    SS = bv(1) << k
    st.assume(z3.ULE(k, 31), z3.UGE(osz, 8), z3.ULE(order, z3.BitVec('order_max', 8)))
    st.put(cache, 'slab_cache', 'order_max', z3.BitVec('order_max', 8))
    msz = (mod.struct_size('mslab') + 7) // 8 * 8
    Z = lambda v: z3.ZeroExt(64 - v.size(), v)
    st.assume(z3.UGE(SS, bv(msz)), z3.UGE(SS - msz, Z(osz)))
    st.ghost.update(made=[], tree=None)
    st.foot = [('obj', fp, lambda i, off, n: True)]

    def post(st, r):
        g = lambda f: st.get(p, 'mempool', f)
        at = lambda f: simp(p + mod.field('mempool', f)[0])
        st.prove(z3.And(g('cache') == cache, g('slab_order') == order, g('objsize') == osz), 'post:cache, order, object size')
        st.prove(z3.And(g('first_hot_slab') == 0, g('spare') == 0, g('small_mempool') == 0), 'post:no slabs')
        st.prove(len(st.ghost['made']) == 2 and all(any(z3.eq(simp(m), at(f)) for m in st.ghost['made']) for f in ('slabs.slabs', 'cold_slabs')), 'post:empty lists')
        st.prove(st.ghost['tree'] is not None and z3.eq(simp(st.ghost['tree']), at('hot_slabs')), 'post:empty tree')
        st.prove(z3.And(g('slabs.stats.used') == 0, g('slabs.stats.total') == 0), 'post:figures')
        oc, off, mask = g('objcount'), g('offset'), g('slab_ptr_mask')
        s32 = z3.Extract(31, 0, SS)
        q = simp(z3.UDiv(s32 - msz, osz))
        st.prove(oc == q, 'post:as many objects as fit')
        st.prove(off == s32 - q * osz, 'post:objects end where the slab ends')
        # division: q * osz <= SS - msz < (q + 1) * osz
        st.prove(z3.And(z3.UGE(q, 1)), 'post:at least one object')
        st.prove(mask == ~(SS - 1), 'post:mask of the slab size')
        # from any place in a slab the mask leads to its start
        a, d = z3.BitVec('slab', 64), z3.BitVec('d', 64)
        st.assume(a & (SS - 1) == 0, z3.ULT(d, SS))
        st.prove((a + d) & mask == a, 'post:the mask leads to the slab')
    vc.verify('mempool_create_with_order', [p, cache, osz, order], post=post)


@proof('slot_layout', 'P08', M, fns=['mempool_create_with_order'])
def _(mk, mod):
    """Places of objects: place j < q of a slab of S bytes starts at S - q * z + j * z where q = (S - h) / z.  Integers; all
    the products are at most S < 2^32, so the machine's do not wrap.  (verify: slab_from_ptr)"""
    vc = mk(bits=True)
    st = vc.new_state()
    ptr, k = z3.BitVec('ptr', 64), z3.BitVec('k', 64)
    a, d = z3.BitVec('slab', 64), z3.BitVec('d', 64)
    S = bv(1) << k
    st.assume(z3.UGE(k, 8), z3.ULE(k, 31), a & (S - 1) == 0, z3.ULT(d, S))
    st.put(simp(simp(a + d) & ~(S - 1)), 'slab', 'magic', z3.BitVec('magic', 32))
    st.assume(z3.ULT(a, bv(1 << 40)), z3.UGT(vc.glob_addr(st, 'slab_magic'), bv(1 << 41)), z3.ULT(vc.glob_addr(st, 'slab_magic'), bv(1 << 42)))
    st.store(vc.glob_addr(st, 'slab_magic'), z3.BitVec('magic', 32), 4)
    st.foot = []

    def post(st, r):
        st.prove(r == a, 'post:the slab of the pointer')
        S, h, z, q, j, l = z3.Ints('S h z q j l')
        st.assume(z > 0, h > 0, S >= h, q >= 0, q * z <= S - h, S - h < (q + 1) * z)
        FO = lambda j: S - q * z + j * z
        st.prove(FO(z3.IntVal(0)) >= h, 'layout:no place overlaps the header')
        st.prove(FO(q) == S, 'layout:the last place ends where the slab ends')
        st.assume(0 <= j, j < l, l <= q)
        st.assume(z * (l - (j + 1)) >= 0)
        st.prove(FO(j) + z <= FO(l), 'layout:places do not overlap')
        st.prove(z3.And(FO(j) + z == FO(j + 1)), 'layout:places are adjacent')
    vc.verify('slab_from_ptr', [simp(a + d), ~(S - 1)], post=post)


@proof('mempool_stats', 'P09', M, assumes=['a pool has fewer than 2^24 slabs (mempool_stats counts header bytes with 32 bits)'])
def _(mk, mod):
    SS, oc = z3.BitVec('slab_size', 64), z3.BitVec('count', 64)
    vc = mk(contracts=dict(slab_order_size=lambda vc, st, a: SS, small_align=small_align, mempool_count=lambda vc, st, a: oc))
    st = vc.new_state()
    p, s = z3.BitVec('pool', 64), z3.BitVec('stats', 64)
    fp = st.fam(Fam('pool', mod.struct_size('mempool'), base=p))
    fs = st.fam(Fam('stats', mod.struct_size('mempool_stats'), base=s))
    u, n, N = z3.BitVec('used', 64), z3.BitVec('total', 64), z3.BitVec('N', 64)
    osz = z3.BitVec('objsize', 32)
    st.put(p, 'mempool', 'slabs.stats.used', u)
    st.put(p, 'mempool', 'slabs.stats.total', n)
    st.put(p, 'mempool', 'objsize', osz)
    msz = (mod.struct_size('mslab') + 7) // 8 * 8
    # N slabs of SS bytes
    st.assume(z3.UDiv(n, SS & 0xffffffff) == N, SS & 0xffffffff == SS, SS != 0, z3.ULT(N, bv(1 << 24)))
    st.foot = [('obj', fs, lambda i, off, n: True)]

    def post(st, r):
        g = lambda f: st.get(s, 'mempool_stats', f)
        st.prove(z3.And(g('totals.used') == u, g('objsize') == osz), 'post:used and object size')
        st.prove(g('slabsize') == z3.Extract(31, 0, SS), 'post:slab size')
        st.prove(g('totals.total') == simp(n - msz * N), 'post:total without the headers')
    vc.verify('mempool_stats', [p, s], post=post)


@proof('mempool_destroy', 'P09', M, assumes=ASSUME)
def _(mk, mod):
    x = O()

    def put(vc, st, a):
        n = st.ghost['n']
        st.prove(a[0] == x.cache, "pre(slab_put_with_order):the pool's cache")
        st.prove(z3.And(z3.ULT(n, x.N), a[1] == x.A(n)), 'pre(slab_put_with_order):the next slab of the pool')
        st.ghost['n'] = simp(n + 1)
        st.objhavoc(Havoc(keep=lambda st, f, i, off, w: z3.UGT(i, n) if f is x.fs else True), 'put')
        return None
    vc = mk(contracts=dict(slab_put_with_order=put))
    st = vc.new_state()
    F = lambda s, f: mod.field(s, f)[0]
    x.p, x.cache, x.N = z3.BitVec('pool', 64), z3.BitVec('cache', 64), z3.BitVec('N', 64)
    po, no = F('rlist', 'prev'), F('rlist', 'next')
    H = simp(x.p + F('mempool', 'slabs.slabs'))
    ol = F('slab', 'next_in_list')
    seq = Seq('held', x.N, H, ol, po, no)
    x.A = seq.A
    fp = st.fam(Fam('pool', mod.struct_size('mempool'), base=x.p))

    def cell(st, i, off, n):
        if not is_num(off) or n != 8:
            return None
        return {ol + no: lambda: seq.next(i), ol + po: lambda: seq.prev(i)}.get(num(off), lambda: None)()
    x.fs = st.fam(Fam('held', mod.struct_size('slab'), fn=x.A, guard=lambda i: z3.ULT(i, x.N), cell=cell, align=16))
    st.assume(z3.ULT(x.N, bv(1 << 40)))
    st.put(x.p, 'mempool', 'cache', x.cache)
    st.store(H + no, seq.first(), 8)
    st.store(H + po, seq.last(), 8)
    st.ghost.update(n=bv(0))
    st.foot = [('obj', fp, lambda i, off, n: True)]
    at = lambda c: simp(seq.at(c) - ol)

    def inv(st, g):
        c = g['c']
        return [('slabs', z3.And(st.ghost['n'] == c, z3.ULE(c, x.N))), ('position', st.local('slab') == at(c))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.ghost['n'] = c
        st.objhavoc(Havoc(keep=lambda st, f, i, off, w: z3.UGE(i, c) if f is x.fs else True), 'destroy loop')
        st.set_local('slab', at(c))
        st.set_local('tmp', z3.BitVec('tmp', 64))
        return dict(c=c)

    def post(st, r):
        st.prove(st.ghost['n'] == x.N, 'post:every slab is given back')
        st.prove(st.get(x.p, 'mempool', 'cache') == 0, 'post:not initialized any more')
    vc.loops = {('mempool_destroy', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)), variant=lambda st, g: x.N - g['c'])}
    vc.verify('mempool_destroy', [x.p], post=post)
