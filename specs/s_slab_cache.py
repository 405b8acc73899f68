"""Contracts of slab_cache (P06 the buddy system, P07 accounting).

The memory of the cache is a set of arena slabs (AS) of S = 2^(lb + M) bytes, aligned to S.  Each is tiled by blocks: blk(a): a
block starts at address a; ord(a) its order, free(a) whether it is free.  Invariant of the cache, for all a, b, levels l:
  B1  a block is aligned to its size sz(ord) = 2^(lb + ord), ord <= M, and lies in an arena slab
  B2  two different blocks are disjoint
  B3  for every level l from the order of a block a up to M, the sibling region of a's region of level l starts with a block of
      order at most l (so the neighbour of a block is a block, possibly split)
  B4  the neighbour of a free block of order k < M is not a free block of order k (free neighbours are merged)
  B5  every byte of an arena slab is in a block (cov)
  B6  headers: magic, size, order, in_use = free ? 0 : ord + 1
  B7  a free block is in the list of its order, a used one in none; list M has at most one member
and the figures: per order, total = bytes in blocks of the order, used = bytes of used ones; over all, used and total.
The rlist functions are used by their contracts as operations on sets (P25)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B, addends, total
from specs.common import small_align, under
from specs.s_obuf import pick

ASSUME = ['slabs of 2^lb bytes and more, 8 <= lb, lb + order_max <= 31, order_max < ORDER_MAX (slab_cache_create establishes it)',
          'the cache is used by the thread it belongs to', 'slab_map / slab_unmap, malloc / free, quota_use / quota_release, rlist functions by contract (their own proofs: P05, P02, P25)']
M = 'slab_cache'
BOOL = z3.BoolSort()
NONE = bv(255)


class O:
    pass


def cache(mk, contracts=None, **kw):
    x = O()
    cs = dict(rlist_add=r_add, rlist_add_tail=r_add, rlist_del=r_del, rlist_shift=r_shift, rlist_shift_tail=r_shift, rlist_empty=r_empty,
              slab_order_size=c_size, slab_buddy=c_buddy, slab_poison=c_poison, slab_map=c_map, slab_unmap=c_unmap)
    cs.update(contracts or {})
    cs = {n: (lambda f: lambda vc, st, a: f(x, vc, st, a))(f) for n, f in cs.items() if f}
    cs['small_align'] = small_align
    cs['pthread_self'] = lambda vc, st, a: x.tid
    cs['pthread_equal'] = lambda vc, st, a: z3.If(a[0] == a[1], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
    vc = x.vc = mk(contracts=cs, bits=True, **kw)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    f = lambda s, n: mod.field(s, n)[0]
    x.hs = mod.struct_size('slab')
    x.hdr = (x.hs + 7) // 8 * 8
    x.o = {n: f('slab', n) for n in ('size', 'magic', 'order', 'in_use', 'next_in_cache', 'next_in_list')}
    x.co = {n: f('slab_cache', n) for n in ('arena', 'order0_size', 'order0_size_lb', 'order_max', 'allocated', 'orders', 'thread_id')}
    x.ls = mod.struct_size('slab_list')
    x.lt, x.lu = f('slab_list', 'stats') + f('small_stats', 'total'), f('slab_list', 'stats') + f('small_stats', 'used')
    x.c, x.arena, x.quota, x.tid = (z3.BitVec(n, 64) for n in ('cache', 'arena', 'quota', 'tid'))
    lb8, om8 = z3.BitVec('lb', 8), z3.BitVec('order_max', 8)
    x.L, x.M = z3.ZeroExt(56, lb8), z3.ZeroExt(56, om8)
    x.om8 = om8
    st.assume(z3.UGE(lb8, 8), z3.ULE(om8, 15), z3.ULE(lb8 + om8, 31), z3.ULE(lb8, 31))
    x.all_levels = []
    x.SZ = z3.Function('sz', B, B)

    def sz(k):
        k = simp(k)
        if not any(k.eq(j) for j in x.all_levels):
            x.all_levels.append(k)
        return x.SZ(k)
    x.sz = sz
    # index of a unit of memory: number of the arena slab, number of the unit of 2^lb bytes in it (16 bits)
    x.u, x.a = (lambda i: z3.Extract(15, 0, i)), (lambda i: z3.Extract(63, 16, i))
    x.one = lambda k: z3.BitVecVal(1, 16) << z3.Extract(15, 0, simp(k))
    x.mk = lambda i, u: simp(z3.Concat(x.a(i), u))
    x.S = x.sz(x.M)
    x.magic = z3.BitVecVal(0xeec0ffee, 32)
    x.reset = lambda i: x.mk(i, z3.BitVecVal(0, 16))
    U = lambda n, *s: z3.Function(n, *s)
    x.A = U('A', B, B)
    x.AS = U('AS', B, BOOL)
    x.blk0, x.ord0, x.free0, x.cov0, x.lv = U('blk', B, BOOL), U('ord', B, B), U('free', B, BOOL), U('cov', B, B), U('lv', B, B)
    x.Y = z3.BitVec('X', 64)         # what slab_map returns
    x.OT, x.OU = U('orders_total', B, B), U('orders_used', B, B)
    x.at, x.au = z3.BitVec('total', 64), z3.BitVec('used', 64)
    x.isas = lambda i: z3.Or(x.AS(x.reset(i)), x.reset(i) == x.Y)
    x.in_slab = lambda i: z3.ULT(x.u(i), x.one(x.M))
    x.fh = st.fam(Fam('slab', x.hs, fn=x.A, guard=lambda i: z3.And(x.in_slab(i), x.isas(i)), align=16,
                      cell=lambda st, i, off, n: head(x, st, i, off, n)))
    x.fc = st.fam(Fam('cache', mod.struct_size('slab_cache'), base=x.c, cell=lambda st, i, off, n: ccell(x, off, n)))
    x.fa = st.fam(Fam('arena', mod.struct_size('slab_arena'), base=x.arena))
    st.put(x.arena, 'slab_arena', 'slab_size', z3.Extract(31, 0, x.S))
    st.put(x.arena, 'slab_arena', 'quota', x.quota)
    st.put(x.c, 'slab_cache', 'arena', x.arena)
    st.put(x.c, 'slab_cache', 'order0_size', z3.Extract(31, 0, x.sz(bv(0))))
    st.put(x.c, 'slab_cache', 'order0_size_lb', lb8)
    st.put(x.c, 'slab_cache', 'order_max', om8)
    st.put(x.c, 'slab_cache', 'thread_id', x.tid)
    g = vc.glob_addr(st, 'slab_magic') if 'slab_magic' in getattr(mod, 'globals', {}) else None
    st.ghost.update(levels=[], idx=[], univ=[], lst=[], ca=[], mapped=False, unmapped=[], wit={}, magic=g)
    # arbitrary blocks, level, order, byte
    x.b, x.d, x.l, x.k, x.y = (z3.BitVec(n, 64) for n in ('b', 'd', 'level', 'k', 'y'))
    st.assume(z3.ULE(x.l, x.M), z3.ULE(x.k, x.M))
    st.assume(z3.Not(x.AS(x.Y)), x.u(x.Y) == 0)
    reg(x, st, x.b)
    reg(x, st, x.d)
    x.cb = x.cov0(x.y)
    st.assume(x.AS(x.reset(x.y)), x.in_slab(x.y))
    reg(x, st, x.cb)
    st.assume(x.blk0(x.cb), covers(x, x.cb, x.y, x.ord0))
    st.foot = [('obj', x.fh, lambda i, off, n: True), ('obj', x.fc, lambda i, off, n: z3.UGE(off, bv(x.co['allocated'])))]
    return x


def lst0(x, i):
    return z3.If(z3.And(x.blk0(i), x.free0(i)), x.ord0(i), NONE)


def lst(x, st, i):
    """the list the block is in now"""
    v = lst0(x, i)
    for f in st.ghost['lst']:
        v = f(i, v)
    return simp(v)


def covers(x, c, y, order):
    return z3.And(x.a(c) == x.a(y), z3.ULT(x.u(y) - x.u(c), x.one(order(c))))


def sibling(x, i, l):
    return x.mk(i, (x.u(i) & ~(x.one(l) - 1)) ^ x.one(l))


def b3(x, i, l, blk, order):
    t = sibling(x, i, l)
    return z3.Implies(z3.And(blk(i), z3.ULE(order(i), l), z3.ULT(l, x.M)), z3.And(blk(t), z3.ULE(order(t), l)))


def b2(x, i, j, blk, order):
    return z3.Implies(z3.And(blk(i), blk(j), i != j, x.a(i) == x.a(j)), z3.And(z3.UGE(x.u(j) - x.u(i), x.one(order(i))), z3.UGE(x.u(i) - x.u(j), x.one(order(j)))))


def b4(x, i, blk, order, free):
    t = x.mk(i, x.u(i) ^ x.one(order(i)))
    return z3.Implies(z3.And(blk(i), free(i), z3.ULT(order(i), x.M)), z3.Not(z3.And(order(t) == order(i), free(t))))


def b1(x, i, blk, order, isas):
    return z3.Implies(blk(i), z3.And(z3.ULE(order(i), x.M), x.u(i) & (x.one(order(i)) - 1) == 0, z3.ULT(x.u(i), x.one(x.M)), isas(x.reset(i))))


def flush(x, st):
    """sz(k) = 2^(lb + k)"""
    done = st.ghost['levels']
    for k in list(x.all_levels):
        if not any(k.eq(j) for j in done):
            done = done + [k]
            st.assume(z3.Implies(z3.ULE(k, x.M), z3.And(z3.UGE(x.SZ(k), bv(256)), z3.ULE(x.SZ(k), bv(1 << 31)))))
    st.ghost['levels'] = done


def addresses(x, st, i, k=None):
    """what is known of the addresses of the units seen (proved for address_map)"""
    for j in st.ghost['idx']:
        if not j.eq(i):
            st.assume(z3.Implies(x.a(i) == x.a(j), z3.ULT(x.A(i), x.A(j)) == z3.ULT(x.u(i), x.u(j))), (x.A(i) == x.A(j)) == (i == j))


def c_size(x, vc, st, a):
    o = simp(z3.ZeroExt(56, a[1]))
    st.prove(a[0] == x.c, 'pre(slab_order_size):the cache')
    st.prove(z3.ULE(o, x.M), 'pre(slab_order_size):an order of the cache')
    r = x.sz(o)
    flush(x, st)
    for i in st.ghost['idx']:
        st.assume(z3.Implies(x.u(i) & (x.one(o) - 1) == 0, x.A(i) & (r - 1) == 0))
    return r


def reg(x, st, i, levels=()):
    """what the invariant says about address i (and i with the addresses seen before)"""
    i = simp(i)
    for j in st.ghost['idx']:
        if j.eq(i):
            return
    blk, o, fr = x.blk0, x.ord0, x.free0
    c = [b1(x, i, blk, o, x.AS), b4(x, i, blk, o, fr), b3(x, i, o(i), blk, o), b3(x, i, x.l, blk, o)]
    c += [b2(x, i, j, blk, o) for j in st.ghost['idx']]
    c += [z3.Implies(z3.And(blk(i), blk(j), fr(i), fr(j), o(i) == x.M, o(j) == x.M), i == j) for j in st.ghost['idx']]
    c += [b3(x, i, l, blk, o) for l in levels]
    for f in st.ghost['univ']:
        c.append(f(i))
    if 'new' in st.ghost:
        c += st.ghost['new'](i)
    st.ghost['idx'] = st.ghost['idx'] + [i]
    st.assume(*c)
    flush(x, st)


def level(x, st, l):
    """the invariant B3 at one more level, for the addresses seen"""
    st.assume(*[b3(x, i, l, x.blk0, x.ord0) for i in st.ghost['idx']])
    flush(x, st)


def univ(x, st, f):
    """a fact about all addresses (proved at an arbitrary one)"""
    st.ghost['univ'] = st.ghost['univ'] + [f]
    st.assume(*[f(i) for i in st.ghost['idx']])


def head(x, st, i, off, n):
    """B6"""
    if not is_num(off):
        return None
    for name, w, v in (('size', 8, lambda: x.sz(x.ord0(i))), ('magic', 4, lambda: x.magic), ('order', 1, lambda: z3.Extract(7, 0, x.ord0(i))),
                       ('in_use', 1, lambda: z3.If(x.free0(i), z3.BitVecVal(0, 8), z3.Extract(7, 0, x.ord0(i) + 1)))):
        if num(off) == x.o[name] and n == w:
            return z3.If(x.blk0(i), v(), z3.Function('rest_' + name, B, z3.BitVecSort(8 * w))(i))
    return None


def where(x, off):
    """offset in the cache -> ('allocated' | 'orders', index, rest)"""
    r = pick32(x, off)
    if r is None:
        return None
    c, i = r
    if i is None:
        if x.co['allocated'] <= c < x.co['allocated'] + x.ls:
            return 'allocated', None, c - x.co['allocated']
        d = c - x.co['orders']
        if 0 <= d < 17 * x.ls:
            return 'orders', bv(d // x.ls), d % x.ls
        return None
    d = c - x.co['orders']
    # a negative constant part is a smaller index
    return 'orders', simp(i + (d // x.ls)), d % x.ls


def pick32(x, off):
    c, ts = 0, []
    for t in addends(simp(off)):
        if is_num(t):
            c += num(t)
        else:
            r = scaled(t, x.ls)
            if r is None:
                return None
            ts.append(r)
    if c >> 63:
        c -= 1 << 64
    return c, (total(ts) if ts else None)


def scaled(t, m):
    """t = m * r -> r"""
    if z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and is_num(t.arg(0)):
        f = num(t.arg(0))
        f = f - (1 << 64) if f >> 63 else f
        return simp(bv(f // m & (1 << 64) - 1) * t.arg(1)) if f % m == 0 else None
    if z3.is_app_of(t, z3.Z3_OP_CONCAT):
        # ... ++ 00000 : a shift left
        z = t.children()[-1]
        k = m.bit_length() - 1
        if is_num(z) and 1 << k == m and z.size() >= k and num(z) % m == 0:
            return simp(z3.LShR(t, k))
    return None


def ccell(x, off, n):
    w = where(x, off)
    if w is None or n != 8:
        return None
    which, i, r = w
    if which == 'allocated':
        return x.at if r == x.lt else x.au if r == x.lu else None
    return x.OT(i) if r == x.lt else x.OU(i) if r == x.lu else None


def fig(x, st, what, k=None):
    """a figure now"""
    b = x.co['allocated'] if k is None else x.co['orders']
    o = {'total': x.lt, 'used': x.lu}[what]
    return st.load(simp(x.c + b + o + (0 if k is None else x.ls * k)), 8)


def hcell(x, st, i, f):
    n = {'size': 8, 'magic': 4, 'order': 1, 'in_use': 1}[f]
    return st.load(simp(x.A(i) + x.o[f]), n)


# ------------------------------------------------------------ contracts of what is called
def links(x, st, tag):
    """a list operation changes links only"""
    def keep(st, f, i, off, n):
        if f is x.fh or f is getattr(x, 'fb', None):
            return z3.UGE(off, bv(32))
        if f is x.fc:
            w = where(x, off)
            return w is None or w[2] >= 16
        return True
    st.objhavoc(Havoc(keep=keep), tag)


def which_list(x, st, head):
    p = x.vc.place(st, head, 16)
    if p is None or p[0] is not x.fc:
        raise Unsupported('a list that is not the cache\'s')
    w = where(x, p[2])
    if w is None or w[2] != 0:
        raise Unsupported('not a list head')
    return w[0], w[1]


def item_of(x, st, p):
    q = x.vc.place(st, p, 16)
    if q is None or not is_num(q[2]):
        raise Unsupported('list item')
    o = num(q[2])
    if o not in (x.o['next_in_cache'], x.o['next_in_list']):
        raise Unsupported('list item')
    return q[0], q[1], 'ca' if o == x.o['next_in_cache'] else 'lst'


def r_add(x, vc, st, a):
    w, k = which_list(x, st, a[0])
    f, i, m = item_of(x, st, a[1])
    if (w == 'allocated') != (m == 'ca'):
        st.prove(False, 'pre(rlist_add):the link of that list')
    links(x, st, 'rlist_add')
    if m == 'ca':
        st.ghost['ca'] = st.ghost['ca'] + [('add', f, i)]
        return None
    st.prove(lst(x, st, i) == NONE, 'pre(rlist_add):in no list yet')
    st.ghost['lst'] = st.ghost['lst'] + [lambda j, v, i=i, k=k: z3.If(j == i, k, v)]
    st.ghost['wit'] = dict(st.ghost['wit'])
    st.ghost['wit'][k.get_id()] = (k, i, len(st.ghost['lst']))
    return None


def r_del(x, vc, st, a):
    f, i, m = item_of(x, st, a[0])
    links(x, st, 'rlist_del')
    if m == 'ca':
        st.ghost['ca'] = st.ghost['ca'] + [('del', f, i)]
        return None
    st.prove(lst(x, st, i) != NONE, 'pre(rlist_del):in a list')
    st.ghost['lst'] = st.ghost['lst'] + [lambda j, v, i=i: z3.If(j == i, NONE, v)]
    return None


def r_empty(x, vc, st, a):
    w, k = which_list(x, st, a[0])
    if w != 'orders':
        raise Unsupported('list')

    def full(s):
        t = vc.fresh('member')
        reg(x, s, t)
        s.assume(lst(x, s, t) == k)
        s.ghost['wit'] = dict(s.ghost['wit'])
        s.ghost['wit'][k.get_id()] = (k, t, len(s.ghost['lst']))
        return z3.BitVecVal(0, 32)

    def empty(s):
        ls = list(s.ghost['lst'])

        def none(i):
            v = lst0(x, i)
            for f in ls:
                v = f(i, v)
            return v != k
        univ(x, s, none)
        return z3.BitVecVal(1, 32)
    return [('members', full), ('empty', empty)]


def r_shift(x, vc, st, a):
    w, k = which_list(x, st, a[0])
    if w != 'orders':
        raise Unsupported('list')
    ws = [t for kk, t, n in st.ghost['wit'].values()]
    st.prove(z3.Or(*[lst(x, st, t) == k for t in ws]) if ws else False, 'pre(rlist_shift):not empty')
    t = vc.fresh('T')
    reg(x, st, t)
    st.assume(lst(x, st, t) == k)
    if st.ghost['mapped']:
        st.assume(z3.Implies(t != x.Y, x.blk0(t)))
    else:
        st.assume(x.blk0(t))
    links(x, st, 'rlist_shift')
    st.ghost['lst'] = st.ghost['lst'] + [lambda j, v, i=t: z3.If(j == i, NONE, v)]
    st.ghost['T'] = t
    return simp(x.A(t) + x.o['next_in_list'])


def idx(x, st, p):
    q = x.vc.place(st, p, 8)
    if q is None or q[0] is not x.fh or not is_num(q[2]) or num(q[2]) != 0:
        raise Unsupported('not a slab of the cache')
    return q[1]


def lemma(x, st, cond, name):
    flush(x, st)
    if st.prove(cond, 'lemma:' + name):
        st.assume(cond)


def c_buddy(x, vc, st, a):
    st.prove(a[0] == x.c, 'pre(slab_buddy):the cache')
    i = idx(x, st, a[1])
    o = simp(z3.ZeroExt(56, st.load(simp(a[1] + x.o['order']), 1)))
    st.prove(z3.ULE(o, x.M), 'pre(slab_buddy):an ordered slab')
    st.prove(x.u(i) & (x.one(o) - 1) == 0, 'pre(slab_buddy):aligned')

    def some(s):
        s.assume(o != x.M)
        q = vc.fresh('buddy')
        s.assume(q == x.mk(i, x.u(i) ^ x.one(o)))
        reg(x, s, q)
        addresses(x, s, q)
        return x.A(q)

    def none(s):
        s.assume(o == x.M)
        return bv(0)
    return [('top', none), ('buddy', some)]


def c_poison(x, vc, st, a):
    i = idx(x, st, a[0])
    s = st.load(simp(a[0] + x.o['size']), 8)
    st.prove(z3.UGE(s, bv(x.hdr)), 'pre(slab_poison):size')
    st.prove(poisonable(x, st, i, s), 'pre(slab_poison):only free memory is overwritten')
    o = simp(z3.ZeroExt(56, st.load(simp(a[0] + x.o['order']), 1)))
    st.prove(z3.And(z3.ULE(o, x.M), s == x.sz(o)), 'pre(slab_poison):size of the order')
    # every header inside the slab
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: z3.Not(z3.And(j != i, x.a(i) == x.a(j), z3.ULT(x.u(j) - x.u(i), x.one(o)))) if f is x.fh else True), 'poison')
    return None


def poisonable(x, st, i, s):
    g = st.ghost.get('poison')
    return g(st, i, s) if g else True


def c_map(x, vc, st, a):
    st.prove(a[0] == x.arena, "pre(slab_map):the cache's arena")
    if st.ghost['mapped']:
        raise Unsupported('two arena slabs')

    def ok(s):
        s.ghost['mapped'] = True
        reg(x, s, x.Y)
        s.assume(z3.Not(x.blk0(x.Y)))
        for i in s.ghost['idx']:
            s.assume(z3.Implies(x.blk0(i), x.AS(x.reset(i))))
        return x.A(x.Y)
    return [('slab', ok), ('no-slab', lambda s: bv(0))]


def c_unmap(x, vc, st, a):
    st.prove(a[0] == x.arena, "pre(slab_unmap):the cache's arena")
    i = idx(x, st, a[1])
    st.ghost['unmapped'] = st.ghost['unmapped'] + [i]
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: x.a(j) != x.a(i) if f is x.fh else True), 'unmap')
    return None


# ------------------------------------------------------------ the invariant after an operation
def partition(x, st, blk, order, free, isas, cov, name='inv', cases=lambda i: [z3.BoolVal(True)]):
    """B1 - B7 for the new tiling, at arbitrary blocks b, d, level l"""
    b, d, l = x.b, x.d, x.l
    for i in (b, d, sibling(x, b, l), x.mk(b, x.u(b) ^ x.one(order(b)))):
        reg(x, st, i)
    x.sz(order(b)), x.sz(order(d))
    flush(x, st)
    for ca in cases(b):
        for f in under(st, z3.And(ca, blk(b))):
            lemma(x, f, z3.And(x.in_slab(b), x.isas(b)), 'address')
            f.prove(b1(x, b, blk, order, isas), name + ':a slab is aligned to its size and lies in an arena slab')
            for cd in cases(d):
                for h in under(f, z3.And(cd, blk(d), b != d)):
                    h.prove(b2(x, b, d, blk, order), name + ':slabs do not overlap')
            f.prove(b3(x, b, l, blk, order), name + ':the neighbour of a slab is a slab or split')
            f.prove(b4(x, b, blk, order, free), name + ':free neighbours are merged')
            f.prove(hcell(x, f, b, 'magic') == x.magic, name + ':magic')
            f.prove(hcell(x, f, b, 'size') == x.sz(order(b)), name + ':size in the header')
            f.prove(z3.ZeroExt(56, hcell(x, f, b, 'order')) == order(b), name + ':order in the header')
            f.prove(z3.ZeroExt(56, hcell(x, f, b, 'in_use')) == z3.If(free(b), bv(0), order(b) + 1), name + ':use in the header')
            f.prove(lst(x, f, b) == z3.If(free(b), order(b), NONE), name + ':a free slab is in the list of its order, a used one in none')
    c = cov
    st.prove(z3.Implies(isas(x.reset(x.y)), z3.And(blk(c), covers(x, c, x.y, order))), name + ':every byte is in a slab')
    st.prove(z3.Implies(z3.Not(blk(b)), lst(x, st, b) == NONE), name + ':only slabs are in lists')
    st.prove(z3.Implies(z3.And(blk(b), blk(d), free(b), free(d), order(b) == x.M, order(d) == x.M), b == d), name + ':one whole free slab at most')


def config(x, st):
    g = lambda f: st.get(x.c, 'slab_cache', f)
    st.prove(z3.And(g('arena') == x.arena, g('order_max') == x.om8, z3.ZeroExt(56, g('order0_size_lb')) == x.L, g('order0_size') == z3.Extract(31, 0, x.sz(bv(0)))), 'frame:configuration')


def unchanged(x, st, name):
    partition(x, st, x.blk0, x.ord0, x.free0, x.AS, x.cb, name)
    st.prove(fig(x, st, 'total') == x.at, name + ':total')
    st.prove(fig(x, st, 'used') == x.au, name + ':used')
    st.prove(fig(x, st, 'total', x.k) == x.OT(x.k), name + ':total of an order')
    st.prove(fig(x, st, 'used', x.k) == x.OU(x.k), name + ':used of an order')
    st.prove(not st.ghost['mapped'] and not st.ghost['unmapped'] and not st.ghost['ca'], name + ':no arena slab taken or given back')


@proof('slab_buddy', 'P06 P07', M, assumes=ASSUME)
def _(mk, mod):
    vc = mk(contracts=dict(pthread_self=None) and {})
    st = vc.new_state()
    c, base = z3.BitVec('cache', 64), z3.BitVec('base', 64)
    lb, om, o = z3.BitVec('lb', 8), z3.BitVec('order_max', 8), z3.BitVec('order', 8)
    u = z3.BitVec('u', 16)
    Z = lambda v: z3.ZeroExt(64 - v.size(), v)
    st.assume(z3.UGE(lb, 8), z3.ULE(om, 15), z3.ULE(lb, 31), z3.ULE(lb + om, 31), z3.ULE(o, om), base & ((bv(1) << Z(lb + om)) - 1) == 0, z3.ULT(base, bv(1 << 46)), base != 0,
              z3.ULT(Z(u), bv(1) << Z(om)), Z(u) & ((bv(1) << Z(o)) - 1) == 0)
    addr = lambda u: base + (Z(u) << Z(lb))
    p = z3.BitVec('slab', 64)
    st.assume(p == addr(u))
    fc = st.fam(Fam('cache', mod.struct_size('slab_cache'), base=c))
    fs = st.fam(Fam('slab', mod.struct_size('slab'), base=p))
    st.put(c, 'slab_cache', 'order0_size_lb', lb)
    st.put(c, 'slab_cache', 'order_max', om)
    st.put(p, 'slab', 'order', o)
    st.foot = []

    def post(st, r):
        st.prove(z3.Implies(o == om, r == 0), 'post:a whole slab has no neighbour')
        one = z3.BitVecVal(1, 16) << z3.ZeroExt(8, o)
        st.prove(z3.Implies(o != om, r == addr(u ^ one)), 'post:the neighbour of the same size')
        # the map from units to addresses
        v = z3.BitVec('v', 16)
        st.assume(z3.ULT(Z(v), bv(1) << Z(om)))
        st.prove((z3.ULT(addr(u), addr(v))) == z3.ULT(u, v), 'address_map:order')
        st.prove((addr(u) == addr(v)) == (u == v), 'address_map:one to one')
        k = z3.BitVec('k', 8)
        st.prove(z3.Implies(z3.And(z3.ULE(k, om), Z(v) & ((bv(1) << Z(k)) - 1) == 0), addr(v) & ((bv(1) << Z(lb + k)) - 1) == 0), 'address_map:alignment')
    vc.verify('slab_buddy', [c, p], post=post)


@proof('slab_order_size', 'P06 P07', M, assumes=ASSUME)
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    c = z3.BitVec('cache', 64)
    lb, om, o = z3.BitVec('lb', 8), z3.BitVec('order_max', 8), z3.BitVec('order', 8)
    st.assume(z3.UGE(lb, 8), z3.ULE(om, 15), z3.ULE(lb, 31), z3.ULE(lb + om, 31), z3.ULE(o, om))
    fc = st.fam(Fam('cache', mod.struct_size('slab_cache'), base=c))
    st.put(c, 'slab_cache', 'order0_size_lb', lb)
    st.put(c, 'slab_cache', 'order_max', om)
    st.foot = []
    vc.verify('slab_order_size', [c, o], post=lambda st, r: st.prove(r == bv(1) << z3.ZeroExt(56, lb + o), 'post:2^(lb + order)'))


@proof('slab_poison', 'P06 P07', M)
def _(mk, mod):
    vc = mk(contracts=dict(small_align=small_align))
    st = vc.new_state()
    s, p = z3.BitVec('size', 64), z3.BitVec('slab', 64)
    h = mod.struct_size('slab')
    st.assume(z3.UGE(s, bv(h)))
    f = st.fam(Fam('slab', s, base=p, minsize=h))
    st.put(p, 'slab', 'size', s)
    st.foot = [('obj', f, lambda i, off, n: z3.UGE(off, bv(h)))]
    vc.verify('slab_poison', [p], post=lambda st, r: st.prove(st.get(p, 'slab', 'size') == s, 'post:the header stays'))


@proof('slab_get_with_order', 'P06 P07', M, assumes=ASSUME)
def _(mk, mod):
    x = cache(mk)
    st = x.st
    q8 = z3.BitVec('order', 8)
    q = x.q = z3.ZeroExt(56, q8)
    st.assume(z3.ULE(q, x.M))
    x.m = z3.BitVec('m', 64)
    st.assume(z3.ULE(x.m, x.M))

    # --- search
    def sinv(st, g):
        j = g['j']
        if not g.get('assumed'):
            st.prove(z3.And(z3.ULE(q, j), z3.ULE(j, x.M)), 'search:range')
            st.prove(st.local('list') == x.c + x.co['orders'] + x.ls * j, 'search:list')
            st.prove(z3.Not(z3.And(z3.UGE(lst0(x, x.b), q), z3.ULT(lst0(x, x.b), j))), 'search:smaller orders have no free slab')
        return []

    def shavoc(st, g):
        j8 = z3.BitVec('j', 8)
        j = z3.ZeroExt(56, j8)
        st.assume(z3.ULE(q, j), z3.ULE(j, x.M))
        univ(x, st, lambda i: z3.Not(z3.And(z3.UGE(lst0(x, i), q), z3.ULT(lst0(x, i), j))))
        st.set_local('list', simp(x.c + x.co['orders'] + x.ls * j))
        st.ghost['j'] = j
        return dict(j=j, assumed=True)

    def sstep(st, g):
        return dict(j=simp(g['j'] + 1))
    search = Loop(sinv, init=lambda st: dict(j=q), havoc=shavoc, step=sstep, variant=lambda st, g: x.M - g['j'])

    # --- split
    def eff(st):
        """the tiling after slab_map"""
        if not st.ghost['mapped']:
            return x.blk0, x.ord0, x.free0, x.AS
        return (lambda i: z3.Or(x.blk0(i), i == x.Y), lambda i: z3.If(i == x.Y, x.M, x.ord0(i)), lambda i: z3.Or(x.free0(i), i == x.Y),
                lambda i: z3.Or(x.AS(i), i == x.Y))
    x.eff = eff

    def isnew(st, j, i):
        """i = T + sz(level) for a level in j .. order(T) - 1"""
        T, k = st.ghost['T'], st.ghost['k']
        d = x.u(i) - x.u(T)
        return z3.And(x.a(i) == x.a(T), z3.UGE(d, x.one(j)), z3.ULT(d, x.one(k)), d & (d - 1) == 0)

    def levels(st):
        """lv: the level of a split-off slab (its distance from T is its size)"""
        T, k = st.ghost['T'], st.ghost['k']
        def f(i):
            d = x.u(i) - x.u(T)
            return [z3.Implies(z3.And(d != 0, z3.ULT(d, x.one(k)), d & (d - 1) == 0), z3.And(z3.ULT(x.lv(i), k), x.one(x.lv(i)) == d))]
        st.ghost['new'] = f
        for i in st.ghost['idx']:
            st.assume(*f(i))

    def tiles(st, j):
        """closed form after T is split down to level j"""
        T = st.ghost['T']
        blk, o, fr, isas = eff(st)
        n = lambda i: isnew(st, j, i)
        return (lambda i: z3.Or(blk(i), n(i)), lambda i: z3.If(i == T, j, z3.If(n(i), x.lv(i), o(i))), lambda i: z3.Or(n(i), z3.And(fr(i), z3.Not(n(i)))))
    x.tiles = tiles

    def ot(st, j):
        """figures of the orders while T is split"""
        k = st.ghost['k']
        return lambda m: simp(x.OT(m) + z3.If(z3.And(z3.ULE(j, m), z3.ULT(m, k)), x.sz(m), bv(0)) +
                              z3.If(m == k, (x.S if st.ghost['mapped'] else bv(0)) - x.sz(k), bv(0)))
    x.otf = ot

    def pinv(st, g):
        j = g['j']
        T = st.ghost['T']
        if not g.get('assumed'):
            blk, o, fr = tiles(st, j)
            st.prove(z3.And(z3.UGT(j, q), z3.ULE(j, st.ghost['k'])), 'split:level')
            st.prove(st.local('slab') == x.A(T), 'split:the slab')
            for f in under(st, blk(x.b)):
                lemma(x, f, z3.And(x.in_slab(x.b), x.isas(x.b)), 'address')
                f.prove(hcell(x, f, x.b, 'magic') == x.magic, 'split:magic')
                f.prove(hcell(x, f, x.b, 'size') == x.sz(o(x.b)), 'split:size in the header')
                f.prove(z3.ZeroExt(56, hcell(x, f, x.b, 'order')) == o(x.b), 'split:order in the header')
                f.prove(z3.ZeroExt(56, hcell(x, f, x.b, 'in_use')) == z3.If(fr(x.b), bv(0), o(x.b) + 1), 'split:use in the header')
            st.prove(lst(x, st, x.b) == lists(st, j)(x.b), 'split:lists')
            st.prove(fig(x, st, 'total', x.k) == ot(st, j)(x.k), 'split:totals of the orders')
            st.prove(fig(x, st, 'used', x.k) == x.OU(x.k), 'split:used of the orders')
            st.prove(z3.And(fig(x, st, 'total') == x.at + (x.S if st.ghost['mapped'] else 0), fig(x, st, 'used') == x.au), 'split:figures')
            config(x, st)
        return []

    def lists(st, j):
        T = st.ghost['T']
        return lambda i: z3.If(i == T, NONE, z3.If(isnew(st, j, i), x.lv(i), lst0(x, i)))

    def pinit(st):
        T = st.ghost['T']
        k = simp(eff(st)[1](T))
        st.ghost['k'] = k
        levels(st)
        return dict(j=k)

    def phavoc(st, g):
        T = st.ghost['T']
        j8 = z3.BitVec('jj', 8)
        j = z3.ZeroExt(56, j8)
        st.assume(z3.UGT(j, q), z3.ULE(j, st.ghost['k']))
        blk, o, fr = tiles(st, j)

        def cl(st, f, i, off, n):
            if f is x.fh and is_num(off):
                for name, w, v in (('size', 8, lambda: x.sz(o(i))), ('magic', 4, lambda: x.magic), ('order', 1, lambda: z3.Extract(7, 0, o(i))),
                                   ('in_use', 1, lambda: z3.If(fr(i), z3.BitVecVal(0, 8), z3.Extract(7, 0, o(i) + 1)))):
                    if num(off) == x.o[name] and n == w:
                        return z3.If(blk(i), v(), z3.Function('rest2_' + name, B, z3.BitVecSort(8 * w))(i))
            if f is x.fc and n == 8:
                w = where(x, off)
                if w and w[0] == 'orders' and w[2] == x.lt:
                    return ot(st, j)(w[1])
                if w and w[0] == 'orders' and w[2] == x.lu:
                    return x.OU(w[1])
            return None

        def keep(st, f, i, off, n):
            if f is x.fh:
                return False
            if f is x.fc:
                w = where(x, off)
                return w is None or w[0] == 'allocated'
            return True
        st.objhavoc(Havoc(keep=keep, cell=cl), 'split')
        st.ghost['lst'] = [lambda i, v, j=j, s=st: lists(st, j)(i)]
        st.set_local('slab', x.A(T))
        level(x, st, j)
        level(x, st, simp(j - 1))
        return dict(j=j, assumed=True)

    def pstep(st, g):
        return dict(j=simp(g['j'] - 1))
    split = Loop(pinv, init=pinit, havoc=phavoc, step=pstep, variant=lambda st, g: g['j'])
    x.vc.loops = {('slab_get_with_order', 0): search, ('slab_get_with_order', 1): split}
    # poisoning: the new slab only
    st.ghost['poison'] = lambda st, i, s: z3.And(z3.BoolVal(st.ghost['mapped']), i == x.Y, s == x.S)

    def post(st, r):
        config(x, st)
        for f in under(st, r == 0):
            unchanged(x, f, 'failure')
        for f in under(st, r != 0):
            T = f.ghost['T']
            if 'k' not in f.ghost:
                f.ghost['k'] = simp(eff(f)[1](T))
                levels(f)
            k = f.ghost['k']
            level(x, f, q)
            blk, o, fr = tiles(f, q)
            free = lambda i: z3.And(fr(i), i != T)
            mp = f.ghost['mapped']
            f.prove(r == x.A(T), 'post:the slab')
            f.prove(eff(f)[2](T), 'post:the slab was free')
            f.prove(z3.And(z3.UGE(k, q), z3.Not(z3.And(x.blk0(x.b), x.free0(x.b), z3.UGE(x.ord0(x.b), q), z3.ULT(x.ord0(x.b), k)))), 'post:taken from the smallest sufficient order')
            # the slab over byte y: the cover is split
            h = x.vc.fresh('h')
            c0 = simp(z3.If(x.reset(x.y) == x.Y, x.Y, x.cb)) if mp else x.cb
            dy = x.u(x.y) - x.u(T)
            f.assume(z3.Implies(dy != 0, z3.And(z3.ULE(h, bv(15)), z3.UGE(dy, x.one(h)), z3.ULT(z3.LShR(dy, 1), x.one(h)))))
            t = x.mk(T, x.u(T) + x.one(h))
            reg(x, f, t)
            cov = simp(z3.If(c0 != T, c0, z3.If(z3.ULT(dy, x.one(q)), T, t)))
            partition(x, f, blk, o, free, eff(f)[3], cov, cases=lambda i: [i == T, isnew(f, q, i), z3.And(i != T, z3.Not(isnew(f, q, i)))])
            f.prove(fig(x, f, 'used') == x.au + x.sz(q), 'post:used grows by the slab')
            f.prove(fig(x, f, 'total') == x.at + (x.S if mp else bv(0)), 'post:total grows by an arena slab taken')
            f.prove(fig(x, f, 'used', x.k) == x.OU(x.k) + z3.If(x.k == q, x.sz(q), bv(0)), 'post:used of the orders')
            want = simp(x.OT(x.k) + z3.If(z3.And(z3.ULE(q, x.k), z3.ULT(x.k, k)), x.sz(x.k), bv(0)) + z3.If(x.k == q, x.sz(q), bv(0)) -
                        z3.If(x.k == k, bv(0) if mp else x.sz(k), bv(0)))
            f.prove(fig(x, f, 'total', x.k) == want, 'post:total of the orders')
            ca = f.ghost['ca']
            f.prove((len(ca) == 1 and ca[0][0] == 'add') if mp else not ca, 'post:an arena slab taken is remembered')
            if mp:
                f.prove(ca[0][2] == x.Y, 'post:the arena slab taken is remembered')
                f.prove(z3.Not(z3.And(x.blk0(x.b), x.free0(x.b), z3.UGE(x.ord0(x.b), q))), 'post:an arena slab is taken only if no free slab is large enough')
    x.vc.verify('slab_get_with_order', [x.c, q8], post=post)


def put(mk, tiling, figures):
    """slab_put_with_order; the obligations are shared between proofs: the tiling, the figures"""
    x = cache(mk)
    st = x.st
    P = x.P = z3.BitVec('P', 64)
    reg(x, st, P)
    k0 = simp(x.ord0(P))
    x.sz(k0)
    st.assume(x.blk0(P), z3.Not(x.free0(P)), x.in_slab(P), x.AS(x.reset(P)))
    level(x, st, k0)

    # P merged up to level j: one slab at start(j)
    start = lambda j: x.mk(P, x.u(P) & ~(x.one(j) - 1))
    buddy = lambda j: x.mk(P, (x.u(P) & ~(x.one(j) - 1)) ^ x.one(j))
    inside = lambda j, i: z3.And(x.a(i) == x.a(P), x.u(i) & ~(x.one(j) - 1) == x.u(P) & ~(x.one(j) - 1))

    def tiles(j):
        s = start(j)
        return (lambda i: z3.Or(i == s, z3.And(x.blk0(i), z3.Not(inside(j, i)))), lambda i: z3.If(i == s, j, x.ord0(i)), lambda i: z3.Or(i == s, x.free0(i)))

    def idle(j):
        """nothing but free slabs is merged"""
        return lambda i: z3.Implies(z3.And(x.blk0(i), inside(j, i), i != P), z3.And(x.free0(i), z3.ULT(x.ord0(i), x.M)))
    lists = lambda j: lambda i: z3.If(inside(j, i), NONE, lst0(x, i))
    ot = lambda j: lambda m: simp(x.OT(m) - z3.If(m == k0, x.sz(k0), bv(0)) - z3.If(z3.And(z3.ULE(k0, m), z3.ULT(m, j)), x.sz(m), bv(0)))
    ou = lambda m: simp(x.OU(m) - z3.If(m == k0, x.sz(k0), bv(0)))

    def see(st, j):
        """names of the slabs of level j"""
        level(x, st, j)
        for i in (start(j), buddy(j)):
            reg(x, st, i, [j])
            addresses(x, st, i)
        x.sz(j)
        flush(x, st)

    def inv(st, g):
        j = g['j']
        if not g.get('assumed'):
            see(st, j)
            t = buddy(j)
            blk, o, fr = tiles(j)
            st.prove(z3.And(z3.ULE(k0, j), z3.ULT(j, x.M)), 'merge:level')
            st.prove(st.local('slab') == x.A(start(j)), 'merge:the slab')
            st.prove(st.local('buddy') == x.A(t), 'merge:its neighbour')
            lemma(x, st, z3.And(x.blk0(t), x.free0(t), x.ord0(t) == j), 'merge:the neighbour is free and of the same size')
            if figures:
                for c in (x.k == k0, z3.And(x.k != k0, x.k + 1 == j), z3.And(x.k != k0, x.k + 1 != j)):
                    for f in under(st, c):
                        f.prove(fig(x, f, 'total', x.k) == ot(j)(x.k), 'merge:totals of the orders')
                st.prove(fig(x, st, 'used', x.k) == ou(x.k), 'merge:used of the orders')
                st.prove(z3.And(fig(x, st, 'total') == x.at, fig(x, st, 'used') == x.au - x.sz(k0)), 'merge:figures')
            if not tiling:
                return []
            st.prove(idle(j)(x.b), 'merge:only free slabs are merged')
            for f in under(st, blk(x.b)):
                lemma(x, f, z3.And(x.in_slab(x.b), x.isas(x.b)), 'address')
                f.prove(hcell(x, f, x.b, 'magic') == x.magic, 'merge:magic')
                f.prove(hcell(x, f, x.b, 'size') == x.sz(o(x.b)), 'merge:size in the header')
                f.prove(z3.ZeroExt(56, hcell(x, f, x.b, 'order')) == o(x.b), 'merge:order in the header')
                f.prove(z3.ZeroExt(56, hcell(x, f, x.b, 'in_use')) == z3.If(fr(x.b), bv(0), o(x.b) + 1), 'merge:use in the header')
            st.prove(lst(x, st, x.b) == lists(j)(x.b), 'merge:lists')
            config(x, st)
        return []

    def havoc(st, g):
        j8 = z3.BitVec('jj', 8)
        j = z3.ZeroExt(56, j8)
        st.assume(z3.ULE(k0, j), z3.ULT(j, x.M))
        see(st, j)
        t = buddy(j)
        st.assume(x.blk0(t), x.free0(t), x.ord0(t) == j)
        univ(x, st, idle(j))
        blk, o, fr = tiles(j)

        def cl(st, f, i, off, n):
            if f is x.fh and is_num(off):
                for name, w, v in (('size', 8, lambda: x.sz(o(i))), ('magic', 4, lambda: x.magic), ('order', 1, lambda: z3.Extract(7, 0, o(i))),
                                   ('in_use', 1, lambda: z3.If(fr(i), z3.BitVecVal(0, 8), z3.Extract(7, 0, o(i) + 1)))):
                    if num(off) == x.o[name] and n == w:
                        return z3.If(blk(i), v(), z3.Function('rest2_' + name, B, z3.BitVecSort(8 * w))(i))
            if f is x.fc and n == 8:
                w = where(x, off)
                if w and w[0] == 'orders':
                    return ot(j)(w[1]) if w[2] == x.lt else ou(w[1]) if w[2] == x.lu else None
            return None

        def keep(st, f, i, off, n):
            if f is x.fh:
                return False
            if f is x.fc:
                w = where(x, off)
                return w is None or w[0] == 'allocated'
            return True
        st.objhavoc(Havoc(keep=keep, cell=cl), 'merge')
        st.ghost['lst'] = [lambda i, v, j=j: lists(j)(i)]
        st.set_local('slab', x.A(start(j)))
        st.set_local('buddy', x.A(t))
        see(st, simp(j + 1))
        st.ghost['j'] = j
        return dict(j=j, assumed=True)
    x.vc.loops = {('slab_put_with_order', 0): Loop(inv, init=lambda st: dict(j=k0), havoc=havoc, step=lambda st, g: dict(j=simp(g['j'] + 1)),
                                                   variant=lambda st, g: x.M - g['j'])}

    def top(st):
        return simp(st.ghost['j'] + 1) if 'j' in st.ghost else k0
    see(st, k0)

    def poison(st, i, s):
        J = top(st)
        see(st, J)
        return z3.And(i == start(J), s == x.sz(J), idle(J)(x.b)) if tiling else True
    st.ghost['poison'] = poison

    def post(st, r):
        config(x, st)
        J = top(st)
        see(st, J)
        blk, o, fr = tiles(J)
        um = st.ghost['unmapped']
        ca = st.ghost['ca']
        un = bool(um)
        if tiling:
            st.prove(z3.Implies(z3.And(x.blk0(x.b), z3.Not(x.free0(x.b)), x.b != P), z3.And(blk(x.b), o(x.b) == x.ord0(x.b), z3.Not(fr(x.b)))), 'post:slabs in use stay as they are')
        isas = x.AS
        if un:
            st.prove(len(um) == 1 and len(ca) == 1 and ca[0][0] == 'del', 'post:an arena slab given back is forgotten')
            s = um[0]
            st.prove(z3.And(s == x.reset(P), J == x.M, ca[0][2] == s), 'post:the whole arena slab is given back, and forgotten')
            st.prove(z3.Or(*[z3.And(t != s, lst(x, st, t) == x.M) for k, t, n in st.ghost['wit'].values()]), 'post:given back only if another whole slab is kept')
            blk0 = blk
            blk = lambda i: z3.And(blk0(i), x.a(i) != x.a(s))
            isas = lambda i: z3.And(x.AS(i), i != s)
        else:
            st.prove(not ca, 'post:no arena slab is forgotten')
        cov = simp(z3.If(inside(J, x.y), start(J), x.cb))
        if tiling:
            partition(x, st, blk, o, fr, isas, cov, cases=lambda i: [i == start(J), i != start(J)])
        if not figures:
            return
        st.prove(fig(x, st, 'used') == x.au - x.sz(k0), 'post:used shrinks by the slab')
        st.prove(fig(x, st, 'total') == x.at - (x.S if un else bv(0)), 'post:total shrinks by an arena slab given back')
        st.prove(fig(x, st, 'used', x.k) == ou(x.k), 'post:used of the orders')
        J1 = bv(0) if un else x.sz(J)
        want = simp(x.OT(x.k) - z3.If(J == k0, bv(0), z3.If(x.k == k0, x.sz(k0), bv(0)) + z3.If(z3.And(z3.ULE(k0, x.k), z3.ULT(x.k, J)), x.sz(x.k), bv(0))) +
                    z3.If(z3.And(x.k == J, J != k0), x.sz(J), bv(0)) - (z3.If(x.k == J, x.sz(J), bv(0)) if un else bv(0)))
        for c in (x.k == k0, z3.And(x.k != k0, x.k == J), z3.And(z3.ULT(k0, x.k), z3.ULT(x.k, J)), z3.Or(z3.ULT(x.k, k0), z3.UGT(x.k, J))):
            for f in under(st, c):
                f.prove(fig(x, f, 'total', x.k) == want, 'post:total of the orders')
    x.vc.verify('slab_put_with_order', [x.c, x.A(P)], post=post)


@proof('slab_put_with_order', 'P06', M, assumes=ASSUME)
def _(mk, mod):
    put(mk, True, False)


@proof('slab_put_with_order/figures', 'P07', M, assumes=ASSUME)
def _(mk, mod):
    put(mk, False, True)
