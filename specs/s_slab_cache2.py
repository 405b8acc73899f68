"""Contracts of slab_cache: sizes and orders, large slabs, creation and destruction (P06, P07)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from smallvc.seq import Seq
from specs.common import small_align, under
from specs.s_slab_cache import ASSUME, M

Z = lambda v: z3.ZeroExt(64 - v.size(), v)


class O:
    pass


def world(mk, contracts=None, **kw):
    """a cache of slabs of 2^lb .. 2^(lb + om) bytes; figures au, at; lists behind the rlist contracts"""
    x = O()
    cs = dict(small_align=small_align, pthread_self=lambda vc, st, a: x.tid,
              pthread_equal=lambda vc, st, a: z3.If(a[0] == a[1], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)),
              quota_use=lambda vc, st, a: quota_use(x, st, a), quota_release=lambda vc, st, a: quota_release(x, st, a),
              malloc=lambda vc, st, a: malloc(x, st, a), free=lambda vc, st, a: free(x, st, a), rlist_add=lambda vc, st, a: r_op(x, st, 'add', a),
              rlist_add_tail=lambda vc, st, a: r_op(x, st, 'add', a), rlist_del=lambda vc, st, a: r_op(x, st, 'del', [None] + a))
    cs.update({n: (lambda f: lambda vc, st, a: f(x, vc, st, a))(f) for n, f in (contracts or {}).items()})
    vc = x.vc = mk(contracts=cs, **kw)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    f = lambda s, n: mod.field(s, n)[0]
    x.hs = mod.struct_size('slab')
    x.hdr = (x.hs + 7) // 8 * 8
    x.c, x.arena, x.quota, x.tid = (z3.BitVec(n, 64) for n in ('cache', 'arena', 'quota', 'tid'))
    x.lb, x.om = z3.BitVec('lb', 8), z3.BitVec('order_max', 8)
    st.assume(z3.UGE(x.lb, 8), z3.ULE(x.om, 15), z3.ULE(x.lb, 31), z3.ULE(x.lb + x.om, 31))
    x.S, x.S0 = bv(1) << Z(x.lb + x.om), bv(1) << Z(x.lb)
    x.fc = st.fam(Fam('cache', mod.struct_size('slab_cache'), base=x.c))
    x.fa = st.fam(Fam('arena', mod.struct_size('slab_arena'), base=x.arena))
    st.put(x.arena, 'slab_arena', 'slab_size', z3.Extract(31, 0, x.S))
    st.put(x.arena, 'slab_arena', 'quota', x.quota)
    st.put(x.c, 'slab_cache', 'arena', x.arena)
    st.put(x.c, 'slab_cache', 'order0_size', z3.Extract(31, 0, x.S0))
    st.put(x.c, 'slab_cache', 'order0_size_lb', x.lb)
    st.put(x.c, 'slab_cache', 'order_max', x.om)
    st.put(x.c, 'slab_cache', 'thread_id', x.tid)
    x.Hl = x.c + f('slab_cache', 'allocated')
    x.o = {n: f('slab', n) for n in ('size', 'magic', 'order', 'in_use', 'next_in_cache', 'next_in_list')}
    x.at, x.au = (st.get(x.c, 'slab_cache', 'allocated.stats.' + n) for n in ('total', 'used'))
    x.X = z3.BitVec('X', 64)
    st.ghost.update(charged=bv(0), released=bv(0), chunks=[], freed=[], ops=[], fails=0)
    st.foot = [('obj', x.fc, lambda i, off, n: True)]
    return x


def hd(x, st, p, n):
    return st.get(p, 'slab', n)


def quota_use(x, st, a):
    st.prove(a[0] == x.quota, "pre(quota_use):the arena's quota")
    st.prove(a[1] != 0, 'pre(quota_use):not zero')

    def ok(s):
        s.ghost['charged'] = s.ghost['charged'] + a[1]
        return bv(1024)

    def no(s):
        s.ghost['fails'] += 1
        return bv(-1)
    return [('charged', ok), ('refused', no)]


def quota_release(x, st, a):
    st.prove(a[0] == x.quota, "pre(quota_release):the arena's quota")
    st.ghost['released'] = st.ghost['released'] + a[1]
    r = x.vc.fresh('released')
    return r


def malloc(x, st, a):
    if st.ghost['chunks']:
        raise Unsupported('two chunks')

    def ok(s):
        f = Fam('chunk', a[0], base=x.X, minsize=0, align=16)
        s.fam(f)
        s.ghost['chunks'] = [(x.X, a[0])]
        s.foot = s.foot + [('obj', f, lambda i, off, n: True)]
        return x.X

    def no(s):
        s.ghost['fails'] += 1
        return bv(0)
    return [('memory', ok), ('no-memory', no)]


def free(x, st, a):
    st.ghost['freed'] = st.ghost['freed'] + [a[0]]
    return None


def r_op(x, st, op, a):
    st.ghost['ops'] = st.ghost['ops'] + [(op, a[0], a[1])]
    return None


def kept(x, st):
    g = lambda f: st.get(x.c, 'slab_cache', f)
    st.prove(z3.And(g('arena') == x.arena, g('order_max') == x.om, g('order0_size_lb') == x.lb, g('order0_size') == z3.Extract(31, 0, x.S0)), 'frame:configuration')


@proof('slab_order', 'P06', M, assumes=ASSUME)
def _(mk, mod):
    x = world(mk)
    s = z3.BitVec('size', 64)
    x.st.foot = []

    def post(st, r):
        r = z3.Extract(7, 0, r)
        st.prove(z3.Implies(z3.UGT(s, x.S), r == x.om + 1), 'post:more than an arena slab is large')
        for f in under(st, z3.ULE(s, x.S)):
            f.prove(z3.ULE(r, x.om), 'post:up to an arena slab has an order')
            f.prove(z3.UGE(bv(1) << Z(x.lb + r), s), 'post:the order is sufficient')
            f.prove(z3.Or(r == 0, z3.ULT(bv(1) << Z(x.lb + r - 1), s)), 'post:the smallest sufficient order')
    x.vc.verify('slab_order', [x.c, s], post=post)


@proof('slab_real_size', 'P06', M, assumes=ASSUME + ['size + header does not wrap'])
def _(mk, mod):
    x = world(mk)
    s = z3.BitVec('size', 64)
    x.st.assume(z3.ULE(s, bv(-1) - x.hdr))
    x.st.foot = []
    t = s + x.hdr

    def post(st, r):
        st.prove(z3.Implies(z3.UGT(t, x.S), r == t), 'post:a large slab has just the size')
        for f in under(st, z3.ULE(t, x.S)):
            f.prove(z3.And(z3.UGE(r, t), r & (r - 1) == 0, z3.UGE(r, x.S0), z3.ULE(r, x.S)), 'post:an ordered size')
            f.prove(z3.Or(r == x.S0, z3.ULT(z3.LShR(r, 1), t)), 'post:the smallest one')
    x.vc.verify('slab_real_size', [x.c, s], post=post)


@proof('slab_get', 'P06 P07', M, assumes=ASSUME)
def _(mk, mod):
    def with_order(x, vc, st, a):
        st.prove(a[0] == x.c, 'pre(slab_get_with_order):the cache')
        o = z3.Extract(7, 0, a[1]) if a[1].size() > 8 else a[1]
        st.prove(z3.ULE(o, x.om), 'pre(slab_get_with_order):an order of the cache')
        st.ghost['calls'] = st.ghost.get('calls', []) + [('order', o)]
        return [('slab', lambda s: got(x, s, bv(1) << Z(x.lb + o), o)), ('no-slab', lambda s: bv(0))]

    def large(x, vc, st, a):
        st.prove(a[0] == x.c, 'pre(slab_get_large):the cache')
        st.ghost['calls'] = st.ghost.get('calls', []) + [('large', a[1])]

        def ok(s):
            s.assume(z3.ULE(a[1], bv(-1) - x.hdr))
            return got(x, s, a[1] + x.hdr, x.om + 1)
        return [('slab', ok), ('no-slab', lambda s: bv(0))]

    def got(x, s, size, order):
        f = Fam('slab', size, base=x.X, minsize=x.hdr, align=16)
        s.fam(f)
        s.put(x.X, 'slab', 'size', size)
        s.put(x.X, 'slab', 'order', order)
        s.put(x.X, 'slab', 'magic', z3.BitVecVal(0xeec0ffee, 32))
        return x.X
    x = world(mk, contracts=dict(slab_get_with_order=with_order, slab_get_large=large))
    s = z3.BitVec('size', 64)

    def post(st, r):
        calls = st.ghost.get('calls', [])
        fits = z3.And(z3.ULE(s, bv(-1) - x.hdr), z3.ULE(s + x.hdr, x.S))
        kept(x, st)
        if not calls:
            st.prove(z3.And(r == 0, z3.UGT(s, bv(-1) - x.hdr)), 'post:refused outright only if the size wraps')
            return
        st.prove(len(calls) == 1, 'post:one slab is taken')
        kind, v = calls[0]
        if kind == 'order':
            st.prove(fits, 'post:ordered slabs are for sizes up to the arena slab')
            t = s + x.hdr
            st.prove(z3.And(z3.UGE(bv(1) << Z(x.lb + v), t), z3.Or(v == 0, z3.ULT(bv(1) << Z(x.lb + v - 1), t))), 'post:the smallest sufficient order')
        else:
            st.prove(z3.And(z3.Not(fits), v == s), 'post:large slabs are for larger sizes')
        for f in under(st, r != 0):
            f.prove(z3.And(r == x.X, z3.UGE(f.get(r, 'slab', 'size') - x.hdr, s), z3.UGE(f.get(r, 'slab', 'size'), bv(x.hdr))), 'post:enough usable bytes')
    x.vc.verify('slab_get', [x.c, s], post=post)


@proof('slab_get_large', 'P06 P07', M, assumes=ASSUME)
def _(mk, mod):
    x = world(mk)
    s = z3.BitVec('size', 64)

    def post(st, r):
        g = st.ghost
        kept(x, st)
        total, used = (st.get(x.c, 'slab_cache', 'allocated.stats.' + n) for n in ('total', 'used'))
        t = s + x.hdr
        for f in under(st, r == 0):
            f.prove(g['charged'] == g['released'], 'failure:nothing stays charged')
            f.prove(not g['chunks'] and not g['ops'], 'failure:nothing is kept')
            f.prove(z3.And(total == x.at, used == x.au), 'failure:figures unchanged')
            f.prove(z3.Or(z3.BoolVal(g['fails'] > 0), z3.UGT(s, bv(-1) - x.hdr)), 'failure:only if quota or memory is refused')
        for f in under(st, r != 0):
            f.prove(z3.UGE(t, s), 'post:no wrap')
            f.prove(z3.And(g['charged'] == t, g['released'] == 0), 'post:charged once, in full')
            f.prove(len(g['chunks']) == 1 and not g['freed'] and len(g['ops']) == 1, 'post:one chunk')
            f.prove(z3.And(r == x.X, g['chunks'][0][1] == t), 'post:the chunk has room for the header and the data')
            h = lambda n: f.get(r, 'slab', n)
            f.prove(z3.And(h('size') == t, h('order') == x.om + 1, h('magic') == z3.BitVecVal(0xeec0ffee, 32)), 'post:header')
            f.prove(z3.And(total == x.at + t, used == x.au + t), 'post:figures grow by the slab')
            op = g['ops'][0]
            f.prove(z3.And(z3.BoolVal(op[0] == 'add'), op[1] == x.Hl, op[2] == r + x.o['next_in_cache']), 'post:remembered by the cache')
    x.vc.verify('slab_get_large', [x.c, s], post=post)


@proof('slab_put_large', 'P07', M, assumes=ASSUME)
def _(mk, mod):
    x = world(mk)
    st = x.st
    s, p = z3.BitVec('size', 64), z3.BitVec('slab', 64)
    f = st.fam(Fam('large', s, base=p, minsize=x.hdr, align=16))
    st.assume(z3.UGE(s, bv(x.hdr)))
    st.put(p, 'slab', 'size', s)
    st.put(p, 'slab', 'order', x.om + 1)
    st.put(p, 'slab', 'magic', z3.BitVecVal(0xeec0ffee, 32))
    st.foot = st.foot + [('obj', f, lambda i, off, n: True)]

    def post(st, r):
        g = st.ghost
        kept(x, st)
        total, used = (st.get(x.c, 'slab_cache', 'allocated.stats.' + n) for n in ('total', 'used'))
        st.prove(z3.And(total == x.at - s, used == x.au - s), 'post:figures shrink by the slab')
        st.prove(z3.And(g['released'] == s, g['charged'] == 0), 'post:the quota charge is given back')
        st.prove(len(g['freed']) == 1 and len(g['ops']) == 1, 'post:freed once')
        st.prove(g['freed'][0] == p, 'post:the slab is freed')
        op = g['ops'][0]
        st.prove(z3.And(z3.BoolVal(op[0] == 'del'), op[2] == p + x.o['next_in_cache']), 'post:forgotten by the cache')
    x.vc.verify('slab_put_large', [x.c, p], post=post)


@proof('slab_put', 'P06 P07', M, assumes=ASSUME)
def _(mk, mod):
    def put(n):
        def f(x, vc, st, a):
            st.prove(a[0] == x.c, 'pre(%s):the cache' % n)
            st.ghost['calls'] = st.ghost.get('calls', []) + [(n, a[1])]
            return None
        return f
    x = world(mk, contracts=dict(slab_put_with_order=put('slab_put_with_order'), slab_put_large=put('slab_put_large')))
    st = x.st
    p, o = z3.BitVec('slab', 64), z3.BitVec('order', 8)
    st.fam(Fam('slab', x.hdr, base=p))
    st.put(p, 'slab', 'order', o)
    st.assume(z3.ULE(o, x.om + 1))

    def post(st, r):
        calls = st.ghost.get('calls', [])
        st.prove(len(calls) == 1, 'post:put once')
        st.prove(calls[0][1] == p, 'post:that slab')
        st.prove((o == x.om + 1) if calls[0][0] == 'slab_put_large' else z3.ULE(o, x.om), 'post:by its kind')
    x.vc.verify('slab_put', [x.c, p], post=post)


for fn in ('slab_from_data', 'slab_data', 'slab_capacity', 'slab_sizeof', 'slab_cache_used'):
    @proof(fn, 'P06' if fn != 'slab_cache_used' else 'P07', M)
    def _(mk, mod, fn=fn):
        x = world(mk)
        st = x.st
        p, s = z3.BitVec('slab', 64), z3.BitVec('size', 64)
        st.fam(Fam('slab', x.hdr, base=p, align=16))
        st.put(p, 'slab', 'size', s)
        st.assume(z3.UGE(s, bv(x.hdr)))
        st.foot = []
        arg = {'slab_from_data': p + x.hdr, 'slab_cache_used': x.c}.get(fn, p)
        want = {'slab_from_data': p, 'slab_data': p + x.hdr, 'slab_capacity': s - x.hdr, 'slab_sizeof': bv(x.hdr), 'slab_cache_used': x.au}[fn]

        def post(st, r):
            st.prove(r == want, 'post:value')
            if fn == 'slab_sizeof':
                st.prove(z3.And(z3.UGE(r, bv(x.hs)), r & 7 == 0), 'post:room for the header')
        x.vc.verify(fn, [] if fn == 'slab_sizeof' else [arg], post=post)


@proof('slab_from_ptr', 'P06', M)
def _(mk, mod):
    x = world(mk)
    st = x.st
    p, ptr, o = z3.BitVec('slab', 64), z3.BitVec('ptr', 64), z3.BitVec('order', 8)
    st.fam(Fam('slab', x.hdr, base=p))
    st.put(p, 'slab', 'magic', z3.BitVecVal(0xeec0ffee, 32))
    sz = bv(1) << Z(x.lb + o)
    st.assume(z3.ULE(o, x.om), p & (sz - 1) == 0, z3.UGE(ptr, p), z3.ULT(ptr - p, sz))
    mask = z3.BitVec('mask', 64)
    st.assume(mask == ~(sz - 1))
    st.prove(ptr & mask == p, 'lemma:a pointer into an aligned block maps to its start')
    st.assume(ptr & mask == p)
    st.foot = []
    x.vc.verify('slab_from_ptr', [ptr, mask], post=lambda st, r: st.prove(r == p, 'post:any pointer into a slab maps back to it'))


@proof('slab_cache_create', 'P06 P07', M, assumes=['the page size and the arena\'s slab size are powers of two, page size >= 256, slab size <= 2^31'])
def _(mk, mod):
    pg = z3.BitVec('page_lb', 64)
    x = O()

    def lb(vc, st, a):
        st.prove(a[0] != 0, 'pre(small_lb):not zero')
        r = vc.fresh('lb')
        st.assume(z3.ULT(r, bv(64)), z3.LShR(a[0], r) == 1)
        return r

    def r_create(vc, st, a):
        st.ghost['heads'] = st.ghost['heads'] + [a[0]]
        st.store(a[0], a[0], 8)
        st.store(a[0] + 8, a[0], 8)
        return None
    vc = mk(contracts=dict(small_getpagesize=lambda vc, st, a: bv(1) << pg, small_lb=lb, pthread_self=lambda vc, st, a: z3.BitVec('tid', 64)), bits=True)
    st = vc.new_state()
    c, arena = z3.BitVec('cache', 64), z3.BitVec('arena', 64)
    sl = z3.BitVec('slab_lb', 64)
    st.assume(z3.UGE(pg, 8), z3.ULE(pg, sl), z3.ULE(sl, 31))
    S = bv(1) << sl
    fc = st.fam(Fam('cache', mod.struct_size('slab_cache'), base=c))
    st.fam(Fam('arena', mod.struct_size('slab_arena'), base=arena))
    st.put(arena, 'slab_arena', 'slab_size', z3.Extract(31, 0, S))
    st.foot = [('obj', fc, lambda i, off, n: True)]
    ls, oo = mod.struct_size('slab_list'), mod.field('slab_cache', 'orders')[0]
    k = z3.BitVec('k', 64)

    def post(st, r):
        g = lambda f: st.get(c, 'slab_cache', f)
        om, lb = Z(g('order_max')), Z(g('order0_size_lb'))
        st.prove(g('arena') == arena, 'post:arena')
        st.prove(z3.ULE(om, 15), 'post:orders fit')
        st.prove(om + lb == sl, 'post:the largest order is the arena slab')
        st.prove(Z(g('order0_size')) == bv(1) << lb, 'post:size of order 0')
        st.prove(z3.UGE(lb, pg), 'post:order 0 is at least a page')
        st.prove(z3.Or(lb == pg, om == 15), 'post:as many orders as possible')
        st.prove(g('thread_id') == z3.BitVec('tid', 64), 'post:owner')
        st.prove(z3.And(g('allocated.stats.used') == 0, g('allocated.stats.total') == 0), 'post:figures are zero')
        H = simp(c + mod.field('slab_cache', 'allocated')[0])
        st.prove(z3.And(st.load(H, 8) == H, st.load(H + 8, 8) == H), 'post:no slabs')
        for j in range(16):
            for f in under(st, z3.ULE(bv(j), om)):
                H = simp(c + oo + ls * j)
                f.prove(z3.And(f.load(H, 8) == H, f.load(H + 8, 8) == H), 'post:no free slabs')
                o = mod.field('slab_list', 'stats')[0]
                f.prove(z3.And(f.load(simp(H + o), 8) == 0, f.load(simp(H + o + 8), 8) == 0), 'post:figures of the order are zero')
    vc.verify('slab_cache_create', [c, arena], post=post)


@proof('slab_cache_destroy', 'P07', M, assumes=ASSUME + ['slab_unmap, quota_release, free by contract'])
def _(mk, mod):
    def unmap(x, vc, st, a):
        st.prove(a[0] == x.arena, "pre(slab_unmap):the cache's arena")
        gone(x, st, a[1], z3.Not(x.large(st.ghost['n'])), 'slab_unmap')
        return None

    def freed(x, vc, st, a):
        n = st.ghost['n']
        gone(x, st, a[0], x.large(n), 'free')
        return None

    def released(x, vc, st, a):
        n = st.ghost['n']
        st.prove(a[0] == x.quota, "pre(quota_release):the arena's quota")
        st.prove(z3.And(z3.ULT(n, x.N), x.large(n), a[1] == x.SZ(n)), 'pre(quota_release):the charge of the large slab')
        st.prove(st.ghost['paid'] == n, 'pre(quota_release):once')
        st.ghost['paid'] = simp(n + 1)
        return vc.fresh('released')

    def gone(x, st, p, kind, name):
        n = st.ghost['n']
        st.prove(z3.ULT(n, x.N), 'pre(%s):a slab is left' % name)
        st.prove(z3.And(p == x.A(n), kind), 'pre(%s):the next slab, by its kind' % name)
        st.prove(z3.Implies(x.large(n), st.ghost['paid'] == n + 1), 'pre(%s):a large slab gives its charge back' % name)
        st.ghost['n'] = simp(n + 1)
        st.ghost['paid'] = simp(n + 1)
        st.objhavoc(Havoc(keep=lambda st, f, i, off, w: z3.UGT(i, n) if f is x.fs else True), name)
    x = world(mk, contracts=dict(slab_unmap=unmap, free=freed, quota_release=released))
    st = x.st
    F = lambda s, f: mod.field(s, f)[0]
    po, no = F('rlist', 'prev'), F('rlist', 'next')
    x.N = z3.BitVec('N', 64)
    x.seq = Seq('held', x.N, simp(x.Hl), x.o['next_in_cache'], po, no)
    x.A = x.seq.A
    SZ, BIG = z3.Function('SZ', B, B), z3.Function('BIG', B, z3.BoolSort())
    x.SZ, x.large = (lambda i: SZ(simp(i))), (lambda i: BIG(simp(i)))
    ol = x.o['next_in_cache']

    def cell(st, i, off, n):
        if not z3.is_bv_value(off):
            return None
        o = off.as_long()
        if n == 8 and o == ol + no:
            return x.seq.next(i)
        if n == 8 and o == ol + po:
            return x.seq.prev(i)
        if n == 8 and o == x.o['size']:
            return x.SZ(i)
        if n == 1 and o == x.o['order']:
            return z3.If(x.large(i), x.om + 1, z3.Extract(7, 0, z3.Function('ORD', B, B)(i)))
        return None
    ORD = z3.Function('ORD', B, B)
    x.fs = st.fam(Fam('held', x.hdr, fn=x.A, guard=lambda i: z3.ULT(i, x.N), facts=lambda st, i: [z3.ULE(ORD(i), Z(x.om))], cell=cell))
    st.assume(z3.ULT(x.N, bv(1 << 40)))
    st.store(x.Hl + no, x.seq.first(), 8)
    st.store(x.Hl + po, x.seq.last(), 8)
    st.ghost.update(n=bv(0), paid=bv(0))
    st.foot = []
    slab_of = lambda c: simp(x.seq.at(c) - ol)

    def inv(st, g):
        c = g['c']
        return [('slabs', z3.And(st.ghost['n'] == c, st.ghost['paid'] == c, z3.ULE(c, x.N))), ('position', st.local('slab') == slab_of(c))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.ghost['n'] = st.ghost['paid'] = c
        st.objhavoc(Havoc(keep=lambda st, f, i, off, w: z3.UGE(i, c) if f is x.fs else True), 'destroy loop')
        st.set_local('slab', slab_of(c))
        return dict(c=c)
    x.vc.loops = {('slab_cache_destroy', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)), variant=lambda st, g: x.N - g['c'])}
    x.vc.verify('slab_cache_destroy', [x.c], post=lambda st, r: st.prove(st.ghost['n'] == x.N, 'post:every slab is given back'))
