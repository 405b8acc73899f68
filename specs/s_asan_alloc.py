"""The AddressSanitizer build (P27): mempool, small, slab cache and arena over the contract of small_asan_alloc / free
(proved in s_asan.py).  An allocation is a header object (hs bytes) and a payload object, recovered from each other."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, simp
from smallvc.heap import Fam, B
from specs.common import under

CFG = ('asan',)
ASSUME = ['small_asan_alloc / small_asan_free / header and payload recovery by contract (proofs small_asan_*)',
          'running out of memory ends the program (small_xmalloc)']


class X:
    pass


def world(mk, hsize, contracts=None, live=False):
    """live: one allocation exists (header h, payload p of PS bytes)"""
    x = X()
    x.h, x.p, x.PS = z3.BitVec('header', 64), z3.BitVec('payload', 64), z3.BitVec('payload_size', 64)
    x.al = None
    x.fh, x.fp = Fam('header', hsize, base=x.h), Fam('payload', x.PS, base=x.p, align=1)

    def alloc(vc, st, a):
        st.prove(z3.BoolVal(st.ghost['got'] is None and not live), 'pre(small_asan_alloc):one block is taken')
        st.prove(z3.And(a[1] != 0, a[1] & (a[1] - 1) == 0, z3.ULE(a[1], bv(4096))), 'pre(small_asan_alloc):power of two up to 4096')
        st.prove(z3.UGE(a[2], bv(hsize)), 'pre(small_asan_alloc):room for the header')
        st.ghost['got'] = (a[0], a[1])
        st.assume(x.PS == a[0], x.p & (a[1] - 1) == 0, x.p & (2 * a[1] - 1) != 0)
        st.fam(x.fh)
        st.fam(x.fp)
        st.meet(x.fh, None)
        st.meet(x.fp, None)
        st.foot = st.foot + [('obj', x.fh, lambda i, off, n: True), ('obj', x.fp, lambda i, off, n: True)]
        return x.h

    def free(vc, st, a):
        st.prove(a[0] == x.h, 'pre(small_asan_free):the header of the block')
        st.prove(z3.BoolVal(not st.ghost.get('freed')), 'pre(small_asan_free):once')
        st.ghost['freed'] = True
        return None

    def p2h(vc, st, a):
        st.prove(a[0] == x.p, 'pre(header_from_payload):a payload')
        return x.h

    def h2p(vc, st, a):
        st.prove(a[0] == x.h, 'pre(payload_from_header):a header')
        return x.p

    def failed(vc, st, tgt, args, where):
        if st.ghost.get('mayfail'):
            st.ghost['failed'] = True
            return None
        st.prove(False, 'small_asan_assert@' + where)
        return None

    def reserve_id(vc, st, a):
        return vc.fresh('id', 32)
    cs = dict(small_asan_alloc=alloc, small_asan_free=free, small_asan_header_from_payload=p2h, small_asan_payload_from_header=h2p,
              small_asan_reserve_id=reserve_id)
    for n, f in (contracts or {}).items():
        cs[n] = (lambda f: lambda vc, st, a: f(x, vc, st, a))(f)
    x.vc = mk(contracts=cs, indirect=failed)
    x.st = st = x.vc.new_state()
    st.foot = []
    st.ghost.update(got=None)
    if live:
        st.fam(x.fh)
        st.fam(x.fp)
        st.meet(x.fh, None)
        st.meet(x.fp, None)
        st.ghost['got'] = False
    return x


def obj(x, mod, st, name, struct):
    o = z3.BitVec(name, 64)
    f = st.fam(Fam(name, mod.struct_size(struct), base=o))
    st.meet(f, None)
    st.foot = st.foot + [('obj', f, lambda i, off, n: True)]
    return o


# ------------------------------------------------------------ mempool

@proof('mempool_create', 'P27', 'mempool_asan', cfgs=CFG, fns=['mempool_create', 'mempool_is_initialized'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('mempool_object'))
    st = x.st
    p = obj(x, mod, st, 'pool', 'mempool')
    size = z3.BitVec('objsize', 32)
    st.assume(size != 0, z3.ULT(size, z3.BitVecVal(1 << 31, 32)))

    def post(st, r):
        al = st.get(p, 'mempool', 'alignment')
        st.prove(st.get(p, 'mempool', 'objsize') == size, 'post:object size')
        st.prove(st.get(p, 'mempool', 'objcount') == 0, 'post:no objects')
        st.prove(z3.And(al != 0, al & (al - 1) == 0, z3.ULE(al, bv(4096))), 'post:the alignment is a power of two up to 4096')
        st.prove(z3.ZeroExt(32, size) & (al - 1) == 0, 'post:the object size is a multiple of the alignment')
        st.prove(z3.Or(al == 4096, z3.ZeroExt(32, size) & (2 * al - 1) != 0), 'post:the greatest such alignment')
    x.vc.verify('mempool_create', [p, z3.BitVec('cache', 64), size], post=post)


@proof('mempool_alloc', 'P27', 'mempool_asan', cfgs=CFG, fns=['mempool_alloc'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('mempool_object'))
    st = x.st
    p = obj(x, mod, st, 'pool', 'mempool')
    cnt, al, size, id = (st.get(p, 'mempool', f) for f in ('objcount', 'alignment', 'objsize', 'id'))
    st.assume(al != 0, al & (al - 1) == 0, z3.ULE(al, bv(4096)))

    def post(st, r):
        st.prove(r == x.p, 'post:the payload of a new block')
        st.prove(x.PS == z3.ZeroExt(32, size), 'post:of the object size')
        st.prove(z3.And(r & (al - 1) == 0, r & (2 * al - 1) != 0), 'post:aligned')
        st.prove(st.get(p, 'mempool', 'objcount') == cnt + 1, 'post:one object more')
        st.prove(st.get(x.h, 'mempool_object', 'pool_id') == id, "post:the block carries the pool's id")
        for f, v in (('alignment', al), ('objsize', size), ('id', id)):
            st.prove(st.get(p, 'mempool', f) == v, 'post:the rest of the pool is kept')
    x.vc.verify('mempool_alloc', [p], post=post)


def freeing(name, tu, owner, struct, ostruct, ofield, idf, args, extra, pre=None, contracts=None, skip=()):
    """name: the function; args(x, o) its arguments; extra(x, st0 figures) further postconditions"""
    for good in (True, False):
        def reg(good):
            @proof(name + ('' if good else '/of another owner'), 'P27', tu, cfgs=CFG, fns=[name], assumes=ASSUME)
            def _(mk, mod):
                x = world(mk, mod.struct_size(ostruct), contracts, live=True)
                x.mod = mod
                st = x.st
                o = x.o = obj(x, mod, st, owner, struct)
                if pre:
                    pre(x, st)
                id = st.get(o, struct, idf)
                st.assume((st.get(x.h, ostruct, ofield) == id) if good else (st.get(x.h, ostruct, ofield) != id))
                if not good:
                    st.ghost['mayfail'] = True
                chk = extra(x, st)

                def post(st, r):
                    if good:
                        st.prove(z3.BoolVal(bool(st.ghost.get('freed'))), 'post:the block is freed')
                        chk(st)
                    else:
                        st.prove(z3.BoolVal(bool(st.ghost.get('failed'))), 'post:the wrong owner is reported')
                x.vc.verify(name, args(x), post=post)
        reg(good)


def mempool_extra(x, st):
    cnt, size = st.get(x.o, 'mempool', 'objcount'), st.get(x.o, 'mempool', 'objsize')

    def chk(st):
        st.prove(st.get(x.o, 'mempool', 'objcount') == cnt - 1, 'post:one object less')
        st.prove(st.get(x.o, 'mempool', 'objsize') == size, 'post:the object size is kept')
    return chk


freeing('mempool_free', 'mempool_asan', 'pool', 'mempool', 'mempool_object', 'pool_id', 'id', lambda x: [x.o, x.p], mempool_extra)

for fn, want in (('mempool_count', lambda s, c: c), ('mempool_used', lambda s, c: z3.ZeroExt(32, s) * c), ('mempool_is_initialized', None)):
    def figs(fn, want):
        @proof(fn, 'P27', 'mempool_asan', cfgs=CFG, assumes=ASSUME)
        def _(mk, mod):
            x = world(mk, mod.struct_size('mempool_object'))
            st = x.st
            p = obj(x, mod, st, 'pool', 'mempool')
            st.foot = []
            s, c = st.get(p, 'mempool', 'objsize'), st.get(p, 'mempool', 'objcount')
            x.vc.verify(fn, [p], post=lambda st, r: st.prove((r == want(s, c)) if want else r == (s != 0), 'post:the figure'))
    figs(fn, want)


@proof('mempool_stats', 'P27', 'mempool_asan', cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('mempool_object'))
    st = x.st
    p = obj(x, mod, st, 'pool', 'mempool')
    st.foot = []
    q = obj(x, mod, st, 'stats', 'mempool_stats')
    s, c = st.get(p, 'mempool', 'objsize'), st.get(p, 'mempool', 'objcount')

    def post(st, r):
        g = lambda f: st.get(q, 'mempool_stats', f)
        z = lambda v: z3.ZeroExt(64 - v.size(), v) if v.size() < 64 else v
        st.prove(z(g('objsize')) == z3.ZeroExt(32, s), 'post:object size')
        for f in under(st, z3.ULT(c, bv(1 << 32))):
            f.prove(z(g('objcount')) & 0xffffffff == c, 'post:objects')
        st.prove(g('totals.used') == z3.ZeroExt(32, s) * c, 'post:used')
        st.prove(g('totals.total') == z3.ZeroExt(32, s) * c, 'post:total')
    x.vc.verify('mempool_stats', [p, q], post=post)


# ------------------------------------------------------------ small

def quota_lease(x, vc, st, a):
    st.prove(a[0] == st.ghost['quota'], "pre(quota_lease):the allocator's quota")

    def ok(s):
        s.ghost['leased'] = a[1]
        r = vc.fresh('lease')
        s.assume(r >= 0, z3.ULE(a[1], bv(1 << 45)))
        return r

    def no(s):
        r = vc.fresh('lease')
        s.assume(r < 0)
        return r
    return [('leased', ok), ('over quota', no)]


def quota_end_lease(x, vc, st, a):
    st.prove(a[0] == st.ghost['quota'], "pre(quota_end_lease):the allocator's quota")
    st.ghost['ended'] = a[1]
    return None


@proof('smalloc', 'P27', 'small_asan', cfgs=CFG, fns=['smalloc'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('small_object'), dict(quota_lease=quota_lease))
    st = x.st
    o = obj(x, mod, st, 'alloc', 'small_alloc')
    g0 = {f: st.get(o, 'small_alloc', f) for f in ('quota', 'used', 'objcount', 'id')}
    st.ghost.update(quota=g0['quota'], leased=None)
    size = z3.BitVec('size', 64)

    def post(st, r):
        g = lambda f: st.get(o, 'small_alloc', f)
        for f in under(st, r == 0):
            f.prove(z3.BoolVal(f.ghost['leased'] is None and f.ghost['got'] is None), 'failure:nothing is taken')
            for n in g0:
                f.prove(f.get(o, 'small_alloc', n) == g0[n], 'failure:nothing changes')
        for f in under(st, r != 0):
            f.prove(r == x.p, 'post:the payload of a new block')
            f.prove(x.PS == size, 'post:of the size')
            f.prove(z3.And(r & 3 == 0, r & 7 != 0), 'post:aligned to 4 but not to 8')
            f.prove(f.ghost['leased'] == size if f.ghost['leased'] is not None else False, 'post:the size is leased')
            f.prove(f.get(o, 'small_alloc', 'used') == g0['used'] + size, 'post:used')
            f.prove(f.get(o, 'small_alloc', 'objcount') == g0['objcount'] + 1, 'post:objects')
            f.prove(f.get(x.h, 'small_object', 'size') == size, 'post:the block carries its size')
            f.prove(f.get(x.h, 'small_object', 'allocator_id') == g0['id'], "post:the block carries the allocator's id")
            for n in ('quota', 'id'):
                f.prove(f.get(o, 'small_alloc', n) == g0[n], 'post:the rest is kept')
    x.vc.verify('smalloc', [o, size], post=post)


def small_pre(x, st):
    st.ghost.update(quota=st.get(x.o, 'small_alloc', 'quota'), ended=None)
    x.size = z3.BitVec('size', 64)
    st.assume(st.get(x.h, 'small_object', 'size') == x.size)


def small_extra(x, st):
    g0 = {f: st.get(x.o, 'small_alloc', f) for f in ('quota', 'used', 'objcount', 'id')}

    def chk(st):
        g = lambda f: st.get(x.o, 'small_alloc', f)
        st.prove(st.ghost['ended'] == x.size if st.ghost['ended'] is not None else False, 'post:the lease of the size ends')
        st.prove(z3.And(g('used') == g0['used'] - x.size, g('objcount') == g0['objcount'] - 1), 'post:figures')
        st.prove(z3.And(g('quota') == g0['quota'], g('id') == g0['id']), 'post:the rest is kept')
    return chk


freeing('smfree', 'small_asan', 'alloc', 'small_alloc', 'small_object', 'allocator_id', 'id', lambda x: [x.o, x.p, x.size], small_extra,
        small_pre, dict(quota_end_lease=quota_end_lease))


@proof('smfree/of another size', 'P27', 'small_asan', cfgs=CFG, fns=['smfree'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('small_object'), dict(quota_end_lease=quota_end_lease), live=True)
    st = x.st
    x.o = obj(x, mod, st, 'alloc', 'small_alloc')
    small_pre(x, st)
    st.ghost['mayfail'] = True
    size = z3.BitVec('other_size', 64)
    st.assume(size != x.size)
    x.vc.verify('smfree', [x.o, x.p, size], post=lambda st, r: st.prove(z3.BoolVal(bool(st.ghost.get('failed'))), 'post:the wrong size is reported'))


# ------------------------------------------------------------ slab cache

def pthread_self(x, vc, st, a):
    return z3.BitVec('this_thread', 64)


def pthread_equal(x, vc, st, a):
    return z3.If(a[0] == a[1], z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))


def lessor_create(x, vc, st, a):
    st.prove(a[0] == st.ghost['lessor'], "pre(quota_lessor_create):the cache's lessor")
    st.prove(a[1] == st.ghost['quota'], "pre(quota_lessor_create):the arena's quota")
    st.ghost['lessor_made'] = True
    return None


CC = dict(pthread_self=pthread_self, pthread_equal=pthread_equal, small_getpagesize=lambda x, vc, st, a: bv(4096),
          quota_lessor_create=lessor_create)


@proof('slab_cache_create', 'P27', 'slab_cache_asan', cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('slab_cache_object'), CC)
    st = x.st
    ar = obj(x, mod, st, 'arena', 'slab_arena')
    st.foot = []
    o = obj(x, mod, st, 'cache', 'slab_cache')
    st.ghost.update(lessor=o + mod.field('slab_cache', 'quota')[0], quota=st.get(ar, 'slab_arena', 'quota'))

    def post(st, r):
        st.prove(st.get(o, 'slab_cache', 'used') == 0, 'post:nothing is used')
        st.prove(z3.BoolVal(bool(st.ghost.get('lessor_made'))), 'post:the lessor is made')
        st.prove(st.get(o, 'slab_cache', 'thread_id') == z3.BitVec('this_thread', 64), 'post:owned by this thread')
    x.vc.verify('slab_cache_create', [o, ar], post=post)


def rs(size):
    return (size + 8 + 4095) & bv(~4095)


@proof('slab_get', 'P27', 'slab_cache_asan', cfgs=CFG, fns=['slab_get', 'slab_real_size', 'small_align'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('slab_cache_object'), CC)
    st = x.st
    o = obj(x, mod, st, 'cache', 'slab_cache')
    u, id = st.get(o, 'slab_cache', 'used'), st.get(o, 'slab_cache', 'id')
    size = z3.BitVec('size', 64)
    st.assume(z3.ULT(size, bv(1 << 44)), st.get(o, 'slab_cache', 'thread_id') == z3.BitVec('this_thread', 64))

    def post(st, r):
        st.prove(r == x.p, 'post:the payload of a new block')
        st.prove(z3.And(r & 15 == 0, r & 31 != 0), 'post:aligned')
        st.prove(x.PS == rs(size), 'post:room for the slab header and the size, whole pages')
        st.prove(st.get(r, 'slab', 'size') == x.PS, 'post:the slab knows its size')
        st.prove(st.get(o, 'slab_cache', 'used') == u + x.PS, 'post:used')
        st.prove(st.get(x.h, 'slab_cache_object', 'cache_id') == id, "post:the block carries the cache's id")
    x.vc.verify('slab_get', [o, size], post=post)


def cache_pre(x, st):
    st.assume(st.get(x.o, 'slab_cache', 'thread_id') == z3.BitVec('this_thread', 64), z3.UGE(x.PS, bv(8)))


def cache_extra(x, st):
    u, s = st.get(x.o, 'slab_cache', 'used'), st.get(x.p, 'slab', 'size')
    return lambda st: st.prove(st.get(x.o, 'slab_cache', 'used') == u - s, 'post:used')


freeing('slab_put', 'slab_cache_asan', 'cache', 'slab_cache', 'slab_cache_object', 'cache_id', 'id', lambda x: [x.o, x.p], cache_extra, cache_pre, CC)


@proof('slab_cache_used', 'P27', 'slab_cache_asan', cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('slab_cache_object'), CC)
    st = x.st
    o = obj(x, mod, st, 'cache', 'slab_cache')
    st.foot = []
    u = st.get(o, 'slab_cache', 'used')
    x.vc.verify('slab_cache_used', [o], post=lambda st, r: st.prove(r == u, 'post:the figure'))


# ------------------------------------------------------------ arena

@proof('slab_arena_create', 'P27', 'slab_arena_asan', cfgs=CFG, fns=['slab_arena_create', 'small_round'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('slab_arena_object'))
    st = x.st
    o = obj(x, mod, st, 'arena', 'slab_arena')
    q, s = z3.BitVec('quota', 64), z3.BitVec('slab_size', 32)
    st.assume(z3.ULE(s, z3.BitVecVal(1 << 31, 32)))

    def post(st, r):
        v = st.get(o, 'slab_arena', 'slab_size')
        st.prove(r == 0, 'post:succeeds')
        st.prove(st.get(o, 'slab_arena', 'quota') == q, 'post:quota')
        st.prove(st.get(o, 'slab_arena', 'used') == 0, 'post:nothing is used')
        st.prove(z3.And(v != 0, v & (v - 1) == 0, z3.UGE(v, s), z3.UGE(v, z3.BitVecVal(65536, 32))), 'post:the slab size is a power of two, not below the asked one')
        st.prove(z3.Or(v == 65536, z3.ULT(z3.LShR(v, 1), s)), 'post:the least such size')
    x.vc.verify('slab_arena_create', [o, q, z3.BitVec('prealloc', 64), s, z3.BitVec('flags', 32)], post=post)


@proof('slab_map', 'P27', 'slab_arena_asan', cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('slab_arena_object'))
    st = x.st
    o = obj(x, mod, st, 'arena', 'slab_arena')
    s, id = st.get(o, 'slab_arena', 'slab_size'), st.get(o, 'slab_arena', 'id')

    def post(st, r):
        st.prove(r == x.p, 'post:the payload of a new block')
        st.prove(x.PS == z3.ZeroExt(32, s), 'post:of the slab size')
        st.prove(z3.And(r & 7 == 0, r & 15 != 0), 'post:aligned')
        st.prove(st.get(x.h, 'slab_arena_object', 'arena_id') == id, "post:the block carries the arena's id")
        st.prove(st.get(o, 'slab_arena', 'slab_size') == s, 'post:the arena is kept')
    x.vc.verify('slab_map', [o], post=post)


freeing('slab_unmap', 'slab_arena_asan', 'arena', 'slab_arena', 'slab_arena_object', 'arena_id', 'id', lambda x: [x.o, x.p], lambda x, st: lambda st: None)


@proof('slab_unmap/null', 'P27', 'slab_arena_asan', cfgs=CFG, fns=['slab_unmap'], assumes=ASSUME)
def _(mk, mod):
    x = world(mk, mod.struct_size('slab_arena_object'))
    st = x.st
    o = obj(x, mod, st, 'arena', 'slab_arena')
    st.foot = []
    x.vc.verify('slab_unmap', [o, bv(0)], post=lambda st, r: st.prove(z3.BoolVal(not st.ghost.get('freed')), 'post:nothing happens'))
