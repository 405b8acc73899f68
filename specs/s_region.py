"""Contracts of region (P12 allocation, P13 truncation, P14 joining).

A region is a list of slabs (newest first) of any length N >= 0: node i at A(i), SZ(i) bytes long, US(i) of its data
bytes used.  U and S are the prefix sums of US and SZ.  Invariant: the list is well formed, US(i) fits into slab i, the
slabs are disjoint, stats.used = U(N), stats.total = S(N).  The used bytes of the region are the concatenation of the
used parts of the slabs.
Slab cache by contract (P06/P07): slab_get hands out memory that nothing else uses, or NULL; slab_put takes a slab."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from smallvc.seq import Seq, Sum, ite
from specs.common import small_align, under, at_least, is_cell

ASSUME = ['callbacks do not modify the region', 'a slab is below 2^46 bytes and all slabs of a region below 2^47']
CACHE = 'slab_get / slab_put by contract (their own proofs: P06, P07)'


class R:
    pass


def region(mk, unreserved=False, **kw):
    x = R()
    c = dict(small_align=small_align, slab_get=lambda vc, st, a: slab_get(x, vc, st, a), slab_put=lambda vc, st, a: slab_put(x, vc, st, a))
    vc = x.vc = mk(contracts=c, indirect=lambda vc, st, t, a, w: indirect(x, vc, st, t, a, w), **kw)
    st = x.st = vc.new_state()
    mod = vc.mod
    F = lambda s, f: mod.field(s, f)[0]
    x.rs, x.hdr, x.shdr = mod.struct_size('region'), mod.struct_size('rslab'), mod.struct_size('slab')
    x.o_link, x.o_size, x.o_used = F('rslab', 'slab.next_in_list.prev'), F('rslab', 'slab.size'), F('rslab', 'used')
    x.w_used = mod.field('rslab', 'used')[1]
    po, no = F('rlist', 'prev'), F('rlist', 'next')
    x.o_next, x.o_prev = x.o_link + no, x.o_link + po
    hl = F('region', 'slabs.slabs.prev')
    x.h_next, x.h_prev = hl + no, hl + po
    x.h_used, x.h_total = F('region', 'slabs.stats.used'), F('region', 'slabs.stats.total')
    x.r, x.N = z3.BitVec('region', 64), z3.BitVec('N', 64)
    x.k, x.off = z3.BitVec('k', 64), z3.BitVec('k_off', 64)
    x.H = x.r + hl
    x.seq = Seq('slab', x.N, x.H, x.o_link, po, no)
    x.A = x.seq.A
    SZ, US = z3.Function('SZ', B, B), z3.Function('US', B, B)
    x.SZ, x.US = (lambda i: SZ(simp(i))), (lambda i: US(simp(i)))
    x.U, x.S = Sum('U', x.US, x.N), Sum('S', x.SZ, x.N)

    def facts(st, i):
        others = [j for f, j in st.objs if f is x.fs and not j.eq(i)]
        return [z3.ULE(x.US(i), x.SZ(i) - x.hdr)] + x.U.facts(i, others) + x.S.facts(i, others)
    x.fr = st.fam(Fam('region', x.rs, base=x.r, cell=lambda st, i, off, n: cell(x, 'region', None, off, n)))
    x.fs = st.fam(Fam('slab', x.SZ, fn=x.A, guard=lambda i: z3.ULT(i, x.N), facts=facts, minsize=x.hdr,
                      cell=lambda st, i, off, n: cell(x, 'slab', i, off, n)))
    st.assume(z3.ULT(x.N, bv(1 << 40)), x.U(0) == 0, x.S(0) == 0, z3.ULE(x.U(x.N), x.S(x.N)), z3.ULT(x.S(x.N), bv(1 << 47)))
    x.cache = st.get(x.r, 'region', 'cache')
    x.acb, x.tcb, x.arg = (st.get(x.r, 'region', f) for f in ('on_alloc_cb', 'on_truncate_cb', 'cb_arg'))
    if unreserved:
        st.assume(st.get(x.r, 'region', 'reserved') == 0)
    x.X, x.XS = z3.BitVec('X', 64), z3.BitVec('XS', 64)
    x.fx = Fam('new slab', x.XS, base=x.X, minsize=x.hdr, align=16,
               cell=lambda st, i, off, n: x.XS if off.eq(bv(x.o_size)) and n == 8 else None)
    st.ghost.update(put=bv(0), got=0, cba=(), cbt=(), mem0=st.mem)
    return x


def cell(x, kind, i, off, n, c=None):
    """Content of the region (list starting with slab c)."""
    if not z3.is_bv_value(off):
        return None
    o = off.as_long()
    c = bv(0) if c is None else c
    if kind == 'region':
        if n == 8:
            return {x.h_next: lambda: x.seq.first(c), x.h_prev: lambda: x.seq.last(c), x.h_used: lambda: x.U(x.N),
                    x.h_total: lambda: simp(x.S(x.N) - x.S(c))}.get(o, lambda: None)()
        return None
    if o == x.o_used and n == x.w_used:
        v = x.US(i)
        return v if n == 8 else z3.Extract(8 * n - 1, 0, v)
    if n == 8:
        return {x.o_next: lambda: x.seq.next(i), x.o_prev: lambda: x.seq.prev(i, c), x.o_size: lambda: x.SZ(i)}.get(o, lambda: None)()
    return None


def cache_keeps(x, frm):
    """the slab cache touches nothing but the cache part of slab headers and the slabs it owns (those before frm)"""
    def keep(st, f, i, off, n):
        if f is x.fs:
            return z3.And(z3.UGE(i, frm), at_least(off, x.o_link))
        return f is not x.fx or at_least(off, x.o_link)
    return keep


def slab_get(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_get):the region's own cache")
    size = a[1]
    if st.ghost['got']:
        raise Unsupported('two slabs are taken')

    def ok(s):
        s.ghost['got'] = 1
        s.objhavoc(Havoc(keep=cache_keeps(x, s.ghost['put'])), 'slab_get')
        s.fam(x.fx)
        s.assume(z3.ULE(size, x.XS), z3.ULE(bv(x.shdr), x.XS - size))
        s.store(x.X + x.o_size, x.XS)
        s.foot = s.foot + [('obj', x.fx, lambda i, off, n: True)]
        return x.X

    def no(s):
        s.objhavoc(Havoc(keep=cache_keeps(x, s.ghost['put'])), 'slab_get')
        return bv(0)
    return [('slab', ok), ('no-slab', no)]


def slab_put(x, vc, st, a):
    c = st.ghost['put']
    st.prove(a[0] == x.cache, "pre(slab_put):the region's own cache")
    st.prove(z3.ULT(c, x.N), 'pre(slab_put):a slab of the region is left')
    st.prove(a[1] == x.A(c), 'pre(slab_put):the newest slab not given back yet')
    st.ghost['put'] = simp(c + 1)
    st.objhavoc(Havoc(keep=cache_keeps(x, simp(c + 1))), 'slab_put')
    return None


def indirect(x, vc, st, tgt, args, where):
    if tgt.eq(x.acb):
        kind = 'cba'
    elif tgt.eq(x.tcb):
        kind = 'cbt'
    else:
        raise Unsupported('unknown callback at ' + where)
    st.prove(args[0] == x.r, 'callback:region')
    st.prove(args[2] == x.arg, 'callback:argument')
    st.ghost[kind] = st.ghost[kind] + ((args[1], st.get(x.r, 'region', 'slabs.stats.used')),)
    return None


def fields_kept(x, st):
    g = lambda f: st.get(x.r, 'region', f)
    st.prove(z3.And(g('cache') == x.cache, g('on_alloc_cb') == x.acb, g('on_truncate_cb') == x.tcb, g('cb_arg') == x.arg),
             'frame:cache and callbacks kept')


def used_cell(x, v):
    return v if x.w_used == 8 else z3.Extract(8 * x.w_used - 1, 0, v)


def slab_state(x, st, c=None, used0=None, prev0=None, name='inv'):
    """the list of slabs c.. as in the beginning; used0: fill of slab c; prev0: the link before slab c"""
    c = bv(0) if c is None else c
    for f in under(st, z3.And(z3.ULE(c, x.k), z3.ULT(x.k, x.N))):
        k = x.k
        ld = lambda o, n=8: f.load(x.A(k) + o, n)
        f.prove(ld(x.o_next) == x.seq.next(k), name + ':next links')
        p = x.seq.prev(k, c)
        f.prove(ld(x.o_prev) == (p if prev0 is None else z3.If(k == c, prev0, p)), name + ':prev links')
        f.prove(ld(x.o_size) == x.SZ(k), name + ':slab sizes')
        u = x.US(k)
        if used0 is not None:
            u = z3.If(k == c, used0, u)
            f.prove(z3.Implies(k == c, z3.ULE(used0, x.SZ(k) - x.hdr)), name + ':the fill fits the slab')
        f.prove(ld(x.o_used, x.w_used) == used_cell(x, u), name + ':fill of the slabs')


def head_state(x, st, c=None, total=None, used=None, first=None, last=None, name='inv'):
    c = bv(0) if c is None else c
    st.prove(st.load(x.r + x.h_next, 8) == (x.seq.first(c) if first is None else first), name + ':list head')
    st.prove(st.load(x.r + x.h_prev, 8) == (x.seq.last(c) if last is None else last), name + ':list tail')
    if total is None:
        total = x.S(x.N) - x.S(c)
    st.prove(st.load(x.r + x.h_total, 8) == total, name + ':total is the size of the slabs held')
    if used is not None:
        st.prove(st.load(x.r + x.h_used, 8) == used, name + ':used size')


def foot_alloc(x):
    """what an allocation may write: the bookkeeping only, never the data of the region"""
    x.st.foot = [('obj', x.fr, lambda i, off, n: True),
                 ('obj', x.fs, lambda i, off, n: z3.And(i == 0, z3.Or(
                     z3.And(z3.UGE(off, bv(x.o_used)), z3.ULE(off + n, bv(x.o_used + x.w_used))),
                     z3.And(z3.UGE(off, bv(x.o_link)), z3.ULE(off + n, bv(x.o_link + 16))))))]


def post_alloc(x, size, al=None, alloc=True):
    def post(st, r):
        fields_kept(x, st)
        used = st.get(x.r, 'region', 'slabs.stats.used')
        st.prove(st.ghost['put'] == 0, 'post:no slab is given back')
        if not st.ghost['got']:
            for f in under(st, r == 0):
                f.prove(used == x.U(x.N), 'post:failure leaves the used size')
                f.prove(len(f.ghost['cba']) + len(f.ghost['cbt']) == 0, 'post:no callback on failure')
                head_state(x, f)
                slab_state(x, f)
            for f in under(st, r != 0):
                f.prove(x.N != 0, 'post:nothing without a slab')
                A, SZ, u0 = x.A(bv(0)), x.SZ(bv(0)), x.US(bv(0))
                inc = r - (A + x.hdr + u0) + size
                block(x, f, r, A, SZ, u0, size, al)
                f.prove(used == x.U(x.N) + (inc if alloc else 0), 'post:used grows by the block and its padding')
                if alloc:
                    callbacks(x, f, inc)
                head_state(x, f)
                slab_state(x, f, used0=u0 + inc if alloc else None)
        else:
            inc = r - (x.X + x.hdr) + size
            st.prove(r != 0, 'post:a block from the new slab')
            block(x, st, r, x.X, x.XS, bv(0), size, al)
            st.prove(used == x.U(x.N) + (inc if alloc else 0), 'post:used grows by the block and its padding')
            if alloc:
                callbacks(x, st, inc)
            XL = x.X + x.o_link
            head_state(x, st, total=x.S(x.N) + x.XS, first=XL, last=z3.If(x.N == 0, XL, x.seq.last()))
            st.prove(st.load(x.X + x.o_prev, 8) == x.H, 'inv:new slab is first')
            st.prove(st.load(x.X + x.o_next, 8) == x.seq.first(), 'inv:new slab is linked to the list')
            st.prove(st.load(x.X + x.o_size, 8) == x.XS, 'inv:size of the new slab')
            nu = inc if alloc else bv(0)
            st.prove(st.load(x.X + x.o_used, x.w_used) == used_cell(x, nu), 'inv:fill of the new slab')
            st.prove(z3.ULE(nu, x.XS - x.hdr), 'inv:fill fits the new slab')
            slab_state(x, st, prev0=XL)
    return post


def block(x, st, r, A, SZ, u, size, al):
    """r is a block of size bytes in the unused part of slab A"""
    d = r - (A + x.hdr + u)
    st.prove(z3.And(z3.ULE(d, SZ - x.hdr - u), z3.ULE(size, SZ - x.hdr - u - d)), 'post:the block is unused memory of one slab')
    if al is not None:
        st.prove(r & (al - 1) == 0, 'post:aligned')
        st.prove(z3.ULT(d, al), 'post:least padding')
    else:
        st.prove(d == 0, 'post:no padding')


def callbacks(x, st, inc):
    calls = st.ghost['cba']
    st.prove((x.acb != 0) if calls else (x.acb == 0), 'post:allocation callback called if set')
    st.prove(len(calls) <= 1 and len(st.ghost['cbt']) == 0, 'post:called once')
    for sz, us in calls:
        st.prove(sz == inc, 'post:callback gets the size taken')
        st.prove(us == x.U(x.N), 'post:callback sees the used size before')


def rproof(name, props, fns):
    return proof(name, props, 'region', fns=fns, assumes=ASSUME + [CACHE])


P12F = ['region_reserve_slow', 'rslab_sizeof', 'rslab_data', 'rslab_data_end', 'rslab_unused']


@rproof('region_alloc', 'P12', ['region_alloc', 'region_reserve'] + P12F)
def _(mk, mod):
    x = region(mk)
    size = z3.BitVec('size', 64)
    x.st.assume(size != 0)
    foot_alloc(x)
    x.vc.verify('region_alloc', [x.r, size], post=post_alloc(x, size))


@rproof('region_reserve', 'P12', ['region_reserve'] + P12F)
def _(mk, mod):
    x = region(mk, True)
    size = z3.BitVec('size', 64)
    foot_alloc(x)
    x.vc.verify('region_reserve', [x.r, size], post=post_alloc(x, size, alloc=False))


def aligned(fn, alloc):
    @rproof(fn, 'P12', [fn] + P12F)
    def _(mk, mod):
        x = region(mk, not alloc)
        size, al = z3.BitVec('size', 64), z3.BitVec('alignment', 64)
        x.st.assume(al != 0, al & (al - 1) == 0)
        if alloc:
            x.st.assume(size != 0)
        foot_alloc(x)
        x.vc.verify(fn, [x.r, size, al], post=post_alloc(x, size, al, alloc=alloc))


aligned('region_aligned_alloc', True)
aligned('region_aligned_reserve', False)


@rproof('region_alloc/after reserve', 'P12', ['region_alloc'])
def _(mk, mod):
    """the allocation after a reservation returns the reserved bytes: allocate from a state reservation leaves, i.e. a
    first slab with at least `reserved_size' unused bytes; no slab is taken and the address is the promised one"""
    x = region(mk)
    size, res = z3.BitVec('size', 64), z3.BitVec('reserved_size', 64)
    x.st.assume(z3.UGE(x.N, bv(1)))
    x.st.meet(x.fs, bv(0))
    x.st.assume(size != 0, z3.ULE(size, res), z3.ULE(res, x.SZ(bv(0)) - x.hdr - x.US(bv(0))))
    foot_alloc(x)

    def post(st, r):
        st.prove(st.ghost['got'] == 0, 'post:no other slab is taken')
        st.prove(r == x.A(bv(0)) + x.hdr + x.US(bv(0)), 'post:the reserved address')
    x.vc.verify('region_alloc', [x.r, size], post=post)


# ------------------------------------------------------------------ P13

def conds(st, *cs):
    return z3.And(*[z3.BoolVal(c) if isinstance(c, bool) else c for c in cs])


def slab_of(x, i):
    """the C variable `slab' for link i (the head's pseudo entry after the last one)"""
    return simp(x.seq.at(i) - x.o_link)


def truncate_loop(x, CUT):
    """c slabs have been given back"""
    def keep(c):
        def k(st, f, i, off, n):
            if f is x.fs:
                return z3.And(z3.UGE(i, c), at_least(off, x.o_link), z3.Not(z3.And(i == c, is_cell(off, n, x.o_prev))))
            if f is x.fr:
                return z3.Not(z3.Or(is_cell(off, n, x.h_next), is_cell(off, n, x.h_prev), is_cell(off, n, x.h_total)))
            return False
        return k

    def cells(c):
        def g(st, f, i, off, n):
            if f is x.fr:
                return cell(x, 'region', None, off, n, c)
            if f is x.fs and off.eq(bv(x.o_prev)) and n == 8 and st.must(z3.UGE(i, c)):
                return x.H
            return None
        return g

    def inv(st, g):
        c = g['c']
        for i in (c, simp(c - 1)):
            st.meet(x.fs, i)
        st.vc.info_c = c
        if not g.get('assumed'):
            fields_kept(x, st)
            head_state(x, st, c, used=x.U(x.N), name='loop')
            slab_state(x, st, c, name='loop')
            bytes_kept(x, st, c, name='loop')
        return [('slabs put', z3.And(st.ghost['put'] == c, z3.ULE(c, x.N))),
                ('rest to cut', z3.And(st.local('cut_size') == CUT - x.U(c), z3.ULE(x.U(c), CUT))),
                ('sums', z3.And(z3.ULE(x.U(c), x.U(x.N)), z3.ULE(x.S(c), x.S(x.N))))]

    def init(st):
        return dict(c=bv(0))

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.ghost['put'] = c
        st.objhavoc(Havoc(keep=keep(c), cell=cells(c)), 'truncate loop')
        return dict(c=c, assumed=True)

    def step(st, g):
        return dict(c=simp(g['c'] + 1))
    return Loop(inv, init=init, havoc=havoc, step=step, variant=lambda st, g: x.N - g['c'])


def bytes_kept(x, st, c, used0=None, name='inv'):
    """the used bytes of slabs c.. are untouched (an arbitrary byte); used0: fill of slab c"""
    for f in under(st, z3.And(z3.ULE(c, x.k), z3.ULT(x.k, x.N))):
        lim = x.US(x.k) if used0 is None else z3.If(x.k == c, used0, x.US(x.k))
        for g in under(f, z3.ULT(x.off, lim)):
            a = x.A(x.k) + x.hdr + x.off
            g.prove(g.load(a, 1) == g.vc.load(g, simp(a), 1, g.ghost['mem0']), name + ':used bytes untouched')


def truncate_cb(x, st, used):
    calls = st.ghost['cbt']
    st.prove((x.tcb != 0) if calls else (x.tcb == 0), 'post:truncation callback called if set')
    st.prove(len(calls) <= 1 and len(st.ghost['cba']) == 0, 'post:called once')
    for a, us in calls:
        st.prove(a == used, 'post:callback gets the used size')
        st.prove(us == used, 'post:callback sees the used size after')


@rproof('region_truncate', 'P13', ['region_truncate', 'rslab_data_end'])
def _(mk, mod):
    x = region(mk, loops={('region_truncate', 0): None})
    st = x.st
    used = z3.BitVec('used', 64)
    CUT = simp(x.U(x.N) - used)
    x.vc.loops = {('region_truncate', 0): truncate_loop(x, CUT)}
    st.assume(z3.ULE(used, x.U(x.N)))
    st.foot = [('obj', x.fr, lambda i, off, n: True), ('obj', x.fs, lambda i, off, n: True)]

    def post(st, r):
        c = st.ghost['put']
        fields_kept(x, st)
        truncate_cb(x, st, used)
        st.prove(st.get(x.r, 'region', 'reserved') == 0, 'post:nothing reserved')
        head_state(x, st, c, used=used)
        u0 = x.US(c) - (CUT - x.U(c))
        for f in under(st, z3.ULT(c, x.N)):
            f.meet(x.fs, c)
            f.prove(z3.And(u0 != 0, z3.ULE(u0, x.US(c))), 'post:the first slab kept holds something older')
            f.prove(u0 + (x.U(x.N) - x.U(c + 1)) == used, 'post:the bytes kept are the used size')
        for f in under(st, c == x.N):
            f.prove(used == 0, 'post:everything goes only if nothing is kept')
        slab_state(x, st, c, used0=u0)
        bytes_kept(x, st, c, used0=u0)
    x.vc.verify('region_truncate', [x.r, used], post=post)


def free_loop(x):
    def keep(c):
        return lambda st, f, i, off, n: z3.And(z3.UGE(i, c), at_least(off, x.o_link)) if f is x.fs else f is x.fr

    def inv(st, g):
        c = g['c']
        return [('slabs put', z3.And(st.ghost['put'] == c, z3.ULE(c, x.N))), ('position', st.local('slab') == slab_of(x, c))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.ghost['put'] = c
        st.objhavoc(Havoc(keep=keep(c)), 'free loop')
        st.set_local('slab', slab_of(x, c))
        return dict(c=c)
    return Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)),
                variant=lambda st, g: x.N - g['c'])


def freed(x, st, name='post'):
    st.prove(st.ghost['put'] == x.N, name + ':every slab is given back')
    head_state(x, st, first=x.H, last=x.H, total=bv(0), used=bv(0), name=name)
    fields_kept(x, st)
    truncate_cb(x, st, bv(0))
    st.prove(st.get(x.r, 'region', 'reserved') == 0, name + ':nothing reserved')


for fn in ('region_free', 'region_destroy'):
    @rproof(fn, 'P13', ['region_free', fn])
    def _(mk, mod, fn=fn):
        x = region(mk)
        x.vc.loops = {('region_free', 0): free_loop(x)}
        x.st.foot = [('obj', x.fr, lambda i, off, n: True)]
        x.vc.verify(fn, [x.r], post=lambda st, r: freed(x, st))


@rproof('region_free_after', 'P13', ['region_free_after'])
def _(mk, mod):
    x = region(mk)
    x.vc.loops = {('region_free', 0): free_loop(x)}
    x.st.foot = [('obj', x.fr, lambda i, off, n: True)]
    after = z3.BitVec('after', 64)

    def post(st, r):
        for f in under(st, z3.UGT(x.U(x.N), after)):
            freed(x, f)
        for f in under(st, z3.ULE(x.U(x.N), after)):
            f.prove(f.ghost['put'] == 0, 'post:nothing is freed')
            f.prove(len(f.ghost['cbt']) == 0, 'post:no callback')
            head_state(x, f, used=x.U(x.N), name='post')
            slab_state(x, f, name='post')
    x.vc.verify('region_free_after', [x.r, after], post=post)


@rproof('region_reset', ['P13', 'P12'], ['region_reset'])
def _(mk, mod):
    x = region(mk)

    def cells(c):
        def g(st, f, i, off, n):
            if f is x.fs and off.eq(bv(x.o_used)) and n == x.w_used:
                return z3.If(z3.ULT(i, c), bv(0, 8 * n), used_cell(x, x.US(i)))
            return None
        return g

    def keep(c):
        return lambda st, f, i, off, n: z3.Or(z3.UGE(i, c), z3.Not(is_cell(off, n, x.o_used, x.w_used))) if f is x.fs else f is x.fr

    def all_empty(st, c, name):
        for f in under(st, z3.ULT(x.k, x.N)):
            ld = lambda o, n=8: f.load(x.A(x.k) + o, n)
            f.prove(z3.And(ld(x.o_next) == x.seq.next(x.k), ld(x.o_prev) == x.seq.prev(x.k), ld(x.o_size) == x.SZ(x.k)), name + ':list kept')
            f.prove(ld(x.o_used, x.w_used) == z3.If(z3.ULT(x.k, c), bv(0, 8 * x.w_used), used_cell(x, x.US(x.k))), name + ':slabs emptied')

    def inv(st, g):
        c = g['c']
        if not g.get('assumed'):
            all_empty(st, c, 'loop')
            head_state(x, st, name='loop', used=x.U(x.N))
        return [('position', z3.And(z3.ULE(c, x.N), st.local('slab') == slab_of(x, c)))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.objhavoc(Havoc(keep=keep(c), cell=cells(c)), 'reset loop')
        st.set_local('slab', slab_of(x, c))
        return dict(c=c, assumed=True)
    x.vc.loops = {('region_reset', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc,
                                           step=lambda st, g: dict(c=simp(g['c'] + 1)), variant=lambda st, g: x.N - g['c'])}
    x.st.foot = [('obj', x.fr, lambda i, off, n: True),
                 ('obj', x.fs, lambda i, off, n: z3.And(z3.UGE(off, bv(x.o_used)), z3.ULE(off + n, bv(x.o_used + x.w_used))))]

    def post(st, r):
        fields_kept(x, st)
        st.prove(st.ghost['put'] == 0, 'post:no slab is given back')
        head_state(x, st, used=bv(0), name='post')
        all_empty(st, x.N, 'post')
        st.prove(st.get(x.r, 'region', 'reserved') == 0, 'post:nothing reserved')
    x.vc.verify('region_reset', [x.r], post=post)


@rproof('region_create', ['P12', 'P13'], ['region_create', 'region_set_callbacks', 'region_used', 'region_total'])
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    rs = mod.struct_size('region')
    r, cache = vc.ptr(st, 'region', rs), z3.BitVec('cache', 64)
    st.foot = [('range', r, rs)]
    H = st.addr(r, 'region', 'slabs.slabs.prev')

    def post(st, _r):
        g = lambda f: st.get(r, 'region', f)
        st.prove(z3.And(g('cache') == cache, g('slabs.slabs.next') == H, g('slabs.slabs.prev') == H), 'post:empty list on its cache')
        st.prove(z3.And(g('slabs.stats.used') == 0, g('slabs.stats.total') == 0), 'post:no bytes')
        st.prove(z3.And(g('on_alloc_cb') == 0, g('on_truncate_cb') == 0, g('reserved') == 0), 'post:no callbacks')
    vc.verify('region_create', [r, cache], post=post)


@rproof('region_set_callbacks', ['P13'], ['region_set_callbacks'])
def _(mk, mod):
    x = region(mk)
    a, t, g = (z3.BitVec(n, 64) for n in ('alloc_cb', 'truncate_cb', 'arg'))
    x.st.foot = [('obj', x.fr, lambda i, off, n: True)]

    def post(st, r):
        h = lambda f: st.get(x.r, 'region', f)
        st.prove(z3.And(h('on_alloc_cb') == a, h('on_truncate_cb') == t, h('cb_arg') == g, h('cache') == x.cache), 'post:set')
        head_state(x, st, used=x.U(x.N), name='post')
    x.vc.verify('region_set_callbacks', [x.r, a, t, g], post=post)


for fn, want in (('region_used', lambda x: x.U(x.N)), ('region_total', lambda x: x.S(x.N))):
    @rproof(fn, ['P12', 'P13'], [fn])
    def _(mk, mod, fn=fn, want=want):
        x = region(mk)
        x.st.foot = []
        x.vc.verify(fn, [x.r], post=lambda st, r: st.prove(r == want(x), 'post:the figure'))


@rproof('region_alloc_cb', 'P12', ['region_alloc_cb'])
def _(mk, mod):
    x = region(mk)
    size = z3.BitVec('size', 64)
    x.st.assume(size != 0)
    foot_alloc(x)
    x.vc.verify('region_alloc_cb', [x.r, size], post=post_alloc(x, size))


@rproof('region_reserve_cb', 'P12', ['region_reserve_cb'])
def _(mk, mod):
    x = region(mk, True)
    size, p = z3.BitVec('size', 64), z3.BitVec('psize', 64)
    fp = x.st.fam(Fam('size', 8, base=p))
    x.st.assume(x.st.load(p, 8) == size)
    foot_alloc(x)
    x.st.foot = x.st.foot + [('obj', fp, lambda i, off, n: True)]
    inner = post_alloc(x, size, alloc=False)

    def post(st, r):
        inner(st, r)
        got = st.load(p, 8)
        for f in under(st, r == 0):
            f.prove(got == size, 'post:failure leaves the size')
        for f in under(st, r != 0):
            f.prove(z3.UGE(got, size), 'post:at least what was asked for')
            A, SZ, u = (x.X, x.XS, bv(0)) if f.ghost['got'] else (x.A(bv(0)), x.SZ(bv(0)), x.US(bv(0)))
            f.prove(got == SZ - x.hdr - u, 'post:all that is left in the slab')
            f.prove(r == A + x.hdr + u, 'post:the first unused byte')
    x.vc.verify('region_reserve_cb', [x.r, p], post=post)


# ------------------------------------------------------------------ P14

@rproof('region_join', 'P14', ['region_join', 'region_reserve', 'region_alloc', 'region_reserve_slow'])
def _(mk, mod):
    x = region(mk, True)
    st = x.st
    size = z3.BitVec('size', 64)
    st.assume(size != 0, z3.ULE(size, x.U(x.N)))
    # an arbitrary one of the last `size' bytes, the t-th from the end: in slab k
    t = z3.BitVec('t', 64)
    st.assume(z3.ULT(x.k, x.N), z3.ULT(t, size), z3.ULE(x.U(x.k), t), z3.ULT(t, x.U(x.k + 1)))
    st.meet(x.fs, x.k)
    src = simp(x.A(x.k) + x.hdr + x.US(x.k) - 1 - (t - x.U(x.k)))
    st.meet(x.fs, bv(0)) if not x.vc.possible(x.N == 0) else None
    byte0 = st.load(src, 1)
    foot_alloc(x)
    x.st.foot += [('obj', x.fs, lambda i, off, n: z3.And(i == 0, z3.UGE(off, x.hdr + x.US(bv(0)))))]
    mem = {}

    def ptr_obj(st, p):
        pl = st.vc.place(st, simp(p), 1)
        if pl is None:
            raise Unsupported('where the joined block lies')
        return pl

    def keep(st0, c):
        f0, i0, o0 = ptr_obj(st0, st0.local('ptr'))

        def k(st, f, i, off, n):
            if f is not f0:
                return True
            n = bv(n) if isinstance(n, int) else n
            out = z3.Or(z3.ULE(off + n, o0 + (size - x.U(c))), z3.UGE(off, o0 + size))
            return out if i0 is None else z3.Or(i != i0, out)
        return k

    def inv(st, g):
        c = g['c']
        p = st.local('ptr')
        if not g.get('assumed'):
            slab_state(x, st, name='loop', prev0=x.X + x.o_link if st.ghost['got'] else None)
            for f in under(st, z3.ULT(t, x.U(c))):
                f.prove(f.load(p + (size - 1 - t), 1) == byte0, 'loop:bytes copied so far')
        return [('progress', z3.And(z3.ULE(c, x.N), z3.ULE(x.U(c), size), st.local('offset') == size - x.U(c))),
                ('position', st.local('slab') == slab_of(x, c))]

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N), z3.ULE(x.U(c), size))
        st.meet(x.fs, c)
        d = simp(st.local('ptr') + (size - 1 - t))
        st.objhavoc(Havoc(keep=keep(st, c)), 'join loop')
        st.set_local('slab', slab_of(x, c))
        for i in (c, x.k):
            st.assume(z3.Implies(z3.ULT(c, x.k), z3.ULE(x.U(c), x.U(x.k))), z3.Implies(z3.ULT(x.k, c), z3.ULE(x.U(x.k + 1), x.U(c))),
                      z3.Implies(c == x.N, x.U(c) == x.U(x.N)))
        st.assume(z3.Implies(z3.ULT(t, x.U(c)), st.load(d, 1) == byte0))
        return dict(c=c, assumed=True)
    x.vc.loops = {('region_join', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc,
                                          step=lambda st, g: dict(c=simp(g['c'] + 1)), variant=lambda st, g: x.N - g['c'])}

    def post(st, r):
        fields_kept(x, st)
        st.prove(st.ghost['put'] == 0, 'post:no slab is given back')
        used = st.get(x.r, 'region', 'slabs.stats.used')
        u0 = x.US(bv(0))
        for f in under(st, r == 0):
            f.prove(f.ghost['got'] == 0, 'post:failure takes nothing')
            head_state(x, f, used=x.U(x.N), name='failure')
            slab_state(x, f, name='failure')
            bytes_kept(x, f, bv(0), name='failure')
            f.prove(z3.ULT(u0, size), 'post:no failure if the bytes are contiguous')
        for f in under(st, r != 0):
            f.prove(f.load(r + (size - 1 - t), 1) == byte0, 'post:the last bytes in order')
            bytes_kept(x, f, bv(0), name='post')
        for f in under(st, z3.And(r != 0, z3.UGE(u0, size))):
            f.prove(r == x.A(bv(0)) + x.hdr + u0 - size, 'post:contiguous bytes stay in place')
            f.prove(f.ghost['got'] == 0, 'post:no slab taken')
            head_state(x, f, used=x.U(x.N), name='post')
            slab_state(x, f, name='post')
        for f in under(st, z3.And(r != 0, z3.ULT(u0, size))):
            f.prove(used == x.U(x.N) + size, 'post:one new block of that size')
            callbacks(x, f, size)
            if f.ghost['got']:
                f.prove(r == x.X + x.hdr, 'post:the block is the first of the new slab')
                f.prove(z3.ULE(size, x.XS - x.hdr), 'post:it fits')
                slab_state(x, f, prev0=x.X + x.o_link, name='post')
                head_state(x, f, total=x.S(x.N) + x.XS, first=x.X + x.o_link, last=x.seq.last(), name='post')
                f.prove(f.load(x.X + x.o_used, x.w_used) == used_cell(x, size), 'post:fill of the new slab')
            else:
                f.prove(r == x.A(bv(0)) + x.hdr + u0, 'post:the block follows the newest bytes')
                slab_state(x, f, used0=u0 + size, name='post')
                head_state(x, f, name='post')
    x.vc.verify('region_join', [x.r, size], post=post)
