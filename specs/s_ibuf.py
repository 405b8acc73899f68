"""Contracts of ibuf (P17).

State: no buffer (all four positions NULL), or a slab with buf = its data, end = its end and buf <= rpos <= wpos <= end.
The unread bytes are [rpos, wpos); the k-th of them has the value byte(k), k arbitrary.
Slab cache by contract (P06/P07), as for regions."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc
from specs.common import small_align, under

ASSUME = ['a slab is below 2^46 bytes', 'start_capacity > 0', 'slab_get / slab_put / slab_real_size by contract (their own proofs: P06, P07)']
M = 'ibuf'
POS = ('buf', 'rpos', 'wpos', 'end')


class I:
    pass


def ibuf(mk, has, **kw):
    x = I()
    c = dict(small_align=small_align, slab_get=lambda vc, st, a: slab_get(x, vc, st, a), slab_put=lambda vc, st, a: slab_put(x, vc, st, a),
             slab_real_size=real_size)
    vc = x.vc = mk(contracts=c, **kw)
    st = x.st = vc.new_state()
    mod = vc.mod
    x.shdr, x.o_size = mod.struct_size('slab'), mod.field('slab', 'size')[0]
    x.hdr = x.shdr
    x.b, x.has = z3.BitVec('ibuf', 64), has
    st.fam(Fam('ibuf', mod.struct_size('ibuf'), base=x.b))
    x.fb = [f for f in st.fams.values()][0]
    x.P, x.PS = z3.BitVec('P', 64), z3.BitVec('PS', 64)
    x.fp = Fam('slab', x.PS, base=x.P, minsize=x.hdr, align=16, cell=lambda st, i, off, n: x.PS if off.eq(bv(x.o_size)) and n == 8 else None)
    x.X, x.XS = z3.BitVec('X', 64), z3.BitVec('XS', 64)
    x.fx = Fam('new slab', x.XS, base=x.X, minsize=x.hdr, align=16)
    g = x.get = lambda st, f: st.get(x.b, 'ibuf', f)
    x.cache, x.start = g(st, 'slabc'), g(st, 'start_capacity')
    st.assume(x.start != 0)
    x.k = z3.BitVec('k', 64)
    if has:
        st.fam(x.fp)
        st.meet(x.fp, None)
        d = x.P + x.hdr
        x.rd, x.wr = z3.BitVec('rd', 64), z3.BitVec('wr', 64)
        x.buf, x.end = d, x.P + x.PS
        x.rpos, x.wpos = d + x.rd, d + x.wr
        st.assume(z3.ULE(x.rd, x.wr), z3.ULE(x.wr, x.PS - x.hdr))
        for f in POS:
            st.put(x.b, 'ibuf', f, getattr(x, f))
        x.used, x.cap = simp(x.wr - x.rd), simp(x.PS - x.hdr)
        st.assume(z3.ULT(x.k, x.used)) if kw.get('nonempty') else None
        x.byte = st.load(simp(d + x.rd + x.k), 1)
    else:
        x.rd = x.wr = x.buf = x.end = x.rpos = x.wpos = x.used = x.cap = bv(0)
        for f in POS:
            st.put(x.b, 'ibuf', f, bv(0))
    st.ghost.update(put=0, got=0)
    st.foot = [('obj', x.fb, lambda i, off, n: True)]
    if has:
        st.foot += [('obj', x.fp, lambda i, off, n: z3.UGE(off, bv(x.hdr)))]
    return x


def slab_get(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_get):the buffer's own cache")
    if st.ghost['got']:
        raise Unsupported('two slabs are taken')

    def keep(st, f, i, off, n):
        return f is x.fb or z3.UGE(off, bv(x.hdr)) if f is not x.fp else z3.UGE(off, bv(x.o_size))

    def ok(s):
        s.ghost['got'] = 1
        s.ghost['get_size'] = a[1]
        s.fam(x.fx)
        s.meet(x.fx, None)
        s.assume(z3.ULE(a[1], x.XS), z3.ULE(bv(x.hdr), x.XS - a[1]))
        s.store(x.X + x.o_size, x.XS)
        s.foot = s.foot + [('obj', x.fx, lambda i, off, n: z3.UGE(off, bv(x.hdr)))]
        return x.X
    return [('slab', ok), ('no-slab', lambda s: bv(0))]


def slab_put(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_put):the buffer's own cache")
    st.prove(x.has and st.ghost['put'] == 0, 'pre(slab_put):the slab of the buffer, once')
    if x.has:
        st.prove(a[1] == x.P, 'pre(slab_put):a slab of the buffer')
        # the slab belongs to the cache now: its bytes are lost
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: f is not x.fp), 'slab_put')
        st.foot = [t for t in st.foot if t[1] is not x.fp]
    st.ghost['put'] += 1
    return None


def real_size(vc, st, a):
    """a function of the size: at least the size plus the header"""
    f = z3.Function('real_size', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
    return f(a[0], a[1])


def inv(x, st, used=None, byte=None, k=None, same=False, name='inv'):
    """the positions fit one block; the unread bytes are kept"""
    g = {f: x.get(st, f) for f in POS}
    used = x.used if used is None else used
    st.prove(z3.And(x.get(st, 'slabc') == x.cache, x.get(st, 'start_capacity') == x.start), 'frame:cache and start capacity')
    if same or not st.ghost['got'] and not st.ghost['put']:
        st.prove(z3.And(g['buf'] == x.buf, g['end'] == x.end), name + ':the block is kept')
        B, C = x.buf, x.cap
    else:
        st.prove(z3.And(g['buf'] == x.X + x.hdr, g['end'] == x.X + x.XS), name + ':the block is the whole new slab')
        B, C = x.X + x.hdr, x.XS - x.hdr
        st.prove(st.ghost['put'] == (1 if x.has else 0), name + ':the old slab is given back')
    r, w = simp(g['rpos'] - B), simp(g['wpos'] - B)
    st.prove(z3.And(z3.ULE(r, w), z3.ULE(w, C)), name + ':positions in order within the block')
    st.prove(w - r == used, name + ':used size')
    if x.has:
        kk = x.k if k is None else k
        for f in under(st, z3.And(z3.ULT(x.k, x.used), z3.ULT(kk, used))):
            f.prove(f.load(simp(g['rpos'] + kk), 1) == x.byte, name + ':unread bytes keep value and order')
    return r, w, C


def iproof(name, fns):
    def deco(fn):
        for has in (True, False):
            @proof(name + ('' if has else '/no buffer'), 'P17', M, fns=fns, assumes=ASSUME)
            def _(mk, mod, has=has):
                fn(mk, mod, has)
        return fn
    return deco


def grow_loop(x):
    """new_capacity doubles until it is enough"""
    def linv(st, g):
        nc, want = st.local('new_capacity'), x.used + st.local('size')
        return [('capacity', z3.And(nc != 0, z3.UGE(nc, x.cap)))]

    def havoc(st, g):
        st.set_local('new_capacity', z3.BitVec('nc', 64))
        return g
    return {('ibuf_reserve_slow', 0): Loop(linv, havoc=havoc, variant=lambda st, g: bv(-1) - st.local('new_capacity'))}


def reserve(fn, alloc, cb=False):
    @iproof(fn, [fn, 'ibuf_reserve_slow', 'ibuf_unused', 'ibuf_used', 'ibuf_capacity'])
    def _(mk, mod, has):
        x = ibuf(mk, has)
        st = x.st
        size = z3.BitVec('size', 64)
        x.vc.loops = grow_loop(x)
        args = [x.b, size]
        want = size
        if cb and not alloc:
            p = z3.BitVec('psize', 64)
            fz = st.fam(Fam('size', 8, base=p))
            st.assume(st.load(p, 8) == size)
            st.foot += [('obj', fz, lambda i, off, n: True)]
            args = [x.b, p]
            want = z3.If(size == 0, x.start, size)

        def post(st, r):
            for f in under(st, r == 0):
                if has:
                    f.prove(f.ghost['got'] == 0, 'post:failure takes nothing')
                else:
                    for h in under(f, want != 0):
                        h.prove(h.ghost['got'] == 0, 'post:failure takes nothing')
                g = {q: x.get(f, q) for q in POS}
                f.prove(z3.And(*[g[q] == getattr(x, q) for q in POS]), 'post:failure leaves the buffer unchanged')
                inv(x, f, name='failure')
            for f in under(st, r != 0):
                rr, w, C = inv(x, f, used=x.used + (size if alloc else 0))
                w0 = w - size if alloc else w
                f.prove(r == x.get(f, 'wpos') - (size if alloc else 0), 'post:the write position')
                f.prove(z3.ULE(want, C - w0), 'post:at least that much is writable')
                if cb and not alloc:
                    f.prove(f.load(p, 8) == C - w0, 'post:all that is writable')
        x.vc.verify(fn, args, post=post)


reserve('ibuf_reserve', False)
reserve('ibuf_alloc', True)
reserve('ibuf_reserve_cb', False, True)
reserve('ibuf_alloc_cb', True, True)


@iproof('ibuf_shrink', ['ibuf_shrink'])
def _(mk, mod, has):
    x = ibuf(mk, has)

    def post(st, r):
        if not has:
            st.prove(st.ghost['got'] == 0, 'post:nothing is taken')
            st.prove(z3.And(*[x.get(st, q) == 0 for q in POS]), 'post:still no buffer')
            return
        if st.ghost['put'] and not st.ghost['got']:
            st.prove(x.used == 0, 'post:the slab goes only when nothing is unread')
            st.prove(z3.And(*[x.get(st, q) == 0 for q in POS]), 'post:no buffer')
            return
        inv(x, st)
        if st.ghost['got']:
            w = z3.If(z3.ULT(x.start, x.used), x.used, x.start)
            st.prove(st.ghost['get_size'] == w, 'post:the smallest capacity needed')
    x.vc.verify('ibuf_shrink', [x.b], post=post)


def drop(fn, arg):
    @iproof(fn, [fn])
    def _(mk, mod, has):
        x = ibuf(mk, has)
        st = x.st
        st.foot = [('obj', x.fb, lambda i, off, n: True)]
        n = z3.BitVec('n', 64)
        st.assume(z3.ULE(n, x.used))
        front = fn in ('ibuf_consume', 'ibuf_consume_before')

        def post(st, r):
            left = x.used - n
            inv(x, st, used=left, k=x.k - n if front else x.k)
            if front:
                st.prove(x.get(st, 'wpos') == x.wpos, 'post:the write position stays')
            else:
                st.prove(x.get(st, 'rpos') == x.rpos, 'post:the read position stays')
        x.vc.verify(fn, [x.b, arg(x, n)], post=post)


drop('ibuf_discard', lambda x, n: n)
drop('ibuf_truncate', lambda x, n: simp(x.used - n))
drop('ibuf_consume', lambda x, n: n)
drop('ibuf_consume_before', lambda x, n: simp(x.rpos + n))


def figures(fn, want):
    @iproof(fn, [fn])
    def _(mk, mod, has):
        x = ibuf(mk, has)
        x.st.foot = []
        x.vc.verify(fn, [x.b], post=lambda st, r: st.prove(r == want(x), 'post:the figure'))


figures('ibuf_used', lambda x: x.used)
figures('ibuf_unused', lambda x: x.cap - x.wr)
figures('ibuf_capacity', lambda x: x.cap)
figures('ibuf_pos', lambda x: x.rd)


@iproof('ibuf_reset', ['ibuf_reset'])
def _(mk, mod, has):
    x = ibuf(mk, has)
    x.st.foot = [('obj', x.fb, lambda i, off, n: True)]

    def post(st, r):
        inv(x, st, used=bv(0))
        st.prove(x.get(st, 'rpos') == x.buf, 'post:empty, from the start')
    x.vc.verify('ibuf_reset', [x.b], post=post)


def gone(fn):
    @iproof(fn, [fn, 'ibuf_destroy'])
    def _(mk, mod, has):
        x = ibuf(mk, has)

        def post(st, r):
            st.prove(st.ghost['got'] == 0 and st.ghost['put'] == (1 if has else 0), 'post:the slab is given back')
            if fn == 'ibuf_reinit':
                st.prove(z3.And(*[x.get(st, q) == 0 for q in POS]), 'post:no buffer')
                st.prove(z3.And(x.get(st, 'slabc') == x.cache, x.get(st, 'start_capacity') == x.start), 'frame:cache and start capacity')
        x.vc.verify(fn, [x.b], post=post)


gone('ibuf_destroy')
gone('ibuf_reinit')


@proof('ibuf_create', 'P17', M, assumes=ASSUME)
def _(mk, mod):
    x = ibuf(mk, False)
    st = x.st
    c, s = z3.BitVec('cache2', 64), z3.BitVec('start2', 64)

    def post(st, r):
        st.prove(z3.And(*[x.get(st, q) == 0 for q in POS]), 'post:no buffer')
        st.prove(z3.And(x.get(st, 'slabc') == c, x.get(st, 'start_capacity') == s), 'post:cache and start capacity')
    x.vc.verify('ibuf_create', [x.b, c, s], post=post)
