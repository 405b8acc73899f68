"""Contracts of lsregion (P15 allocation and collection, P16 flushing).

A log-structured region is a list of slabs, oldest first, of any length N >= 0: slab i at A(i), SZ(i) bytes, of which US(i)
(header included) are used; ID(i) its slab id, MX(i) the greatest allocation id in it (-1: nothing is allocated in it).
Invariant: hdr <= US <= SZ; MX = -1 iff US = hdr; ID is increasing and at most the region's counter; MX does not decrease
among used slabs; SZ(i) = arena slab size, or more (a block of its own, from malloc); the cached slab, if any, is an
arena slab outside the list; stats.used = sum of US - hdr; stats.total = sum of SZ, plus the cached slab.
A savepoint (sid, pos) has flushed: everything in slabs with ID < sid and the first pos bytes of the slab with ID = sid."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from smallvc.seq import Seq, Sum, ite
from specs.common import small_align, under, at_least, is_cell

ASSUME = ['allocation sizes are not 0, ids are nonnegative and do not decrease', 'a slab is below 2^46 bytes and all slabs of a region below 2^47',
          'fewer than 2^62 slabs are ever taken', 'slab_map / slab_unmap, malloc / free, quota_use / quota_release by contract (their own proofs: P05, P02)']
M = 'lsregion'


class R:
    pass


def lsregion(mk, cached=None, last=None, **kw):
    """cached: True / False / None (either, decided by a path split on the pointer)"""
    x = R()
    cs = {n: (lambda f: lambda vc, st, a: f(x, vc, st, a))(f) for n, f in dict(slab_map=slab_map, malloc=c_malloc, free=c_free,
          slab_unmap=slab_unmap, quota_use=quota_use, quota_release=quota_release).items()}
    cs['small_align'] = small_align
    vc = x.vc = mk(contracts=cs, **kw)
    st = x.st = vc.new_state()
    mod = vc.mod
    F = lambda s, f: mod.field(s, f)[0]
    x.hdr = mod.struct_size('lslab')
    po, no = F('rlist', 'prev'), F('rlist', 'next')
    x.o_link = F('lslab', 'next_in_list.prev') - po
    x.o_next, x.o_prev = x.o_link + no, x.o_link + po
    x.o = {f: F('lslab', f) for f in ('slab_size', 'slab_used', 'slab_id', 'max_id')}
    hl = F('lsregion', 'slabs.slabs.prev') - po
    x.h_next, x.h_prev = hl + no, hl + po
    x.h_used, x.h_total = F('lsregion', 'slabs.stats.used'), F('lsregion', 'slabs.stats.total')
    x.r, x.N = z3.BitVec('lsregion', 64), z3.BitVec('N', 64)
    x.k = z3.BitVec('k', 64)
    x.H = x.r + hl
    x.seq = Seq('slab', x.N, x.H, x.o_link, po, no)
    x.A = x.seq.A
    fn = {n: z3.Function(n, B, B) for n in ('SZ', 'US', 'ID', 'MX')}
    x.SZ, x.US, x.ID, x.MX = ((lambda f: lambda i: f(simp(i)))(fn[n]) for n in ('SZ', 'US', 'ID', 'MX'))
    x.U, x.S = Sum('U', lambda i: simp(x.US(i) - x.hdr), x.N), Sum('S', x.SZ, x.N)
    x.AS = z3.BitVec('arena_slab_size', 64)
    x.ctr = z3.BitVec('counter', 64)

    def facts(st, i):
        others = [j for f, j in st.objs if f is x.fs and not j.eq(i)]
        out = [z3.ULE(x.US(i), x.SZ(i)), z3.ULE(bv(x.hdr), x.US(i)), z3.UGE(x.SZ(i), x.AS), x.ID(i) >= 1, x.ID(i) <= x.ctr,
               x.MX(i) >= -1, (x.MX(i) == -1) == (x.US(i) == x.hdr)]
        for j in others:
            for a, b in ((i, j), (j, i)):
                out += [z3.Implies(z3.ULT(a, b), x.ID(a) < x.ID(b)),
                        z3.Implies(z3.And(z3.ULT(a, b), x.MX(a) != -1, x.MX(b) != -1), x.MX(a) <= x.MX(b))]
            out.append(z3.Implies(i == j, z3.And(x.ID(i) == x.ID(j), x.MX(i) == x.MX(j))))
        out += x.U.facts(i, others) + x.S.facts(i, others)
        for f in getattr(x, 'more', []):
            out += f(i, others)
        return out
    x.more = []
    x.fr = st.fam(Fam('lsregion', mod.struct_size('lsregion'), base=x.r, cell=lambda st, i, off, n: cell(x, 'region', None, off, n)))
    x.fs = st.fam(Fam('slab', x.SZ, fn=x.A, guard=lambda i: z3.ULT(i, x.N), facts=facts, minsize=x.hdr,
                      cell=lambda st, i, off, n: cell(x, 'slab', i, off, n)))
    x.arena = st.get(x.r, 'lsregion', 'arena')
    x.fa = st.fam(Fam('arena', mod.struct_size('slab_arena'), base=x.arena if z3.is_const(x.arena) else z3.BitVec('arena', 64)))
    ar = z3.BitVec('arena', 64)
    st.put(x.r, 'lsregion', 'arena', ar)
    x.arena = ar
    w = mod.field('slab_arena', 'slab_size')[1]
    st.put(ar, 'slab_arena', 'slab_size', z3.Extract(8 * w - 1, 0, x.AS))
    x.quota = st.get(ar, 'slab_arena', 'quota')
    st.put(x.r, 'lsregion', 'slab_id', x.ctr)
    st.assume(z3.ULT(x.N, bv(1 << 40)), x.U(0) == 0, x.S(0) == 0, z3.ULE(x.U(x.N), x.S(x.N)), z3.ULT(x.S(x.N), bv(1 << 47)),
              z3.ULT(bv(x.hdr), x.AS), z3.ULE(x.AS, bv(1 << 31)), x.AS & (x.AS - 1) == 0, x.ctr >= 0, x.ctr < bv(1 << 62))
    # the cached slab
    x.Q = z3.BitVec('Q', 64)
    x.fq = Fam('cached', x.AS, base=x.Q, minsize=x.hdr, cell=lambda st, i, off, n: qcell(x, off, n))
    x.cached = cached
    if cached:
        st.fam(x.fq)
        st.meet(x.fq, None)
    st.put(x.r, 'lsregion', 'cached', x.Q if cached else bv(0))
    st.put(x.r, 'lsregion', 'slabs.stats.total', x.S(x.N) + (x.AS if cached else 0))
    x.X, x.XS = z3.BitVec('X', 64), z3.BitVec('XS', 64)
    x.fx = Fam('new slab', x.XS, base=x.X, minsize=x.hdr, align=16)
    st.foot = []
    st.ghost.update(got=None, quota=bv(0), freed=None, unmapped=None, relq=None, gone=0)
    return x


def cell(x, kind, i, off, n):
    if not z3.is_bv_value(off) or n != 8:
        return None
    o = off.as_long()
    if kind == 'region':
        return {x.h_next: lambda: x.seq.first(), x.h_prev: lambda: x.seq.last(), x.h_used: lambda: x.U(x.N)}.get(o, lambda: None)()
    return {x.o_next: lambda: x.seq.next(i), x.o_prev: lambda: x.seq.prev(i), x.o['slab_size']: lambda: x.SZ(i),
            x.o['slab_used']: lambda: x.US(i), x.o['slab_id']: lambda: x.ID(i), x.o['max_id']: lambda: x.MX(i)}.get(o, lambda: None)()


def qcell(x, off, n):
    """header of the cached slab"""
    if not z3.is_bv_value(off) or n != 8:
        return None
    o = off.as_long()
    return {x.o_next: x.Q + x.o_link, x.o_prev: x.Q + x.o_link, x.o['slab_size']: x.AS, x.o['slab_used']: bv(x.hdr),
            x.o['max_id']: bv(-1)}.get(o)


# ------------------------------------------------------------ the environment

def new_slab(x, st, kind, size):
    if st.ghost['got'] is not None:
        raise Unsupported('two slabs are taken')

    def ok(s):
        s.ghost['got'] = kind
        s.fam(x.fx)
        s.meet(x.fx, None)
        s.assume(x.XS == size)
        s.foot = s.foot + [('obj', x.fx, lambda i, off, n: True)]
        return x.X
    return [(kind, ok), ('no memory', lambda s: bv(0))]


def slab_map(x, vc, st, a):
    st.prove(a[0] == x.arena, "pre(slab_map):the region's arena")
    return new_slab(x, st, 'arena', x.AS)


def c_malloc(x, vc, st, a):
    st.prove(st.ghost['quota'] == a[0], 'pre(malloc):the quota is taken first')
    return new_slab(x, st, 'malloc', a[0])


def quota_use(x, vc, st, a):
    st.prove(a[0] == x.quota, "pre(quota_use):the arena's quota")

    def ok(s):
        s.ghost['quota'] = simp(s.ghost['quota'] + a[1])
        r = vc.fresh('quota_use')
        s.assume(r >= 0, z3.ULE(a[1], bv(1 << 46)))
        return r

    def no(s):
        r = vc.fresh('quota_use')
        s.assume(r < 0)
        return r
    return [('quota', ok), ('over quota', no)]


def quota_release(x, vc, st, a):
    st.prove(a[0] == x.quota, "pre(quota_release):the arena's quota")
    if 'c' in st.ghost:
        st.ghost['relq'] = a[1]
    else:
        st.ghost['quota'] = simp(st.ghost['quota'] - a[1])
    return vc.fresh('quota_release')


def lost(x, st, i):
    """slab i is no longer the region's"""
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: (j != i) if f is x.fs else True), 'freed slab')


def c_free(x, vc, st, a):
    if 'c' not in st.ghost:
        st.prove(False, 'pre(free):nothing to free here')
        return None
    c = st.ghost['c']
    st.prove(z3.And(z3.ULT(c, x.N), a[0] == x.A(c)), 'pre(free):the oldest slab')
    st.prove(z3.UGT(x.SZ(c), x.AS), 'pre(free):a slab that came from malloc')
    st.ghost['freed'] = True
    st.ghost['gone'] = st.ghost['gone'] + 1
    lost(x, st, c)
    return None


def slab_unmap(x, vc, st, a):
    st.prove(a[0] == x.arena, "pre(slab_unmap):the region's arena")
    if 'c' not in st.ghost:
        st.prove(bool(getattr(x, 'final', False)), 'pre(slab_unmap):nothing to free here')
        st.prove(a[1] == st.get(x.r, 'lsregion', 'cached'), 'pre(slab_unmap):the cached slab')
        st.ghost['final_done'] = st.ghost.get('final_done', 0) + 1
        return None
    c = st.ghost['c']
    if x.vc.possible(c == x.N) and not x.vc.possible(c != x.N):
        # after collection: the cached slab
        st.prove(a[1] == st.get(x.r, 'lsregion', 'cached'), 'pre(slab_unmap):the cached slab')
        st.ghost['final_done'] = st.ghost.get('final_done', 0) + 1
        return None
    st.prove(z3.And(z3.ULT(c, x.N), a[1] == x.A(c)), 'pre(slab_unmap):the oldest slab')
    st.prove(x.SZ(c) == x.AS, 'pre(slab_unmap):a slab of the arena')
    st.ghost['unmapped'] = True
    st.ghost['gone'] = st.ghost['gone'] + 1
    lost(x, st, c)
    return None


# ------------------------------------------------------------ states

def slab_state(x, st, c=None, next_last=None, prev_c=None, used=None, mx=None, name='inv'):
    """slabs c.. as in the beginning, but for: the link after the last one, the link before slab c, used and max_id of the last"""
    c = bv(0) if c is None else c
    for f in under(st, z3.And(z3.ULE(c, x.k), z3.ULT(x.k, x.N))):
        k, f_ = x.k, f
        ld = lambda o: f.load(x.A(k) + o, 8)
        la = k == x.N - 1
        e = lambda d, v: d if v is None else z3.If(la, v, d)
        f.prove(ld(x.o_next) == e(x.seq.next(k), next_last), name + ':next links')
        f.prove(ld(x.o_prev) == x.seq.prev(k, c), name + ':prev links')
        f.prove(ld(x.o['slab_size']) == x.SZ(k), name + ':slab sizes')
        f.prove(ld(x.o['slab_used']) == e(x.US(k), used), name + ':used part of the slabs')
        f.prove(ld(x.o['slab_id']) == x.ID(k), name + ':slab ids')
        f.prove(ld(x.o['max_id']) == e(x.MX(k), mx), name + ':greatest allocation ids')


def head_state(x, st, used, total, first=None, last=None, c=None, name='inv'):
    st.prove(st.load(x.r + x.h_next, 8) == (x.seq.first(c) if first is None else first), name + ':list head')
    st.prove(st.load(x.r + x.h_prev, 8) == (x.seq.last(c) if last is None else last), name + ':list tail')
    st.prove(st.load(x.r + x.h_used, 8) == used, name + ':used figure')
    st.prove(st.load(x.r + x.h_total, 8) == total, name + ':total figure')
    st.prove(st.get(x.r, 'lsregion', 'arena') == x.arena, name + ':arena kept')


def cached_state(x, st, has, name='inv'):
    st.prove(st.get(x.r, 'lsregion', 'cached') == (x.Q if has else 0), name + ':cached slab')
    if has:
        for o, v in ((x.o['slab_size'], x.AS), (x.o['slab_used'], bv(x.hdr)), (x.o['max_id'], bv(-1))):
            st.prove(st.load(x.Q + o, 8) == v, name + ':header of the cached slab')


def foot_alloc(x):
    """bookkeeping only; of the slabs only the last one's"""
    x.st.foot += [('obj', x.fr, lambda i, off, n: True),
                  ('obj', x.fs, lambda i, off, n: z3.And(i == x.N - 1, z3.ULE(off + n, bv(x.hdr))))]
    if x.cached:
        x.st.foot += [('obj', x.fq, lambda i, off, n: z3.ULE(off + n, bv(x.hdr)))]


def post_alloc(x, size, al=None, alloc=True, unaligned=None, id=None):
    def post(st, r):
        L = simp(x.N - 1)
        got = st.ghost['got']
        tot0 = x.S(x.N) + (x.AS if x.cached else 0)
        idc = st.get(x.r, 'lsregion', 'slab_id')
        st.prove(idc >= x.ctr, 'post:the slab id counter does not go back')
        for f in under(st, r == 0):
            f.prove(f.ghost['quota'] == 0, 'failure:no quota is kept')
            f.prove(got is None, 'failure:nothing is taken')
            head_state(x, f, x.U(x.N), tot0, name='failure')
            slab_state(x, f, name='failure')
            cached_state(x, f, x.cached, name='failure')
        for f in under(st, r != 0):
            use = x.cached and not f.vc.possible(f.get(x.r, 'lsregion', 'cached') != 0)
            if got is None and not use:
                # in the last slab
                f.prove(x.N != 0, 'post:not without a slab')
                head = lambda **k: head_state(x, f, **k)
                block(x, f, r, x.A(L), x.SZ(L), x.US(L), size, al, unaligned)
                inc = r - (x.A(L) + x.US(L)) + size
                head_state(x, f, x.U(x.N) + (inc if alloc else 0), tot0)
                slab_state(x, f, used=x.US(L) + inc if alloc else None, mx=id if alloc else None)
                cached_state(x, f, x.cached)
                f.prove(f.ghost['quota'] == 0, 'post:no quota is taken')
            else:
                Xp, XS = (x.Q, x.AS) if use else (x.X, x.XS)
                if use:
                    f.prove(got is None, 'post:one slab is taken')
                block(x, f, r, Xp, XS, bv(x.hdr), size, al, unaligned)
                inc = r - (Xp + x.hdr) + size
                head_state(x, f, x.U(x.N) + (inc if alloc else 0), tot0 + (0 if use else x.XS),
                           first=z3.If(x.N == 0, Xp + x.o_link, x.seq.first()), last=Xp + x.o_link)
                slab_state(x, f, next_last=Xp + x.o_link)
                cached_state(x, f, x.cached and not use)
                ld = lambda o: f.load(Xp + o, 8)
                f.prove(ld(x.o_next) == x.H, 'inv:the new slab is last')
                f.prove(ld(x.o_prev) == x.seq.last(), 'inv:the new slab follows the list')
                f.prove(ld(x.o['slab_size']) == XS, 'inv:size of the new slab')
                f.prove(ld(x.o['slab_used']) == bv(x.hdr) + (inc if alloc else 0), 'inv:used part of the new slab')
                f.prove(ld(x.o['max_id']) == (id if alloc else bv(-1)), 'inv:greatest id in the new slab')
                f.prove(z3.UGE(XS, x.AS), 'inv:the new slab is not below the arena slab size')
                f.prove(f.ghost['quota'] == (x.XS if got == 'malloc' else 0), 'post:quota taken for a slab of its own')
                if got is not None:
                    f.prove(z3.UGT(XS, x.AS) if got == 'malloc' else XS == x.AS, 'inv:only bigger slabs come from malloc')
                f.prove(z3.And(ld(x.o['slab_id']) > x.ctr, ld(x.o['slab_id']) <= idc), 'inv:the new slab has a new id')
    return post


def block(x, st, r, A, SZ, u, size, al, unaligned):
    d = r - (A + u)
    st.prove(z3.And(z3.ULE(d, SZ - u), z3.ULE(size, SZ - u - d)), 'post:the block is unused memory of one slab')
    if al is not None:
        st.prove(r & (al - 1) == 0, 'post:aligned')
        st.prove(z3.ULT(d, al), 'post:least padding')
        if unaligned is not None:
            st.prove(st.load(unaligned, 8) == A + u, 'post:the unaligned position')
    else:
        st.prove(d == 0, 'post:no padding')


def rproof(name, props, fns, both=True):
    def deco(fn):
        for c in (False, True):
            @proof(name + ('/cached slab' if c else ''), props, M, fns=fns, assumes=ASSUME)
            def _(mk, mod, c=c):
                fn(mk, mod, c)
        return fn
    return deco


FN = ['lsregion_aligned_reserve_slow', 'lslab_create', 'lslab_use', 'lslab_pos', 'lslab_end', 'lslab_unused']


def newest(x, id):
    """ids do not decrease"""
    x.more.append(lambda i, others: [x.MX(i) <= id])
    x.st.assume(id >= 0)


for fn, al, alloc in (('lsregion_reserve', False, False), ('lsregion_alloc', False, True), ('lsregion_aligned_reserve', True, False),
                      ('lsregion_aligned_alloc', True, True)):
    def reg(fn, al, alloc):
        @rproof(fn, 'P15 P16', [fn] + FN)
        def _(mk, mod, cached):
            x = lsregion(mk, cached)
            st = x.st
            size, a, id = z3.BitVec('size', 64), z3.BitVec('alignment', 64), z3.BitVec('id', 64)
            newest(x, id)
            st.meet(x.fs, simp(x.N - 1)) if not alloc or True else None
            args, un = [x.r, size], None
            if alloc:
                st.assume(size != 0)
            if al:
                st.assume(a != 0, a & (a - 1) == 0)
                args.append(a)
                if not alloc:
                    un = z3.BitVec('unaligned', 64)
                    fu = st.fam(Fam('unaligned', 8, base=un))
                    st.foot += [('obj', fu, lambda i, off, n: True)]
                    args.append(un)
            if alloc:
                args.append(id)
            foot_alloc(x)
            x.vc.verify(fn, args, post=post_alloc(x, size, a if al else None, alloc, un, id))
    reg(fn, al, alloc)


@proof('lsregion_create', 'P15 P16', M, assumes=ASSUME)
def _(mk, mod):
    x = lsregion(mk, False)
    st = x.st
    st.foot += [('obj', x.fr, lambda i, off, n: True)]

    def post(st, r):
        head_state(x, st, bv(0), bv(0), first=x.H, last=x.H)
        st.prove(z3.And(st.get(x.r, 'lsregion', 'cached') == 0, st.get(x.r, 'lsregion', 'slab_id') == 0), 'post:no cached slab, ids from 0')
    x.vc.verify('lsregion_create', [x.r, x.arena], post=post)


for fn, want in (('lsregion_used', lambda x: x.U(x.N)), ('lsregion_total', lambda x: simp(x.S(x.N) + (x.AS if x.cached else 0)))):
    def figs(fn, want):
        @rproof(fn, 'P15', [fn])
        def _(mk, mod, cached):
            x = lsregion(mk, cached)
            x.vc.verify(fn, [x.r], post=lambda st, r: st.prove(r == want(x), 'post:the figure'))
    figs(fn, want)


# ------------------------------------------------------------ collection

def gc(name, props, fns, final):
    for mode in ('cached before', 'none cached so far', 'one cached so far'):
        @proof('%s/%s' % (name, mode), props, M, fns=fns, assumes=ASSUME)
        def _(mk, mod, mode=mode):
            gc_proof(mk, mod, mode, final)


def gc_proof(mk, mod, mode, final):
        """mode: what earlier iterations have put into the cache"""
        cached = mode == 'cached before'
        x = lsregion(mk, cached)
        st = x.st
        x.final = final
        mid = z3.BitVec('min_id', 64)
        if final:
            st.assume(mid == bv((1 << 63) - 1))
        st.foot += [('obj', x.fr, lambda i, off, n: True), ('obj', x.fs, lambda i, off, n: z3.ULE(off + n, bv(x.hdr)))]
        if cached:
            st.foot += [('obj', x.fq, lambda i, off, n: False)]
        x.j = z3.BitVec('j', 64)        # the slab put into the cache

        def cache_of(g):
            """(is a slab cached, its address, its index)"""
            if cached:
                return x.Q, None
            return (x.A(g['j']), g['j']) if g['j'] is not None else (bv(0), None)

        def total(c, has):
            return x.S(x.N) - x.S(c) + (x.AS if has else 0)

        def hdrs(st, j, name):
            """the slab in the cache is reset"""
            for o, v in (('slab_size', x.AS), ('slab_used', bv(x.hdr)), ('max_id', bv(-1))):
                st.prove(st.load(x.A(j) + x.o[o], 8) == v, name + ':header of the cached slab')
            i = st.load(x.A(j) + x.o['slab_id'], 8)
            st.prove(i <= st.get(x.r, 'lsregion', 'slab_id'), name + ':id of the cached slab')

        def linv(st, g):
            c, j = g['c'], g['j']
            out = []
            if not g.get('assumed'):
                has = cached or j is not None
                st.prove(z3.ULE(c, x.N), 'loop:progress')
                st.prove(st.local('slab') == simp(x.seq.at(c) - x.o_link), 'loop:position')
                head_state(x, st, x.U(x.N) - x.U(c), total(c, has), c=c, name='loop')
                slab_state(x, st, c=c, name='loop')
                a, _ = cache_of(g)
                st.prove(st.get(x.r, 'lsregion', 'cached') == a, 'loop:cached slab')
                if j is not None:
                    st.prove(z3.And(z3.ULT(j, c), x.SZ(j) == x.AS), 'loop:the cached slab was collected')
                    hdrs(st, j, 'loop')
                st.prove(st.get(x.r, 'lsregion', 'slab_id') >= x.ctr, 'loop:the counter does not go back')
                for f in under(st, z3.ULT(x.k, c)):
                    f.prove(x.MX(x.k) <= mid, 'loop:only old slabs are collected')
            return out

        def havoc(st, g):
            c = z3.BitVec('c', 64)
            j = x.j if mode == 'one cached so far' else None
            st.assume(z3.ULE(c, x.N))
            st.meet(x.fs, c)
            has = cached or j is not None
            if j is not None:
                st.assume(z3.ULT(j, c), z3.ULT(j, x.N), x.SZ(j) == x.AS)
                st.meet(x.fs, j)

            def keep(st, f, i, off, n):
                if f is x.fs:
                    return z3.And(z3.UGE(i, c), z3.Not(z3.And(i == c, is_cell(off, n, x.o_prev))))
                if f is x.fr:
                    return z3.Not(z3.Or(*[is_cell(off, n, o) for o in (x.h_next, x.h_used, x.h_total, x.o_cached, x.o_ctr)],
                                        z3.And(c == x.N, is_cell(off, n, x.h_prev))))
                return True

            def cl(st, f, i, off, n):
                if not z3.is_bv_value(off) or n != 8:
                    return None
                o = off.as_long()
                if f is x.fr:
                    return {x.h_next: lambda: x.seq.first(c), x.h_prev: lambda: x.seq.last(c), x.h_used: lambda: x.U(x.N) - x.U(c),
                            x.h_total: lambda: total(c, has), x.o_cached: lambda: cache_of(dict(j=j))[0]}.get(o, lambda: None)()
                if f is x.fs and o == x.o_prev:
                    return z3.If(i == c, x.H, z3.Function('gone', B, B)(i))
                return None
            st.objhavoc(Havoc(keep=keep, cell=cl), 'gc')
            st.assume(st.get(x.r, 'lsregion', 'slab_id') >= x.ctr, st.get(x.r, 'lsregion', 'slab_id') < bv(1 << 62))
            if j is not None:
                for o, v in (('slab_size', x.AS), ('slab_used', bv(x.hdr)), ('max_id', bv(-1))):
                    st.assume(st.load(x.A(j) + x.o[o], 8) == v)
                st.assume(st.load(x.A(j) + x.o['slab_id'], 8) <= st.get(x.r, 'lsregion', 'slab_id'))
            st.assume(z3.Implies(z3.ULT(x.k, c), x.MX(x.k) <= mid))
            st.set_local('slab', simp(x.seq.at(c) - x.o_link))
            st.ghost.update(c=c, freed=None, unmapped=None, relq=None, gone=0)
            return dict(c=c, j=j, assumed=True)

        def step(st, g):
            c, j = g['c'], g['j']
            gh = st.ghost
            # the slab went exactly one way
            ca = st.get(x.r, 'lsregion', 'cached')
            kept = not cached and j is None and not st.vc.possible(ca != x.A(c))
            st.prove(gh['gone'] + (1 if kept else 0) == 1, 'step:the slab is freed, unmapped or cached, once')
            if gh['freed']:
                st.prove(gh['relq'] is not None, 'step:quota of a slab of its own is released')
            if gh['relq'] is not None:
                st.prove(z3.And(bool(gh['freed']), gh['relq'] == x.SZ(c)), 'step:the quota released is the size of the slab freed')
            if kept:
                st.prove(x.SZ(c) == x.AS, 'step:only an arena slab is cached')
            gh.pop('c')
            return dict(c=simp(c + 1), j=c if kept else j)

        x.o_cached, x.o_ctr = mod.field('lsregion', 'cached')[0], mod.field('lsregion', 'slab_id')[0]

        def post(st, r):
            c, j = st.ghost.get('exit_c', (bv(0), None))
            has = cached or j is not None
            if not final:
                st.prove(z3.Or(c == x.N, x.MX(c) > mid), 'post:stops only at a newer slab')
                for f in under(st, z3.ULT(x.k, c)):
                    f.prove(x.MX(x.k) <= mid, 'post:only old slabs are collected')
                head_state(x, st, x.U(x.N) - x.U(c), total(c, has), c=c, name='post')
                slab_state(x, st, c=c, name='post')
                st.prove(st.get(x.r, 'lsregion', 'slab_id') >= x.ctr, 'post:the counter does not go back')
                a, _ = cache_of(dict(j=j))
                st.prove(st.get(x.r, 'lsregion', 'cached') == a, 'post:cached slab')
                if j is not None:
                    hdrs(st, j, 'post')
            else:
                st.prove(c == x.N, 'post:every slab is given back')
                a, _ = cache_of(dict(j=j))
                st.prove(z3.If(a == 0, bv(0), bv(1)) == bv(st.ghost.get('final_done', 0)), 'post:the cached slab is given back too')

        def inv(st, g):
            st.ghost['exit_c'] = (g['c'], g['j'])
            return linv(st, g)
        x.vc.loops = {('lsregion_gc', 0): Loop(inv, init=lambda st: dict(c=bv(0), j=None), havoc=havoc, step=step,
                                              variant=lambda st, g: x.N - g['c'])}
        x.vc.verify('lsregion_destroy' if final else 'lsregion_gc', [x.r] if final else [x.r, mid], post=post)


gc('lsregion_gc', 'P15 P16', ['lsregion_gc', 'lslab_create'], False)
gc('lsregion_destroy', 'P15', ['lsregion_destroy', 'lsregion_gc'], True)


# ------------------------------------------------------------ flushing

def flush(mk, mod, some):
    """some: earlier iterations have flushed something"""
    x = lsregion(mk, False)
    st, vc = x.st, x.vc
    iov, cntp, svp = (z3.BitVec(n, 64) for n in ('iov', 'iovcnt', 'svp'))
    mx = z3.BitVec('max_iovcnt', 32)
    mx64 = z3.ZeroExt(32, mx)
    st.assume(mx >= 0)
    isz, ob, ol = mod.struct_size('iovec'), mod.field('iovec', 'iov_base')[0], mod.field('iovec', 'iov_len')[0]
    fi = st.fam(Fam('iov', simp(mx64 * isz), base=iov))
    fc = st.fam(Fam('iovcnt', 4, base=cntp))
    fv = st.fam(Fam('svp', mod.struct_size('lsregion_svp'), base=svp))
    st.store(cntp, mx)
    sid, pos = z3.BitVec('svp_slab_id', 64), z3.BitVec('svp_pos', 64)
    st.put(svp, 'lsregion_svp', 'slab_id', sid)
    st.put(svp, 'lsregion_svp', 'pos', pos)
    st.assume(sid >= -1, sid <= x.ctr)
    st.foot = [('obj', f, lambda i, off, n: True) for f in (fi, fc, fv)]
    # what the savepoint has flushed of slab i
    data = lambda i: simp(x.US(i) - x.hdr)
    done = lambda i, s, p: z3.If(x.ID(i) < s, data(i), z3.If(x.ID(i) == s, p, bv(0)))
    fresh = lambda i: z3.And(x.MX(i) != -1, x.ID(i) >= sid, z3.Not(z3.And(x.ID(i) == sid, data(i) == pos)))
    C = Sum('CNT', lambda i: z3.If(fresh(i), bv(1), bv(0)), x.N)
    x.more.append(lambda i, others: [z3.Implies(x.ID(i) == sid, z3.ULE(pos, data(i)))] + C.facts(i, others) +
                  [z3.ULE(C(i), i)])
    st.assume(C(0) == 0, z3.ULE(C(x.N), x.N))
    k = x.k
    st.assume(z3.ULT(k, x.N))
    st.meet(x.fs, k)
    want_base, want_len = x.A(k) + x.hdr + done(k, sid, pos), simp(data(k) - done(k, sid, pos))
    slot = simp(iov + C(k) * isz)

    def entry(st):
        return z3.And(st.load(slot + ob, 8) == want_base, st.load(slot + ol, 8) == want_len)

    def state(st, c, cnt, lf, name):
        """slabs before c are done; lf: the last one flushed"""
        out = []
        st.prove(z3.And(z3.ULE(c, x.N), cnt == C(c), z3.ULE(cnt, mx64)), name + ':progress')
        for f in under(st, z3.And(z3.ULT(k, c), fresh(k))):
            f.prove(entry(f), name + ':the vector of each slab flushed')
        s2, p2 = st.get(svp, 'lsregion_svp', 'slab_id'), st.get(svp, 'lsregion_svp', 'pos')
        m = st.local('max_alloc_id') if name == 'loop' else None
        if lf is None:
            st.prove(z3.And(s2 == sid, p2 == pos), name + ':savepoint unchanged')
            st.prove(cnt == 0, name + ':nothing flushed')
            if m is not None:
                st.prove(m == bv(-1), name + ':no id')
        else:
            st.prove(z3.And(z3.ULT(lf, c), fresh(lf)), name + ':the last slab flushed')
            st.prove(C(simp(lf + 1)) == C(c), name + ':none after it')
            st.prove(z3.And(s2 == x.ID(lf), p2 == data(lf)), name + ':savepoint at the end of the last slab flushed')
            if m is not None:
                st.prove(m == x.MX(lf), name + ':id of the last slab flushed')

    def inv(st, g):
        if not g.get('assumed'):
            state(st, g['c'], z3.SignExt(32, st.local('cnt')), g['lf'], 'loop')
            st.prove(st.local('iov') == simp(iov + z3.SignExt(32, st.local('cnt')) * isz), 'loop:next vector')
            st.prove(st.local('lslab') == simp(x.seq.at(g['c']) - x.o_link), 'loop:position')
        st.ghost['exit_c'] = (g['c'], g['lf'])
        return []

    def havoc(st, g, some):
        c, n32 = z3.BitVec('c', 64), z3.BitVec('cnt', 32)
        cnt = z3.SignExt(32, n32)
        lf = z3.BitVec('lf', 64) if some else None
        st.assume(z3.ULE(c, x.N), n32 >= 0)
        st.meet(x.fs, c)
        st.assume(z3.Implies(c == x.N, C(c) == C(x.N)))
        if some:
            st.assume(z3.ULT(lf, c), z3.ULT(lf, x.N))
            st.meet(x.fs, lf)
            st.assume(fresh(lf), C(simp(lf + 1)) == C(c))
        st.assume(cnt == C(c), z3.ULE(cnt, mx64))
        def keep(st, f, i, off, n):
            if f is fi:
                return False
            return f is not fv

        def cl(st, f, i, off, n):
            if f is fv and some and z3.is_bv_value(off) and n == 8:
                return {mod.field('lsregion_svp', 'slab_id')[0]: x.ID(lf), mod.field('lsregion_svp', 'pos')[0]: data(lf)}.get(off.as_long())
            if f is fv and z3.is_bv_value(off) and n == 8:
                return {mod.field('lsregion_svp', 'slab_id')[0]: sid, mod.field('lsregion_svp', 'pos')[0]: pos}.get(off.as_long())
            return None
        st.objhavoc(Havoc(keep=keep, cell=cl), 'flush')
        st.assume(z3.Implies(z3.And(z3.ULT(k, c), fresh(k)), entry(st)))
        st.set_local('cnt', n32)
        st.set_local('iov', simp(iov + cnt * isz))
        st.set_local('lslab', simp(x.seq.at(c) - x.o_link))
        st.set_local('max_alloc_id', x.MX(lf) if some else bv(-1))
        if not some:
            st.assume(C(c) == 0)
        return dict(c=c, lf=lf, assumed=True)

    def step(st, g):
        c = g['c']
        new = not st.vc.possible(z3.Not(fresh(c)))
        return dict(c=simp(c + 1), lf=c if new else g['lf'])

    def post(st, r):
        c, lf = st.ghost['exit_c']
        n = z3.SignExt(32, st.load(cntp, 4))
        total = C(x.N)
        st.prove(n == z3.If(z3.ULE(total, mx64), total, mx64), 'post:as many vectors as there is new data, up to the limit')
        s2, p2 = st.get(svp, 'lsregion_svp', 'slab_id'), st.get(svp, 'lsregion_svp', 'pos')
        out = z3.And(fresh(k), z3.ULT(C(k), mx64))
        for f in under(st, out):
            f.prove(entry(f), 'post:the vectors are the unflushed bytes in order')
            f.prove(x.MX(k) <= r, 'post:no flushed id is above the one returned')
            f.prove(done(k, s2, p2) == data(k), 'post:the savepoint covers what was flushed')
        for f in under(st, z3.Not(out)):
            f.prove(done(k, s2, p2) == done(k, sid, pos), 'post:the savepoint covers nothing else')
        if lf is None:
            st.prove(z3.And(r == bv(-1), n == 0), 'post:no id when nothing is flushed')
        else:
            st.prove(z3.And(r == x.MX(lf), fresh(lf), z3.ULT(C(lf), n)), 'post:the id of flushed data')
        # what is appended later is not covered: it goes after pos into the newest slab, or into slabs of greater id
        st.prove(z3.And(s2 <= x.ctr, s2 >= -1), 'post:the savepoint is not ahead of the region')
        for f in under(st, k == x.N - 1):
            f.prove(z3.And(s2 <= z3.If(sid > x.ID(k), sid, x.ID(k)), z3.Implies(s2 == x.ID(k), z3.ULE(p2, data(k)))),
                    'post:the savepoint does not cover later allocations')
    lp = Loop(inv, init=lambda st: dict(c=bv(0), lf=None), havoc=lambda st, g: havoc(st, g, some), step=step,
              variant=lambda st, g: x.N - g['c'])
    vc.loops = {('lsregion_to_iovec', 0): lp}
    vc.verify('lsregion_to_iovec', [x.r, iov, cntp, svp], post=post)


for some in (False, True):
    @proof('lsregion_to_iovec/' + ('something' if some else 'nothing') + ' flushed so far', 'P16', M, fns=['lsregion_to_iovec'],
           assumes=ASSUME + ['the savepoint was made by lsregion_svp_create or an earlier flush of this region'])
    def _(mk, mod, some=some):
        flush(mk, mod, some)


@proof('lsregion_svp_create', 'P16', M)
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    p = z3.BitVec('svp', 64)
    f = st.fam(Fam('svp', mod.struct_size('lsregion_svp'), base=p))
    st.foot = [('obj', f, lambda i, off, n: True)]

    def post(st, r):
        st.prove(st.get(p, 'lsregion_svp', 'slab_id') <= 0, 'post:before every slab id')
    vc.verify('lsregion_svp_create', [p], post=post)
