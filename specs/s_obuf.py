"""Contracts of obuf (P18 appends, P19 rollback).

Slots 0..30 (and one more as an end mark).  Slot i < N is a slab S(i), SS(i) bytes; its capacity is SS - hdr, of which
L(i) bytes are used; slot N is all zero.  P is the current slot: L(i) > 0 before it, L(i) = 0 after it.
F(i) = sum of L before i; used = F(P) + L(P).  The stream is the used parts in slot order.
Slab cache by contract (P06/P07)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B, addends, total
from smallvc.seq import Sum
from specs.common import small_align, under

ASSUME = ['a slab is below 2^46 bytes', 'start_capacity > 0', 'slab_get / slab_put by contract (their own proofs: P06, P07)',
          'the data given to obuf_dup is an object of its own, below 2^46 bytes']
M = 'obuf'
MAX = 31


class O:
    pass


def pick(off):
    """off = const + 8 or 16 times an index -> (const, factor, index); factor None if there is no index"""
    c, ts = 0, []
    for t in addends(simp(off)):
        if is_num(t):
            c += num(t)
        elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and is_num(t.arg(0)):
            f = num(t.arg(0))
            ts.append((f - (1 << 64) if f >> 63 else f, t.arg(1)))
        else:
            return None
    c &= (1 << 64) - 1
    if not ts:
        return c, None, None
    m = 16 if all(f % 16 == 0 for f, _ in ts) else 8
    if any(f % m for f, _ in ts):
        return None
    return c, m, total([simp(bv(f // m & (1 << 64) - 1) * t) for f, t in ts])


def obuf(mk, **kw):
    x = O()
    c = dict(small_align=small_align, slab_get=lambda vc, st, a: slab_get(x, vc, st, a), slab_put=lambda vc, st, a: slab_put(x, vc, st, a))
    vc = x.vc = mk(contracts=c, **kw)
    st = x.st = vc.new_state()
    mod = vc.mod
    x.hdr, x.o_size = mod.struct_size('slab'), mod.field('slab', 'size')[0]
    F = lambda f: mod.field('obuf', f)[0]
    x.o_cap, x.o_iov, x.size = F('capacity'), F('iov'), mod.struct_size('obuf')
    x.nocap = x.o_cap + 8 * (MAX + 1)
    x.b = z3.BitVec('obuf', 64)
    x.p32, x.n32 = z3.BitVec('pos', 32), z3.BitVec('n_iov', 32)
    x.P, x.N = z3.SignExt(32, x.p32), z3.SignExt(32, x.n32)
    st.assume(x.p32 >= 0, x.p32 < MAX, x.p32 <= x.n32, x.n32 <= MAX)
    fn = {n: z3.Function(n, B, B) for n in ('S', 'SS', 'L', 'garbage')}
    x.S = fn['S']
    x.SS, x.L0 = (lambda i: fn['SS'](simp(i))), (lambda i: fn['L'](simp(i)))
    lt = lambda i: z3.ULT(i, x.N)
    x.cap = lambda i: simp(z3.If(lt(i), x.SS(i) - x.hdr, bv(0)))
    x.base = lambda i: simp(z3.If(lt(i), x.S(simp(i)) + x.hdr, bv(0)))
    x.len = lambda i: simp(z3.If(lt(i), x.L0(i), bv(0)))
    x.F = Sum('F', x.len, x.P + 1)
    # capacities from the current slot on
    x.G = z3.Function('G', B, B)
    x.used = simp(x.F(x.P) + x.len(x.P))

    def slot_facts(i):
        i = simp(i)
        return [z3.Implies(lt(i), z3.And(z3.ULE(x.L0(i), x.SS(i) - x.hdr), z3.ULT(bv(x.hdr), x.SS(i)), z3.ULE(x.SS(i), bv(1 << 46)), z3.UGE(x.S(i), bv(4096)), z3.ULE(x.S(i), bv(1 << 47)),
                                         z3.Implies(z3.ULT(i, x.P), x.L0(i) != 0), z3.Implies(z3.UGT(i, x.P), x.L0(i) == 0)))]
    x.slot_facts = slot_facts
    x.fs = st.fam(Fam('slab', x.SS, fn=x.S, guard=lt, facts=lambda st, i: slot_facts(i), minsize=x.hdr, align=16,
                      cell=lambda st, i, off, n: x.SS(i) if off.eq(bv(x.o_size)) and n == 8 else None))
    x.fb = st.fam(Fam('obuf', x.size, base=x.b, cell=lambda st, i, off, n: cell(x, off, n)))
    x.k = z3.BitVec('k', 64)
    st.assume(z3.ULE(x.k, x.N))
    for i in (x.P, x.P + 1, x.k):
        st.assume(*slot_facts(i))
    st.assume(z3.ULT(x.F(x.P), bv(1 << 52)))
    x.cache, x.start = st.get(x.b, 'obuf', 'slabc'), st.get(x.b, 'obuf', 'start_capacity')
    st.assume(x.start != 0)
    st.put(x.b, 'obuf', 'pos', x.p32)
    st.put(x.b, 'obuf', 'n_iov', x.n32)
    st.put(x.b, 'obuf', 'used', x.used)
    x.X, x.XS = z3.BitVec('X', 64), z3.BitVec('XS', 64)
    x.fx = Fam('new slab', x.XS, base=x.X, minsize=x.hdr, align=16)
    st.ghost.update(put=None, got=0)
    st.foot = [('obj', x.fb, lambda i, off, n: True)]
    return x


def slot_of(x, off, n):
    """-> ('cap' | 'base' | 'len', index) of a slot cell"""
    if n != 8:
        return None
    r = pick(off)
    if r is None:
        return None
    c, m, i = r
    if m is None:
        if x.o_cap <= c < x.nocap and (c - x.o_cap) % 8 == 0:
            return 'cap', bv((c - x.o_cap) // 8)
        d = c - x.o_iov
        if 0 <= d < 16 * (MAX + 1) and d % 8 == 0:
            return ('base', 'len')[d % 16 // 8], bv(d // 16)
        return None
    if m == 8 and x.o_cap <= c < x.nocap and (c - x.o_cap) % 8 == 0:
        return 'cap', simp(i + (c - x.o_cap) // 8)
    if m == 16 and (c - x.o_iov) % 8 == 0:
        d = c - x.o_iov
        return ('base', 'len')[d % 16 // 8], simp(i + d // 16)
    return None


def cell(x, off, n):
    s = slot_of(x, off, n)
    if s is None:
        return None
    v = getattr(x, s[0])(s[1])
    return z3.If(z3.ULE(s[1], x.N), v, z3.Function('rest_' + s[0], B, B)(s[1]))


def at(x, st, what, i):
    """a slot cell now"""
    o = {'cap': x.o_cap, 'base': x.o_iov, 'len': x.o_iov + 8}[what]
    return st.load(simp(x.b + o + (8 if what == 'cap' else 16) * i), 8)


def now(x, st, f):
    return st.get(x.b, 'obuf', f)


def slab_get(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_get):the buffer's own cache")
    if st.ghost['got']:
        raise Unsupported('two slabs are taken')

    def ok(s):
        s.ghost['got'] = 1
        s.fam(x.fx)
        s.meet(x.fx, None)
        s.assume(z3.ULE(a[1], x.XS), z3.ULE(bv(x.hdr), x.XS - a[1]), z3.ULT(bv(x.hdr), x.XS))
        s.store(x.X + x.o_size, x.XS)
        s.foot = s.foot + [('obj', x.fx, lambda i, off, n: z3.UGE(off, bv(x.hdr)))]
        return x.X
    return [('slab', ok), ('no-slab', lambda s: bv(0))]


def slab_put(x, vc, st, a):
    st.prove(a[0] == x.cache, "pre(slab_put):the buffer's own cache")
    if 'c' in st.ghost:
        i = st.ghost['c']           # the destructor: slot by slot
        st.ghost['c'] = simp(i + 1)
    else:
        st.prove(st.ghost['put'] is None, 'pre(slab_put):once')
        i = simp(z3.SignExt(32, now(x, st, 'pos')))
        st.ghost['put'] = i
        st.prove(x.len(i) == 0, 'pre(slab_put):no appended byte is in the slab')
    st.prove(z3.And(z3.ULT(i, x.N), a[1] == x.S(i)), 'pre(slab_put):a slab of the buffer')
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: j != i if f is x.fs else True), 'slab_put')
    return None


def sane(x, st, name='inv'):
    """the frame: cache and start capacity"""
    st.prove(z3.And(now(x, st, 'slabc') == x.cache, now(x, st, 'start_capacity') == x.start), 'frame:cache and start capacity')


def slots(x, st, lens, name='inv', q=None):
    """all slots at the arbitrary index k (and the one after slot N), given the lengths wanted; q: the slot with the new slab"""
    got, put = st.ghost['got'], st.ghost['put']
    grow = 1 if got and put is None else 0
    n = simp(z3.SignExt(32, now(x, st, 'n_iov')))
    st.prove(n == x.N + grow, name + ':number of slots')
    if grow:
        st.prove(z3.And(q == x.N, z3.ULT(x.N, bv(MAX))), name + ':the new slab is in the first unused slot')
    if got and put is not None:
        st.prove(q == put, name + ':the new slab replaces the one given back')
    if put is not None:
        st.prove(bool(got), name + ':a slab is given back only for another')
    for f in under(st, z3.ULE(x.k, x.N)):
        for h in under(f, x.k == q if got else False):
            h.prove(z3.And(at(x, h, 'base', x.k) == x.X + x.hdr, at(x, h, 'cap', x.k) == x.XS - x.hdr), name + ':slot of the new slab')
            h.prove(at(x, h, 'len', x.k) == lens(x.k), name + ':length of the new slot')
        for h in under(f, x.k != q if got else True):
            h.prove(at(x, h, 'base', x.k) == x.base(x.k), name + ':slabs do not move')
            h.prove(at(x, h, 'cap', x.k) == x.cap(x.k), name + ':capacities')
            h.prove(at(x, h, 'len', x.k) == lens(x.k), name + ':lengths')
    if grow:
        e = simp(x.N + 1)
        st.prove(z3.And(at(x, st, 'base', e) == 0, at(x, st, 'cap', e) == 0, at(x, st, 'len', e) == 0), name + ':end mark')


def grow_loops(x):
    def lp(var):
        def linv(st, g):
            return []

        def havoc(st, g):
            return g

        def variant(st, g):
            c = st.local('capacity')
            return z3.If(c == 0, bv(-1), ~c)
        return Loop(linv, havoc=havoc, variant=variant)
    return {('obuf_alloc_pos', 0): lp('capacity'), ('obuf_reserve_slow', 0): Loop(
        lambda st, g: [('capacity', st.local('capacity') != 0)], variant=lambda st, g: ~st.local('capacity'))}


def append(fn, alloc, cb=False):
    @proof(fn, 'P18 P19', M, fns=[fn, 'obuf_reserve_slow', 'obuf_alloc_pos'], assumes=ASSUME)
    def _(mk, mod):
        x = obuf(mk)
        st = x.st
        x.vc.loops = grow_loops(x)
        if not alloc:
            st.put(x.b, 'obuf', 'reserved', z3.BitVecVal(0, 8))
        size = z3.BitVec('size', 64)
        args = [x.b, size]
        x.o = z3.BitVec('o', 64)
        if cb and not alloc:
            p = z3.BitVec('psize', 64)
            fz = st.fam(Fam('size', 8, base=p))
            st.assume(st.load(p, 8) == size)
            st.foot += [('obj', fz, lambda i, off, n: True)]
            args = [x.b, p]

        def post(st, r):
            sane(x, st)
            got = st.ghost['got']
            q = simp(z3.SignExt(32, now(x, st, 'pos')))
            fail = z3.And(r == 0, size != 0)
            for f in under(st, z3.And(r == 0, size == 0)):
                f.prove(z3.And(x.cap(x.P) == 0, q == x.P), 'post:an empty request gets NULL only without a slot')
            st.prove(z3.Or(q == x.P, z3.And(q == x.P + 1, x.len(x.P) != 0)), 'inv:every slot before the current one is used')
            st.prove(z3.ULE(q, bv(MAX - 1)), 'inv:the current slot is in the array')
            for f in under(st, fail):
                f.prove(not got, 'failure:nothing is taken')
                f.prove(now(x, f, 'used') == x.used, 'failure:size')
                slots(x, f, x.len, 'failure', q)
            for f in under(st, z3.Not(fail)):
                inc = size if alloc else bv(0)
                f.prove(now(x, f, 'used') == x.used + inc, 'post:size')
                f.prove(z3.Implies(q != x.P, q == x.P + 1), 'post:at most one slot on')
                slots(x, f, lambda i: z3.If(i == q, x.len(i) + inc, x.len(i)), 'post', q)
                if got:
                    f.prove(r == x.X + x.hdr, 'post:the space is where the next byte goes')
                    f.prove(z3.ULE(size, x.XS - x.hdr), 'post:there is room')
                    f.prove(x.len(q) == 0, 'post:a new slab is empty')
                else:
                    for h in under(f, q == x.P):
                        h.prove(r == x.base(x.P) + x.len(x.P), 'post:the space is where the next byte goes')
                        h.prove(z3.ULE(size, x.cap(x.P) - x.len(x.P)), 'post:there is room')
                    for h in under(f, q != x.P):
                        h.prove(r == x.base(x.P + 1), 'post:the space is where the next byte goes')
                        h.prove(z3.And(z3.ULE(size, x.cap(x.P + 1)), x.len(x.P + 1) == 0), 'post:there is room')
                for h in under(f, z3.ULE(size, x.cap(x.P) - x.len(x.P))):
                    h.prove(z3.And(q == x.P, not got), 'post:room that is promised is used')
                if not alloc:
                    f.prove(z3.Or(r == 0, now(x, f, 'reserved') != 0), 'post:reserved')
            if cb and not alloc:
                st.prove(st.load(p, 8) == at(x, st, 'cap', q) - at(x, st, 'len', q), 'post:the room there is')
        x.vc.verify(fn, args, post=post)


append('obuf_reserve', False)
append('obuf_alloc', True)
append('obuf_reserve_cb', False, True)
append('obuf_alloc_cb', True, True)


@proof('obuf_dup', 'P18 P19', M, fns=['obuf_dup', 'obuf_alloc_pos'], assumes=ASSUME)
def _(mk, mod):
    x = obuf(mk)
    st, vc = x.st, x.vc
    data, size = z3.BitVec('data', 64), z3.BitVec('size', 64)
    fd = st.fam(Fam('data', size, base=data, align=1))
    st.meet(fd, None)
    U0, l0 = x.used, x.len(x.P)
    G = lambda i: x.G(simp(i))
    st.assume(G(x.P) == U0 - l0)
    # arbitrary byte
    k, o = x.k, z3.BitVec('o', 64)
    st.assume(z3.Implies(k == x.P, G(k) == G(x.P)), z3.Implies(z3.UGT(k, x.P), z3.UGE(G(k), G(x.P) + x.cap(x.P))), z3.ULT(G(k), bv(1 << 52)))
    old = lambda i, o: z3.Or(z3.ULT(i, x.P), z3.And(i == x.P, z3.ULT(o, l0)))
    st.foot += [('obj', x.fs, lambda i, off, n: z3.And(z3.UGE(off, bv(x.hdr)), z3.Not(old(i, off - x.hdr)), z3.UGE(i, x.P)))]
    oldb = {}
    for f in under(st, z3.And(z3.ULT(k, x.N), z3.ULT(o, x.cap(k)))):
        oldb['v'] = f.load(simp(x.S(k) + x.hdr + o), 1)
    src = lambda i, o: simp(G(i) + o - U0)
    x.mem0 = None

    def length(p):
        """lengths when slots up to p are full"""
        return lambda i: z3.If(z3.Or(z3.ULT(i, x.P), z3.UGT(i, p)), x.len(i), z3.If(z3.ULT(i, p), x.cap(i), z3.If(i == x.P, l0, bv(0))))

    def linv(st, g):
        p = g['p']
        if not g.get('assumed'):
            done = simp(size - st.local('to_copy'))
            st.prove(z3.And(z3.UGE(p, x.P), z3.ULE(p, bv(MAX - 1)), z3.ULE(p, x.N)), 'loop:position')
            st.prove(z3.SignExt(32, now(x, st, 'pos')) == p, 'loop:current slot')
            st.prove(st.local('iov') == x.b + x.o_iov + 16 * p, 'loop:vector')
            st.prove(st.local('capacity') == x.cap(p), 'loop:capacity')
            st.prove(not st.ghost['got'], 'loop:no slab is taken yet')
            st.prove(z3.And(z3.ULE(done, size), st.local('data') == data + done), 'loop:source')
            st.prove(z3.Implies(p != x.P, st.local('to_copy') != 0), 'loop:something is left')
            st.prove(now(x, st, 'used') == U0 + done, 'loop:size')
            st.prove(U0 + done == G(p) + z3.If(p == x.P, l0, bv(0)), 'loop:as many bytes as the slots filled hold')
            slots(x, st, length(p), 'loop', p)
            sane(x, st)
            for f in under(st, z3.And(z3.UGE(k, x.P), z3.ULT(k, p))):
                f.prove(z3.ULT(k, x.N), 'loop:full slots have slabs')
            for f in under(st, z3.And(z3.ULT(k, x.N), z3.ULT(k, p), z3.ULT(o, x.cap(k)), z3.Not(old(k, o)))):
                f.prove(z3.And(z3.ULT(src(k, o), done), f.load(simp(x.S(k) + x.hdr + o), 1) == f.load(simp(data + src(k, o)), 1)), 'loop:the bytes appended, in order')
        return []

    def havoc(st, g):
        p32 = z3.BitVec('p', 32)
        p = z3.SignExt(32, p32)
        st.assume(p32 >= x.p32, p32 < MAX, p32 <= x.n32)
        st.assume(*x.slot_facts(p), *x.slot_facts(p + 1))
        st.assume(z3.Implies(p == x.P, G(p) == G(x.P)), G(p + 1) == G(p) + x.cap(p), z3.ULT(G(p), bv(1 << 52)))
        done = z3.BitVec('done', 64)
        st.assume(z3.ULE(done, size), z3.Implies(p != x.P, done != size), U0 + done == G(p) + z3.If(p == x.P, l0, bv(0)))
        # an earlier slot: within what is copied
        st.assume(z3.Implies(z3.And(z3.UGE(k, x.P), z3.ULT(k, p)), z3.And(z3.ULT(k, x.N), z3.ULE(G(k) + x.cap(k), G(p)))))
        st.assume(z3.Implies(k == p, G(k) == G(p)))
        mem0 = st.mem

        def keep(st, f, i, off, n):
            if f is x.fs:
                return z3.Or(z3.ULT(i, x.P), z3.UGE(i, p), z3.ULT(off, bv(x.hdr)), z3.And(i == x.P, z3.ULE(off + n, l0 + x.hdr)))
            return f is not x.fb

        def cl(st, f, i, off, n):
            if f is x.fb:
                s = slot_of(x, off, n)
                if s is None:
                    if is_num(off):
                        for nm, v in (('pos', p32), ('n_iov', x.n32), ('used', simp(U0 + done)), ('slabc', x.cache), ('start_capacity', x.start)):
                            if num(off) == mod.field('obuf', nm)[0] and n == mod.field('obuf', nm)[1]:
                                return v
                    return None
                w, i = s
                v = length(p)(i) if w == 'len' else getattr(x, w)(i)
                return z3.If(z3.ULE(i, x.N), v, z3.Function('rest_' + w, B, B)(i))
            if f is x.fs and n == 1:
                return x.dbyte(simp(G(i) + off - x.hdr - U0))
            return None
        x.dbyte = lambda j: vc.load(x.st0, simp(data + j), 1)
        st.objhavoc(Havoc(keep=keep, cell=cl), 'dup')
        st.set_local('to_copy', simp(size - done))
        st.set_local('data', simp(data + done))
        st.set_local('capacity', x.cap(p))
        st.set_local('iov', simp(x.b + x.o_iov + 16 * p))
        return dict(p=p, assumed=True)

    def step(st, g):
        return dict(p=simp(g['p'] + 1))
    x.vc.loops = grow_loops(x)
    x.vc.loops[('obuf_dup', 0)] = Loop(linv, init=lambda st: dict(p=x.P), havoc=havoc, step=step, variant=lambda st, g: bv(MAX) - g['p'])
    x.st0 = st.fork()

    def post(st, r):
        sane(x, st)
        got = st.ghost['got']
        q = simp(z3.SignExt(32, now(x, st, 'pos')))
        st.prove(z3.And(z3.ULE(r, size), now(x, st, 'used') == U0 + r), 'post:the size grows by the number of bytes reported')
        if got:
            st.prove(r == size, 'post:a slab is taken only to finish')
        else:
            st.prove(z3.Or(r == size, q == x.N, q == bv(MAX - 1)), 'post:stops only without memory or slots')
        st.prove(z3.ULE(q, bv(MAX - 1)), 'inv:the current slot is in the array')
        want = lambda i: z3.If(i == q, U0 + r - G(q), length(q)(i))
        for f in under(st, z3.Implies(k == q, G(k) == G(q))):
            slots(x, f, want, 'post', q)
        for f in under(st, z3.And(z3.ULT(k, q), z3.ULE(k, x.N))):
            f.prove(at(x, f, 'len', k) != 0, 'inv:every slot before the current one is used')
        for f in under(st, z3.And(z3.ULE(k, q), z3.ULE(k, x.N), z3.Not(old(k, o)), z3.ULT(o, at(x, st, 'len', k)), z3.Implies(k == q, G(k) == G(q)))):
            f.prove(z3.ULE(at(x, f, 'len', k), at(x, f, 'cap', k)), 'inv:lengths within capacities')
            f.prove(z3.ULT(src(k, o), r), 'post:no byte is appended twice')
            f.prove(f.load(simp(at(x, f, 'base', k) + o), 1) == x.dbyte(src(k, o)), 'post:the bytes appended, in order')
    vc.verify('obuf_dup', [x.b, data, size], post=post)


# ------------------------------------------------------------ going back

def lens_loop(x, lens_at, first, iovcnt):
    """for (i = first; i < iovcnt; i++) iov[i].iov_len = 0; lens_at(i): lengths before iteration i"""
    def linv(st, g):
        i = g['i']
        if not g.get('assumed'):
            st.prove(z3.SignExt(32, st.local('i')) == i, 'loop:counter')
            st.prove(z3.And(z3.UGE(i, first), z3.Or(i == first, z3.ULE(i, iovcnt))), 'loop:range')
            slots(x, st, lens_at(i), 'loop')
            st.prove(not st.ghost['got'] and st.ghost['put'] is None, 'loop:no slab is taken or given back')
        return []

    def havoc(st, g):
        i32 = z3.BitVec('i', 32)
        i = z3.SignExt(32, i32)
        st.assume(i32 >= 0, z3.UGE(i, first), z3.Or(i == first, z3.ULE(i, iovcnt)))
        st.assume(*x.slot_facts(i))

        def keep(st, f, j, off, n):
            s = slot_of(x, off, n) if f is x.fb else None
            return not (s is not None and s[0] == 'len')

        def cl(st, f, j, off, n):
            s = slot_of(x, off, n)
            return z3.If(z3.ULE(s[1], x.N), lens_at(i)(s[1]), z3.Function('rest_len', B, B)(s[1]))
        st.objhavoc(Havoc(keep=keep, cell=cl), 'lens')
        st.set_local('i', i32)
        return dict(i=i, assumed=True)
    return Loop(linv, init=lambda st: dict(i=simp(first)), havoc=havoc, step=lambda st, g: dict(i=simp(g['i'] + 1)),
                variant=lambda st, g: bv(MAX + 1) - g['i'])


def nothing_moved(x, st):
    st.prove(not st.ghost['got'] and st.ghost['put'] is None, 'post:no slab is taken or given back')
    sane(x, st)


def svp_of(x, mod):
    p, s, l, u = (z3.BitVec('svp' + n, 64) for n in ('', '_pos', '_len', '_used'))
    st = x.st
    fv = st.fam(Fam('svp', mod.struct_size('obuf_svp'), base=p))
    st.put(p, 'obuf_svp', 'pos', s)
    st.put(p, 'obuf_svp', 'iov_len', l)
    st.put(p, 'obuf_svp', 'used', u)
    # taken earlier: those bytes are still there
    st.assume(z3.ULE(s, x.P), z3.ULE(l, x.len(s)), u == x.F(s) + l)
    st.assume(*x.slot_facts(s), *x.slot_facts(s + 1))
    st.assume(*x.F.facts(s, [x.P]))
    return p, s, l, u


@proof('obuf_rollback_to_svp', 'P19', M, assumes=ASSUME + ['the savepoint was taken earlier and not discarded by a rollback or reset since'])
def _(mk, mod):
    x = obuf(mk)
    p, s, l, u = svp_of(x, mod)
    cnt = simp(x.P + z3.If(x.len(x.P) != 0, bv(1), bv(0)))
    lens = lambda i: lambda j: z3.If(z3.ULT(j, s), x.len(j), z3.If(j == s, l, z3.If(z3.ULT(j, i), bv(0), x.len(j))))
    x.vc.loops = {('obuf_rollback_to_svp', 0): lens_loop(x, lens, simp(s + 1), cnt)}

    def post(st, r):
        nothing_moved(x, st)
        st.prove(z3.SignExt(32, now(x, st, 'pos')) == s, 'post:position of the savepoint')
        st.prove(now(x, st, 'used') == u, 'post:size of the savepoint')
        slots(x, st, lambda j: z3.If(z3.ULT(j, s), x.len(j), z3.If(j == s, l, bv(0))), 'post')
        st.prove(now(x, st, 'reserved') == 0, 'post:nothing reserved')
    x.vc.verify('obuf_rollback_to_svp', [x.b, p], post=post)


@proof('obuf_svp_to_ptr', 'P19', M)
def _(mk, mod):
    x = obuf(mk)
    p, s, l, u = svp_of(x, mod)
    x.st.foot = []
    x.vc.verify('obuf_svp_to_ptr', [x.b, p], post=lambda st, r: st.prove(r == x.base(s) + l, 'post:the byte after the savepoint'))


@proof('obuf_create_svp', 'P19', M)
def _(mk, mod):
    x = obuf(mk)
    st = x.st
    p = z3.BitVec('svp', 64)
    fv = st.fam(Fam('svp', mod.struct_size('obuf_svp'), base=p))
    st.foot = [('obj', fv, lambda i, off, n: True)]

    def post(st, r):
        g = lambda f: st.get(p, 'obuf_svp', f)
        st.prove(z3.And(g('pos') == x.P, g('iov_len') == x.len(x.P), g('used') == x.used), 'post:the end of the stream')
    x.vc.verify('vc_create_svp', [p, x.b], post=post)


@proof('obuf_svp_reset', 'P19', M)
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    p = z3.BitVec('svp', 64)
    fv = st.fam(Fam('svp', mod.struct_size('obuf_svp'), base=p))
    st.foot = [('obj', fv, lambda i, off, n: True)]

    def post(st, r):
        g = lambda f: st.get(p, 'obuf_svp', f)
        st.prove(z3.And(g('pos') == 0, g('iov_len') == 0, g('used') == 0), 'post:the start of the stream')
    vc.verify('obuf_svp_reset', [p], post=post)


@proof('obuf_reset', 'P19', M, assumes=ASSUME)
def _(mk, mod):
    x = obuf(mk)
    cnt = simp(x.P + z3.If(x.len(x.P) != 0, bv(1), bv(0)))
    lens = lambda i: lambda j: z3.If(z3.ULT(j, i), bv(0), x.len(j))
    x.vc.loops = {('obuf_reset', 0): lens_loop(x, lens, bv(0), cnt)}

    def post(st, r):
        nothing_moved(x, st)
        st.prove(z3.And(now(x, st, 'pos') == 0, now(x, st, 'used') == 0), 'post:empty')
        slots(x, st, lambda j: bv(0), 'post')
        st.prove(now(x, st, 'reserved') == 0, 'post:nothing reserved')
    x.vc.verify('obuf_reset', [x.b], post=post)


@proof('obuf_destroy', 'P19', M, assumes=ASSUME)
def _(mk, mod):
    x = obuf(mk)
    x.st.ghost['c'] = bv(0)

    def linv(st, g):
        st.ghost['exit'] = g['i']
        if not g.get('assumed'):
            st.prove(z3.SignExt(32, st.local('i')) == g['i'], 'loop:counter')
            st.prove(z3.And(z3.ULE(g['i'], x.N), st.ghost['c'] == g['i']), 'loop:slabs before it are given back, once each')
            slots(x, st, x.len, 'loop')
            sane(x, st)
        return []

    def havoc(st, g):
        i32 = z3.BitVec('i', 32)
        i = z3.SignExt(32, i32)
        st.assume(i32 >= 0, z3.ULE(i, x.N))
        st.assume(*x.slot_facts(i))
        st.objhavoc(Havoc(keep=lambda st, f, j, off, n: z3.UGE(j, i) if f is x.fs else True), 'destroy')
        st.set_local('i', i32)
        st.ghost['c'] = i
        return dict(i=i, assumed=True)
    x.vc.loops = {('obuf_destroy', 0): Loop(linv, init=lambda st: dict(i=bv(0)), havoc=havoc, step=lambda st, g: dict(i=simp(g['i'] + 1)),
                                            variant=lambda st, g: x.N - g['i'])}

    def post(st, r):
        st.prove(st.ghost['c'] == x.N, 'post:every slab is given back, once')
        st.prove(now(x, st, 'slabc') == 0, 'post:not initialized any more')
    x.vc.verify('obuf_destroy', [x.b], post=post)


@proof('obuf_create', 'P18 P19', M, assumes=ASSUME)
def _(mk, mod):
    x = obuf(mk)
    st = x.st
    c, s = z3.BitVec('cache2', 64), z3.BitVec('start2', 64)

    def post(st, r):
        st.prove(z3.And(now(x, st, 'pos') == 0, now(x, st, 'n_iov') == 0, now(x, st, 'used') == 0), 'post:empty')
        st.prove(z3.And(*[at(x, st, w, bv(0)) == 0 for w in ('base', 'cap', 'len')]), 'post:end mark')
        st.prove(z3.And(now(x, st, 'slabc') == c, now(x, st, 'start_capacity') == s), 'post:cache and start capacity')
        st.prove(now(x, st, 'reserved') == 0, 'post:nothing reserved')
    x.vc.verify('obuf_create', [x.b, c, s], post=post)


for fn, want in (('obuf_size', lambda x: x.used), ('obuf_iovcnt', lambda x: simp(z3.Extract(31, 0, x.P + z3.If(x.len(x.P) != 0, bv(1), bv(0)))))):
    def figs(fn, want):
        @proof(fn, 'P18', M, assumes=ASSUME)
        def _(mk, mod):
            x = obuf(mk)
            x.st.foot = []
            x.vc.verify(fn, [x.b], post=lambda st, r: st.prove(r == want(x), 'post:the figure'))
    figs(fn, want)
