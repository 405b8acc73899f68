"""The AddressSanitizer build (P27): obuf.

Blocks 0 .. NB-1 (NB <= 128), one per iovec slot: block i is a payload PL(i) of CP(i) bytes of which the first LN(i) are used; the
slots from NB on are zero.  pos = NB - 1, or 0 if there is no block.  F(i) = sum of LN before i; used = F(NB)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from smallvc.seq import Sum
from specs.common import under
from specs.s_obuf import pick

CFG = ('asan',)
M = 'obuf_asan'
MAX = 128
ASSUME = ['small_asan_alloc / small_asan_free / header and payload recovery by contract (proofs small_asan_*)',
          'running out of memory ends the program (small_xmalloc)', 'start_capacity is not 0 and at most 16384, sizes are below 2^45',
          'fewer than 128 blocks are in use when another one is needed (documented limit, asserted by the code)']


class O:
    pass


def obuf(mk, reserved=None, full=False, **kw):
    x = O()

    def w(f):
        return lambda vc, st, a: f(x, vc, st, a)
    cs = dict(small_asan_alloc=w(c_alloc), small_asan_free=w(c_free), small_asan_payload_from_header=w(c_payload), small_asan_header_from_payload=w(c_header),
              __asan_poison_memory_region=w(lambda x, vc, st, a: c_poison(st, 'poison', a)), __asan_unpoison_memory_region=w(lambda x, vc, st, a: c_poison(st, 'unpoison', a)))

    def failed(vc, st, tgt, args, where):
        st.prove(False, 'small_asan_assert@' + where)
        return None
    vc = x.vc = mk(contracts=cs, indirect=failed, **kw)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    F = lambda f: mod.field('obuf', f)[0]
    x.o_cap, x.o_iov, x.size = F('capacity'), F('iov'), mod.struct_size('obuf')
    x.b, x.k, x.off = (z3.BitVec(n, 64) for n in ('obuf', 'k', 'k_off'))
    x.nb = z3.BitVec('blocks', 64)
    fn = {n: z3.Function(n, B, B) for n in ('PL', 'CP', 'LN', 'HD')}
    x.PL, x.HD = fn['PL'], fn['HD']
    lt = lambda i: z3.ULT(i, x.nb)
    x.CP, x.LN = (lambda i: fn['CP'](simp(i))), (lambda i: fn['LN'](simp(i)))
    z = lambda f: lambda i: simp(z3.If(lt(i), f(simp(i)), bv(0)))
    x.cap, x.base, x.len = z(x.CP), z(x.PL), z(x.LN)
    x.F = Sum('F', x.len, x.nb)
    x.pos = simp(z3.If(x.nb == 0, bv(0), x.nb - 1))
    x.p32 = simp(z3.Extract(31, 0, x.pos))
    x.used = x.F(x.nb)

    def facts(st, i):
        i = simp(i)
        return [z3.Implies(lt(i), z3.And(z3.ULE(x.LN(i), x.CP(i)), z3.ULE(x.CP(i), bv(1 << 46)), x.PL(i) != 0))]
    x.facts = facts
    x.fp = st.fam(Fam('payload', lambda i: x.CP(i), fn=x.PL, guard=lt, align=1, facts=facts))
    x.fb = st.fam(Fam('obuf', x.size, base=x.b, cell=lambda st, i, off, n: cell(x, off, n)))
    st.assume(z3.ULE(x.nb, bv(MAX - 1 if not full else MAX)), z3.ULE(x.used, bv(1 << 54)), z3.ULE(x.k, bv(MAX)))
    for i in (x.pos, x.k):
        st.assume(*facts(st, i))
        st.meet(x.fp, simp(i))
    x.cache, x.start = st.get(x.b, 'obuf', 'slabc'), st.get(x.b, 'obuf', 'start_capacity')
    st.assume(x.start != 0, z3.ULE(x.start, bv(16384)))
    st.put(x.b, 'obuf', 'pos', x.p32)
    st.put(x.b, 'obuf', 'used', x.used)
    x.res = st.get(x.b, 'obuf', 'reserved')
    if reserved is not None:
        st.put(x.b, 'obuf', 'reserved', z3.BitVecVal(1 if reserved else 0, x.res.size()) if z3.is_bv(x.res) else z3.BoolVal(reserved))
    if reserved:
        st.assume(x.nb != 0)
    x.Y, x.YS = z3.BitVec('Y', 64), z3.BitVec('YS', 64)
    x.fy = Fam('new payload', x.YS, base=x.Y, align=1)
    st.ghost.update(got=None, poison=[], mem0=st.mem, c=None)
    st.foot = [('obj', x.fb, lambda i, off, n: True)]
    return x


def slot_of(x, off, n):
    if n != 8:
        return None
    r = pick(off)
    if r is None:
        return None
    c, m, i = r
    incap = x.o_cap <= c < x.o_cap + 8 * MAX and (c - x.o_cap) % 8 == 0
    d = c - x.o_iov
    iniov = 0 <= d < 16 * (MAX + 1) and d % 8 == 0
    if m is None:
        if incap:
            return 'cap', bv((c - x.o_cap) // 8)
        return (('base', 'len')[d % 16 // 8], bv(d // 16)) if iniov else None
    if m == 8 and incap:
        return 'cap', simp(i + (c - x.o_cap) // 8)
    if m == 16 and iniov:
        return ('base', 'len')[d % 16 // 8], simp(i + d // 16)
    return None


def cell(x, off, n):
    s = slot_of(x, off, n)
    if s is None:
        return None
    v = getattr(x, s[0])(s[1])
    return z3.If(z3.ULE(s[1], bv(MAX)), v, z3.Function('rest_' + s[0], B, B)(s[1]))


def at(x, st, what, i):
    o = {'cap': x.o_cap, 'base': x.o_iov, 'len': x.o_iov + 8}[what]
    return st.load(simp(x.b + o + (8 if what == 'cap' else 16) * i), 8)


def now(x, st, f):
    return st.get(x.b, 'obuf', f)


def c_alloc(x, vc, st, a):
    size, al, hs = a
    st.prove(z3.BoolVal(st.ghost['got'] is None), 'pre(small_asan_alloc):one block is taken')
    st.prove(al == 1, 'pre(small_asan_alloc):no alignment')
    st.prove(z3.ULE(size, bv(1 << 46)), 'pre(small_asan_alloc):size')
    st.assume(x.YS == size, x.Y & 1 != 0)
    st.ghost['got'] = True
    st.fam(x.fy)
    st.meet(x.fy, None)
    st.foot = st.foot + [('obj', x.fy, lambda i, off, n: True)]
    return z3.BitVec('new_header', 64)


def c_payload(x, vc, st, a):
    st.prove(z3.And(z3.BoolVal(st.ghost['got'] is not None), a[0] == z3.BitVec('new_header', 64)), 'pre(payload_from_header):a header')
    return x.Y


def c_header(x, vc, st, a):
    c = st.ghost['c']
    if c is None:
        raise Unsupported('nothing is to be freed here')
    st.prove(z3.And(z3.ULT(c, x.nb), a[0] == x.PL(simp(c))), 'pre(header_from_payload):the payload of the next block')
    return x.HD(simp(c))


def c_free(x, vc, st, a):
    c = st.ghost['c']
    if c is None:
        raise Unsupported('nothing is to be freed here')
    st.prove(a[0] == x.HD(simp(c)), 'pre(small_asan_free):the next block, once')
    st.ghost['c'] = simp(c + 1)
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: (j != c) if f is x.fp else True), 'freed block')
    return None


def c_poison(st, kind, a):
    st.ghost['poison'] = st.ghost['poison'] + [(kind, a[0], a[1])]
    return None


def slots(x, st, n=None, len_at=None, new=False, name='inv', frm=None):
    """slots below n as before (but LN of slot len_at[0]), slot n of the new block if `new', zero above"""
    k = x.k
    n = x.nb if n is None else n
    want = {w: simp(z3.If(z3.ULT(k, n), getattr(x, w)(k), bv(0))) for w in ('cap', 'base', 'len')}
    if len_at is not None:
        want['len'] = z3.If(k == len_at[0], len_at[1], want['len'])
    if new is not False:
        want['base'] = z3.If(k == n, x.Y, want['base'])
        want['len'] = z3.If(k == n, new, want['len'])
        want['cap'] = z3.If(k == n, x.YS, want['cap'])
    for w in ('base', 'len'):
        st.prove(at(x, st, w, k) == want[w], name + ':slots: ' + w)
    for f in under(st, z3.ULT(k, bv(MAX))):
        f.prove(at(x, f, 'cap', k) == want['cap'], name + ':slots: capacity')
    for f in under(st, z3.And(z3.ULT(k, n), z3.ULT(k, x.nb), z3.ULT(x.off, x.LN(k) if len_at is None else z3.If(k == len_at[0], z3.If(z3.ULT(len_at[1], x.LN(k)), len_at[1], x.LN(k)), x.LN(k))))):
        a = simp(x.PL(k) + x.off)
        f.prove(f.load(a, 1) == f.vc.load(f, a, 1, f.ghost['mem0']), name + ':used bytes are kept')


def figs(x, st, pos, used, res, name='post'):
    st.prove(now(x, st, 'pos') == simp(z3.Extract(31, 0, bv(0) + pos)), name + ':pos')
    st.prove(now(x, st, 'used') == used, name + ':used figure')
    st.prove(flag(now(x, st, 'reserved')) == res, name + ':reserved')
    st.prove(z3.And(now(x, st, 'start_capacity') == x.start, now(x, st, 'slabc') == x.cache), name + ':the rest is kept')


def flag(v):
    return v if z3.is_bool(v) else v != 0


def last_poison(st, kind, addr, size, name='post'):
    p = st.ghost['poison']
    st.prove(z3.BoolVal(bool(p) and p[-1][0] == kind), name + ':last is a call of ' + kind)
    if p:
        st.prove(z3.And(p[-1][1] == addr, p[-1][2] == size), '%s:%s what is unallocated' % (name, kind))


def grow_loop(x, size):
    """capacity doubles up to the size"""
    def inv(st, g):
        c = st.local('capacity')
        return [('capacity', z3.And(c != 0, z3.Or(z3.ULE(c, bv(1 << 45)), z3.ULE(c, 2 * size)), z3.ULE(c, bv(1 << 46))))]
    return Loop(inv, init=lambda st: {}, havoc=lambda st, g: {}, variant=lambda st, g: z3.If(z3.ULT(st.local('capacity'), size), size - st.local('capacity'), bv(0)))


FN = ['obuf_prepare_buf', 'obuf_unallocated_ptr', 'obuf_unallocated_size']


def appended(x, st, r, size, alloc, name='post'):
    """size bytes at r follow the used bytes (alloc) or are reserved"""
    inc = size if alloc else bv(0)
    got = st.ghost['got'] is not None
    np = x.nb if got else simp(x.nb - 1)
    figs(x, st, np, simp(x.used + inc), not alloc, name)
    if got:
        st.prove(r == x.Y, name + ':the payload of a new block')
        st.prove(z3.UGE(x.YS, size), name + ':room for the size')
        slots(x, st, new=inc, name=name)
        last_poison(st, 'poison' if alloc else 'unpoison', r + inc, x.YS - inc, name)
    else:
        st.prove(x.nb != 0, name + ':not without a block')
        L = simp(x.nb - 1)
        st.prove(z3.And(r == x.PL(L) + x.LN(L), z3.ULE(size, x.CP(L) - x.LN(L))), name + ':free space of the last block')
        slots(x, st, len_at=(L, x.LN(L) + inc), name=name)
        last_poison(st, 'poison' if alloc else 'unpoison', r + inc, x.CP(L) - x.LN(L) - inc, name)


for fn in ('obuf_reserve', 'obuf_reserve_cb'):
    def reg(fn):
        @proof(fn, 'P27', M, cfgs=CFG, fns=[fn] + FN, assumes=ASSUME)
        def _(mk, mod):
            x = obuf(mk, False)
            st = x.st
            size = z3.BitVec('size', 64)
            st.assume(z3.ULE(size, bv(1 << 45)))
            args = [x.b, size]
            if fn == 'obuf_reserve_cb':
                p = z3.BitVec('psize', 64)
                fq = st.fam(Fam('size', 8, base=p))
                st.assume(st.load(p, 8) == size)
                st.foot = st.foot + [('obj', fq, lambda i, off, n: True)]
                st.ghost['mem0'] = st.mem
                args = [x.b, p]
            x.vc.loops = {('obuf_prepare_buf', 0): grow_loop(x, size)}

            def post(st, r):
                appended(x, st, r, size, False)
                if fn == 'obuf_reserve_cb':
                    st.prove(st.load(p, 8) == (x.YS if st.ghost['got'] else x.CP(x.nb - 1) - x.LN(x.nb - 1)), 'post:all that is reserved')
            x.vc.verify(fn, args, post=post)
    reg(fn)

for fn in ('obuf_alloc', 'obuf_alloc_cb', 'obuf_dup'):
    for res in (False, True):
        def reg2(fn, res):
            @proof(fn + ('/reserved' if res else ''), 'P27', M, cfgs=CFG, fns=[fn] + FN, assumes=ASSUME)
            def _(mk, mod):
                x = obuf(mk, res, full=res)
                st = x.st
                size = z3.BitVec('size', 64)
                st.assume(z3.ULE(size, bv(1 << 45)))
                if res:
                    st.assume(z3.ULE(size, x.CP(x.nb - 1) - x.LN(x.nb - 1)))
                args = [x.b, size]
                if fn == 'obuf_dup':
                    d, t = z3.BitVec('data', 64), z3.BitVec('t', 64)
                    st.meet(st.fam(Fam('data', size, base=d, align=1)), None)
                    st.assume(z3.ULT(t, size))
                    byte0 = st.load(d + t, 1)
                    args = [x.b, d, size]
                st.foot = st.foot + [('obj', x.fp, lambda i, off, n: z3.And(i == x.nb - 1, z3.UGE(off, x.LN(i))))]
                x.vc.loops = {('obuf_prepare_buf', 0): grow_loop(x, size)}

                def post(st, r):
                    if res:
                        st.prove(z3.BoolVal(st.ghost['got'] is None), 'post:no block is taken')
                    if fn == 'obuf_dup':
                        st.prove(r == size, 'post:the size')
                        r = simp(x.Y if st.ghost['got'] else x.PL(x.nb - 1) + x.LN(x.nb - 1))
                        st.prove(st.load(r + t, 1) == byte0, 'post:the data is copied')
                    appended(x, st, r, size, True)
                x.vc.verify(fn, args, post=post)
        reg2(fn, res)


@proof('obuf_create', 'P27', M, cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = obuf(mk)
    cache, start = z3.BitVec('cache', 64), z3.BitVec('start', 64)
    x.start, x.cache = start, cache

    def post(st, r):
        slots(x, st, n=bv(0), name='post')
        figs(x, st, bv(0), bv(0), False)
    x.vc.verify('obuf_create', [x.b, cache, start], post=post)


for fn, want in (('obuf_size', lambda x: x.used), ('obuf_iovcnt', lambda x: z3.Extract(31, 0, x.nb))):
    def reg3(fn, want):
        @proof(fn, 'P27', M, cfgs=CFG, assumes=ASSUME)
        def _(mk, mod):
            x = obuf(mk, full=True)
            x.st.foot = []
            x.vc.verify(fn, [x.b], post=lambda st, r: st.prove(r == want(x), 'post:the figure'))
    reg3(fn, want)


def svp_state(x, st, all_):
    """a savepoint taken earlier: at position s, len bytes used in slot s"""
    mod = x.mod
    p = z3.BitVec('svp', 64)
    st.fam(Fam('svp', mod.struct_size('obuf_svp'), base=p))
    x.s, x.sl, x.su = z3.BitVec('svp_pos', 64), z3.BitVec('svp_len', 64), z3.BitVec('svp_used', 64)
    w = mod.field('obuf_svp', 'pos')[1]
    st.put(p, 'obuf_svp', 'pos', z3.Extract(8 * w - 1, 0, x.s))
    st.put(p, 'obuf_svp', 'iov_len', x.sl)
    st.put(p, 'obuf_svp', 'used', x.su)
    if all_:
        st.assume(x.s == 0, x.sl == 0, x.su == 0)
    else:
        st.assume(z3.ULT(x.s, x.nb), z3.Not(z3.And(x.s == 0, x.sl == 0)), z3.ULE(x.sl, x.LN(x.s)), x.su == x.F(x.s) + x.sl)
    st.assume(*x.facts(st, x.s))
    st.ghost['mem0'] = st.mem
    return p


def rollback_loop(x, first):
    def inv(st, g):
        c = g['c']
        if not g.get('assumed'):
            i = st.local('i')
            st.prove(z3.And(st.ghost['c'] == c, z3.SignExt(32, i) == c if i.size() == 32 else i == c), 'loop:position')
            st.prove(z3.And(z3.ULE(first, c), z3.Or(z3.ULE(c, x.nb), c == first)), 'loop:progress')
        return []

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(first, c), z3.Or(z3.ULE(c, x.nb), c == first), z3.ULE(c, bv(MAX)))
        st.meet(x.fp, c)
        st.assume(*x.facts(st, c))
        st.objhavoc(Havoc(keep=lambda st, f, j, off, n: z3.Or(z3.ULT(j, first), z3.UGE(j, c)) if f is x.fp else True), 'rollback')
        st.set_local('i', z3.Extract(31, 0, c))
        st.ghost['c'] = c
        return dict(c=c, assumed=True)
    return Loop(inv, init=lambda st: dict(c=first), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)), variant=lambda st, g: bv(MAX) - g['c'])


for fn in ('obuf_rollback_to_svp', 'obuf_rollback_to_svp/everything', 'obuf_reset', 'obuf_destroy'):
    def reg4(fn):
        f0 = fn.split('/')[0]
        for empty in ((False,) if fn == 'obuf_rollback_to_svp' else (False, True)):
            @proof(fn + ('/empty' if empty else ''), 'P27', M, cfgs=CFG, fns=['obuf_rollback_to_svp', f0], assumes=ASSUME + ['the savepoint was taken earlier and not discarded by a rollback or reset since'])
            def _(mk, mod, empty=empty):
                x = obuf(mk, full=True)
                st = x.st
                part = fn == 'obuf_rollback_to_svp'
                st.assume(x.nb == 0 if empty else x.nb != 0)
                args = [x.b]
                if f0 == 'obuf_rollback_to_svp':
                    args.append(svp_state(x, st, not part))
                else:
                    x.s, x.sl, x.su = bv(0), bv(0), bv(0)
                first = simp(x.s + 1) if part or empty else bv(0)
                st.ghost['c'] = first
                x.vc.loops = {('obuf_rollback_to_svp', 0): rollback_loop(x, first)}

                def post(st, r):
                    c = st.ghost['c']
                    st.prove(c == (first if empty else x.nb), 'post:every later block is freed')
                    st.assume(z3.Implies(x.k == x.s, z3.And(x.LN(x.k) == x.LN(x.s))))
                    if f0 == 'obuf_destroy':
                        for o in range(0, x.size - 7, 8):
                            pass
                        x.start, x.cache = bv(0), bv(0)
                    if part:
                        slots(x, st, n=first, len_at=(x.s, x.sl), name='post')
                    else:
                        slots(x, st, n=bv(0), name='post')
                    figs(x, st, x.s, x.su, False)
                x.vc.verify(f0, args, post=post)
    reg4(fn)
