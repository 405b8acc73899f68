"""Contracts of the AddressSanitizer build (P27): the layout of one allocation.

small_asan_alloc(size, al, hs) takes one block from malloc and returns a header in it: header 8-aligned, payload
P = header + off with off kept as u16 in front of the header and in front of the last 8-aligned address mb <= P; the bytes
mb .. P hold the magic; all of the block but [mb, P + size) is poisoned."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, simp
from smallvc.heap import Fam, B
from specs.common import small_align, under

A = 'asan'
CFG = ('asan',)
ASSUME = ['malloc returns 8-aligned memory; running out of memory ends the program (small_xmalloc)', 'payload sizes are below 2^45',
          'the compiler\'s shadow memory: __asan_poison_memory_region / __asan_unpoison_memory_region by contract (the range is recorded)']
MAGIC = [(0xdeadbeefcafefeed >> (8 * j)) & 0xff for j in range(8)]


class X:
    pass


def failed(vc, st, tgt, args, where):
    """small_asan_assert does not hold"""
    if st.ghost.get('mayfail'):
        st.ghost['failed'] = True
        return None
    st.prove(False, 'small_asan_assert@' + where)
    return None


def poison(vc, st, a):
    st.ghost['poison'] = st.ghost['poison'] + [(a[0], a[1])]
    return None


def memcmp(vc, st, a):
    n = a[2]
    st.prove(z3.ULT(n, bv(8)), 'pre(memcmp):short')
    r = vc.fresh('memcmp', 32)
    eq = [z3.Implies(z3.UGT(n, bv(j)), st.load(a[0] + j, 1) == st.load(a[1] + j, 1)) for j in range(7)]
    st.assume((r == 0) == z3.And(*eq))
    return r


def world(mk, contracts=None, **kw):
    x = X()
    x.X, x.XS = z3.BitVec('block', 64), z3.BitVec('block_size', 64)
    cs = dict(contracts or {})

    def malloc(vc, st, a):
        st.prove(z3.BoolVal(st.ghost['got'] is None), 'pre(malloc):one block is taken')
        st.ghost['got'] = True
        st.assume(x.XS == a[0])
        st.fam(x.fx)
        st.meet(x.fx, None)
        st.foot = st.foot + [('range', x.X, x.XS)]
        return x.X

    def free(vc, st, a):
        st.prove(a[0] == x.X, 'pre(free):the block')
        st.prove(z3.BoolVal(not st.ghost.get('freed')), 'pre(free):freed once')
        st.ghost['freed'] = True
        return None
    for n, f in dict(malloc=malloc, free=free, memcmp=memcmp, __asan_poison_memory_region=poison).items():
        cs.setdefault(n, f)
    x.fx = Fam('block', x.XS, base=x.X, minsize=8)
    x.vc = mk(contracts=cs, indirect=failed, **kw)
    x.st = x.vc.new_state()
    x.st.foot = []
    x.st.ghost.update(got=None, poison=[])
    return x


def layout(x, st, r, P, size, al, hs, name='post'):
    """prove the layout of the block X with header r"""
    off = z3.ZeroExt(48, st.load(x.X, 2))
    P = simp(r + off)
    mb = P & bv(~7)
    pr = lambda c, t: st.prove(c, '%s:%s' % (name, t))
    pr(r == x.X + 8, 'the header follows its offset word')
    pr(P & (al - 1) == 0, 'the payload is aligned')
    pr(P & (2 * al - 1) != 0, 'the payload is not aligned to twice as much')
    pr(z3.And(z3.UGE(mb, r), z3.UGE(mb - r, hs + 2)), 'the header and the offset word are apart')
    pr(z3.And(z3.ULE(P - x.X, x.XS), z3.ULE(size, x.XS - (P - x.X))), 'the payload is inside the block')
    return P, mb


for e in range(13):
    def reg(e):
        al = 1 << e

        @proof('small_asan_alloc/%d' % al, 'P27', 'util_asan', cfgs=CFG, fns=['small_asan_alloc', 'small_align_down'], assumes=ASSUME)
        def _(mk, mod):
            x = world(mk)
            st = x.st
            size, hs = z3.BitVec('payload_size', 64), z3.BitVec('header_size', 64)
            st.assume(z3.ULE(size, bv(1 << 45)), z3.ULE(hs, bv(1024)))

            def post(st, r):
                P, mb = layout(x, st, r, None, size, al, hs)
                st.prove(st.load(mb - 2, 2) == st.load(x.X, 2), 'post:the header is found from the payload')
                st.prove(P - z3.ZeroExt(48, st.load(x.X, 2)) == r, 'post:offset')
                for j in range(7):
                    for f in under(st, z3.ULT(mb + j, P)):
                        f.prove(f.load(mb + j, 1) == MAGIC[j], 'post:magic up to the payload')
                st.prove(z3.BoolVal(len(st.ghost['poison']) == 2), 'post:two ranges are poisoned')
                (a, n), (b, m) = st.ghost['poison']
                hi = lambda a, n: z3.And(a == P + size, a + n == x.X + x.XS)
                lo = lambda a, n: z3.And(a == x.X, a + n == mb)
                st.prove(z3.Or(z3.And(hi(a, n), lo(b, m)), z3.And(hi(b, m), lo(a, n))), 'post:all but the payload and its magic is poisoned')
            x.vc.verify('small_asan_alloc', [size, bv(al), hs], post=post)
    reg(e)


def laid(x, st, al=None):
    """a block as small_asan_alloc leaves it"""
    st.fam(x.fx)
    st.meet(x.fx, None)
    off = z3.BitVec('off', 64)
    x.h = x.X + 8
    x.P = x.X + 8 + off
    x.mb = simp(x.P & bv(~7))
    st.assume(z3.UGE(off, bv(2)), z3.ULE(off, bv(0xffff)), z3.ULE(8 + off, x.XS), x.XS & 7 == 0, z3.UGE(x.mb - x.X, bv(10)))
    st.assume(st.load(x.X, 2) == z3.Extract(15, 0, off))
    st.assume(st.load(x.mb - 2, 2) == z3.Extract(15, 0, off))
    return off


for fn, arg, res in (('small_asan_payload_from_header', lambda x: x.h, lambda x: x.P), ('small_asan_header_from_payload', lambda x: x.P, lambda x: x.h)):
    def reg2(fn, arg, res):
        @proof(fn, 'P27', 'util_asan', cfgs=CFG, assumes=ASSUME)
        def _(mk, mod):
            x = world(mk)
            laid(x, x.st)
            x.vc.verify(fn, [arg(x)], post=lambda st, r: st.prove(r == res(x), 'post:recovered exactly'))
    reg2(fn, arg, res)


for good in (True, False):
    def reg3(good):
        @proof('small_asan_free/' + ('magic intact' if good else 'magic overwritten'), 'P27', 'util_asan', cfgs=CFG, fns=['small_asan_free'], assumes=ASSUME)
        def _(mk, mod):
            x = world(mk)
            st = x.st
            laid(x, st)
            ok = z3.And(*[z3.Implies(z3.ULT(x.mb + j, x.P), st.load(x.mb + j, 1) == MAGIC[j]) for j in range(7)])
            st.assume(ok if good else z3.Not(ok))
            if not good:
                st.ghost['mayfail'] = True

            def post(st, r):
                st.prove(z3.BoolVal(bool(st.ghost.get('freed'))), 'post:the block is freed')
                if not good:
                    st.prove(z3.BoolVal(bool(st.ghost.get('failed'))), 'post:the damage is reported')
            x.vc.verify('small_asan_free', [x.h], post=post)
    reg3(good)
