"""Contracts of the static buffer (P26)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv

SZ = 4096 * 3


def setup(mk, mod):
    global SZ
    SZ = mod.enum('SMALL_STATIC_SIZE')
    vc = mk()
    st = vc.new_state()
    buf, pos = vc.glob_addr(st, 'static_storage_buffer'), vc.glob_addr(st, 'static_storage_pos')
    st.assume(z3.UGE(buf, bv(4096)), z3.ULT(buf, bv(1 << 47)), z3.UGE(pos, bv(4096)), z3.ULT(pos, bv(1 << 47)),
              z3.Or(z3.UGE(pos, buf + SZ), z3.ULE(pos + 8, buf)))
    p = st.load(pos, 8)
    st.assume(z3.ULE(p, bv(SZ)))
    st.foot = [('range', pos, 8)]
    return vc, st, buf, pos, p


def common(st, buf, pos, p, size, r, reserve):
    p2 = st.load(pos, 8)
    st.prove(z3.ULE(p2, bv(SZ)), 'inv:position inside the buffer')
    st.prove(z3.Implies(z3.UGT(size, bv(SZ)), r == 0), 'post:NULL for more than the buffer')
    st.prove(z3.Implies(r == 0, p2 == p), 'post:failure changes nothing')
    st.prove(z3.Implies(r != 0, z3.And(z3.UGE(r, buf), z3.ULE(r - buf, bv(SZ)), z3.ULE(size, SZ - (r - buf)))), 'post:block inside the buffer')
    return p2


@proof('static_reserve', 'P26', 'static')
def _(mk, mod):
    vc, st, buf, pos, p = setup(mk, mod)
    size = z3.BitVec('size', 64)

    def post(st, r):
        p2 = common(st, buf, pos, p, size, r, True)
        st.prove(z3.Implies(z3.ULE(size, bv(SZ)), r != 0), 'post:succeeds when the buffer is large enough')
        st.prove(z3.Implies(r != 0, r == buf + p2), 'post:block at the position')
        st.prove(z3.Implies(z3.ULE(size, SZ - p), p2 == p), 'post:wraps only when needed')
        st.prove(z3.Or(p2 == p, p2 == 0), 'post:wraps to the start')
    vc.verify('static_reserve', [size], post=post)


@proof('static_alloc', 'P26', 'static')
def _(mk, mod):
    vc, st, buf, pos, p = setup(mk, mod)
    size = z3.BitVec('size', 64)

    def post(st, r):
        p2 = common(st, buf, pos, p, size, r, False)
        st.prove(z3.Implies(z3.ULE(size, bv(SZ)), r != 0), 'post:succeeds when the buffer is large enough')
        st.prove(z3.Implies(r != 0, p2 == (r - buf) + size), 'post:position right after the block')
        st.prove(z3.Implies(r != 0, z3.If(z3.ULE(size, SZ - p), r == buf + p, r == buf)), 'post:next free bytes, or the start after a wrap')
    vc.verify('static_alloc', [size], post=post)


def aligned(fn):
    @proof(fn, 'P26', 'static', assumes=['alignment at most 4096'])
    def _(mk, mod):
        vc, st, buf, pos, p = setup(mk, mod)
        size, al = z3.BitVec('size', 64), z3.BitVec('alignment', 64)
        st.assume(al != 0, al & (al - 1) == 0, z3.ULE(al, bv(4096)))

        def post(st, r):
            p2 = common(st, buf, pos, p, size, r, False)
            st.prove(r & (al - 1) == 0, 'post:aligned')
            if fn == 'static_aligned_alloc':
                st.prove(z3.Implies(r != 0, p2 == (r - buf) + size), 'post:position right after the block')
                st.prove(z3.Implies(z3.And(r != 0, z3.UGE(r, buf + p)), z3.ULT(r - (buf + p), al)), 'post:least padding')
                st.prove(z3.Implies(r != 0, z3.Or(z3.UGE(r, buf + p), z3.ULT(r - buf, al))), 'post:at the position or at the start')
            else:
                st.prove(z3.Implies(r != 0, z3.And(z3.UGE(r, buf + p2), z3.ULT(r - (buf + p2), al))), 'post:least padding')
                st.prove(z3.Or(p2 == p, p2 == 0), 'post:wraps to the start')
        vc.verify(fn, [size, al], post=post)


aligned('static_aligned_reserve')
aligned('static_aligned_alloc')


@proof('static_reset', 'P26', 'static')
def _(mk, mod):
    vc, st, buf, pos, p = setup(mk, mod)
    vc.verify('static_reset', [], post=lambda st, r: st.prove(st.load(pos, 8) == 0, 'post:position at the start'))


@proof('static_storage_buffer', 'P26', 'static', fns=['static_storage_buffer'])
def _(mk, mod):
    # the buffer object really has SMALL_STATIC_SIZE bytes and is thread local
    vc = mk()
    st = vc.new_state()
    ty, init, const, tls, al = mod.globals['static_storage_buffer']
    st.prove(z3.BoolVal(mod.sizeof(ty) == mod.enum('SMALL_STATIC_SIZE')), 'size of the buffer object')
    st.prove(z3.BoolVal(bool(tls)), 'buffer is thread local')
    st.prove(z3.BoolVal(bool(mod.globals['static_storage_pos'][3])), 'position is thread local')
