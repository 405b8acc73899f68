"""Contracts of the size classes (P10).

Invariant of a small_class (established by small_class_create): granularity G = 2^k, effective_bits = e,
effective_size = 2^e, effective_mask = 2^e - 1, size_shift = min_alloc - G, size_shift_plus_1 = size_shift + 1.
The proofs are over every k, e, min_alloc and size for which class sizes fit in 32 bits."""
import z3
from smallvc.run import proof
from smallvc.engine import bv

FIELDS = ('granularity', 'ignore_bits_count', 'effective_bits', 'effective_size', 'effective_mask', 'size_shift', 'size_shift_plus_1')


def setup(mk, k, e):
    vc = mk()
    st = vc.new_state()
    sc = vc.ptr(st, 'sc', 32)
    f = {n: st.get(sc, 'small_class', n) for n in FIELDS}
    st.assume(f['granularity'] == 1 << k, f['ignore_bits_count'] == k, f['effective_bits'] == e,
              f['effective_size'] == 1 << e, f['effective_mask'] == (1 << e) - 1,
              f['size_shift_plus_1'] == f['size_shift'] + 1)
    st.foot = []
    return vc, st, sc, f


# The specification: with s = max(size - min_alloc + G, G) the class is the index of the least class size >= s,
# class sizes being piecewise linear with 2^e steps per doubling.
def spec_size(cls, k, e):
    """64-bit size (before the shift by min_alloc - G) of class cls."""
    c = z3.ZeroExt(32, cls) + 1
    lg = z3.LShR(c, e)
    lin = c & ((1 << e) - 1)
    return z3.If(lg == 0, lin, (lin | (1 << e)) << (lg - 1)) << k


def cls_bound(k, e):
    n = 31 - k - e
    return bv((n << e) if n > 0 else 1, 32)


def size_of_class(mk, k, e):
    vc, st, sc, f = setup(mk, k, e)
    cls = z3.BitVec('cls', 32)
    sh = f['size_shift']
    st.assume(z3.ULT(cls, cls_bound(k, e)))

    def post(st, r):
        want = spec_size(cls, k, e)
        st.prove(z3.ULT(want, bv(1 << 32)), 'k%d:e%d:post:class size representable' % (k, e))
        st.prove(r == sh + z3.Extract(31, 0, want), 'k%d:e%d:post:class size' % (k, e))
        nxt = spec_size(cls + 1, k, e)
        st.prove(z3.UGT(nxt, want), 'k%d:e%d:lemma:class sizes strictly increase' % (k, e))
        st.prove((nxt - want) & ((1 << k) - 1) == 0, 'k%d:e%d:lemma:steps are multiples of the granularity' % (k, e))
        st.prove(z3.Implies(z3.UGE(cls, bv((1 << e) - 1, 32)), z3.ULE((nxt - want) << e, want)), 'k%d:e%d:lemma:bounded growth factor' % (k, e))
        st.prove(z3.Implies(cls == 0, want == 1 << k), 'k%d:e%d:lemma:class 0 is the minimal size' % (k, e))
    vc.verify('small_class_calc_size_by_offset', [sc, cls], post=post)


def class_of_size(mk, k, e):
    vc, st, sc, f = setup(mk, k, e)
    size = z3.BitVec('size', 32)
    sh = f['size_shift']
    min_alloc = sh + (1 << k)
    # every size whose distance to the minimal allocation, plus the granularity, is representable
    wide = z3.ZeroExt(32, size) + (1 << k) - z3.ZeroExt(32, min_alloc)
    st.assume(min_alloc != 0, z3.Or(z3.ULE(size, min_alloc), z3.ULT(wide, bv(1 << 32))))

    def post(st, r):
        shifted = z3.If(z3.ULE(size, min_alloc), bv(1 << k), wide)
        st.prove(z3.UGE(spec_size(r, k, e), shifted), 'k%d:e%d:post:the class size is not below the size' % (k, e))
        st.prove(z3.Implies(r != 0, z3.ULT(spec_size(r - 1, k, e), shifted)), 'k%d:e%d:post:the previous class is too small' % (k, e))
        st.prove(z3.ULT(r, bv(33 << e, 32)), 'k%d:e%d:post:class number in range' % (k, e))
    vc.verify('small_class_calc_offset_by_size', [sc, size], post=post)


def inverse(mk, k, e):
    vc, st, sc, f = setup(mk, k, e)
    cls = z3.BitVec('cls', 32)
    sh = f['size_shift']
    min_alloc = sh + (1 << k)
    want = spec_size(cls, k, e)
    # every class whose size is representable
    st.assume(min_alloc != 0, z3.ULT(cls, cls_bound(k, e)),
              z3.ULT(want + z3.ZeroExt(32, min_alloc), bv((1 << 32) + (1 << k))))
    size = sh + z3.Extract(31, 0, want)
    vc.verify('small_class_calc_offset_by_size', [sc, size],
              post=lambda st, r: st.prove(r == cls, 'k%d:e%d:post:the size of a class belongs to the class' % (k, e)))


# every granularity 2^k from 1 to 4096 and every number of effective bits from 0 to 12
K = range(0, 13)
for _e in range(0, 24):
    def _reg(e):
        for nm, fn, fns in (('size_of_class', size_of_class, ['small_class_calc_size_by_offset']),
                            ('class_of_size', class_of_size, ['small_class_calc_offset_by_size']),
                            ('inverse', inverse, ['small_class_calc_offset_by_size', 'small_class_calc_size_by_offset'])):
            @proof('small_class/%s/e%d' % (nm, e), 'P10', 'small_class', fns=fns, thorough=e > 13)
            def _(mk, mod, fn=fn):
                for k in K:
                    fn(mk, k, e)
    _reg(_e)
