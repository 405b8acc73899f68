"""The AddressSanitizer build (P27): lsregion and region keep a list of allocations, one block each.

Node i has its header at A(i) and its payload, SZ(i) bytes of which US(i) are used, at PL(i).  small_asan_alloc / free and
header / payload recovery by contract (s_asan.py)."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from smallvc.seq import Seq, Sum, ite
from specs.common import under, is_cell

CFG = ('asan',)
ASSUME = ['small_asan_alloc / small_asan_free / header and payload recovery by contract (proofs small_asan_*)',
          'running out of memory ends the program (small_xmalloc)', 'the payloads of one region are below 2^47 bytes altogether',
          'callbacks do not modify the region']
NEG = bv(-1)


class R:
    pass


def lists(mk, owner, node, more=None, reserved=False, **kw):
    """owner: struct with `allocations' and `used'; node: struct of the header.  reserved: an allocation is reserved"""
    x = R()
    x.owner, x.node = owner, node

    def w(f):
        return lambda vc, st, a: f(x, vc, st, a)
    cs = dict(small_asan_alloc=w(c_alloc), small_asan_free=w(c_free), small_asan_payload_from_header=w(c_payload),
              __asan_poison_memory_region=w(c_poison))
    vc = x.vc = mk(contracts=cs, indirect=w2(x), **kw)
    st = x.st = vc.new_state()
    mod = x.mod = vc.mod
    F = lambda s, f: mod.field(s, f)[0]
    x.hs = mod.struct_size(node)
    x.po, x.no = F('rlist', 'prev'), F('rlist', 'next')
    x.o_link = F(node, 'link')
    x.o_next, x.o_prev = x.o_link + x.no, x.o_link + x.po
    x.o = {f: F(node, f) for f in ('size', 'used', 'id', 'alignment') if mod_has(mod, node, f)}
    hl = F(owner, 'allocations')
    x.h_next, x.h_prev, x.h_used = hl + x.no, hl + x.po, F(owner, 'used')
    x.r, x.N, x.k, x.off = (z3.BitVec(n, 64) for n in (owner, 'N', 'k', 'k_off'))
    x.H = x.r + hl
    x.seq = Seq('alloc', x.N, x.H, x.o_link, x.po, x.no)
    x.A = x.seq.A
    fn = {n: z3.Function(n, B, B) for n in ('PL', 'SZ', 'US', 'ID', 'AL')}
    x.PL = fn['PL']
    x.SZ, x.US, x.ID, x.AL = ((lambda f: lambda i: f(simp(i)))(fn[n]) for n in ('SZ', 'US', 'ID', 'AL'))
    x.U = Sum('U', x.US, x.N)

    def facts(st, i):
        others = [j for f, j in st.objs if f is x.fs and not j.eq(i)]
        return [z3.ULE(x.US(i), x.SZ(i)), z3.ULE(x.SZ(i), bv(1 << 45))] + x.U.facts(i, others) + (more(x, i, others) if more else [])
    x.fr = st.fam(Fam(owner, mod.struct_size(owner), base=x.r, cell=lambda st, i, off, n: cell(x, 'owner', None, off, n)))
    x.fs = st.fam(Fam('allocation', x.hs, fn=x.A, guard=lambda i: z3.ULT(i, x.N), facts=facts,
                      cell=lambda st, i, off, n: cell(x, 'node', i, off, n)))
    x.fp = st.fam(Fam('payload', lambda i: x.SZ(i), fn=x.PL, guard=lambda i: z3.ULT(i, x.N), align=1))
    st.assume(z3.ULT(x.N, bv(1 << 40)), x.U(0) == 0, z3.ULT(x.U(x.N), bv(1 << 47)))
    x.X, x.Y, x.YS = z3.BitVec('X', 64), z3.BitVec('Y', 64), z3.BitVec('YS', 64)
    x.fx = Fam('new header', x.hs, base=x.X)
    x.fy = Fam('new payload', x.YS, base=x.Y, align=1)
    st.foot = []
    st.ghost.update(got=None, poison=[], freed=0, cba=[], cbt=[])
    return x


def mod_has(mod, s, f):
    try:
        mod.field(s, f)
        return True
    except Exception:
        return False


def cell(x, kind, i, off, n):
    if not z3.is_bv_value(off) or n != 8:
        return None
    o = off.as_long()
    if kind == 'owner':
        return {x.h_next: lambda: x.seq.first(), x.h_prev: lambda: x.seq.last(), x.h_used: lambda: x.U(x.N)}.get(o, lambda: None)()
    t = {x.o_next: lambda: x.seq.next(i), x.o_prev: lambda: x.seq.prev(i)}
    for f, v in (('size', x.SZ), ('used', x.US), ('id', x.ID), ('alignment', x.AL)):
        if f in x.o:
            t[x.o[f]] = (lambda v: lambda: v(i))(v)
    return t.get(o, lambda: None)()


# ------------------------------------------------------------ the environment

def c_alloc(x, vc, st, a):
    size, al, hs = a
    st.prove(z3.BoolVal(st.ghost['got'] is None), 'pre(small_asan_alloc):one block is taken')
    st.prove(z3.And(al != 0, al & (al - 1) == 0, z3.ULE(al, bv(4096))), 'pre(small_asan_alloc):power of two up to 4096')
    st.prove(hs == x.hs, 'pre(small_asan_alloc):room for the header')
    st.assume(x.YS == size, x.Y & (al - 1) == 0, x.Y & (2 * al - 1) != 0)
    st.ghost['got'] = (size, al)
    for f in (x.fx, x.fy):
        st.fam(f)
        st.meet(f, None)
    st.foot = st.foot + [('obj', x.fx, lambda i, off, n: True), ('obj', x.fy, lambda i, off, n: True)]
    return x.X


def header(x, st, p):
    q = st.vc.place(st, simp(p), 8)
    if q is None or not z3.is_bv_value(q[2]) or q[2].as_long() != 0 or q[0] not in (x.fs, x.fx):
        raise Unsupported('not known to be the header of an allocation')
    return q


def c_payload(x, vc, st, a):
    p, c = vc.pure(st, a[0])
    q = header(x, st, p)
    if q[0] is x.fx:
        return x.Y
    st.meet(x.fp, q[1])
    st.prove(z3.ULT(q[1], x.N), 'pre(payload_from_header):a header')
    return x.PL(q[1])


def c_free(x, vc, st, a):
    q = header(x, st, a[0])
    st.prove(z3.BoolVal(q[0] is x.fs), 'pre(small_asan_free):an allocation of the region')
    i, c = q[1], st.ghost['c']
    st.prove(i == c, 'pre(small_asan_free):the next allocation, once')
    st.ghost['freed'] = simp(bv(0) + st.ghost['freed'] + 1)
    st.ghost['c'] = simp(c + 1)
    st.objhavoc(Havoc(keep=lambda st, f, j, off, n: (j != i) if f in (x.fs, x.fp) else True), 'freed allocation')
    return None


def c_poison(x, vc, st, a):
    st.ghost['poison'] = st.ghost['poison'] + [(a[0], a[1])]
    return None


def w2(x):
    def go(vc, st, tgt, args, where):
        for nm, kind in (('acb', 'cba'), ('tcb', 'cbt')):
            if nm in x.__dict__ and tgt.eq(x.__dict__[nm]):
                st.prove(z3.And(args[0] == x.r, args[2] == x.arg), 'pre(callback):arguments')
                st.ghost[kind] = st.ghost[kind] + [(args[1], st.load(x.r + x.h_used, 8))]
                return None
        st.prove(False, 'small_asan_assert@' + where)
        return None
    return go


# ------------------------------------------------------------ states

def nodes(x, st, c=None, next_last=None, prev_first=None, at=None, name='inv', skip=()):
    """allocations c.. as in the beginning, but for the outer links and the fields `at': (index, {field: value})"""
    c = bv(0) if c is None else c
    for f in under(st, z3.And(z3.ULE(c, x.k), z3.ULT(x.k, x.N))):
        k = x.k
        f.meet(x.fs, k)
        f.prove(f.load(x.A(k) + x.o_next, 8) == (x.seq.next(k) if next_last is None else z3.If(k == x.N - 1, next_last, x.seq.next(k))), name + ':next links')
        pv = x.seq.prev(k, c)
        f.prove(f.load(x.A(k) + x.o_prev, 8) == (pv if prev_first is None else z3.If(k == c, prev_first, pv)), name + ':prev links')
        for n, v in (('size', x.SZ), ('used', x.US), ('id', x.ID), ('alignment', x.AL)):
            if n in x.o:
                w = v(k)
                if at is not None and n in at[1]:
                    w = z3.If(k == at[0], at[1][n], w)
                f.prove(f.load(x.A(k) + x.o[n], 8) == w, name + ':field ' + n)


def ends(x, st, used, c=None, first=None, last=None, name='inv'):
    st.prove(st.load(x.r + x.h_next, 8) == (x.seq.first(c) if first is None else first), name + ':list head')
    st.prove(st.load(x.r + x.h_prev, 8) == (x.seq.last(c) if last is None else last), name + ':list tail')
    st.prove(st.load(x.r + x.h_used, 8) == used, name + ':used figure')


def bytes_kept(x, st, c, name):
    """an arbitrary byte of an arbitrary payload that is kept"""
    for f in under(st, z3.And(z3.ULE(c, x.k), z3.ULT(x.k, x.N), z3.ULT(x.off, x.SZ(x.k)))):
        f.meet(x.fp, x.k)
        a = simp(x.PL(x.k) + x.off)
        f.prove(f.load(a, 1) == f.vc.load(f, a, 1, f.ghost['mem0']), name + ':payload bytes are kept')


def foot(x):
    x.st.foot = x.st.foot + [('obj', x.fr, lambda i, off, n: True), ('obj', x.fs, lambda i, off, n: True)]


def pw2(al):
    return z3.And(al != 0, al & (al - 1) == 0, z3.ULE(al, bv(4096)))


# ------------------------------------------------------------ lsregion

def ls_more(x, i, others):
    out = [x.ID(i) >= -1, z3.Implies(x.ID(i) == -1, z3.And(i == x.N - 1, x.US(i) == 0)), pw2(x.AL(i))]
    for j in others:
        for a, b in ((i, j), (j, i)):
            out.append(z3.Implies(z3.And(z3.ULT(a, b), x.ID(b) != -1), x.ID(a) <= x.ID(b)))
    return out


def ls(mk, reserved=None, **kw):
    x = lists(mk, 'lsregion', 'lsregion_allocation', ls_more, **kw)
    L = x.L = simp(x.N - 1)
    x.st.meet(x.fs, L)
    if reserved:
        x.st.assume(x.N != 0, x.ID(L) == -1)
    elif reserved is False:
        x.st.assume(z3.Implies(x.N != 0, x.ID(L) != -1))
    x.st.ghost['mem0'] = x.st.mem
    return x


def ls_new(x, st, r, size, al, used, id, name='post'):
    pr = lambda c, t: st.prove(c, name + ':' + t)
    pr(z3.BoolVal(st.ghost['got'] is not None), 'a block is taken')
    pr(r == x.Y, 'the payload of a new block')
    pr(x.YS == size, 'of the size')
    pr(z3.And(r & (al - 1) == 0, r & (2 * al - 1) != 0), 'aligned, but not to twice as much')
    for n, v in (('size', size), ('used', used), ('id', id), ('alignment', al)):
        pr(st.load(x.X + x.o[n], 8) == v, 'field %s of the new allocation' % n)
    pr(st.load(x.X + x.o_next, 8) == x.H, 'the new allocation is last')
    pr(st.load(x.X + x.o_prev, 8) == x.seq.last(), 'the new allocation follows the list')
    ends(x, st, simp(x.U(x.N) + used), first=z3.If(x.N == 0, x.X + x.o_link, x.seq.first()), last=x.X + x.o_link, name=name)
    nodes(x, st, next_last=x.X + x.o_link, name=name)
    bytes_kept(x, st, bv(0), name)


for fn in ('lsregion_aligned_reserve', 'lsregion_reserve'):
    def reg(fn):
        @proof(fn, 'P27', 'lsregion_asan', cfgs=CFG, fns=[fn, 'lsregion_prepare_buf', 'lsregion_reserved_alloc'], assumes=ASSUME)
        def _(mk, mod):
            x = ls(mk, False)
            size, al = z3.BitVec('size', 64), z3.BitVec('alignment', 64)
            x.st.assume(z3.ULE(size, bv(1 << 45)))
            al_ = bv(1)
            args = [x.r, size]
            if 'aligned' in fn:
                x.st.assume(pw2(al))
                args.append(al)
                al_ = al
            foot(x)
            x.vc.verify(fn, args, post=lambda st, r: ls_new(x, st, r, size, al_, bv(0), NEG))
    reg(fn)

for fn in ('lsregion_aligned_alloc', 'lsregion_alloc'):
    for res in (False, True):
        def reg2(fn, res):
            @proof(fn + ('/reserved' if res else ''), 'P27', 'lsregion_asan', cfgs=CFG, fns=[fn, 'lsregion_prepare_buf', 'lsregion_reserved_alloc'], assumes=ASSUME)
            def _(mk, mod):
                x = ls(mk, res)
                st = x.st
                size, al, id = z3.BitVec('size', 64), z3.BitVec('alignment', 64), z3.BitVec('id', 64)
                st.assume(z3.ULE(size, bv(1 << 45)), id >= 0)
                al_ = al if 'aligned' in fn else bv(1)
                args = [x.r, size] + ([al] if 'aligned' in fn else []) + [id]
                if 'aligned' in fn:
                    st.assume(pw2(al))
                if res:
                    st.assume(z3.ULE(size, x.SZ(x.L)), x.AL(x.L) == al_)
                foot(x)

                def post(st, r):
                    p = st.ghost['poison']
                    st.prove(z3.BoolVal(len(p) == 1), 'post:one range is poisoned')
                    sz = x.SZ(x.L) if res else x.YS
                    st.prove(z3.And(p[0][0] == r + size, p[0][1] == sz - size), 'post:what is not used is poisoned')
                    if not res:
                        ls_new(x, st, r, size, al_, size, id)
                        return
                    st.prove(z3.BoolVal(st.ghost['got'] is None), 'post:no block is taken')
                    st.prove(r == x.PL(x.L), 'post:the reserved payload')
                    ends(x, st, simp(x.U(x.N) + size), name='post')
                    nodes(x, st, at=(x.L, dict(used=size, id=id)), name='post')
                    bytes_kept(x, st, bv(0), 'post')
                x.vc.verify(fn, args, post=post)
        reg2(fn, res)


@proof('lsregion_create', 'P27', 'lsregion_asan', cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = ls(mk)
    foot(x)
    x.vc.verify('lsregion_create', [x.r, z3.BitVec('arena', 64)], post=lambda st, r: ends(x, st, bv(0), first=x.H, last=x.H, name='post'))


for fn in ('lsregion_used', 'lsregion_total'):
    def reg3(fn):
        @proof(fn, 'P27', 'lsregion_asan', cfgs=CFG, assumes=ASSUME)
        def _(mk, mod):
            x = ls(mk)
            x.vc.verify(fn, [x.r], post=lambda st, r: st.prove(r == x.U(x.N), 'post:the figure'))
    reg3(fn)


def gone(x, c, used=None):
    """the first c allocations are freed: what is left"""
    def keep(st, f, i, off, n):
        if f is x.fs:
            return z3.And(z3.UGE(i, c), z3.Not(z3.And(i == c, is_cell(off, n, x.o_prev))))
        if f is x.fp:
            return z3.UGE(i, c)
        if f is x.fr:
            return z3.Not(z3.Or(is_cell(off, n, x.h_next), is_cell(off, n, x.h_prev) if used is None or True else False,
                                *([is_cell(off, n, x.h_used)] if used is not None else [])))
        return True

    def cl(st, f, i, off, n):
        if not z3.is_bv_value(off) or n != 8:
            return None
        o = off.as_long()
        if f is x.fr:
            t = {x.h_next: lambda: x.seq.first(c), x.h_prev: lambda: x.seq.last(c)}
            if used is not None:
                t[x.h_used] = lambda: used
            return t.get(o, lambda: None)()
        if f is x.fs and o == x.o_prev:
            return z3.If(i == c, x.H, z3.Function('gone', B, B)(i))
        return None
    return Havoc(keep=keep, cell=cl)


for fn in ('lsregion_gc', 'lsregion_destroy'):
    def reg4(fn):
        @proof(fn, 'P27', 'lsregion_asan', cfgs=CFG, fns=['lsregion_gc', fn], assumes=ASSUME)
        def _(mk, mod):
            x = ls(mk)
            st = x.st
            mid = z3.BitVec('min_id', 64)
            if fn == 'lsregion_destroy':
                st.assume(mid == bv((1 << 63) - 1))
            foot(x)
            st.ghost['c'] = bv(0)

            def inv(st, g):
                c = g['c']
                if not g.get('assumed'):
                    st.prove(z3.And(z3.ULE(c, x.N), st.ghost['c'] == c), 'loop:progress')
                    st.prove(st.local('alloc') == simp(x.seq.at(c) - x.o_link), 'loop:position')
                    ends(x, st, x.U(x.N) - x.U(c), c=c, name='loop')
                    nodes(x, st, c=c, name='loop')
                    bytes_kept(x, st, c, 'loop')
                    for f in under(st, z3.ULT(x.k, c)):
                        f.prove(x.ID(x.k) <= mid, 'loop:only old allocations are collected')
                return []

            def havoc(st, g):
                c = z3.BitVec('c', 64)
                st.assume(z3.ULE(c, x.N))
                st.meet(x.fs, c)
                st.objhavoc(gone(x, c, x.U(x.N) - x.U(c)), 'gc')
                st.assume(z3.Implies(z3.ULT(x.k, c), x.ID(x.k) <= mid), z3.Implies(c == x.N, x.U(c) == x.U(x.N)), z3.ULE(x.U(c), x.U(x.N)))
                st.set_local('alloc', simp(x.seq.at(c) - x.o_link))
                st.ghost['c'] = c
                return dict(c=c, assumed=True)

            x.vc.loops = {('lsregion_gc', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)),
                                                   variant=lambda st, g: x.N - g['c'])}

            def post(st, r):
                c = st.ghost['c']
                for f in under(st, z3.ULT(c, x.N)):
                    f.meet(x.fs, c)
                    f.prove(x.ID(c) > mid, 'post:stops only at a newer allocation')
                    if fn == 'lsregion_destroy':
                        f.prove(False, 'post:every allocation is freed')
                for f in under(st, z3.ULT(x.k, c)):
                    f.prove(x.ID(x.k) <= mid, 'post:only old allocations are collected')
                ends(x, st, x.U(x.N) - x.U(c), c=c, name='post')
                nodes(x, st, c=c, name='post')
                bytes_kept(x, st, c, 'post')
            x.vc.verify(fn, [x.r, mid] if fn == 'lsregion_gc' else [x.r], post=post)
    reg4(fn)


# ------------------------------------------------------------ region (newest allocation first)

def rg(mk, reserved=None, **kw):
    """reserved: the newest allocation is reserved (its size is region.reserved, nothing of it is used)"""
    x = lists(mk, 'region', 'region_allocation', lambda x, i, others: [pw2(x.AL(i))], **kw)
    st = x.st
    x.acb, x.tcb, x.arg = (st.get(x.r, 'region', f) for f in ('on_alloc_cb', 'on_truncate_cb', 'cb_arg'))
    x.res = st.get(x.r, 'region', 'reserved')
    st.meet(x.fs, bv(0))
    if reserved:
        st.assume(x.N != 0, x.res != 0, x.US(bv(0)) == 0, x.SZ(bv(0)) == x.res)
    elif reserved is False:
        st.assume(x.res == 0)
    st.ghost['mem0'] = st.mem
    return x


def fields_kept(x, st, res, name='post'):
    for f, v in (('on_alloc_cb', x.acb), ('on_truncate_cb', x.tcb), ('cb_arg', x.arg), ('reserved', res)):
        st.prove(st.get(x.r, 'region', f) == v, '%s:field %s' % (name, f))


def one_call(x, st, kind, size, before=None):
    calls = st.ghost[kind]
    cb = x.acb if kind == 'cba' else x.tcb
    st.prove(z3.BoolVal(len(calls) <= 1 and len(st.ghost['cba']) + len(st.ghost['cbt']) == len(calls)), 'post:one callback')
    st.prove((cb != 0) if calls else (cb == 0), 'post:the callback is called if set')
    for a, u in calls:
        st.prove(a == size, 'post:the callback gets the size')


def rg_new(x, st, r, size, al, used, total, name='post'):
    pr = lambda c, t: st.prove(c, name + ':' + t)
    pr(z3.BoolVal(st.ghost['got'] is not None), 'a block is taken')
    pr(r == x.Y, 'the payload of a new block')
    pr(z3.UGE(x.YS, size), 'room for the size')
    pr(z3.And(r & (al - 1) == 0, r & (2 * al - 1) != 0), 'aligned, but not to twice as much')
    for n, v in (('used', used), ('alignment', al)):
        pr(st.load(x.X + x.o[n], 8) == v, 'field %s of the new allocation' % n)
    pr(st.load(x.X + x.o_next, 8) == x.seq.first(), 'the new allocation is before the list')
    pr(st.load(x.X + x.o_prev, 8) == x.H, 'the new allocation is first')
    ends(x, st, total, first=x.X + x.o_link, last=z3.If(x.N == 0, x.X + x.o_link, x.seq.last()), name=name)
    nodes(x, st, prev_first=x.X + x.o_link, name=name)
    bytes_kept(x, st, bv(0), name)


FNS = ['region_prepare_buf']
for fn in ('region_aligned_reserve', 'region_reserve', 'region_reserve_cb'):
    def reg5(fn):
        @proof(fn, 'P27', 'region_asan', cfgs=CFG, fns=[fn] + FNS, assumes=ASSUME)
        def _(mk, mod):
            x = rg(mk, False)
            st = x.st
            size, al = z3.BitVec('size', 64), z3.BitVec('alignment', 64)
            st.assume(z3.ULE(size, bv(1 << 45)))
            al_ = al if 'aligned' in fn else bv(1)
            args = [x.r, size]
            foot(x)
            if 'aligned' in fn:
                st.assume(pw2(al))
                args.append(al)
            if fn == 'region_reserve_cb':
                p = z3.BitVec('psize', 64)
                fp = st.fam(Fam('size', 8, base=p))
                st.assume(st.load(p, 8) == size)
                st.foot = st.foot + [('obj', fp, lambda i, off, n: True)]
                args = [x.r, p]
                st.ghost['mem0'] = st.mem

            def post(st, r):
                rg_new(x, st, r, size, al_, bv(0), x.U(x.N))
                fields_kept(x, st, x.YS)
                st.prove(x.YS == z3.If(z3.ULT(size, bv(128)), bv(128), size), 'post:at least 128 bytes')
                if fn == 'region_reserve_cb':
                    st.prove(st.load(p, 8) == x.YS, 'post:the size reserved')
            x.vc.verify(fn, args, post=post)
    reg5(fn)

for fn in ('region_aligned_alloc', 'region_alloc', 'region_alloc_cb'):
    for res in (False, True):
        def reg6(fn, res):
            @proof(fn + ('/reserved' if res else ''), 'P27', 'region_asan', cfgs=CFG, fns=[fn, 'region_aligned_alloc_reserved' if res else 'region_prepare_buf'], assumes=ASSUME)
            def _(mk, mod):
                x = rg(mk, res)
                st = x.st
                size, al = z3.BitVec('size', 64), z3.BitVec('alignment', 64)
                st.assume(z3.ULE(size, bv(1 << 45)), size != 0)
                al_ = al if 'aligned' in fn else bv(1)
                args = [x.r, size] + ([al] if 'aligned' in fn else [])
                if 'aligned' in fn:
                    st.assume(pw2(al))
                if res:
                    st.assume(z3.ULE(size, x.res), x.AL(bv(0)) == al_)
                foot(x)

                def post(st, r):
                    fields_kept(x, st, bv(0))
                    one_call(x, st, 'cba', size)
                    if not res:
                        rg_new(x, st, r, size, al_, size, simp(x.U(x.N) + size))
                        st.prove(x.YS == size, 'post:no more than the size')
                        return
                    p = st.ghost['poison']
                    st.prove(z3.BoolVal(len(p) == 1), 'post:one range is poisoned')
                    st.prove(z3.And(p[0][0] == r + size, p[0][1] == x.res - size), 'post:what is not used is poisoned')
                    st.prove(z3.BoolVal(st.ghost['got'] is None), 'post:no block is taken')
                    st.prove(r == x.PL(bv(0)), 'post:the reserved payload')
                    ends(x, st, simp(x.U(x.N) + size), name='post')
                    nodes(x, st, at=(bv(0), dict(used=size)), name='post')
                    bytes_kept(x, st, bv(0), 'post')
                x.vc.verify(fn, args, post=post)
        reg6(fn, res)


@proof('region_create', 'P27', 'region_asan', cfgs=CFG, assumes=ASSUME)
def _(mk, mod):
    x = rg(mk)
    foot(x)

    def post(st, r):
        ends(x, st, bv(0), first=x.H, last=x.H, name='post')
        for f in ('on_alloc_cb', 'on_truncate_cb', 'cb_arg', 'reserved'):
            st.prove(st.get(x.r, 'region', f) == 0, 'post:no callbacks, nothing reserved')
    x.vc.verify('region_create', [x.r, z3.BitVec('cache', 64)], post=post)


for fn in ('region_used', 'region_total'):
    def reg7(fn):
        @proof(fn, 'P27', 'region_asan', cfgs=CFG, assumes=ASSUME)
        def _(mk, mod):
            x = rg(mk)
            x.vc.verify(fn, [x.r], post=lambda st, r: st.prove(r == x.U(x.N), 'post:the figure'))
    reg7(fn)


for fn in ('region_truncate', 'region_free', 'region_reset', 'region_destroy'):
    for res in (False, True):
        def reg8(fn, res):
            @proof(fn + ('/reserved' if res else ''), 'P27', 'region_asan', cfgs=CFG, fns=['region_truncate', fn], assumes=ASSUME)
            def _(mk, mod):
                x = rg(mk, res)
                st = x.st
                # the savepoint was taken when the newest allocation used was m
                m = z3.BitVec('m', 64)
                st.assume(z3.ULE(m, x.N))
                st.meet(x.fs, m)
                st.assume(z3.Implies(m == x.N, x.U(m) == x.U(x.N)), z3.ULE(x.U(m), x.U(x.N)), z3.Implies(m == 0, x.U(m) == 0))
                used = simp(x.U(x.N) - x.U(m))
                if fn != 'region_truncate':
                    st.assume(m == x.N)
                    used = bv(0)
                # an allocation that is not reserved uses something
                foot(x)
                c0 = bv(1 if res else 0)
                st.ghost['c'] = bv(0)

                def inv(st, g):
                    c = g['c']
                    if not g.get('assumed'):
                        st.prove(z3.And(z3.ULE(c, x.N), st.ghost['c'] == c), 'loop:progress')
                        st.prove(z3.ULE(x.U(c), x.U(m)), 'loop:not below the savepoint')
                        st.prove(st.local('alloc') == simp(x.seq.at(c) - x.o_link), 'loop:position')
                        st.prove(st.local('cut_size') == x.U(m) - x.U(c), 'loop:rest to cut')
                        ends(x, st, x.U(x.N), c=c, name='loop')
                        nodes(x, st, c=c, name='loop')
                        bytes_kept(x, st, c, 'loop')
                        fields_kept(x, st, bv(0), 'loop')
                    return []

                def havoc(st, g):
                    c = z3.BitVec('c', 64)
                    st.assume(z3.ULE(c, x.N), z3.UGE(c, c0), z3.ULE(x.U(c), x.U(m)))
                    st.meet(x.fs, c)
                    st.assume(z3.Implies(c == x.N, x.U(c) == x.U(x.N)), z3.ULE(x.U(c), x.U(x.N)))
                    # sums are monotone
                    st.assume(z3.Implies(z3.ULE(m, c), z3.ULE(x.U(m), x.U(c))), z3.Implies(z3.ULT(c, m), z3.ULE(x.U(c + 1), x.U(m))))
                    st.objhavoc(gone(x, c), 'truncate')
                    st.set_local('alloc', simp(x.seq.at(c) - x.o_link))
                    st.set_local('cut_size', simp(x.U(m) - x.U(c)))
                    st.ghost['c'] = c
                    return dict(c=c, assumed=True)

                x.vc.loops = {('region_truncate', 0): Loop(inv, init=lambda st: dict(c=c0), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)),
                                                           variant=lambda st, g: x.N - g['c'])}

                def post(st, r):
                    c = st.ghost['c']
                    # sums are monotone
                    for a in (c, m, x.k):
                        for b in (c, m, x.k):
                            st.assume(z3.Implies(z3.And(z3.ULE(a, b), z3.ULE(b, x.N)), z3.ULE(x.U(a), x.U(b))),
                                      z3.Implies(z3.And(z3.ULT(a, b), z3.ULE(b, x.N)), z3.ULE(x.U(a + 1), x.U(b))))
                    st.prove(x.U(c) == x.U(m), 'post:exactly what was allocated after the savepoint is freed')
                    for f in under(st, z3.And(z3.UGT(c, m), z3.UGE(x.k, m), z3.ULT(x.k, c), z3.ULT(x.k, x.N))):
                        f.meet(x.fs, x.k)
                        f.prove(x.US(x.k) == 0, 'post:nothing older is freed')
                    for f in under(st, z3.And(z3.ULE(c, x.k), z3.ULT(x.k, m), z3.ULT(x.k, x.N))):
                        f.meet(x.fs, x.k)
                        f.prove(x.US(x.k) == 0, 'post:nothing newer is kept')
                    fields_kept(x, st, bv(0))
                    one_call(x, st, 'cbt', used)
                    for a, u in st.ghost['cbt']:
                        st.prove(u == used, 'post:the callback sees the used size after')
                    ends(x, st, used, c=c, name='post')
                    nodes(x, st, c=c, name='post')
                    bytes_kept(x, st, c, 'post')
                x.vc.verify(fn, [x.r, used] if fn == 'region_truncate' else [x.r], post=post)
        reg8(fn, res)


@proof('region_join', 'P27', 'region_asan', cfgs=CFG, fns=['region_join', 'region_alloc', 'region_aligned_alloc'], assumes=ASSUME)
def _(mk, mod):
    x = rg(mk, False)
    st = x.st
    size, t = z3.BitVec('size', 64), z3.BitVec('t', 64)
    st.assume(size != 0, z3.ULE(size, x.U(x.N)), z3.ULE(size, bv(1 << 45)))
    # an arbitrary one of the last `size' bytes, the t-th from the end: in allocation k
    st.assume(z3.ULT(x.k, x.N), z3.ULT(t, size), z3.ULE(x.U(x.k), t), z3.ULT(t, x.U(x.k + 1)))
    st.meet(x.fs, x.k)
    st.meet(x.fp, x.k)
    src = simp(x.PL(x.k) + x.US(x.k) - 1 - (t - x.U(x.k)))
    byte0 = st.load(src, 1)
    foot(x)
    min_ = lambda a, b: z3.If(z3.ULT(a, b), a, b)

    def inv(st, g):
        c = g['c']
        if not g.get('assumed'):
            st.prove(z3.And(z3.ULE(c, x.N), st.local('ret') == x.Y), 'loop:progress')
            st.prove(st.local('offset') == size - min_(x.U(c), size), 'loop:bytes to go')
            for f in under(st, z3.ULT(x.U(c), size)):
                f.prove(f.local('alloc') == simp(x.seq.at(c) - x.o_link), 'loop:position')
            nodes(x, st, prev_first=x.X + x.o_link, name='loop')
            for f in under(st, z3.ULT(t, x.U(c))):
                f.prove(f.load(x.Y + (size - 1 - t), 1) == byte0, 'loop:bytes copied so far')
        return []

    def havoc(st, g):
        c = z3.BitVec('c', 64)
        st.assume(z3.ULE(c, x.N))
        st.meet(x.fs, c)
        for i in (c, x.k):
            st.assume(z3.Implies(z3.ULT(c, x.k), z3.ULE(x.U(c), x.U(x.k))), z3.Implies(z3.ULT(x.k, c), z3.ULE(x.U(x.k + 1), x.U(c))),
                      z3.Implies(c == x.N, x.U(c) == x.U(x.N)))
        d = simp(x.Y + (size - 1 - t))

        def keep(st, f, i, off, n):
            if f is not x.fy:
                return True
            n = bv(n) if isinstance(n, int) else n
            return z3.Or(z3.ULE(off + n, size - min_(x.U(c), size)), z3.UGE(off, size))
        st.objhavoc(Havoc(keep=keep), 'join loop')
        a = vc_any(x, st)
        st.set_local('alloc', simp(x.seq.at(c) - x.o_link) if st.must(z3.ULT(x.U(c), size)) else z3.If(z3.ULT(x.U(c), size), x.seq.at(c) - x.o_link, a))
        st.set_local('offset', simp(size - min_(x.U(c), size)))
        st.assume(z3.Implies(z3.ULT(t, x.U(c)), st.load(d, 1) == byte0))
        return dict(c=c, assumed=True)

    x.vc.loops = {('region_join', 0): Loop(inv, init=lambda st: dict(c=bv(0)), havoc=havoc, step=lambda st, g: dict(c=simp(g['c'] + 1)),
                                          variant=lambda st, g: x.N - g['c'])}

    def post(st, r):
        fields_kept(x, st, bv(0))
        one_call(x, st, 'cba', size)
        rg_new(x, st, r, size, bv(1), size, simp(x.U(x.N) + size))
        st.prove(st.load(r + (size - 1 - t), 1) == byte0, 'post:the last bytes in order')
    x.vc.verify('region_join', [x.r, size], post=post)


def vc_any(x, st):
    return x.vc.fresh('any')
