"""Contracts of rlist (P25).

A list of any length N is the ring C(0), C(1) .. C(N), C(0) being the head (rings: every node can play the head's part, so
positions are arbitrary ring indices).  The state after an operation is compared with the documented edit at an arbitrary
(Skolem) node of each ring involved; the footprint allows writes to links only.  The macros are proved as a user's code
uses them (tu/rlist.c), iterating over lists of any length."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from specs.common import under

M = 'rlist'
ite = lambda c, a, b: simp(z3.If(c, a, b))


class Ring:
    """N + 1 nodes; node 0 is the head"""

    def __init__(self, st, mod, name, least=0):
        self.po, self.no = mod.field('rlist', 'prev')[0], mod.field('rlist', 'next')[0]
        self.N = z3.BitVec('N' + name, 64)
        self.C = z3.Function('C' + name, B, B)
        self.k = z3.BitVec('k' + name, 64)
        st.assume(z3.ULT(self.N, bv(1 << 40)), z3.ULE(bv(least), self.N), z3.ULE(self.k, self.N))
        self.f = st.fam(Fam('list ' + name, mod.struct_size('rlist'), fn=self.C, guard=lambda i: z3.ULE(i, self.N), cell=self.cell))
        st.meet(self.f, bv(0))
        st.meet(self.f, self.k)

    def succ(self, i):
        return ite(i == self.N, bv(0), simp(i + 1))

    def pred(self, i):
        return ite(i == 0, self.N, simp(i - 1))

    def __call__(self, i):
        return self.C(simp(bv(i) if isinstance(i, int) else i))

    def cell(self, st, i, off, n):
        if n == 8 and z3.is_bv_value(off):
            if off.as_long() == self.no:
                return self.C(self.succ(i))
            if off.as_long() == self.po:
                return self.C(self.pred(i))
        return None

    def idx(self, st, name):
        p = z3.BitVec(name, 64)
        st.assume(z3.ULE(p, self.N))
        st.meet(self.f, p)
        return p


class Free:
    """a node outside all lists, of any content"""

    def __init__(self, st, mod, name, r):
        self.p, self.po, self.no = z3.BitVec(name, 64), r.po, r.no
        self.f = st.fam(Fam(name, mod.struct_size('rlist'), base=self.p))


def links(st, r, k, nxt, prv, what):
    st.prove(st.load(r(k) + r.no, 8) == nxt, 'post:next links of ' + what)
    st.prove(st.load(r(k) + r.po, 8) == prv, 'post:prev links of ' + what)


def same(st, r, what):
    links(st, r, r.k, r(r.succ(r.k)), r(r.pred(r.k)), what)


def free_links(st, a, nxt, prv, what):
    st.prove(st.load(a.p + a.no, 8) == nxt, 'post:next link of ' + what)
    st.prove(st.load(a.p + a.po, 8) == prv, 'post:prev link of ' + what)


def only(*fs):
    return [('obj', f, lambda i, off, n: True) for f in fs]


def lproof(cname, *fns, assumes=()):
    def deco(fn):
        @proof(cname, 'P25', M, fns=list(fns), assumes=list(assumes))
        def _(mk, mod):
            vc = mk()
            st = vc.new_state()
            fn(vc, st, mod)
        return fn
    return deco


@lproof('rlist_create', 'rlist_create')
def _(vc, st, mod):
    r = Ring(st, mod, 'a')
    a = Free(st, mod, 'item', r)
    st.foot = only(a.f)

    def post(st, v):
        free_links(st, a, a.p, a.p, 'the new list')
        same(st, r, 'other lists')
    vc.verify('f_create', [a.p], post=post)


@proof('RLIST_HEAD', 'P25', M, fns=['RLIST_HEAD', 'RLIST_HEAD_INITIALIZER'])
def _(mk, mod):
    vc = mk()
    st = vc.new_state()
    vc.verify('head_initializer', [], post=lambda st, r: st.prove(r != 0, 'post:an empty list'))


def adding(fn, tail):
    @lproof('rlist_' + fn, 'rlist_' + fn)
    def _(vc, st, mod):
        r = Ring(st, mod, 'a')
        a = Free(st, mod, 'item', r)
        p = r.idx(st, 'p')
        # item goes between left and right
        left = r.pred(p) if tail else p
        right = r.succ(left)
        st.foot = only(a.f, r.f)

        def post(st, v):
            free_links(st, a, r(right), r(left), 'the new item')
            links(st, r, r.k, ite(r.k == left, a.p, r(r.succ(r.k))), ite(r.k == right, a.p, r(r.pred(r.k))), 'the list')
        vc.verify('f_' + fn, [r(p), a.p], post=post)


adding('add', False)
adding('add_tail', True)


def removed(st, r, p, what):
    """node p is out of the ring, alone"""
    k = r.k
    nx = ite(r.succ(k) == p, r(r.succ(p)), r(r.succ(k)))
    pv = ite(r.pred(k) == p, r(r.pred(p)), r(r.pred(k)))
    links(st, r, k, ite(k == p, r(p), nx), ite(k == p, r(p), pv), what)


@lproof('rlist_del', 'rlist_del')
def _(vc, st, mod):
    r = Ring(st, mod, 'a')
    p = r.idx(st, 'p')
    st.foot = only(r.f)
    vc.verify('f_del', [r(p)], post=lambda st, v: removed(st, r, p, 'the list without the item'))


def shifting(fn, nxt):
    @lproof('rlist_' + fn, 'rlist_' + fn)
    def _(vc, st, mod):
        r = Ring(st, mod, 'a')
        p = r.idx(st, 'p')
        st.foot = only(r.f)
        q = nxt(r)(p)

        def post(st, v):
            st.prove(v == r(q), 'post:the item removed')
            removed(st, r, q, 'the list without the item')
        vc.verify('f_' + fn, [r(p)], post=post)


shifting('shift', lambda r: r.succ)
shifting('shift_tail', lambda r: r.pred)


def reading(fn, nxt):
    @lproof('rlist_' + fn, 'rlist_' + fn)
    def _(vc, st, mod):
        r = Ring(st, mod, 'a')
        p = r.idx(st, 'p')
        st.foot = []
        vc.verify('f_' + fn, [r(p)], post=lambda st, v: st.prove(v == r(nxt(r)(p)), 'post:the neighbour'))


for fn, nxt in (('first', lambda r: r.succ), ('last', lambda r: r.pred), ('next', lambda r: r.succ), ('prev', lambda r: r.pred)):
    reading(fn, nxt)


@lproof('rlist_empty', 'rlist_empty')
def _(vc, st, mod):
    r = Ring(st, mod, 'a')
    p = r.idx(st, 'p')
    st.foot = []
    vc.verify('f_empty', [r(p)], post=lambda st, v: st.prove((v != 0) == (r.N == 0), 'post:nonzero iff there is no element'))


def moving(fn, tail, other):
    @lproof('rlist_%s/%s' % (fn, 'to another list' if other else 'within a list'), 'rlist_' + fn,
            assumes=[] if other else ['an item is not moved next to itself'])
    def _(vc, st, mod):
        r = Ring(st, mod, 'a')
        p = r.idx(st, 'p')
        d = Ring(st, mod, 'b') if other else r
        q = d.idx(st, 'q')
        if not other:
            st.assume(p != q)
        st.foot = only(r.f, d.f)

        def post(st, v):
            item = r(p)
            if other:
                left = d.pred(q) if tail else q
                right = d.succ(left)
                k = d.k
                links(st, d, k, ite(k == left, item, d(d.succ(k))), ite(k == right, item, d(d.pred(k))), 'the target')
                k = r.k
                nx = ite(k == p, d(right), ite(r.succ(k) == p, r(r.succ(p)), r(r.succ(k))))
                pv = ite(k == p, d(left), ite(r.pred(k) == p, r(r.pred(p)), r(r.pred(k))))
                links(st, r, k, nx, pv, 'the source and the item')
                return
            # within the ring without p
            sc = lambda i: ite(r.succ(i) == p, r.succ(p), r.succ(i))
            pr = lambda i: ite(r.pred(i) == p, r.pred(p), r.pred(i))
            left = pr(q) if tail else q
            right = sc(left)
            k = r.k
            nx = ite(k == p, r(right), ite(k == left, item, r(sc(k))))
            pv = ite(k == p, r(left), ite(k == right, item, r(pr(k))))
            links(st, r, k, nx, pv, 'the list')
        vc.verify('f_' + fn, [d(q), r(p)], post=post)


for other in (False, True):
    moving('move', False, other)
    moving('move_tail', True, other)


@lproof('rlist_swap', 'rlist_swap')
def _(vc, st, mod):
    a, b = Ring(st, mod, 'a'), Ring(st, mod, 'b')
    st.foot = only(a.f, b.f)

    def side(st, x, y, what):
        """x's head now heads y's elements; x's elements end at y's head"""
        k = x.k
        hn = ite(y.N == 0, x(0), y(1))
        hp = ite(y.N == 0, x(0), y(y.N))
        nx = ite(k == 0, hn, ite(k == x.N, y(0), x(simp(k + 1))))
        pv = ite(k == 0, hp, ite(k == 1, y(0), x(simp(k - 1))))
        links(st, x, k, nx, pv, what)

    def post(st, v):
        side(st, a, b, 'the first list')
        side(st, b, a, 'the second list')
    vc.verify('f_swap', [a(0), b(0)], post=post)


@lproof('rlist_swap/with itself', 'rlist_swap')
def _(vc, st, mod):
    a = Ring(st, mod, 'a')
    st.foot = only(a.f)
    vc.verify('f_swap', [a(0), a(0)], post=lambda st, v: same(st, a, 'the list'))


def splicing(fn, tail):
    @lproof('rlist_' + fn, 'rlist_' + fn, assumes=['splice: two different lists'])
    def _(vc, st, mod):
        a, b = Ring(st, mod, 'a'), Ring(st, mod, 'b')
        p = a.idx(st, 'p')
        left = a.pred(p) if tail else p
        right = a.succ(left)
        st.foot = only(a.f, b.f)

        def post(st, v):
            for f in under(st, b.N == 0):
                same(f, a, 'the target')
                same(f, b, 'the empty source')
            for f in under(st, b.N != 0):
                k = a.k
                links(f, a, k, ite(k == left, b(1), a(a.succ(k))), ite(k == right, b(b.N), a(a.pred(k))), 'the target')
                k = b.k
                nx = ite(k == 0, b(0), ite(k == b.N, a(right), b(simp(k + 1))))
                pv = ite(k == 0, b(0), ite(k == 1, a(left), b(simp(k - 1))))
                links(f, b, k, nx, pv, 'the source')
        vc.verify('f_' + fn, [a(p), b(0)], post=post)


splicing('splice', False)
splicing('splice_tail', True)


@lproof('rlist_cut_before', 'rlist_cut_before')
def _(vc, st, mod):
    """head1 has any content (it is discarded); item is any element of the other list, or its head"""
    b = Ring(st, mod, 'b')
    h = Free(st, mod, 'head1', b)
    p = b.idx(st, 'p')
    st.foot = only(h.f, b.f)

    def post(st, v):
        n = ite(p == 0, b.N, simp(p - 1))           # elements cut: 1 .. n
        e = n == 0
        free_links(st, h, ite(e, h.p, b(1)), ite(e, h.p, b(n)), 'the list of the first part')
        k = b.k
        rest = b.succ(n)
        last = ite(n == b.N, bv(0), b.N)
        nx = ite(k == 0, b(rest), ite(k == n, h.p, b(b.succ(k))))
        pv = ite(k == 0, b(last), ite(k == rest, b(0), ite(k == 1, h.p, b(b.pred(k)))))
        links(st, b, k, nx, pv, 'the two parts')
    vc.verify('f_cut_before', [h.p, b(0), b(p)], post=post)


# ------------------------------------------------------------ macros

class L:
    """a list of N elements E(i), the links at offset `off' of each, headed by H"""

    def __init__(self, st, mod):
        self.off = mod.field('elem', 'in.prev')[0] - mod.field('rlist', 'prev')[0]
        self.po, self.no = mod.field('rlist', 'prev')[0], mod.field('rlist', 'next')[0]
        self.N, self.H = z3.BitVec('N', 64), z3.BitVec('head', 64)
        self.E = z3.Function('E', B, B)
        st.assume(z3.ULT(self.N, bv(1 << 40)))
        self.fe = st.fam(Fam('element', mod.struct_size('elem'), fn=self.E, guard=lambda i: z3.ULT(i, self.N), cell=self.cell))
        self.fh = st.fam(Fam('head', mod.struct_size('rlist'), base=self.H, cell=self.hcell))

    def link(self, i):
        return ite(i == self.N, self.H, self.E(simp(i)) + self.off)

    def before(self, i):
        return ite(i == 0, self.H, self.E(simp(i - 1)) + self.off)

    def cell(self, st, i, off, n):
        if n == 8 and z3.is_bv_value(off):
            if off.as_long() == self.off + self.no:
                return self.link(simp(i + 1))
            if off.as_long() == self.off + self.po:
                return self.before(i)
        return None

    def hcell(self, st, i, off, n):
        if n == 8 and z3.is_bv_value(off):
            if off.as_long() == self.no:
                return self.link(bv(0))
            if off.as_long() == self.po:
                return self.before(self.N)
        return None


def iterating(fn, macro, entry, rev, safe):
    @proof(macro, 'P25', M, fns=[macro], assumes=['the loop body changes no link' + (' but those of the visited element' if safe else '')])
    def _(mk, mod):
        x = {}

        def visit(vc, st, a):
            l, c = x['l'], st.ghost['c']
            i = simp(l.N - 1 - c) if rev else c
            st.prove(z3.ULT(c, l.N), 'visits no more than the elements')
            st.prove(a[0] == (l.E(i) if entry else l.E(i) + l.off), 'visits the next element in order')
            st.ghost['c'] = simp(c + 1)
            if safe:
                # the body may take the element out of the list and free it, and change nothing else
                nb = [simp(i - 1), simp(i + 1)]

                def keep(st, f, j, off, n):
                    return z3.And(j != i, *[j != b for b in nb]) if f is l.fe else False
                st.objhavoc(Havoc(keep=lambda st, f, j, off, n: (j != i) if f is l.fe else False), 'body')
            return None
        vc = mk(contracts=dict(visit=visit, visit_link=visit))
        st = vc.new_state()
        l = x['l'] = L(st, mod)
        st.foot = []
        st.ghost['c'] = bv(0)
        at = lambda c: l.link(simp(l.N - 1 - c)) if rev else l.link(c)

        def item(c):
            if rev:
                a = ite(c == l.N, l.H, l.E(simp(l.N - 1 - c)) + l.off)
            else:
                a = l.link(c)
            return simp(a - l.off) if entry else a

        def inv(st, g):
            c = st.ghost['c']
            return [('progress', z3.ULE(c, l.N)), ('position', st.local('i') == item(c))]

        def havoc(st, g):
            c = z3.BitVec('c', 64)
            st.ghost['c'] = c
            st.assume(z3.ULE(c, l.N))
            if safe:
                done = (lambda j: z3.UGE(j, l.N - c)) if rev else (lambda j: z3.ULT(j, c))
                st.objhavoc(Havoc(keep=lambda st, f, j, off, n: z3.Not(done(j)) if f is l.fe else False), 'bodies')
            st.set_local('i', item(c))
            return g
        vc.loops = {(fn, 0): Loop(inv, havoc=havoc, variant=lambda st, g: l.N - st.ghost['c'])}
        vc.verify(fn, [l.H], post=lambda st, v: st.prove(st.ghost['c'] == l.N, 'post:every element was visited once'))


iterating('foreach', 'rlist_foreach', False, False, False)
iterating('foreach_reverse', 'rlist_foreach_reverse', False, True, False)
iterating('foreach_entry', 'rlist_foreach_entry', True, False, False)
iterating('foreach_entry_reverse', 'rlist_foreach_entry_reverse', True, True, False)
iterating('foreach_entry_safe', 'rlist_foreach_entry_safe', True, False, True)
iterating('foreach_entry_safe_reverse', 'rlist_foreach_entry_safe_reverse', True, True, True)


def eproof(fn, macro, args, want):
    @proof(macro, 'P25', M, fns=[macro])
    def _(mk, mod):
        vc = mk()
        st = vc.new_state()
        l = L(st, mod)
        j = z3.BitVec('j', 64)
        st.assume(z3.ULT(j, l.N))
        st.meet(l.fe, j)
        st.foot = []
        vc.verify(fn, args(l, j), post=lambda st, r: st.prove(want(l, j, r), 'post:the entry'))


eproof('first_entry', 'rlist_first_entry', lambda l, j: [l.H], lambda l, j, r: r == l.E(bv(0)))
eproof('last_entry', 'rlist_last_entry', lambda l, j: [l.H], lambda l, j, r: r == l.E(simp(l.N - 1)))
eproof('next_entry', 'rlist_next_entry', lambda l, j: [l.E(j)], lambda l, j, r: r == simp(l.link(simp(j + 1)) - l.off))
eproof('prev_entry', 'rlist_prev_entry', lambda l, j: [l.E(j)], lambda l, j, r: r == simp(l.before(j) - l.off))
eproof('prev_entry_safe', 'rlist_prev_entry_safe', lambda l, j: [l.E(j), l.H],
       lambda l, j, r: r == z3.If(j == 0, bv(0), l.E(simp(j - 1))))
eproof('entry_of', 'rlist_entry', lambda l, j: [l.E(j) + l.off], lambda l, j, r: r == l.E(j) + l.off)
eproof('is_head', 'rlist_entry_is_head', lambda l, j: [l.E(j), l.H], lambda l, j, r: r == 0)
eproof('is_head', 'rlist_entry_is_head/of the head', lambda l, j: [l.H - l.off, l.H], lambda l, j, r: r != 0)


def editing(fn, macro, kind):
    """the _entry forms: the edit of the function they wrap, with the element's link"""
    @proof(macro, 'P25', M, fns=[macro])
    def _(mk, mod):
        vc = mk()
        st = vc.new_state()
        l = L(st, mod)
        j, k = z3.BitVec('j', 64), z3.BitVec('k', 64)
        st.assume(z3.ULT(k, l.N))
        st.meet(l.fe, k)
        if kind == 'add':
            e = z3.BitVec('item', 64)
            fi = st.fam(Fam('item', mod.struct_size('elem'), base=e))
            args = [l.H, e]
            st.foot = only(fi)
        else:
            st.assume(z3.ULT(j, l.N))
            st.meet(l.fe, j)
            e = l.E(j)
            args = [e] if kind == 'del' else [l.H] if kind == 'shift' else [l.H, e]
            st.foot = []
        if kind == 'shift':
            st.assume(j == (l.N - 1 if 'tail' in fn else 0))
        st.foot += only(l.fe, l.fh)
        tail = 'tail' in fn
        il = e + l.off

        def post(st, r):
            # the sequence without j (if it was in it), then the item first or last (if it goes in)
            out = kind != 'add'
            in_ = kind in ('add', 'move')
            lk = lambda i: l.link(i)
            nx0 = lambda i: ite(simp(i + 1) == j, lk(simp(j + 1)), lk(simp(i + 1))) if out else lk(simp(i + 1))
            pv0 = lambda i: ite(simp(i - 1) == j, l.before(j), l.before(i)) if out else l.before(i)
            first0 = ite(j == 0, lk(bv(1)), lk(bv(0))) if out else lk(bv(0))
            last0 = ite(j == l.N - 1, l.before(simp(l.N - 1)), l.before(l.N)) if out else l.before(l.N)
            ld = lambda a: st.load(a, 8)
            nk, pk = ld(l.E(k) + l.off + l.no), ld(l.E(k) + l.off + l.po)
            kl = l.E(k) + l.off
            hn, hp = ld(l.H + l.no), ld(l.H + l.po)
            c = z3.BoolVal(True) if kind == 'add' else k != j
            none = l.N == (1 if kind == 'move' else 0)      # no other elements
            if in_ and tail:
                wn, wp, wfirst, wlast = ite(last0 == kl, il, nx0(k)), pv0(k), ite(none, il, first0), il
                inx, ipv = l.H, last0
            elif in_:
                wn, wp, wfirst, wlast = nx0(k), ite(first0 == kl, il, pv0(k)), il, ite(none, il, last0)
                inx, ipv = first0, l.H
            else:
                wn, wp, wfirst, wlast = nx0(k), pv0(k), first0, last0
                inx = ipv = il
            st.prove(z3.Implies(c, nk == wn), 'post:next links')
            st.prove(z3.Implies(c, pk == wp), 'post:prev links')
            st.prove(hn == wfirst, 'post:first element')
            st.prove(hp == wlast, 'post:last element')
            st.prove(ld(il + l.no) == inx, 'post:next link of the item')
            st.prove(ld(il + l.po) == ipv, 'post:prev link of the item')
            if kind == 'shift':
                st.prove(r == e, 'post:the entry removed')
        vc.verify(fn, args, post=post)


editing('add_entry', 'rlist_add_entry', 'add')
editing('add_tail_entry', 'rlist_add_tail_entry', 'add')
editing('move_entry', 'rlist_move_entry', 'move')
editing('move_tail_entry', 'rlist_move_tail_entry', 'move')
editing('del_entry', 'rlist_del_entry', 'del')
editing('shift_entry', 'rlist_shift_entry', 'shift')
editing('shift_tail_entry', 'rlist_shift_tail_entry', 'shift')
