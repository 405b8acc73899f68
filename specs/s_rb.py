"""Contracts of the red-black tree (P23, P24), on the functions that rb_gen_ext_key_aug() generates (tu/rb.c, and
tu/rb_compact.c with RB_COMPACT); comparators, augmentation and callbacks are opaque.

Lookups (P24): a tree of any shape with N nodes is described by positions: X(p) is the node at position p of the sorted
sequence, and its subtree is the positions [a(p), b(p)).  So X(p) has a left child iff a(p) < p, namely the node L(p) with
subtree [a(p), p), and a right child iff p + 1 < b(p), namely R(p) with subtree [p + 1, b(p)).  D is the depth (1 at the
root; at most 88, which P23's balance gives for any number of nodes that fit into memory), PAR the parent, A(p, k) the ancestor of p at depth k + 1.
A key (or a node passed as a key) compares greater than the nodes at [0, lo), equal to those at [lo, hi), less than the
rest: that is what a comparator consistent with the order of the tree means."""
import z3
from smallvc.run import proof
from smallvc.engine import bv, Loop, simp, is_num, num
from smallvc.ir import Unsupported
from smallvc.heap import Fam, Havoc, B
from specs.common import under

ite = lambda c, a, b: simp(z3.If(c, a, b))
W32 = z3.BitVecSort(32)
ASSUMES = ['the comparators order the nodes consistently with the tree (a strict order, keys cut the sequence in less / equal / greater)',
           'height of the tree at most 88 (P23: at most 2 log2(N + 1), for N < 2^43 nodes)']


class T:
    def __init__(self, mk, mod, compact, loops=None, contracts=None, indirect=None):
        self.mod, self.compact = mod, compact
        self.lo_, self.hi_ = z3.BitVec('lo', 64), z3.BitVec('hi', 64)
        self.N, self.RT = z3.BitVec('N', 64), z3.BitVec('root_pos', 64)
        F = lambda n, *s: z3.Function(n, *s)
        self.X, self.a, self.b = F('X', B, B), F('a', B, B), F('b', B, B)
        self.L, self.R, self.PAR = F('L', B, B), F('R', B, B), F('PAR', B, B)
        self.D, self.A, self.RED, self.TAG = F('D', B, W32), F('A', B, B, B), F('RED', B, B), F('TAG', B, B)
        self.STALE = F('STALE', B, B)
        c = dict(cmp_nd=self.cmp, cmp_key=self.cmp)
        c.update(contracts or {})
        self.vc = mk(contracts=c, abstract=self.tag if compact else None, loops=loops or {}, indirect=indirect)
        st = self.st = self.vc.new_state()
        N, RT = self.N, self.RT
        self.lf, self.rf = mod.field('nd', 'link.rbn_left')[0], mod.field('nd', 'link.rbn_right_red' if compact else 'link.rbn_right')[0]
        self.red = None if compact else mod.field('nd', 'link.rbn_red')[0]
        st.assume(z3.ULT(N, bv(1 << 40)), z3.ULE(self.lo_, self.hi_), z3.ULE(self.hi_, N))
        st.assume(z3.Implies(N != 0, z3.And(z3.ULT(RT, N), self.a(RT) == 0, self.b(RT) == N, self.D(RT) == 1)))
        self.nodes = st.fam(Fam('node', mod.struct_size('nd'), fn=self.X, guard=lambda i: z3.ULT(i, N), facts=self.facts, cell=self.cell))
        self.tree = z3.BitVec('tree', 64)
        self.ft = st.fam(Fam('the tree', mod.struct_size('tree_t'), base=self.tree, cell=lambda st, i, off, n: self.ptr(N != 0, RT)))
        self.k = z3.BitVec('k', 64)     # any index of a path
        st.assume(z3.ULT(self.k, bv(self.mod_height())))

    # ---- the tree
    def ptr(self, c, p):
        return ite(c, self.X(simp(p)), bv(0))

    def facts(self, st, p):
        a, b, L, R, D, P = self.a, self.b, self.L, self.R, self.D, self.PAR
        out = [z3.ULE(a(p), p), z3.ULT(p, b(p)), z3.ULE(b(p), self.N), z3.ULE(bv(1, 32), D(p)), z3.ULE(D(p), bv(self.mod_height(), 32))]
        l, r = L(p), R(p)
        out.append(z3.Implies(a(p) != p, z3.And(z3.ULE(a(p), l), z3.ULT(l, p), a(l) == a(p), b(l) == p, P(l) == p, D(l) == D(p) + 1)))
        out.append(z3.Implies(p + 1 != b(p), z3.And(z3.ULT(p, r), z3.ULT(r, b(p)), a(r) == p + 1, b(r) == b(p), P(r) == p, D(r) == D(p) + 1)))
        # the parent
        q = P(p)
        isl = z3.And(a(q) == a(p), b(p) == q, z3.ULT(a(q), q), L(q) == p)
        isr = z3.And(b(q) == b(p), a(p) == q + 1, z3.ULT(q + 1, b(q)), R(q) == p)
        out.append(z3.Implies(p != self.RT, z3.And(z3.ULT(q, self.N), D(p) == D(q) + 1, z3.Or(isl, isr))))
        out.append((p == self.RT) == (D(p) == 1))
        out.append(self.A(p, simp(z3.ZeroExt(32, D(p)) - 1)) == p)
        out.append(z3.ULE(self.RED(p), bv(1)))
        return out

    def up(self, p, k):
        """instances of the recursion of A"""
        d = z3.ZeroExt(32, self.D(p)) - 1
        return z3.And(z3.Implies(z3.ULT(k, d), self.A(p, k) == self.A(self.PAR(p), k)), z3.Implies(k == d, self.A(p, k) == p))

    def mod_height(self):
        # fewer than 2^43 nodes of 16 bytes or more fit into the address space: a balanced tree is not higher than this
        return 88

    def left(self, p):
        return ite(self.a(p) != p, self.X(self.L(p)), bv(0))

    def right(self, p):
        return ite(simp(p + 1) != self.b(p), self.X(self.R(p)), bv(0))

    def cell(self, st, p, off, n):
        if is_num(off) and n == 8:
            if num(off) == self.lf:
                return self.left(p)
            if num(off) == self.rf:
                return self.TAG(p) if self.compact else self.right(p)
        if is_num(off) and num(off) == self.red and n == 1:
            return z3.Extract(7, 0, self.RED(p))
        return None

    def tag(self, op, x, y):
        """RB_COMPACT: the word that holds the right child and the colour (lemma: tag_lemma)"""
        if op == 'and' and z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.decl().eq(self.TAG) and is_num(y):
            if num(y) == (1 << 64) - 2:
                return self.right(x.arg(0))
            if num(y) == 1:
                return self.RED(x.arg(0))
        return None

    def pos(self, st, e):
        e, c = st.vc.pure(st, simp(e))
        if z3.is_app(e) and e.decl().eq(self.X):
            return e.arg(0)
        raise Unsupported('comparison of something that is not a node of the tree')

    def cmp(self, vc, st, a):
        t = self.pos(st, a[1])
        st.prove(z3.ULT(t, self.N), 'pre(comparator):a node of the tree')
        st.prove(a[0] == self.arg, 'pre(comparator):compares the argument')
        r = vc.fresh('cmp', 32)
        st.assume((r == 0) == z3.And(z3.ULE(self.lo_, t), z3.ULT(t, self.hi_)), (r > 0) == z3.ULT(t, self.lo_))
        return r

    def find_key(self, st, fn):
        """the argument of a search: a key, or any node"""
        if 'search' in fn:
            self.arg = z3.BitVec('key', 32)
        else:
            self.arg = z3.BitVec('arg', 64)
        return self.arg

    # ---- descents
    def cur(self, st, g, var):
        return st.local(var) == ite(g['ca'] == g['cb'], bv(0), self.X(g['t']))

    def interval(self, st, g):
        return z3.And(z3.ULE(g['ca'], g['cb']), z3.ULE(g['cb'], self.N), z3.Implies(g['ca'] != g['cb'], z3.And(
            z3.ULT(g['t'], self.N), self.a(g['t']) == g['ca'], self.b(g['t']) == g['cb'])))

    def descent(self, var, inv, eq=None, extra=None, hav=None, nonnull=False):
        """loop that goes down comparing with the argument; eq: the direction on equality (None: the loop is left)"""
        x = self

        def init(st):
            return dict(ca=bv(0), cb=x.N, t=x.RT)

        def havoc(st, g):
            g = dict((n, st.vc.fresh(n)) for n in ('ca', 'cb', 't'))
            st.assume(x.interval(st, g))
            if nonnull:
                st.assume(g['ca'] != g['cb'])
            st.set_local(var, x.X(g['t']) if nonnull else ite(g['ca'] == g['cb'], bv(0), x.X(g['t'])))
            if hav:
                hav(st, g)
            return g

        def step(st, g):
            t = g['t']
            r = z3.ULT(t, x.lo_)
            if eq == 'right':
                r = z3.ULT(t, x.hi_)
            return dict(ca=ite(r, simp(t + 1), g['ca']), cb=ite(r, g['cb'], t), t=ite(r, x.R(t), x.L(t)), old=t)

        def iv(st, g):
            out = [('the search interval', x.interval(st, g)), ('the node', x.cur(st, g, var))]
            if nonnull:
                out.append(('a node', g['ca'] != g['cb']))
            return out + inv(st, g)
        return Loop(iv, init=init, havoc=havoc, step=step, variant=lambda st, g: g['cb'] - g['ca'])

    def cell_it(self, top, count):
        """iterator whose path is that of position top (count entries)"""
        cnt_off = self.mod.field('t_iterator', 'count')[0]

        def cell(st, i, off, n):
            if is_num(off) and num(off) == cnt_off and n == 4:
                return count
            if n == 8:
                k = bv(num(off) // 8) if is_num(off) else st.vc.exact_div(off, 8)
                if k is None:
                    return None
                d = z3.ZeroExt(32, self.D(top))
                if st.must(k == d - 1):
                    return self.X(top)
                if st.must(z3.ULT(k, z3.ZeroExt(32, count))):
                    if st.must(k == d - 2):
                        return self.X(self.PAR(top))
                    return self.X(self.A(top, simp(k)))
                return z3.If(z3.ULT(k, z3.ZeroExt(32, count)), self.X(self.A(top, simp(k))), self.STALE(simp(k)))
            return None
        return cell

    def iterator(self, top=None, count=None):
        self.it = z3.BitVec('it', 64)
        self.fi = self.st.fam(Fam('iterator', self.mod.struct_size('t_iterator'), base=self.it,
                                  cell=None if count is None else self.cell_it(top, count)))
        self.st.foot = [('obj', self.fi, lambda i, off, n: True)]

    def havoc_it(self, st, top, count):
        c = self.cell_it(top, count)
        st.objhavoc(Havoc(keep=lambda st, f, i, off, n: z3.BoolVal(f is not self.fi), cell=lambda st, f, i, off, n: c(st, i, off, n) if f is self.fi else None), 'it')

    def count(self, st):
        return st.get(self.it, 't_iterator', 'count')

    def path_is(self, st, top, count, what='the path'):
        """for every k < count, path[k] is the ancestor of top at that depth"""
        k = self.k
        out = []
        v = st.load(simp(self.it + 8 * k), 8)
        return (what, v == self.X(self.A(top, k)))


def check_path(x, st, top, count, label):
    """prove: the iterator holds the path of position top (count nodes)"""
    for f in under(st, z3.ULT(x.k, z3.ZeroExt(32, count))):
        f.prove(f.load(simp(x.it + 8 * x.k), 8) == x.X(x.A(top, x.k)), label)


def rbproof(fn, *names, assumes=()):
    def deco(body):
        for compact in (False, True):
            @proof(fn + ('_compact' if compact else ''), 'P24', 'rb_compact' if compact else 'rb', fns=[n.replace('t_', 'rb_') for n in names or (fn,)],
                   assumes=ASSUMES + list(assumes))
            def _(mk, mod, compact=compact):
                body(mk, mod, compact)
        return body
    return deco


@proof('rb_tag_lemma', 'P24', 'rb_compact', fns=['rbtn_right_get', 'rbtn_red_get'])
def _(mk, mod):
    vc = mk(bits=True)
    st = vc.new_state()
    p, r = z3.BitVecs('p r', 64)
    st.assume(p & 7 == 0, z3.ULE(r, bv(1)))
    st.prove((p | r) & bv((1 << 64) - 2) == p, 'lemma:the right child')
    st.prove((p | r) & bv(1) == r, 'lemma:the colour')
    tree = z3.BitVec('tree', 64)
    st.fam(Fam('the tree', mod.struct_size('tree_t'), base=tree))
    vc.verify('t_new', [tree], post=lambda st, r: st.prove(st.get(tree, 'tree_t', 'rbt_root') == 0, 'post:an empty tree'))


@rbproof('t_empty')
def _(mk, mod, compact):
    x = T(mk, mod, compact)
    x.st.foot = []
    x.vc.verify('t_empty', [x.tree], post=lambda st, r: st.prove((r if z3.is_bool(r) else r & 1 == 1) == (x.N == 0), 'post:empty iff no node'))


def result(x, st, r, c, p, what):
    st.prove(r == ite(c, x.X(simp(p)), bv(0)), what)


for fn, first in (('t_first', True), ('t_last', False)):
    def _(mk, mod, compact, fn=fn, first=first):
        x = T(mk, mod, compact)
        x.st.foot = []

        def havoc(st, g):
            u = st.vc.fresh('u')
            st.assume(z3.ULT(u, x.N))
            st.set_local('ret', x.X(u))
            return dict(u=u)
        x.vc.loops = {(fn, 0): Loop(
            lambda st, g: [('the node', z3.And(z3.ULT(g['u'], x.N), st.local('ret') == x.X(g['u']))),
                           ('an edge of the tree', (x.a(g['u']) == 0) if first else (x.b(g['u']) == x.N))],
            init=lambda st: dict(u=x.RT), havoc=havoc, step=lambda st, g: dict(u=x.L(g['u']) if first else x.R(g['u'])),
            variant=lambda st, g: x.b(g['u']) - x.a(g['u']))}
        x.vc.verify(fn, [x.tree], post=lambda st, r: result(x, st, r, x.N != 0, bv(0) if first else x.N - 1, 'post:the %s node, none in an empty tree' % fn[2:]))
    rbproof(fn)(_)


for fn, nxt in (('t_next', True), ('t_prev', False)):
    def _(mk, mod, compact, fn=fn, nxt=nxt):
        x = T(mk, mod, compact)
        st = x.st
        st.foot = []
        q = z3.BitVec('q', 64)
        st.assume(z3.ULT(q, x.N), x.lo_ == q, x.hi_ == q + 1)
        st.meet(x.nodes, q)
        x.arg = x.X(q)

        def havoc(st, g):
            u = st.vc.fresh('u')
            st.assume(z3.ULT(u, x.N))
            st.set_local('ret', x.X(u))
            return dict(u=u)
        x.vc.loops = {(fn, 0): Loop(
            lambda st, g: [('the node', z3.And(z3.ULT(g['u'], x.N), st.local('ret') == x.X(g['u']))),
                           ('an edge of the subtree', (x.a(g['u']) == q + 1) if nxt else (x.b(g['u']) == q))],
            init=lambda st: dict(u=x.R(q) if nxt else x.L(q)), havoc=havoc, step=lambda st, g: dict(u=x.L(g['u']) if nxt else x.R(g['u'])),
            variant=lambda st, g: x.b(g['u']) - x.a(g['u'])),
            (fn, 1): x.descent('tnode', lambda st, g: [
                ('node in the interval', z3.And(z3.ULE(g['ca'], q), z3.ULT(q, g['cb']))),
                ('the candidate', st.local('ret') == (x.ptr(g['cb'] != x.N, g['cb']) if nxt else x.ptr(g['ca'] != 0, g['ca'] - 1)))], nonnull=True)}
        x.vc.verify(fn, [x.tree, x.X(q)], post=lambda st, r: result(x, st, r, (q + 1 != x.N) if nxt else (q != 0), q + 1 if nxt else q - 1,
                                                                       'post:the neighbour in the sorted sequence, none at its end'))
    rbproof(fn)(_)


@rbproof('t_search')
def _(mk, mod, compact):
    x = T(mk, mod, compact)
    x.st.foot = []
    k = x.find_key(x.st, 'search')
    x.vc.loops = {('t_search', 0): x.descent('ret', lambda st, g: [('what is equal is in the interval', z3.And(
        z3.Implies(x.lo_ != x.hi_, z3.And(z3.ULE(g['ca'], x.lo_), z3.ULE(x.hi_, g['cb'])))))])}

    def post(st, r):
        for f in under(st, x.lo_ == x.hi_):
            f.prove(r == 0, 'post:none if the key is absent')
        for f in under(st, x.lo_ != x.hi_):
            f.prove(r != 0, 'post:found if the key is present')
            t = x.pos(f, r)
            f.prove(z3.And(z3.ULE(x.lo_, t), z3.ULT(t, x.hi_)), 'post:an equal node')
    x.vc.verify('t_search', [x.tree, k], post=post)


for fn, eq in (('t_nsearch', 'right'), ('t_psearch', 'left')):
    def _(mk, mod, compact, fn=fn, eq=eq):
        x = T(mk, mod, compact)
        x.st.foot = []
        k = x.find_key(x.st, 'search')

        def inv(st, g):
            ca, cb = g['ca'], g['cb']
            if eq == 'right':
                return [('bounds', z3.And(z3.ULE(ca, x.hi_), z3.ULE(x.hi_, cb))),
                        ('the candidates', z3.And(st.local('next') == x.ptr(cb != x.N, cb),
                                                  st.local('ret') == x.ptr(z3.ULT(x.lo_, ca), ca - 1)))]
            return [('bounds', z3.And(z3.ULE(ca, x.lo_), z3.ULE(x.lo_, cb))),
                    ('the candidates', z3.And(st.local('prev') == x.ptr(ca != 0, ca - 1),
                                              st.local('ret') == x.ptr(z3.ULT(cb, x.hi_), cb)))]

        def hav(st, g):
            ca, cb = g['ca'], g['cb']
            if eq == 'right':
                st.set_local('next', x.ptr(cb != x.N, cb))
                st.set_local('ret', x.ptr(z3.ULT(x.lo_, ca), ca - 1))
            else:
                st.set_local('prev', x.ptr(ca != 0, ca - 1))
                st.set_local('ret', x.ptr(z3.ULT(cb, x.hi_), cb))
        x.vc.loops = {(fn, 0): x.descent('tnode', inv, eq=eq, hav=hav)}

        def post(st, r):
            for f in under(st, x.lo_ != x.hi_):
                f.prove(z3.Or(r == x.X(simp(x.hi_ - 1)), r == x.X(x.lo_)), 'post:an equal node if there is one')
            for f in under(st, x.lo_ == x.hi_):
                if eq == 'right':
                    result(x, f, r, x.hi_ != x.N, x.hi_, 'post:else the least greater node, none if there is none')
                else:
                    result(x, f, r, x.lo_ != 0, x.lo_ - 1, 'post:else the greatest lesser node, none if there is none')
        x.vc.verify(fn, [x.tree, k], post=post)
    rbproof(fn)(_)


# ------------------------------------------------------------ iterators

def edge(fn, first):
    def _(mk, mod, compact):
        x = T(mk, mod, compact)
        x.iterator()
        st = x.st
        w = bv(0) if first else x.N - 1

        def havoc(st, g):
            u = st.vc.fresh('u')
            st.assume(z3.ULT(u, x.N))
            st.meet(x.nodes, u)
            st.assume(x.up(u, x.k))
            st.set_local('cur', x.X(u))
            x.havoc_it(st, x.PAR(u), x.D(u) - 1)
            return dict(u=u)
        x.vc.loops = {(fn, 0): x.down(havoc, lambda g: (x.a(g['u']) == 0) if first else (x.b(g['u']) == x.N), first, lambda: x.RT)}

        def post(st, r):
            for f in under(st, x.N == 0):
                f.prove(x.count(f) == 0, 'post:an empty tree has no position')
            for f in under(st, x.N != 0):
                x.at(f, simp(w), 'post:at the %s node' % ('first' if first else 'last'))
        x.vc.verify(fn, [x.tree, x.it], post=post)
    rbproof(fn)(_)


def _down(x, havoc, on_edge, first, start):
    """the loop that pushes a node and its left (right) descendants"""
    def inv(st, g):
        u = g['u']
        return [('the node', z3.And(z3.ULT(u, x.N), st.local('cur') == x.X(u), on_edge(g))),
                ('the depth', x.count(st) == x.D(u) - 1),
                ('the path', z3.Implies(z3.ULT(x.k, z3.ZeroExt(32, x.D(u) - 1)), x.entry(st) == x.X(x.A(x.PAR(u), x.k))))]
    return Loop(inv, init=lambda st: dict(u=start()), havoc=havoc, step=lambda st, g: dict(u=x.L(g['u']) if first else x.R(g['u'])),
                variant=lambda st, g: x.b(g['u']) - x.a(g['u']))


def _entry(x, st):
    """path[k]; any value beyond the array"""
    if st.must(z3.ULT(x.k, bv(x.mod_height()))):
        return st.load(simp(x.it + 8 * x.k), 8)
    return z3.BitVec('beyond', 64)


def _at(x, st, w, what, c=None):
    """the iterator is at position w"""
    st.meet(x.nodes, w)
    st.prove(x.count(st) == x.D(w), what + ' (depth)')
    st.prove(x.A(w, simp(z3.ZeroExt(32, x.D(w)) - 1)) == w, what + ' (last of the path)')
    for f in under(st, z3.ULT(x.k, z3.ZeroExt(32, x.D(w)))):
        f.assume(x.up(w, x.k))
        f.prove(x.entry(f) == x.X(x.A(w, x.k)), what + ' (path)')


T.down, T.entry, T.at = _down, _entry, _at
edge('t_ifirst', True)
edge('t_ilast', False)


def moving(fn, nxt):
    def _(mk, mod, compact):
        x = T(mk, mod, compact)
        st = x.st
        c = z3.BitVec('c', 64)
        st.assume(z3.ULT(c, x.N))
        st.meet(x.nodes, c)
        x.iterator(c, x.D(c))

        def havoc(st, g):
            u = st.vc.fresh('u')
            st.assume(z3.ULT(u, x.N))
            st.meet(x.nodes, u)
            st.assume(x.up(u, x.k))
            st.set_local('cur', x.X(u))
            x.havoc_it(st, x.PAR(u), x.D(u) - 1)
            return dict(u=u)

        def havoc_up(st, g):
            u = st.vc.fresh('v')
            st.assume(z3.ULT(u, x.N))
            st.meet(x.nodes, u)
            st.assume(x.up(u, x.k))
            x.havoc_it(st, u, x.D(u))
            return dict(u=u)

        def inv_up(st, g):
            u = g['u']
            return [('a node', z3.And(z3.ULT(u, x.N), (x.b(u) == c + 1) if nxt else (x.a(u) == c))),
                    ('the depth', x.count(st) == x.D(u)),
                    ('the path', z3.Implies(z3.ULT(x.k, z3.ZeroExt(32, x.D(u))), x.entry(st) == x.X(x.A(u, x.k))))]
        x.vc.loops = {(fn, 0): x.down(havoc, lambda g: (x.a(g['u']) == c + 1) if nxt else (x.b(g['u']) == c), nxt, lambda: x.R(c) if nxt else x.L(c)),
                      (fn, 1): Loop(inv_up, init=lambda st: dict(u=c), havoc=havoc_up, step=lambda st, g: dict(u=x.PAR(g['u'])),
                                    variant=lambda st, g: z3.ZeroExt(32, x.D(g['u'])))}
        st.assume(x.up(c, x.k))

        def post(st, r):
            st.prove(r == x.X(c), 'post:returns the node the iterator is at')
            last = (c + 1 == x.N) if nxt else (c == 0)
            for f in under(st, last):
                f.prove(x.count(f) == 0, 'post:no position after the last node')
            for f in under(st, z3.Not(last)):
                x.at(f, simp(c + 1) if nxt else simp(c - 1), 'post:at the neighbour in the sorted sequence')
        x.vc.verify(fn, [x.it], post=post)
    rbproof(fn)(_)

    def _(mk, mod, compact):
        x = T(mk, mod, compact)
        x.iterator(bv(0), bv(0, 32))
        x.st.foot = []
        x.vc.verify(fn, [x.it], post=lambda st, r: st.prove(r == 0, 'post:an iterator without position yields none'))
    rbproof(fn + '_end', fn)(_)


moving('t_inext', True)
moving('t_iprev', False)


@rbproof('t_iterator_get')
def _(mk, mod, compact):
    x = T(mk, mod, compact)
    st = x.st
    c = z3.BitVec('c', 64)
    none = z3.Bool('none')
    st.assume(z3.ULT(c, x.N))
    st.meet(x.nodes, c)
    x.iterator(c, simp(z3.If(none, bv(0, 32), x.D(c))))
    x.st.foot = []
    x.vc.verify('t_iterator_get', [x.it], post=lambda st, r: st.prove(r == z3.If(none, bv(0), x.X(c)), 'post:the node the iterator is at'))


def isearching(fn, eq, mark):
    """mark(x): (exists, position) of the result; eq: where the descent goes on equality (None: it ends there)"""
    def _(mk, mod, compact):
        x = T(mk, mod, compact)
        st = x.st
        x.iterator()
        key = x.find_key(st, fn)
        if fn == 't_icreate':
            # a node taken as a key compares equal to at most one node
            st.assume(z3.ULE(x.hi_ - x.lo_, bv(1)))

        # s: the node pushed last (none at first); l, r: nodes next to the interval
        def last(st, g):
            return ite(g['first'], bv(0, 32), x.D(g['s']))

        def anc(g, p, c):
            """position p, if c, is on the path of s"""
            s = g['s']
            return z3.Implies(c, z3.And(z3.ULT(p, x.N), z3.Not(g['first']), z3.ULE(x.D(p), x.D(s)),
                                        z3.Implies(z3.ULT(x.k, z3.ZeroExt(32, x.D(p))), x.A(s, x.k) == x.A(p, x.k))))

        def init(st):
            return dict(ca=bv(0), cb=x.N, t=x.RT, s=bv(0), first=z3.BoolVal(True))

        def havoc(st, g):
            g = dict((n, st.vc.fresh(n)) for n in ('ca', 'cb', 't', 's'))
            g['first'] = z3.Bool(st.vc.fresh_id('first'))
            st.assume(x.interval(st, g), z3.Implies(z3.Not(g['first']), z3.ULT(g['s'], x.N)), z3.Implies(g['first'], g['s'] == 0))
            for c, p in ((g['ca'] != g['cb'], g['t']), (z3.Not(g['first']), g['s']), (g['ca'] != 0, simp(g['ca'] - 1)), (g['cb'] != x.N, g['cb'])):
                # facts of the nodes next to the interval
                st.assume(*[z3.Implies(z3.And(c, z3.ULT(p, x.N)), z3.And(*x.facts(st, p), x.up(p, x.k)))])
            st.set_local('cur', ite(g['ca'] == g['cb'], bv(0), x.X(g['t'])))
            c = x.cell_it(g['s'], last(st, g))
            x.havoc_it(st, g['s'], last(st, g))
            marks(st, g, True)
            return g

        def marks(st, g, put=False):
            ca, cb = g['ca'], g['cb']
            lp, rp = ite(ca != 0, x.D(simp(ca - 1)), bv(0, 32)), ite(cb != x.N, x.D(cb), bv(0, 32))
            want = {}
            if fn in ('t_isearch_le', 't_isearch_lt'):
                want['prev_count'] = lp
            if fn in ('t_isearch_ge', 't_isearch_gt'):
                want['next_count'] = rp
            if fn == 't_isearch_le':
                # the last candidate below or equal is the node before the interval
                want['prev_count'] = None
                want['ret_count'] = ite(z3.ULT(x.lo_, ca), lp, bv((1 << 32) - 1, 32))
            if fn == 't_isearch_ge':
                want['next_count'] = None
                want['ret_count'] = ite(z3.ULT(cb, x.hi_), rp, bv((1 << 32) - 1, 32))
            out = []
            for n, v in want.items():
                if v is None:
                    # only its value when nothing equal was met matters
                    c = z3.Not(z3.ULT(x.lo_, ca)) if n == 'prev_count' else z3.Not(z3.ULT(cb, x.hi_))
                    v = lp if n == 'prev_count' else rp
                    out.append(('the count kept in ' + n, z3.Implies(c, st.local(n) == v)))
                elif put:
                    st.set_local(n, v)
                else:
                    out.append(('the count kept in ' + n, st.local(n) == v))
            return out

        def step(st, g):
            t = g['t']
            r = z3.ULT(t, x.hi_ if eq == 'right' else x.lo_)
            return dict(ca=ite(r, simp(t + 1), g['ca']), cb=ite(r, g['cb'], t), t=ite(r, x.R(t), x.L(t)), s=t, first=z3.BoolVal(False))

        def inv(st, g):
            ca, cb, t, s = g['ca'], g['cb'], g['t'], g['s']
            first = g['first']
            kk = z3.ZeroExt(32, last(st, g))
            b = z3.And(z3.ULE(ca, x.lo_), z3.ULE(x.hi_, cb)) if eq is None else z3.And(z3.ULE(ca, x.hi_), z3.ULE(x.hi_, cb)) if eq == 'right' else \
                z3.And(z3.ULE(ca, x.lo_), z3.ULE(x.lo_, cb))
            if eq is None:
                b = z3.And(z3.Implies(x.lo_ != x.hi_, b))
            return [('the search interval', x.interval(st, g)), ('the node', x.cur(st, g, 'cur')), ('bounds', b),
                    ('the node pushed last', z3.And(z3.Implies(z3.Not(first), z3.ULT(s, x.N)), z3.Implies(ca != cb, z3.If(first, t == x.RT, z3.And(t != x.RT, x.PAR(t) == s))))),
                    ('first', z3.Implies(first, z3.And(ca == 0, cb == x.N))),
                    ('the depth', x.count(st) == last(st, g)),
                    ('the path', z3.Implies(z3.ULT(x.k, kk), x.entry(st) == x.X(x.A(s, x.k)))),
                    ('left neighbour on the path', anc(g, simp(ca - 1), ca != 0)),
                    ('right neighbour on the path', anc(g, cb, cb != x.N))] + marks(st, g)
        x.vc.loops = {(fn, 0): Loop(inv, init=init, havoc=havoc, step=step, variant=lambda st, g: g['cb'] - g['ca'])}

        def post(st, r):
            if mark is None:
                f_ = r if z3.is_bool(r) else r & 1 == 1
                st.prove(f_ == (x.lo_ != x.hi_), 'post:found iff the key is present')
                for f in under(st, x.lo_ == x.hi_):
                    f.prove(x.count(f) == 0, 'post:no position if the key is absent')
                for f in under(st, x.lo_ != x.hi_):
                    n = x.count(f)
                    f.prove(n != 0, 'post:a position')
                    f.prove(z3.ULE(n, bv(x.mod_height(), 32)), 'post:within the path')
                    t = x.pos(f, f.load(simp(x.it + 8 * z3.ZeroExt(32, n - 1)), 8))
                    f.prove(z3.And(z3.ULE(x.lo_, t), z3.ULT(t, x.hi_)), 'post:at an equal node')
                    f.assume(x.up(t, x.k))
                    x.at(f, t, 'post:at an equal node')
                return
            c, w = mark(x)
            for f in under(st, z3.Not(c)):
                f.prove(x.count(f) == 0, 'post:no position if there is no such node')
            for f in under(st, c):
                x.at(f, simp(w), 'post:at the node that the sorted sequence dictates')
        x.vc.verify(fn, [x.tree, key, x.it], post=post)
    rbproof(fn)(_)


isearching('t_icreate', None, None)
isearching('t_isearch', None, None)
isearching('t_isearch_le', 'right', lambda x: (x.hi_ != 0, x.hi_ - 1))
isearching('t_isearch_ge', 'left', lambda x: (x.lo_ != x.N, x.lo_))
isearching('t_isearch_lt', 'left', lambda x: (x.lo_ != 0, x.lo_ - 1))
isearching('t_isearch_gt', 'right', lambda x: (x.hi_ != x.N, x.hi_))


# ------------------------------------------------------------ callbacks

def callbacks(fwd):
    pre = 't_' if fwd else 't_reverse_'
    rec, start, top = pre + 'iter_recurse', pre + 'iter_start', pre + 'iter'

    def make(mk, mod, compact):
        """ghosts: cur: how many nodes (in the order of the walk) come before the next one; ret: what the callback
        returned last; n: the walk's position of a tree position"""
        x = T(mk, mod, compact)
        st = x.st
        st.foot = []
        x.cbarg, x.cb = z3.BitVecs('cbarg cb', 64)
        x.arg = z3.BitVec('start', 64)
        st.ghost['cur'] = z3.BitVec('cur0', 64)
        st.ghost['ret'] = bv(0)
        x.begin = (lambda p: x.a(p)) if fwd else (lambda p: x.N - x.b(p))
        x.end = (lambda p: x.b(p)) if fwd else (lambda p: x.N - x.a(p))
        x.order = (lambda p: p) if fwd else (lambda p: x.N - 1 - p)

        def indirect(vc, st, tgt, args, where):
            st.prove(tgt == x.cb, 'pre(callback):the callback given')
            st.prove(args[0] == x.tree, 'pre(callback):the tree')
            st.prove(args[2] == x.cbarg, 'pre(callback):the argument given')
            st.prove(st.ghost['ret'] == 0, 'pre(callback):not called again after it asked to stop')
            t = x.pos(st, args[1])
            st.prove(x.order(t) == st.ghost['cur'], 'pre(callback):the next node of the walk')
            st.ghost['cur'] = simp(st.ghost['cur'] + 1)
            r = vc.fresh('cb')
            st.ghost['ret'] = r
            return r
        x.vc.indirect = indirect

        def called(kind):
            def c(vc, st, args):
                if kind == 'rec':
                    tree, node, cb, arg = args
                else:
                    tree, s, node, cb, arg = args
                    st.prove(s == x.arg, 'pre(%s):the start' % kind)
                st.prove(z3.And(tree == x.tree, cb == x.cb, arg == x.cbarg), 'pre(%s):the arguments are passed on' % kind)
                st.prove(st.ghost['ret'] == 0, 'pre(%s):not after the callback asked to stop' % kind)
                c0 = st.ghost['cur']
                node = simp(node)
                if not (is_num(node) or z3.is_app_of(node, z3.Z3_OP_ITE) or z3.is_app(node) and node.decl().eq(x.X)):
                    raise Unsupported('recursion on something that is not a node of the tree')
                null = node == 0
                if z3.is_app_of(node, z3.Z3_OP_ITE):
                    # a node is never at address 0
                    c, u, v = node.children()
                    null = z3.If(c, is_num(u) and num(u) == 0, is_num(v) and num(v) == 0)
                elif not is_num(node):
                    null = z3.BoolVal(False)

                def none(s):
                    s.assume(null)
                    if kind != 'rec':
                        s.prove(z3.BoolVal(False), 'pre(%s):a node' % kind)
                    s.ghost['ret'] = bv(0)
                    return bv(0)

                def some(s):
                    s.assume(z3.Not(null))
                    p = x.pos(s, node)
                    s.prove(z3.ULT(p, x.N), 'pre(%s):a node of the tree' % kind)
                    s.prove(z3.ULT(x.b(p) - x.a(p), s.ghost['size']), 'pre(%s):a smaller subtree' % kind)
                    if kind == 'rec':
                        s.prove(c0 == x.begin(p), 'pre(rec):the next nodes of the walk')
                    else:
                        s.prove(z3.And(z3.ULE(x.a(p), x.q), z3.ULT(x.q, x.b(p))), 'pre(start):the start is in the subtree')
                        s.prove(c0 == x.order(x.q), 'pre(start):nothing visited yet')
                    r, c1 = vc.fresh('ret'), vc.fresh('cur')
                    s.assume(z3.Implies(r == 0, c1 == x.end(p)))
                    s.ghost['ret'], s.ghost['cur'] = r, c1
                    return r
                return [('null', none), ('node', some)]
            return c
        x.vc.contracts[rec] = called('rec')
        x.vc.contracts[start] = called('start')
        return x

    def done(x, st, r, end):
        st.prove(r == st.ghost['ret'], 'post:returns what stopped the walk, else null')
        st.prove(z3.Implies(r == 0, st.ghost['cur'] == end), 'post:every node of the range was visited once, in order')

    def _(mk, mod, compact):
        x = make(mk, mod, compact)
        st = x.st
        p = z3.BitVec('p', 64)
        null = z3.Bool('no_node')
        st.assume(z3.ULT(p, x.N))
        st.meet(x.nodes, p)
        st.assume(st.ghost['cur'] == x.begin(p))
        st.ghost['size'] = x.b(p) - x.a(p)
        x.vc.verify(rec, [x.tree, z3.If(null, bv(0), x.X(p)), x.cb, x.cbarg],
                    post=lambda st, r: done(x, st, r, z3.If(null, x.begin(p), x.end(p))))
    rbproof(rec)(_)

    def _(mk, mod, compact):
        x = make(mk, mod, compact)
        st = x.st
        p, q = z3.BitVecs('p q', 64)
        x.q = q
        st.assume(z3.ULT(p, x.N))
        st.meet(x.nodes, p)
        st.assume(z3.ULE(x.a(p), q), z3.ULT(q, x.b(p)), x.lo_ == q, x.hi_ == q + 1, st.ghost['cur'] == x.order(q))
        st.ghost['size'] = x.b(p) - x.a(p)
        x.vc.verify(start, [x.tree, x.arg, x.X(p), x.cb, x.cbarg], post=lambda st, r: done(x, st, r, x.end(p)))
    rbproof(start)(_)

    def _(mk, mod, compact):
        x = make(mk, mod, compact)
        st = x.st
        q = z3.BitVec('q', 64)
        x.q = q
        null = z3.Bool('from_the_end')
        st.assume(z3.Or(null, z3.And(z3.ULT(q, x.N), x.lo_ == q, x.hi_ == q + 1)), x.arg != 0,
                  st.ghost['cur'] == z3.If(null, bv(0), x.order(q)))
        st.ghost['size'] = x.N + 1
        x.vc.verify(top, [x.tree, z3.If(null, bv(0), x.arg), x.cb, x.cbarg], post=lambda st, r: done(x, st, r, x.N))
    rbproof(top)(_)


callbacks(True)
callbacks(False)
