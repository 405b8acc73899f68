"""smallvc: a contract verifier for C functions, over the LLVM IR of /repo's current source.

Every function under contract is executed symbolically from an arbitrary state satisfying its
precondition.  Calls are replaced by the callee's contract where one is given (precondition is an
obligation, frame is havocked, postcondition assumed) and executed in place otherwise.  Loops are cut
at their invariant where one is given and otherwise unwound until the solver shows that no further
iteration exists (an unwinding limit makes the proof *unsupported*, never accepted).
Memory is flat, byte addressed, 64 bit; integers are machine words (bit vectors), so overflow,
truncation and masks have their real meaning.
"""
import os
import time
import z3
from . import lia
from .heap import Fam, Havoc, addends, total
from .ir import (Unsupported, Module, Int, Ptr, Void, Float, Arr, Struct)

BV64 = z3.BitVecSort(64)
STACK_LO = 0x7ffe00000000
STACK_HI = 0x7fff00000000
# effort per question, in solver steps, so that answers do not depend on how busy the machine is (and a wall clock limit behind it)
INC_STEPS = int(os.environ.get('VC_INC', '1500000'))
INC_TIMEOUT = 20000
POSS_TIMEOUT = int(os.environ.get('VC_POSS', '800'))


z3.set_param('rewriter.bv_le2extract', False)


def bv(v, n=64):
    return z3.BitVecVal(v, n)


def simp(e):
    return z3.simplify(e, bv_le2extract=False)


def is_num(e):
    return z3.is_bv_value(e)


def num(e):
    return e.as_long()


_dec_cache = {}


def decomp(e):
    """(base expr or None, const) with e == base + const."""
    k = e.get_id()
    r = _dec_cache.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_bv_value(e):
        r = (None, e.as_long())
    elif z3.is_app_of(e, z3.Z3_OP_BADD):
        ch = e.children()
        c = 0
        rest = []
        for x in ch:
            b, o = decomp(x) if (z3.is_app_of(x, z3.Z3_OP_BADD) or z3.is_bv_value(x)) else (x, 0)
            c += o
            if b is not None:
                rest.append(b)
        if not rest:
            r = (None, c & (2 ** 64 - 1))
        else:
            b = rest[0]
            for x in rest[1:]:
                b = b + x
            if len(rest) > 1:
                b = z3.simplify(b)
            r = (b, c & (2 ** 64 - 1))
    else:
        r = (e, 0)
    _dec_cache[k] = (e, r)
    return r


class Node:
    __slots__ = ('kind', 'parent', 'a', 'n', 'v', 'x')

    def __init__(self, kind, parent, a=None, n=None, v=None, x=None):
        self.kind, self.parent, self.a, self.n, self.v, self.x = kind, parent, a, n, v, x


class Frame:
    __slots__ = ('f', 'block', 'prev', 'i', 'regs', 'vars', 'addrs', 'ret_to', 'loops', 'uid')

    def copy(self):
        g = Frame()
        g.f, g.block, g.prev, g.i = self.f, self.block, self.prev, self.i
        g.regs, g.vars, g.addrs = dict(self.regs), dict(self.vars), self.addrs
        g.ret_to, g.loops, g.uid = self.ret_to, dict(self.loops), self.uid
        return g


class State:
    def __init__(self, vc):
        self.vc = vc
        self.frames = []
        self.mem = Node('base', None, x=vc.fresh_id('m'))
        self.pc = []
        self.ghost = {}
        self.rel = {}
        self.trace = []
        self.foot = None       # list of footprint items, or None = unchecked
        self.unw = {}
        self.fams = {}
        self.objs = []         # objects met so far: (family, index)
        self.places = {}

    def fork(self):
        s = State.__new__(State)
        s.vc = self.vc
        s.frames = [f.copy() for f in self.frames]
        s.mem = self.mem
        s.pc = list(self.pc)
        s.ghost = dict(self.ghost)
        s.rel = dict(self.rel)
        s.trace = list(self.trace)
        s.foot = self.foot
        s.unw = dict(self.unw)
        s.fams, s.objs, s.places = self.fams, self.objs, dict(self.places)
        return s

    # ---- spec-facing helpers
    def assume(self, *conds):
        for c in conds:
            if isinstance(c, (list, tuple)):
                self.assume(*c)
                continue
            if isinstance(c, bool):
                c = z3.BoolVal(c)
            c = simp(c)
            if z3.is_true(c):
                continue
            self.pc.append(c)
            self.vc.solver.add(c)

    def prove(self, cond, name):
        return self.vc.prove(self, cond, name)

    def load(self, addr, n):
        return self.vc.load(self, simp(addr) if not isinstance(addr, int) else bv(addr), n)

    def store(self, addr, val, n=None):
        """Ghost/contract store (no footprint check)."""
        n = n or val.size() // 8
        self.mem = Node('w', self.mem, simp(addr), n, val)

    def get(self, ptr, sname, path):
        off, size = self.vc.mod.field(sname, path)
        return self.load(ptr + off, size)

    def env_store(self, addr, val):
        """A write by the environment (rely)."""
        self.mem = Node('w', self.mem, simp(addr), val.size() // 8, val, 'rely')

    def put(self, ptr, sname, path, val):
        off, size = self.vc.mod.field(sname, path)
        if isinstance(val, int):
            val = bv(val, size * 8)
        self.store(ptr + off, val, size)

    def addr(self, ptr, sname, path):
        return simp(ptr + self.vc.mod.field(sname, path)[0])

    def havoc(self, pred, tag):
        """pred(addr, n) -> z3 Bool: True where the cell may have changed."""
        self.mem = Node('h', self.mem, a=pred, x=self.vc.fresh_id('h_' + tag), v=tag)

    def fam(self, f):
        self.fams = dict(self.fams)
        assert f.key not in self.fams, f.key
        self.fams[f.key] = f
        self.places = {k: v for k, v in self.places.items() if v[1] is not None}
        if f.fn is None:
            self.meet(f, None)
        return f

    def meet(self, f, i):
        """An object comes into view: its shape and the family's facts about it are assumed."""
        for g, j in self.objs:
            if g is f and (j is i or (i is not None and j.eq(i))):
                return True
        if f.guard is not None:
            g = f.guard(i)
            if not z3.is_true(simp(g)) and self.vc.possible(z3.Not(g)):
                return False
        self.objs = self.objs + [(f, i)]
        self.assume(*f.shape(i))
        if f.facts:
            self.assume(*f.facts(self, i))
        return True

    def objhavoc(self, h, tag):
        self.mem = Node('hv', self.mem, a=h, x=self.vc.fresh_id('h_' + tag), v=tag)

    def aparts(self):
        """Disjointness of the objects met, as formulas."""
        out = []
        for a in range(len(self.objs)):
            for b in range(a):
                f, i = self.objs[a]
                g, j = self.objs[b]
                x, y = f.addr(i), g.addr(j)
                c = z3.Or(z3.UGE(x, y + g.size(j)), z3.UGE(y, x + f.size(i)))
                if f is g:
                    c = z3.Or(i == j, c)
                out.append(simp(c))
        return out

    def local(self, name):
        """Current value of a source-level local (or parameter) of the innermost frame."""
        f = self.frames[-1]
        return self.vc.local_value(self, f, name)

    def set_local(self, name, val):
        f = self.frames[-1]
        n = self.vc.local_key(f, name)
        f.vars[n] = val

    def possible(self, cond):
        return self.vc.possible(cond)

    def must(self, cond):
        return not self.vc.possible(z3.Not(cond))


class Loop:
    """Loop specification; subclass or fill in callables.

    init(st) -> g        ghosts on entry
    havoc(st, g) -> g'   havoc memory and ghosts (locals assigned in the loop are havocked already)
    inv(st, g) -> [(name, Bool)]
    step(st, g) -> g''   ghosts after one iteration, in terms of those before
    foot(st, g)          extra footprint restriction is inherited from the function
    """

    def __init__(self, inv, init=lambda st: {}, havoc=lambda st, g: g, step=lambda st, g: g, variant=None,
                 keep=(), pre_havoc=None):
        self.inv, self.init, self.havoc, self.step, self.variant = inv, init, havoc, step, variant
        self.keep = set(keep)


class Obl:
    __slots__ = ('name', 'ok', 'backend', 'secs', 'model', 'where', 'fn')


class Stop(Exception):
    pass


class Deadline(Unsupported):
    pass


class VC:
    def __init__(self, mod, name, contracts=None, loops=None, inline=True, unwind=70, max_paths=4000,
                 timeout=600, indirect=None, prove_timeout=20000, inline_only=None, quiet_asserts=False,
                 rely=None, check_nsw=True, shared=None, auto=None, bits=False, abstract=None):
        self.abstract = abstract
        self.heap_locals = {}
        self.bits = bits        # bit-level reasoning: the arithmetic back end is not asked first
        self.shared = shared
        self.auto = auto
        self.mod = mod
        self.name = name
        self.contracts = contracts or {}
        self.loops = loops or {}
        self.indirect = indirect
        self.unwind = unwind
        self.max_paths = max_paths
        self.obls = []
        self.idc = 0
        self.solver = z3.Solver()
        self.solver.set('timeout', INC_TIMEOUT)
        self.solver.set('rlimit', INC_STEPS)
        self.lia = lia.Trans()
        self.depth = 0
        self.paths_done = 0
        self.paths_live = 0
        self.ends = []
        self.t0 = time.time()
        self.deadline = self.t0 + timeout
        self.prove_timeout = prove_timeout
        self.fuid = 0
        self.info = {}
        self.used_contracts = set()
        self.inlined = set()
        self.cut_loops = set()
        self.unwound = set()
        self.covered_lines = set()
        self.globals_addr = {}
        self.failed = None
        self.stack_ids = {}
        self.rely = rely
        self.check_nsw = check_nsw
        self.solver_time = 0.0
        self.assumptions = set()
        self.quick = {}

    # ------------------------------------------------------------ fresh names
    def fresh_id(self, p):
        self.idc += 1
        return '%s!%d' % (p, self.idc)

    def fresh(self, p, n=64):
        return z3.BitVec(self.fresh_id(p), n)

    def ptr(self, st, name, size=None, align=8, null=False):
        """A symbolic object address: non-null, aligned, not wrapping, outside the stack."""
        p = z3.BitVec(name, 64)
        lim = STACK_LO
        c = [z3.ULT(p, bv(lim))]
        if size is not None:
            sz = size if not isinstance(size, int) else bv(size)
            c += [z3.ULE(sz, bv(lim)), z3.ULE(p + sz, bv(lim)), z3.ULE(p, p + sz)]
        if align > 1:
            c.append(p & (align - 1) == 0)
        c.append(z3.UGE(p, bv(4096)))
        st.assume(*c)
        return p

    # ------------------------------------------------------------ solver
    def check(self, *conds):
        if time.time() > self.deadline:
            raise Deadline('time limit of the proof exceeded')
        t = time.time()
        r = self.solver.check(*conds)
        self.solver_time += time.time() - t
        return r

    def possible(self, cond):
        c = simp(cond)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        self.solver.push()
        self.solver.add(c)
        r = self.check()
        if r == z3.unknown:
            t = time.time()
            cs = list(self.solver.assertions())
            if self.bits:
                s = z3.SolverFor('QF_UFBV')
                s.set('timeout', 40000)
                s.set('rlimit', 5000000)
                s.add(*cs)
                r = s.check()
            elif lia.unsat(self.lia, cs, POSS_TIMEOUT):
                r = z3.unsat
            self.solver_time += time.time() - t
        self.solver.pop()
        return r != z3.unsat

    def prove(self, st, cond, name):
        o = Obl()
        o.name = name
        o.fn = self.name
        o.model = None
        o.where = st.trace[-6:]
        t = time.time()
        if isinstance(cond, bool):
            cond = z3.BoolVal(cond)
        c = simp(cond)
        if z3.is_true(c):
            o.ok, o.backend, o.secs = True, 'simplifier', 0.0
            self.obls.append(o)
            return True
        self.solver.push()
        self.solver.add(z3.Not(c))
        r = self.check()
        m = None
        be = 'z3-incremental'
        extra = []
        if r == z3.unknown and not self.bits:
            be = 'z3-lia'
            if lia.unsat(self.lia, list(self.solver.assertions()), 3000):
                r = z3.unsat
        if r != z3.unsat and len(st.objs) > 1:
            extra = st.aparts()
        if extra and not (self.bits and r == z3.unknown):
            self.solver.add(*extra)
            r = self.check()
            m = None
            be = 'z3-incremental'
            if r == z3.unknown and not self.bits and lia.unsat(self.lia, list(self.solver.assertions()), 3000):
                r, be = z3.unsat, 'z3-lia'
        if r == z3.sat and m is None:
            try:
                m = self.solver.model()
            except z3.Z3Exception:
                m = None
        self.solver.pop()
        if r == z3.unknown:
            r, m, be = self.hard(st, c, extra)
        o.secs = time.time() - t
        o.backend = be
        if r == z3.unsat:
            o.ok = True
            self.obls.append(o)
            return True
        if r == z3.unknown:
            raise Unsupported('solver gave no answer for obligation %s/%s' % (self.name, name))
        o.ok = False
        o.model = self.fmt_model(m)
        self.obls.append(o)
        self.failed = o
        # continue under the assumption, so that one failure is reported once
        return False

    def hard(self, st, c, extra=[]):
        t = time.time()
        if os.environ.get('VC_DUMP'):
            s = z3.Solver()
            s.add(*st.pc, *extra)
            s.add(z3.Not(c))
            with open('%s/%s.%d.smt2' % (os.environ['VC_DUMP'], self.name.replace('/', '_'), self.idc), 'w') as f:
                f.write('(set-logic QF_UFBV)\n' + s.to_smt2())
        conds = st.pc + extra + [z3.Not(c)]
        ufbv = lambda: z3.SolverFor('QF_UFBV')
        sat = lambda: z3.Then('simplify', 'solve-eqs', 'ackermannize_bv', 'bit-blast', 'sat').solver()
        first = ((ufbv, 'z3-QF_UFBV', 4000), (sat, 'z3-sat', 6000), (lia, 'z3-lia', 8000))
        more = ((ufbv, 'z3-QF_UFBV', 15000), (sat, 'z3-sat', 25000), (z3.Solver, 'z3', 20000))
        for mk, be, ms in (first[:2] + more + first[2:] if self.bits else first + more):
            m = None
            if time.time() > self.deadline:
                break
            if mk is lia:
                r = z3.unsat if lia.unsat(self.lia, conds, ms) else z3.unknown
            else:
                s = mk()
                s.set('timeout', ms)
                s.add(*conds)
                try:
                    r = s.check()
                except z3.Z3Exception:
                    continue
                if r == z3.sat:
                    m = s.model()
            if r != z3.unknown:
                self.solver_time += time.time() - t
                return r, m, be
        self.solver_time += time.time() - t
        return z3.unknown, None, 'none'

    def fmt_model(self, m):
        if m is None:
            return None
        out = {}
        try:
            for d in m.decls():
                if d.arity() == 0:
                    v = m[d]
                    if z3.is_bv_value(v):
                        out[d.name()] = '0x%x' % v.as_long()
                    else:
                        out[d.name()] = str(v)
                else:
                    s = str(m[d]).replace('\n', ' ')
                    out[d.name()] = s[:600]
        except z3.Z3Exception:
            pass
        return out

    # ------------------------------------------------------------ memory
    def has_stack(self, e):
        k = e.get_id()
        r = self.stack_ids.get(k)
        if r is not None and r[0].eq(e):
            return r[1]
        if z3.is_bv_value(e):
            v = STACK_LO <= e.as_long() < STACK_HI if e.size() == 64 else False
        else:
            v = any(self.has_stack(c) for c in e.children() if z3.is_bv(c))
        self.stack_ids[k] = (e, v)
        return v

    def place(self, st, addr, n):
        """(family, index, offset) of the object that [addr, addr+n) is shown to lie in, or None."""
        if not st.fams:
            return None
        nk = n if isinstance(n, int) else n.get_id()
        key = (addr.get_id(), nk)
        r = st.places.get(key)
        if r is not None and r[0].eq(addr) and (r[1] is not None or r[2] == len(st.pc)):
            return r[1]
        res = None
        a0 = addr
        addr, c = self.pure(st, addr)
        if c is not None:
            st.places[key] = (a0, None, len(st.pc))
            return None
        xs = addends(addr)
        cand = []
        for k, x in enumerate(xs):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                f = st.fams.get(x.decl().name())
                if f is not None and (x.num_args() == 0) == (f.fn is None):
                    cand.append((k, f, x.arg(0) if f.fn is not None else None))
        for k, f, i in cand:
            off = total(xs[:k] + xs[k + 1:])
            if not st.meet(f, i):
                continue
            if is_num(off) and isinstance(n, int) and num(off) + n <= f.minsize:
                res = (f, i, off)
                break
            sz = f.size(i)
            ln = bv(n) if isinstance(n, int) else n
            if not self.possible(z3.Not(z3.And(z3.ULE(off, sz), z3.ULE(ln, sz - off)))):
                res = (f, i, off)
                break
        st.places[key] = (a0, res, len(st.pc))
        return res

    def find_ite(self, addr):
        """A condition the address depends on."""
        for x in addends(addr):
            if z3.is_app_of(x, z3.Z3_OP_ITE):
                return x
        return None

    def pure(self, st, addr):
        """(address without a case distinction, None) or (addr, undecided condition)"""
        addr = simp(addr)
        while st.fams:
            x = self.find_ite(addr)
            if x is None:
                break
            c, a, b = x.children()
            xs = addends(addr)
            k = [y.get_id() for y in xs].index(x.get_id())
            rest = xs[:k] + xs[k + 1:]
            if not self.possible(z3.Not(c)):
                addr = total([a] + rest)
            elif not self.possible(c):
                addr = total([b] + rest)
            else:
                return addr, c
        return addr, None

    def splits(self, c):
        def mk(cc):
            def fn(s):
                s.assume(cc)
            return fn
        return [('case', mk(c)), ('case', mk(z3.Not(c)))]

    def rel(self, st, a, n, b, m):
        """Relation of the access [a,a+n) to the constant-size write [b,b+m):
        'same' (identical), 'disj', 'in' (a inside b, constant offset), ('eq', cond) (equal iff cond, else disjoint; n==m),
        ('cond', cond, d) (inside at constant offset d iff cond, else disjoint), ('part', cond, d): overlaps iff cond and the
        offset d of a from b is in range."""
        ba, oa = decomp(a)
        bb, ob = decomp(b)
        if (ba is None and bb is None) or (ba is not None and bb is not None and ba.eq(bb)):
            d = (oa - ob) & (2 ** 64 - 1)
            if d == 0 and n == m:
                return 'same'
            if d >= m and (2 ** 64 - d) >= n:
                return 'disj'
            if d + n <= m:
                return 'in'
            return ('part', True, a - b)
        # one is a stack constant, the other cannot point to the stack
        if ba is None and STACK_LO <= oa < STACK_HI and not self.has_stack(b):
            return 'disj'
        if bb is None and STACK_LO <= ob < STACK_HI and not self.has_stack(a):
            return 'disj'
        key = (a.get_id(), n, b.get_id(), m)
        r = st.rel.get(key)
        if r is not None and r[1].eq(a) and r[2].eq(b):
            return r[0]
        r = self.rel_objects(st, a, n, b, m)
        if r is None:
            # objects known to be apart by construction
            disj = z3.And(z3.UGE(a - b, bv(m)), z3.UGE(b - a, bv(n)))
            if not self.possible(z3.Not(disj)):
                r = 'disj'
            elif n == m and not self.possible(a != b):
                r = 'same'
            elif n == m and not self.possible(z3.And(a != b, z3.Not(disj))):
                r = ('eq', a == b)
            else:
                r = ('part', True, a - b)
        st.rel[key] = (r, a, b)
        return r

    def rel_objects(self, st, a, n, b, m):
        pa = self.place(st, a, n)
        if pa is None:
            return None
        pb = self.place(st, b, m)
        if pb is None:
            return None
        if pa[0] is not pb[0]:
            return 'disj'
        d = simp(pa[2] - pb[2])
        if is_num(d):
            dn = num(d)
            if dn >= m and (2 ** 64 - dn) >= n:
                return 'disj'
        ic = z3.BoolVal(True) if pa[1] is None else simp(pa[1] == pb[1])
        if z3.is_false(ic) or not self.possible(ic):
            return 'disj'
        if not z3.is_true(ic) and not self.possible(z3.Not(ic)):
            ic = z3.BoolVal(True)
        sure = z3.is_true(ic)
        if is_num(d):
            if dn == 0 and n == m:
                return 'same' if sure else ('eq', ic)
            if dn + n <= m:
                return ('cond', ic, dn)
            return ('part', ic, d)
        disj = z3.And(z3.UGE(d, bv(m)), z3.UGE(-d, bv(n)))
        if not self.possible(z3.And(ic, z3.Not(disj))):
            return 'disj'
        if n == m and sure and not self.possible(d != 0):
            return 'same'
        if n == m and not self.possible(z3.And(ic, d != 0, z3.Not(disj))):
            return ('eq', z3.And(ic, d == 0))
        return ('part', ic, d)

    def base_load(self, bid, addr, n):
        f = z3.Function('%s_%d' % (bid, n * 8), BV64, z3.BitVecSort(8 * n))
        return f(addr)

    def load(self, st, addr, n, node=None):
        if node is None:
            node = st.mem
        addr, c = self.pure(st, addr)
        if c is not None:
            # both cases, each with its own knowledge
            out = []
            for cc in (c, z3.Not(c)):
                self.solver.push()
                s2 = st.fork()
                s2.assume(cc)
                out.append(self.load(s2, addr, n, node))
                self.solver.pop()
            return simp(z3.If(c, out[0], out[1]))
        pend = []
        while True:
            k = node.kind
            if k == 'base':
                p = self.place(st, addr, n)
                res = None
                if p is not None and p[0].cell is not None:
                    res = p[0].cell(st, p[1], p[2], n)
                if res is None:
                    res = self.base_load(node.x, addr, n)
                break
            if k == 'hv':
                if self.has_stack(addr):
                    node = node.parent
                    continue
                p = self.place(st, addr, n)
                kept = node.a.keep(st, p[0], p[1], p[2], n) if p is not None and node.a.keep is not None else False
                c = simp(z3.BoolVal(kept) if isinstance(kept, bool) else kept)
                if z3.is_true(c) or (not z3.is_false(c) and not self.possible(z3.Not(c))):
                    node = node.parent
                    continue
                fresh = node.a.cell(st, p[0], p[1], p[2], n) if p is not None and node.a.cell is not None else None
                if fresh is None:
                    fresh = self.base_load(node.x, addr, n)
                if z3.is_false(c) or not self.possible(c):
                    res = fresh
                    break
                pend.append((z3.Not(c), fresh))
                node = node.parent
                continue
            if k == 'w':
                r = self.rel(st, addr, n, node.a, node.n)
                if r == 'disj':
                    node = node.parent
                    continue
                if r == 'same':
                    res = node.v
                    break
                if r == 'in':
                    d = (decomp(addr)[1] - decomp(node.a)[1]) & (2 ** 64 - 1)
                    res = simp(z3.Extract(8 * (d + n) - 1, 8 * d, node.v))
                    break
                if r[0] == 'eq':
                    pend.append((r[1], node.v))
                    node = node.parent
                    continue
                if r[0] == 'cond':
                    v = simp(z3.Extract(8 * (r[2] + n) - 1, 8 * r[2], node.v))
                    if z3.is_true(r[1]):
                        res = v
                        break
                    pend.append((r[1], v))
                    node = node.parent
                    continue
                if n > 1:
                    res = simp(z3.Concat(*[self.load(st, addr + i, 1, node) for i in reversed(range(n))]))
                    break
                # byte read of an undetermined overlap
                d = r[2]
                w = node.v
                if node.n < 8:
                    w = z3.ZeroExt(64 - 8 * node.n, w)
                elif node.n > 8:
                    raise Unsupported('wide partial overlap')
                byte = z3.Extract(7, 0, z3.LShR(w, (d & 7) * 8))
                pend.append((z3.And(r[1], z3.ULT(d, bv(node.n))), byte))
                node = node.parent
                continue
            if k == 'h':
                c = node.a(addr, n)
                if isinstance(c, bool):
                    c = z3.BoolVal(c)
                c = simp(c)
                # new stack slots are never in a callee's frame
                if self.has_stack(addr):
                    node = node.parent
                    continue
                if z3.is_false(c) or not self.possible(c):
                    node = node.parent
                    continue
                fresh = self.base_load(node.x, addr, n)
                if z3.is_true(c) or not self.possible(z3.Not(c)):
                    res = fresh
                    break
                pend.append((c, fresh))
                node = node.parent
                continue
            if k in ('fill', 'copy'):
                ln = node.n
                if self.has_stack(addr) != self.has_stack(node.a) and (is_num(addr) or is_num(node.a)) :
                    node = node.parent
                    continue
                d = simp(addr - node.a)
                ic = z3.BoolVal(True)
                pa = self.place(st, addr, n)
                pd = self.place(st, node.a, ln) if pa is not None else None
                if pd is not None:
                    if pa[0] is not pd[0]:
                        node = node.parent
                        continue
                    d = simp(pa[2] - pd[2])
                    if pa[1] is not None:
                        ic = simp(pa[1] == pd[1])
                        if z3.is_false(ic) or not self.possible(ic):
                            node = node.parent
                            continue
                disj = z3.Or(z3.Not(ic), ln == 0, z3.And(z3.UGE(d, ln), z3.UGE(-d, bv(n))))
                inside = z3.And(ic, z3.UGE(ln, bv(n)), z3.ULE(d, ln - n))
                if not self.possible(z3.Not(disj)):
                    node = node.parent
                    continue
                if k == 'fill':
                    val = z3.Concat(*([node.v] * n)) if n > 1 else node.v
                elif not st.fams:
                    val = self.load(st, node.v + d, n, node.x)
                else:
                    # the source is only looked at where the copy reaches
                    self.solver.push()
                    s2 = st.fork()
                    s2.assume(inside)
                    val = self.load(s2, node.v + d, n, node.x)
                    self.solver.pop()
                if not self.possible(z3.Not(inside)):
                    res = val
                    break
                if n > 1 and self.possible(z3.And(z3.Not(inside), z3.Not(disj))):
                    res = simp(z3.Concat(*[self.load(st, addr + i, 1, node) for i in reversed(range(n))]))
                    break
                pend.append((inside, val))
                node = node.parent
                continue
            raise Unsupported('memory node')
        for c, v in reversed(pend):
            res = z3.If(c, v, res)
        return simp(res) if pend else res

    def in_foot(self, st, addr, ln, foot):
        """Is [addr, addr+ln) inside the footprint?  -> z3 Bool"""
        alts = []
        for it in foot:
            if it[0] == 'range':
                b, sz = it[1], it[2]
                if isinstance(sz, int):
                    sz = bv(sz)
                alts.append(z3.And(z3.ULE(addr - b, sz), z3.ULE(ln, sz - (addr - b))))
            elif it[0] == 'pred':
                alts.append(it[2](addr, ln))
        return z3.Or(*alts) if alts else z3.BoolVal(False)

    def check_foot(self, st, addr, ln, what):
        if st.foot is None:
            return
        if is_num(addr) and STACK_LO <= num(addr) < STACK_HI:
            return
        if isinstance(ln, int):
            ln = bv(ln)
        # quick syntactic accept
        ba, oa = decomp(addr)
        if is_num(ln):
            for it in st.foot:
                if it[0] == 'range':
                    bb, ob = decomp(simp(it[1]))
                    if ba is not None and bb is not None and ba.eq(bb):
                        d = (oa - ob) & (2 ** 64 - 1)
                        sz = it[2] if isinstance(it[2], int) else (num(simp(it[2])) if is_num(simp(it[2])) else None)
                        if sz is not None and d + num(ln) <= sz:
                            self.obls.append(self._triv('assigns:' + what))
                            return
        p = self.place(st, addr, num(ln) if is_num(ln) else ln)
        if p is not None:
            alts = []
            for it in st.foot:
                if it[0] == 'obj' and it[1] is p[0]:
                    r = it[2](p[1], p[2], ln)
                    alts.append(z3.BoolVal(r) if isinstance(r, bool) else r)
                elif it[0] == 'range':
                    b = self.pure(st, simp(it[1]))[0]
                    q = self.place(st, b, it[2])
                    if q is not None and q[0] is p[0]:
                        sz = bv(it[2]) if isinstance(it[2], int) else it[2]
                        d = p[2] - q[2]
                        alts.append(z3.And(True if p[1] is None else p[1] == q[1], z3.ULE(d, sz), z3.ULE(ln, sz - d)))
            if alts:
                self.prove(st, z3.Or(ln == 0, *alts), 'assigns:' + what)
                return
        self.prove(st, z3.Or(ln == 0, self.in_foot(st, addr, ln, [i for i in st.foot if i[0] != 'obj'])), 'assigns:' + what)

    def _triv(self, name):
        o = Obl()
        o.name, o.fn, o.ok, o.backend, o.secs, o.model, o.where = name, self.name, True, 'simplifier', 0.0, None, []
        return o

    def write(self, st, addr, val, what='store'):
        addr = simp(addr)
        n = val.size() // 8
        self.check_foot(st, addr, n, what)
        st.mem = Node('w', st.mem, addr, n, val)

    # ------------------------------------------------------------ functions
    def finfo(self, f):
        r = self.info.get(f.name)
        if r:
            return r
        # promotable allocas
        allocas = {}
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'alloca':
                    allocas[ins.res] = ins.ty
        bad = set()

        def esc(v):
            if v and v[0] == 'loc' and v[1] in allocas:
                bad.add(v[1])
            elif v and v[0] in ('cgep', 'ccast', 'cbin'):
                pass
        for b in f.order:
            for ins in f.blocks[b]:
                if ins.op == 'load':
                    v = ins.args[0]
                    if v[0] == 'loc' and v[1] in allocas and repr(allocas[v[1]]) != repr(ins.ty):
                        bad.add(v[1])
                elif ins.op == 'store':
                    esc(ins.args[0])
                    v = ins.args[1]
                    if v[0] == 'loc' and v[1] in allocas and repr(allocas[v[1]]) != repr(ins.ty):
                        bad.add(v[1])
                elif ins.op == 'alloca':
                    if ins.x is not None:
                        bad.add(ins.res)
                elif ins.op == 'getelementptr':
                    for t, v in ins.args:
                        esc(v)
                elif ins.op == 'phi':
                    for v, _ in ins.args:
                        esc(v)
                elif ins.op == 'call':
                    for t, v in ins.args:
                        esc(v)
                    if isinstance(ins.x, tuple):
                        esc(ins.x)
                elif ins.op in ('cmpxchg', 'atomicrmw', 'select', 'icmp', 'ptrtoint', 'bitcast', 'ret', 'insertvalue',
                                'extractvalue', 'add', 'sub', 'and', 'or', 'freeze'):
                    for v in ins.args:
                        if isinstance(v, tuple):
                            esc(v)
                elif ins.op == 'unsupported':
                    for a in allocas:
                        if '%' + a in ins.text:
                            bad.add(a)
        for a, t in allocas.items():
            if isinstance(t, (Struct, Arr)):
                bad.add(a)
        prom = {a: t for a, t in allocas.items() if a not in bad}
        # loops
        succ = {}
        for b in f.order:
            t = f.blocks[b][-1]
            if t.op == 'br':
                succ[b] = list(t.args)
            elif t.op == 'switch':
                succ[b] = [t.x[1]] + [l for _, l in t.x[2]]
            else:
                succ[b] = []
        dom = {b: set(f.order) for b in f.order}
        e = f.order[0]
        dom[e] = {e}
        pred = {b: [] for b in f.order}
        for b in f.order:
            for s in succ[b]:
                pred[s].append(b)
        ch = True
        while ch:
            ch = False
            for b in f.order:
                if b == e:
                    continue
                ps = [dom[p] for p in pred[b]]
                nd = set.intersection(*ps) if ps else set(f.order)
                nd = nd | {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        bodies = {}
        for b in f.order:
            for s in succ[b]:
                if s in dom[b]:
                    body = bodies.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(pred[x])
        heads = [b for b in f.order if b in bodies]
        loops = {}
        for idx, h in enumerate(heads):
            mod = set()
            for b in bodies[h]:
                for ins in f.blocks[b]:
                    if ins.op == 'store' and ins.args[1][0] == 'loc' and ins.args[1][1] in prom:
                        mod.add(ins.args[1][1])
            loops[h] = (idx, bodies[h], mod)
        r = (prom, allocas, loops, succ)
        self.info[f.name] = r
        return r

    def local_key(self, frame, name):
        prom, allocas, loops, _ = self.finfo(frame.f)
        for n in (name, name + '.addr'):
            if n in allocas:
                return n
        # a block-scoped local may carry a numeric suffix
        c = [a for a in allocas if a.rstrip('0123456789') == name and a in prom]
        if len(c) == 1:
            return c[0]
        raise Unsupported('no local %s in %s' % (name, frame.f.name))

    def local_value(self, st, frame, name):
        n = self.local_key(frame, name)
        prom, allocas, loops, _ = self.finfo(frame.f)
        if n in prom:
            if n not in frame.vars:
                frame.vars[n] = self.undef(prom[n])
            return frame.vars[n]
        return frame.addrs[n]

    def undef(self, t):
        t = self.mod.resolve(t) if isinstance(t, Struct) else t
        if isinstance(t, Int):
            if t.n == 1:
                return z3.Bool(self.fresh_id('u'))
            return self.fresh('u', t.n)
        if isinstance(t, Ptr):
            return self.fresh('u', 64)
        if isinstance(t, Float):
            return self.fresh('f', t.n)
        if isinstance(t, Struct):
            return tuple(self.undef(e) for e in t.elems)
        raise Unsupported('undef of %r' % t)

    def const_int(self, v, t):
        if isinstance(t, Int):
            if t.n == 1:
                return z3.BoolVal(bool(v))
            return bv(v, t.n)
        if isinstance(t, Float):
            return bv(v, t.n)
        return bv(v, 64)

    def glob_addr(self, st, name):
        if name in self.globals_addr:
            return self.globals_addr[name]
        a = z3.BitVec('@' + name, 64)
        self.globals_addr[name] = a
        return a

    def val(self, st, fr, v, t):
        k = v[0]
        if k == 'loc':
            n = v[1]
            if n in fr.regs:
                return fr.regs[n]
            if n in fr.addrs:
                return fr.addrs[n]
            raise Unsupported('use of undefined %' + n)
        if k == 'int':
            return self.const_int(v[1], t)
        if k == 'float':
            return self.fresh('f', t.n if isinstance(t, Float) else 64)
        if k == 'glob':
            return self.glob_addr(st, v[1])
        if k == 'undef':
            return self.undef(t)
        if k == 'zero':
            tt = self.mod.resolve(t)
            if isinstance(tt, Struct):
                return tuple(self.const_int(0, e) for e in tt.elems)
            raise Unsupported('zero aggregate')
        if k == 'cgep':
            return self.gep(st, fr, v[1], v[2])
        if k == 'ccast':
            return self.cast(v[1], self.val(st, fr, v[3], v[2]), v[2], v[4])
        if k == 'cbin':
            a, b = self.val(st, fr, v[3], v[2]), self.val(st, fr, v[4], v[2])
            return simp({'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
                         'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b,
                         'lshr': lambda: z3.LShR(a, b)}[v[1]]())
        raise Unsupported('value kind ' + k)

    def cast(self, op, v, t, t2):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            w = t2.n if isinstance(t2, Int) else 64
            if z3.is_bool(v):
                v = z3.If(v, bv(1, 1), bv(0, 1))
            if v.size() == w:
                return v
            if v.size() > w:
                return simp(z3.Extract(w - 1, 0, v))
            return simp(z3.ZeroExt(w - v.size(), v))
        w = t2.n
        if op == 'zext':
            if z3.is_bool(v):
                return simp(z3.If(v, bv(1, w), bv(0, w)))
            return simp(z3.ZeroExt(w - v.size(), v))
        if op == 'sext':
            if z3.is_bool(v):
                return simp(z3.If(v, bv(-1, w), bv(0, w)))
            return simp(z3.SignExt(w - v.size(), v))
        if op == 'trunc':
            if w == 1:
                return simp(z3.Extract(0, 0, v) == 1)
            return simp(z3.Extract(w - 1, 0, v))
        if op in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
            return self.fresh('f', w)
        raise Unsupported('cast ' + op)

    def gep(self, st, fr, ty, ops):
        base = self.val(st, fr, ops[0][1], ops[0][0])
        off = bv(0)
        const = 0

        def idx(t, v):
            x = self.val(st, fr, v, t)
            if x.size() < 64:
                x = z3.SignExt(64 - x.size(), x)
            return x
        x = simp(idx(*ops[1]))
        sz = self.mod.sizeof(ty)
        if is_num(x):
            const += num(x) * sz
        else:
            off = off + x * sz
        cur = ty
        for t, v in ops[2:]:
            cur = self.mod.resolve(cur)
            if isinstance(cur, Struct):
                o, cur = self.mod.offset(cur, v[1])
                const += o
            elif isinstance(cur, Arr):
                cur = cur.t
                x = simp(idx(t, v))
                if is_num(x):
                    const += num(x) * self.mod.sizeof(cur)
                else:
                    off = off + x * self.mod.sizeof(cur)
            else:
                raise Unsupported('gep')
        return simp(base + off + bv(const & (2 ** 64 - 1)))

    # ------------------------------------------------------------ calls
    def push_frame(self, st, f, args, ret_to):
        prom, allocas, loops, _ = self.finfo(f)
        fr = Frame()
        fr.f, fr.block, fr.prev, fr.i = f, f.order[0], None, 0
        fr.regs, fr.vars, fr.addrs = {}, {}, {}
        fr.ret_to, fr.loops = ret_to, {}
        self.fuid += 1
        fr.uid = self.fuid
        if len(args) != len(f.params):
            raise Unsupported('argument count of ' + f.name)
        for (t, n), a in zip(f.params, args):
            fr.regs[n] = a
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        st.frames.append(fr)
        return fr

    def verify(self, fname, args, setup=None, post=None, st=None):
        """Run fname from the state prepared by the caller; post(st, ret) emits obligations."""
        if fname not in self.mod.funcs:
            raise Unsupported('no function ' + fname)
        st = st or self.st
        self.solver.push()
        r = self.solver.check()
        if r == z3.unsat:
            raise Unsupported('vacuous precondition of ' + fname)
        if r == z3.unknown:
            s = z3.SolverFor('QF_UFBV')
            s.set('timeout', 60000)
            s.add(*st.pc)
            r = s.check()
            if r != z3.sat:
                raise Unsupported('precondition of %s not shown satisfiable (%s)' % (fname, r))
        self.post = post
        self.top = fname
        n0 = len(self.obls)
        self.push_frame(st, self.mod.funcs[fname], args, None)
        self.base_depth = len(st.frames)
        self.ends = []
        self.explore(st)
        self.solver.pop()
        if not self.ends:
            raise Unsupported('no path of %s reaches its end' % fname)
        return self

    def new_state(self):
        self.st = State(self)
        return self.st

    def explore(self, st):
        self.paths_live += 1
        if self.paths_done > self.max_paths:
            raise Unsupported('too many paths')
        try:
            while True:
                alts = self.step(st)
                if alts is None:
                    continue
                if alts == 'end':
                    self.paths_done += 1
                    return
                for label, fn in alts:
                    self.solver.push()
                    s2 = st.fork()
                    if label:
                        s2.trace.append(label)
                    try:
                        ok = fn(s2)
                        if ok is not False:
                            self.explore(s2)
                    finally:
                        self.solver.pop()
                return
        finally:
            self.paths_live -= 1

    def branch(self, st, cond, lab, tgt_t, tgt_f):
        c = simp(cond)
        if z3.is_true(c):
            self.jump(st, tgt_t)
            return None
        if z3.is_false(c):
            self.jump(st, tgt_f)
            return None
        pt = self.possible(c)
        pf = self.possible(z3.Not(c)) if pt else True
        if pt and not pf:
            st.assume(c)
            self.jump(st, tgt_t)
            return None
        if pf and not pt:
            st.assume(z3.Not(c))
            self.jump(st, tgt_f)
            return None

        def mk(cc, t):
            def fn(s):
                s.assume(cc)
                self.jump(s, t)
            return fn
        return [(lab + ':T', mk(c, tgt_t)), (lab + ':F', mk(z3.Not(c), tgt_f))]

    def jump(self, st, target):
        fr = st.frames[-1]
        fr.prev, fr.block, fr.i = fr.block, target, 0
        loops = self.finfo(fr.f)[2]
        # leaving loops
        for h in list(fr.loops):
            if target not in loops[h][1]:
                del fr.loops[h]
        for key in [k for k in st.unw if k[0] == fr.uid and target not in loops[k[1]][1]]:
            del st.unw[key]
        if target not in loops:
            return
        idx, body, mod = loops[target]
        spec = self.loops.get((fr.f.name, idx))
        if spec is None and self.auto is not None:
            # memory is unchanged by an iteration that does not leave the loop, but for the cells
            # listed in self.auto (checked below), which are havocked
            self.cut_loops.add((fr.f.name, idx))
            if target in fr.loops:
                n = st.mem
                stop = fr.loops[target][0]
                while n is not stop:
                    if n.x == 'rely':
                        pass
                    elif n.kind == 'w' and is_num(n.a) and STACK_LO <= num(n.a) < STACK_HI:
                        a0 = num(n.a)
                        mine = [num(x) for x in fr.addrs.values()]
                        if a0 in mine:
                            if (a0, n.n) not in fr.loops[target][1]:
                                raise Unsupported('loop writes an addressed aggregate')
                        elif a0 < fr.loops[target][2]:
                            raise Unsupported("loop writes a caller's local")
                    elif n.kind == 'w' and any(n.n <= m and not self.possible(n.a != a) for a, m in self.auto):
                        pass
                    else:
                        raise Unsupported('loop without invariant writes memory')
                    n = n.parent
                fr.block = None
                return
            prom = self.finfo(fr.f)[0]
            for v in mod:
                fr.vars[v] = self.undef(prom[v])
            for a, m in self.auto:
                st.mem = Node('w', st.mem, simp(a), m, self.fresh('auto', 8 * m))
            okw = set()
            allocas = self.finfo(fr.f)[1]
            for nme, ad in fr.addrs.items():
                sz = self.mod.sizeof(allocas[nme])
                if sz in (1, 2, 4, 8) and not isinstance(allocas[nme], (Struct, Arr)):
                    st.mem = Node('w', st.mem, ad, sz, self.fresh('auto', 8 * sz))
                    okw.add((num(ad), sz))
            fr.loops[target] = (st.mem, okw, self._sp)
            return
        if spec is None:
            key = (fr.uid, target)
            st.unw[key] = st.unw.get(key, 0) + 1
            self.unwound.add((fr.f.name, idx))
            if st.unw[key] > self.unwind:
                raise Unsupported('loop %d of %s exceeds %d iterations without an invariant' % (idx, fr.f.name, self.unwind))
            return
        self.cut_loops.add((fr.f.name, idx))
        if target in fr.loops:
            g, var0 = fr.loops[target][:2]
            g2 = spec.step(st, g)
            for nm, c in spec.inv(st, g2):
                self.prove(st, c, 'loop%d:preserve:%s' % (idx, nm))
            if spec.variant is not None:
                self.prove(st, z3.ULT(spec.variant(st, g2), var0), 'loop%d:decreases' % idx)
            fr.block = None          # path ends here
            return
        g = spec.init(st)
        for nm, c in spec.inv(st, g):
            self.prove(st, c, 'loop%d:init:%s' % (idx, nm))
        prom = self.finfo(fr.f)[0]
        for v in mod:
            if v in spec.keep:
                continue
            fr.vars[v] = self.undef(prom[v])
        g = spec.havoc(st, g)
        for nm, c in spec.inv(st, g):
            st.assume(c)
        var0 = spec.variant(st, g) if spec.variant is not None else None
        fr.loops[target] = (g, var0)

    def do_return(self, st, val):
        fr = st.frames.pop()
        if len(st.frames) < self.base_depth:
            # end of the function under proof
            if self.solver.check() == z3.unsat:
                return 'end'
            self.ends.append(list(st.trace))
            if self.post:
                self.post(st, val)
            return 'end'
        caller = st.frames[-1]
        if fr.ret_to is not None and val is not None:
            caller.regs[fr.ret_to] = val
        caller.i += 1
        return None

    def step(self, st):
        fr = st.frames[-1]
        if fr.block is None:
            return 'end'
        ins = fr.f.blocks[fr.block][fr.i]
        op = ins.op
        V = lambda v, t: self.val(st, fr, v, t)
        if op == 'unsupported':
            raise Unsupported(ins.x + ' in ' + fr.f.name)
        if op == 'alloca':
            prom = self.finfo(fr.f)[0]
            if ins.res not in prom:
                if ins.x is not None:
                    raise Unsupported('variable-size alloca')
                self.idc += 1
                if ins.res not in fr.addrs:
                    fr.addrs = dict(fr.addrs)
                    if ins.res in self.heap_locals:
                        # an array described by the specification as an object of its own
                        fr.addrs[ins.res] = self.heap_locals[ins.res]
                        fr.i += 1
                        return None
                    sz = max(self.mod.sizeof(ins.ty), 1)
                    fr.addrs[ins.res] = bv(self.stack_alloc(sz))
            fr.i += 1
            return None
        if op == 'load':
            a = ins.args[0]
            prom = self.finfo(fr.f)[0]
            if a[0] == 'loc' and a[1] in prom:
                if a[1] not in fr.vars:
                    fr.vars[a[1]] = self.undef(prom[a[1]])
                fr.regs[ins.res] = fr.vars[a[1]]
            else:
                addr, c = self.pure(st, V(a, Ptr()))
                if c is not None:
                    return self.splits(c)
                if self.rely and self.shared and not self.has_stack(addr) and self.shared(addr):
                    self.rely(self, st, addr)
                fr.regs[ins.res] = self.load_typed(st, addr, ins.ty)
            fr.i += 1
            return None
        if op == 'store':
            a = ins.args[1]
            v = V(ins.args[0], ins.ty)
            prom = self.finfo(fr.f)[0]
            if a[0] == 'loc' and a[1] in prom:
                fr.vars[a[1]] = v
            else:
                addr, c = self.pure(st, V(a, Ptr()))
                if c is not None:
                    return self.splits(c)
                self.store_typed(st, addr, v, ins.ty, self.at(fr, ins))
            fr.i += 1
            return None
        if op == 'getelementptr':
            fr.regs[ins.res] = self.gep(st, fr, ins.ty, ins.args)
            fr.i += 1
            return None
        if op == 'br':
            if ins.x is None:
                self.jump(st, ins.args[0])
                return None
            c = V(ins.x, Int(1))
            return self.branch(st, c, '%s:%s' % (fr.f.name, self.ln(ins)), ins.args[0], ins.args[1])
        if op == 'icmp':
            a, b = V(ins.args[0], ins.ty), V(ins.args[1], ins.ty)
            if st.fams and isinstance(ins.ty, Ptr):
                a, c = self.pure(st, a)
                if c is None:
                    b, c = self.pure(st, b)
                if c is not None:
                    return self.splits(c)
                r = self.ptr_cmp(st, ins.x, a, b)
                if r is not None:
                    fr.regs[ins.res] = r
                    fr.i += 1
                    return None
            fr.regs[ins.res] = self.icmp(ins.x, a, b)
            fr.i += 1
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            a, b = V(ins.args[0], ins.ty), V(ins.args[1], ins.ty)
            fr.regs[ins.res] = self.binop(st, fr, ins, op, a, b)
            fr.i += 1
            return None
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
                  'fpext', 'fptrunc'):
            fr.regs[ins.res] = self.cast(op, V(ins.args[0], ins.ty), ins.ty, ins.x)
            fr.i += 1
            return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg'):
            fr.regs[ins.res] = self.fresh('f', ins.ty.n)
            fr.i += 1
            return None
        if op == 'fcmp':
            fr.regs[ins.res] = z3.Bool(self.fresh_id('fc'))
            fr.i += 1
            return None
        if op == 'select':
            c = V(ins.args[0], Int(1))
            a, b = V(ins.args[1], ins.ty), V(ins.args[2], ins.ty)
            c = simp(c)
            if not (z3.is_true(c) or z3.is_false(c)):
                # decided by the path
                if not self.possible(z3.Not(c)):
                    c = z3.BoolVal(True)
                elif not self.possible(c):
                    c = z3.BoolVal(False)
            fr.regs[ins.res] = simp(z3.If(c, a, b))
            fr.i += 1
            return None
        if op == 'phi':
            # all phis of the block read the old values
            vals = []
            j = fr.i
            blk = fr.f.blocks[fr.block]
            while blk[j].op == 'phi':
                for v, l in blk[j].args:
                    if l == fr.prev:
                        vals.append((blk[j].res, V(v, blk[j].ty)))
                        break
                else:
                    raise Unsupported('phi')
                j += 1
            for r, v in vals:
                fr.regs[r] = v
            fr.i = j
            return None
        if op == 'ret':
            v = V(ins.args[0], ins.ty) if ins.args else None
            return self.do_return(st, v)
        if op == 'call':
            return self.call(st, fr, ins)
        if op == 'switch':
            v, d, cases = ins.x
            x = V(v, ins.ty)
            alts = []
            neg = []
            for c, l in cases:
                cc = simp(x == self.const_int(c[1], ins.ty))
                neg.append(z3.Not(cc))
                if self.possible(cc):
                    alts.append(('case', (lambda cc, l: (lambda s: (s.assume(cc), self.jump(s, l))))(cc, l)))
            if self.possible(z3.And(*neg)):
                alts.append(('default', lambda s: (s.assume(*neg), self.jump(s, d))))
            return alts
        if op == 'unreachable':
            if self.solver.check() != z3.unsat:
                self.prove(st, z3.BoolVal(False), 'unreachable@%s' % self.at(fr, ins))
            return 'end'
        if op == 'extractvalue':
            fr.regs[ins.res] = V(ins.args[0], ins.ty)[ins.x]
            fr.i += 1
            return None
        if op == 'insertvalue':
            a = list(V(ins.args[0], ins.ty))
            a[ins.x] = V(ins.args[1], self.mod.resolve(ins.ty).elems[ins.x])
            fr.regs[ins.res] = tuple(a)
            fr.i += 1
            return None
        if op == 'cmpxchg':
            return self.cmpxchg(st, fr, ins)
        if op == 'atomicrmw':
            addr = V(ins.args[0], Ptr())
            v = V(ins.args[1], ins.ty)
            if self.rely:
                self.rely(self, st, addr)
            old = self.load_typed(st, addr, ins.ty)
            new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'or': lambda: old | v,
                   'and': lambda: old & v, 'xor': lambda: old ^ v}.get(ins.x)
            if new is None:
                raise Unsupported('atomicrmw ' + ins.x)
            new = simp(new())
            self.guarantee(st, addr, old, new)
            self.store_typed(st, addr, new, ins.ty, self.at(fr, ins))
            fr.regs[ins.res] = old
            fr.i += 1
            return None
        if op == 'fence':
            fr.i += 1
            return None
        if op == 'freeze':
            fr.regs[ins.res] = V(ins.args[0], ins.ty)
            fr.i += 1
            return None
        raise Unsupported('op ' + op)

    on_atomic = None

    def guarantee(self, st, addr, old, new):
        if self.on_atomic:
            self.on_atomic(self, st, addr, old, new)

    def cmpxchg(self, st, fr, ins):
        addr = self.val(st, fr, ins.args[0], Ptr())
        e = self.val(st, fr, ins.args[1], ins.ty)
        nv = self.val(st, fr, ins.args[2], ins.ty)
        if self.rely:
            self.rely(self, st, addr)
        old = self.load_typed(st, addr, ins.ty)
        what = self.at(fr, ins)
        res = ins.res

        def succ(s):
            s.assume(old == e)
            self.guarantee(s, addr, old, nv)
            self.store_typed(s, addr, nv, ins.ty, what)
            f = s.frames[-1]
            f.regs[res] = (old, z3.BoolVal(True))
            f.i += 1

        def fail(s):
            # weak: may fail spuriously
            if not ins.x:
                s.assume(old != e)
            f = s.frames[-1]
            f.regs[res] = (old, z3.BoolVal(False))
            f.i += 1
        alts = []
        if self.possible(old == e):
            alts.append(('cas-ok', succ))
        if ins.x or self.possible(old != e):
            alts.append(('cas-fail', fail))
        return alts

    _sp = STACK_LO + 4096

    def stack_alloc(self, sz):
        a = (self._sp + 63) & ~63
        self._sp = a + sz + 64
        return a

    def ln(self, ins):
        return self.mod.src_line(ins.line)

    def at(self, fr, ins):
        return '%s:%s' % (fr.f.name, self.ln(ins))

    def load_typed(self, st, addr, t):
        t = self.mod.resolve(t) if isinstance(t, Struct) else t
        if isinstance(t, Struct):
            out = []
            for i in range(len(t.elems)):
                o, e = self.mod.offset(t, i)
                out.append(self.load_typed(st, addr + o, e))
            return tuple(out)
        n = self.mod.sizeof(t)
        v = self.load(st, addr, n)
        if isinstance(t, Int) and t.n != 8 * n:
            v = simp(z3.Extract(t.n - 1, 0, v))
            if t.n == 1:
                v = simp(v == 1)
        return v

    def store_typed(self, st, addr, v, t, what):
        t = self.mod.resolve(t) if isinstance(t, Struct) else t
        if isinstance(t, Struct):
            for i in range(len(t.elems)):
                o, e = self.mod.offset(t, i)
                self.store_typed(st, addr + o, v[i], e, what)
            return
        if z3.is_bool(v):
            v = simp(z3.If(v, bv(1, 8), bv(0, 8)))
        n = self.mod.sizeof(t)
        if v.size() != 8 * n:
            v = simp(z3.ZeroExt(8 * n - v.size(), v))
        self.write(st, addr, v, what)

    def ptr_cmp(self, st, p, a, b):
        """Comparison of pointers into objects."""
        if p not in ('eq', 'ne'):
            return None
        pa = self.place(st, a, 1)
        pb = self.place(st, b, 1) if pa is not None else None
        if pb is None:
            return None
        if pa[0] is not pb[0]:
            r = z3.BoolVal(False)
        else:
            r = z3.And(True if pa[1] is None else pa[1] == pb[1], pa[2] == pb[2])
        return simp(r if p == 'eq' else z3.Not(r))

    def icmp(self, p, a, b):
        if z3.is_bool(a):
            if p == 'eq':
                return simp(a == b)
            if p == 'ne':
                return simp(z3.Xor(a, b))
            raise Unsupported('icmp i1 ' + p)
        f = {'eq': lambda: a == b, 'ne': lambda: a != b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'slt': lambda: a < b, 'sle': lambda: a <= b,
             'sgt': lambda: a > b, 'sge': lambda: a >= b}[p]
        return simp(f())

    def binop(self, st, fr, ins, op, a, b):
        if z3.is_bool(a):
            f = {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b), 'xor': lambda: z3.Xor(a, b)}.get(op)
            if f is None:
                raise Unsupported('i1 ' + op)
            return simp(f())
        n = a.size()
        if op in ('shl', 'lshr', 'ashr'):
            if not (is_num(b) and num(b) < n):
                self.prove(st, z3.ULT(b, bv(n, n)), 'shift-in-range@' + self.at(fr, ins))
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if not (is_num(b) and num(b) != 0):
                self.prove(st, b != 0, 'div-nonzero@' + self.at(fr, ins))
        if self.abstract is not None:
            # a defined operation of the specification (its axioms are lemmas proved of the definition)
            r = self.abstract(op, a, b)
            if r is not None:
                return r
        if op in ('sdiv', 'udiv') and n == 64 and is_num(b) and not is_num(a) and 1 < num(b) < 1 << 32:
            q = self.exact_div(a, num(b))
            if q is not None:
                return q
        if self.check_nsw and 'nsw' in ins.x and not (is_num(a) and is_num(b)):
            if op == 'add':
                self.prove(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), 'no-signed-overflow@' + self.at(fr, ins))
            elif op == 'sub':
                self.prove(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), 'no-signed-overflow@' + self.at(fr, ins))
            elif op == 'mul':
                self.prove(st, z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), 'no-signed-overflow@' + self.at(fr, ins))
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b,
             'or': lambda: a | b, 'xor': lambda: a ^ b, 'shl': lambda: a << b, 'lshr': lambda: z3.LShR(a, b),
             'ashr': lambda: a >> b, 'udiv': lambda: z3.UDiv(a, b), 'sdiv': lambda: a / b,
             'urem': lambda: z3.URem(a, b), 'srem': lambda: z3.SRem(a, b)}[op]
        return simp(f())

    def exact_div(self, a, m):
        """a / m for a sum of small multiples of m (pointer differences), or None"""
        c, ts = 0, []
        for t in addends(simp(a)):
            if is_num(t):
                v = num(t)
            elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and is_num(t.arg(0)):
                v = num(t.arg(0))
            else:
                return None
            v = v - (1 << 64) if v >> 63 else v
            if v % m:
                return None
            if is_num(t):
                c += v // m
            else:
                ts.append(bv(v // m & (1 << 64) - 1) * t.arg(1))
                # no wrap of the product
                l = bv((1 << 61) // abs(v))
                if self.possible(z3.UGE(t.arg(1), l)):
                    return None
        if not ts or len(ts) > 2 or abs(c) * m > 1 << 61:
            return None
        return simp(total(ts) + bv(c & (1 << 64) - 1))

    def clz(self, x, n):
        r = bv(n, n)
        for i in range(n):
            r = z3.If(z3.Extract(i, i, x) == 1, bv(n - 1 - i, n), r)
        return r

    def ctz(self, x, n):
        r = bv(n, n)
        for i in reversed(range(n)):
            r = z3.If(z3.Extract(i, i, x) == 1, bv(i, n), r)
        return r

    def call(self, st, fr, ins):
        callee = ins.x
        if callee[0] == 'asm':
            raise Unsupported('inline asm in ' + fr.f.name)
        args = [None if not isinstance(t, (Int, Ptr, Float, Struct)) else self.val(st, fr, v, t) for t, v in ins.args]

        def finish(s, ret):
            f = s.frames[-1]
            if ins.res is not None:
                f.regs[ins.res] = ret if ret is not None else self.undef(ins.ty)
            f.i += 1
        if callee[0] == 'glob':
            name = callee[1]
        else:
            tgt = self.val(st, fr, callee, Ptr())
            name = None
            # resolve an indirect call to a known function
            for fn, a in self.globals_addr.items():
                if fn in self.mod.funcs and tgt.eq(a):
                    name = fn
            if name is None:
                if self.indirect is None:
                    raise Unsupported('indirect call in ' + fr.f.name)
                r = self.indirect(self, st, tgt, args, '%s:%s' % (fr.f.name, self.ln(ins)))
                return self.apply_alts(st, r, finish)
        if name in self.contracts:
            self.used_contracts.add(name)
            st.callsite = '%s:%s' % (fr.f.name, self.ln(ins))
            r = self.contracts[name](self, st, args)
            return self.apply_alts(st, r, finish)
        if name == '__assert_fail':
            if self.check() != z3.unsat:
                txt = self.string_of(ins.args[0][1])
                self.prove(st, z3.BoolVal(False), 'assert(%s)@%s' % (txt, fr.f.name))
            return 'end'
        if name in ('abort', 'llvm.trap', 'exit', '_exit'):
            self.prove(st, z3.BoolVal(False), 'no-abort@%s' % self.at(fr, ins))
            return 'end'
        if name.startswith('llvm.'):
            return self.intrinsic(st, fr, ins, name, args, finish)
        if name == 'memcpy' or name == 'memmove':
            if name == 'memcpy':
                self.no_overlap(st, args, self.at(fr, ins))
            return self.do_copy(st, fr, ins, args, finish)
        if name == 'memset':
            args[0], c = self.pure(st, args[0])
            if c is not None:
                return self.splits(c)
            self.check_foot(st, simp(args[0]), args[2], self.at(fr, ins))
            st.mem = Node('fill', st.mem, simp(args[0]), args[2], z3.Extract(7, 0, args[1]))
            finish(st, args[0])
            return None
        if name in self.mod.funcs:
            self.inlined.add(name)
            self.push_frame(st, self.mod.funcs[name], args, ins.res)
            return None
        raise Unsupported('call of external function %s without a contract (in %s)' % (name, fr.f.name))

    def string_of(self, v):
        if v[0] == 'glob':
            s = self.mod.strings.get(v[1])
            if s:
                return s[2:-1].replace('\\00', '')
        return '?'

    def apply_alts(self, st, r, finish):
        """A contract returns a value (or None), or a list of (label, fn(st)->ret)."""
        if isinstance(r, list):
            out = []
            for label, fn in r:
                def go(s, fn=fn):
                    ret = fn(s)
                    if self.solver.check() == z3.unsat:
                        return False
                    finish(s, ret)
                out.append((label, go))
            return out
        finish(st, r)
        return None

    def no_overlap(self, st, args, where):
        """memcpy: source and destination are apart (or the same, as compilers allow)"""
        dst, src, ln = simp(args[0]), simp(args[1]), simp(args[2])
        if ln.size() < 64:
            ln = z3.ZeroExt(64 - ln.size(), ln)
        if is_num(ln) and num(ln) == 0 or dst.eq(src) or self.has_stack(dst) != self.has_stack(src):
            return
        n = num(ln) if is_num(ln) else ln
        if self.pure(st, dst)[1] is not None or self.pure(st, src)[1] is not None:
            return      # the copy is split into cases first, and comes here again
        if not self.possible(ln != 0):
            return
        pd, ps = self.place(st, dst, n), self.place(st, src, n)
        if pd is not None and ps is not None and (pd[0] is not ps[0] or pd[1] is not None and not self.possible(pd[1] == ps[1])):
            return
        self.prove(st, z3.Or(ln == 0, dst == src, z3.And(z3.ULE(ln, dst - src), z3.ULE(ln, src - dst))), 'memcpy-no-overlap@' + where)

    def do_copy(self, st, fr, ins, args, finish):
        for i in (0, 1):
            args[i], c = self.pure(st, args[i])
            if c is not None:
                return self.splits(c)
        dst, src, ln = simp(args[0]), simp(args[1]), simp(args[2])
        if ln.size() < 64:
            ln = z3.ZeroExt(64 - ln.size(), ln)
        self.check_foot(st, dst, ln, self.at(fr, ins))
        st.mem = Node('copy', st.mem, dst, ln, src, st.mem)
        finish(st, dst)
        return None

    def intrinsic(self, st, fr, ins, name, args, finish):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            if name.startswith('llvm.memcpy'):
                self.no_overlap(st, args, self.at(fr, ins))
            return self.do_copy(st, fr, ins, args, finish)
        if name.startswith('llvm.memset'):
            ln = args[2]
            if ln.size() < 64:
                ln = z3.ZeroExt(64 - ln.size(), ln)
            args[0], c = self.pure(st, args[0])
            if c is not None:
                return self.splits(c)
            self.check_foot(st, simp(args[0]), ln, self.at(fr, ins))
            st.mem = Node('fill', st.mem, simp(args[0]), simp(ln), args[1])
            finish(st, None)
            return None
        if name.startswith('llvm.ctlz') or name.startswith('llvm.cttz'):
            n = args[0].size()
            self.prove(st, z3.Or(z3.Not(args[1]), args[0] != 0), 'bit-scan-nonzero@' + self.at(fr, ins))
            finish(st, simp(self.clz(args[0], n) if 'ctlz' in name else self.ctz(args[0], n)))
            return None
        if name.startswith('llvm.expect'):
            finish(st, args[0])
            return None
        if '.with.overflow' in name:
            a, b = args
            o = name.split('.')[1]
            sg = o[0] == 's'
            if o[1:] == 'add':
                v, ov = a + b, z3.Not(z3.And(z3.BVAddNoOverflow(a, b, sg), z3.BVAddNoUnderflow(a, b) if sg else True))
            elif o[1:] == 'sub':
                v, ov = a - b, z3.Not(z3.BVSubNoUnderflow(a, b, sg)) if not sg else z3.Not(z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)))
            else:
                v, ov = a * b, z3.Not(z3.And(z3.BVMulNoOverflow(a, b, sg), z3.BVMulNoUnderflow(a, b) if sg else True))
            finish(st, (simp(v), simp(ov)))
            return None
        if name.startswith('llvm.umin') or name.startswith('llvm.umax'):
            a, b = args
            c = z3.ULT(a, b) if 'umin' in name else z3.UGT(a, b)
            finish(st, simp(z3.If(c, a, b)))
            return None
        if name.startswith('llvm.lifetime') or name.startswith('llvm.dbg') or name.startswith('llvm.assume') or \
                name.startswith('llvm.stack') or name.startswith('llvm.va_'):
            if name.startswith('llvm.va_') or name.startswith('llvm.stack'):
                raise Unsupported(name)
            finish(st, None)
            return None
        if name.startswith('llvm.fmuladd') or name.startswith('llvm.fabs') or name.startswith('llvm.round') or \
                name.startswith('llvm.pow') or name.startswith('llvm.log'):
            finish(st, self.fresh('f', ins.ty.n))
            return None
        if name.startswith('llvm.threadlocal.address'):
            finish(st, args[0])
            return None
        raise Unsupported('intrinsic ' + name)
