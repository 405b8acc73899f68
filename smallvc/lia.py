"""Bit-vector queries as linear integer arithmetic with uninterpreted functions.

Every bit-vector term becomes an integer between 0 and 2^w-1; sums get an explicit carry, extraction and constant shifts
an explicit quotient and remainder; any other operation becomes an uninterpreted function of its operands (with bounds).
The translation only forgets facts, so `unsat' of the translation is `unsat' of the query; `sat' means nothing."""
import z3

IN = z3.IntSort()
K = z3


class Trans:
    def __init__(self):
        self.c = {}
        self.side = {}
        self.n = 0

    def fresh(self, w=None):
        self.n += 1
        v = z3.Int('lia!%d' % self.n)
        return v

    def rng(self, v, w):
        return [v >= 0, v < 2 ** w]

    def term(self, t):
        """-> Int expression; definitional constraints are collected in self.out"""
        k = t.get_id()
        r = self.c.get(k)
        if r is None:
            save = self.out
            self.out = []
            e = self._term(t)
            r = (t, e, self.out)
            self.c[k] = r
            self.out = save
        self.use(k)
        return r[1]

    def use(self, k):
        if k in self.used:
            return
        self.used.add(k)
        for x in self.c[k][2]:
            if isinstance(x, int):
                self.use(x)
            else:
                self.out_q.append(x)

    def sub(self, t):
        e = self.term(t)
        self.out.append(t.get_id())
        return e

    def lin(self, t, coef, acc):
        """linear combination of non-additive terms (modulo 2^w)"""
        w = t.size()
        if z3.is_bv_value(t):
            acc[None] = acc.get(None, 0) + coef * t.as_long()
        elif z3.is_app_of(t, z3.Z3_OP_BADD):
            for c in t.children():
                self.lin(c, coef, acc)
        elif z3.is_app_of(t, z3.Z3_OP_BSUB):
            ch = t.children()
            self.lin(ch[0], coef, acc)
            for c in ch[1:]:
                self.lin(c, -coef, acc)
        elif z3.is_app_of(t, z3.Z3_OP_BNEG):
            self.lin(t.arg(0), -coef, acc)
        elif z3.is_app_of(t, z3.Z3_OP_BNOT):
            self.lin(t.arg(0), -coef, acc)
            acc[None] = acc.get(None, 0) - coef
        elif z3.is_app_of(t, z3.Z3_OP_BMUL) and t.num_args() == 2 and z3.is_bv_value(t.arg(0)):
            v = t.arg(0).as_long()
            if v >= 2 ** (w - 1):
                v -= 2 ** w
            self.lin(t.arg(1), coef * v, acc)
        else:
            o = acc.get(t.get_id())
            acc[t.get_id()] = (t, (o[1] if o else 0) + coef)

    def _term(self, t):
        w = t.size()
        if z3.is_bv_value(t):
            return z3.IntVal(t.as_long())
        d = t.decl()
        kd = d.kind()
        if kd in (z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BNOT) or \
                (kd == z3.Z3_OP_BMUL and t.num_args() == 2 and z3.is_bv_value(t.arg(0))):
            acc = {}
            self.lin(t, 1, acc)
            const = acc.pop(None, 0) % 2 ** w
            if const >= 2 ** (w - 1):
                const -= 2 ** w
            s = z3.IntVal(const)
            lo, hi = const, const
            for x, c in acc.values():
                if c == 0:
                    continue
                s = s + c * self.sub(x)
                m = c * (2 ** w - 1)
                lo, hi = lo + min(m, 0), hi + max(m, 0)
            klo, khi = lo // 2 ** w, hi // 2 ** w
            if klo == khi:
                return s - klo * 2 ** w
            r, k = self.fresh(), self.fresh()
            self.out += self.rng(r, w) + [k >= klo, k <= khi, r == s - k * 2 ** w]
            return r
        if kd == z3.Z3_OP_ITE:
            return z3.If(self.form(t.arg(0)), self.sub(t.arg(1)), self.sub(t.arg(2)))
        if kd == z3.Z3_OP_CONCAT:
            e = z3.IntVal(0)
            for c in t.children():
                e = e * 2 ** c.size() + self.sub(c)
            return e
        if kd == z3.Z3_OP_ZERO_EXT:
            return self.sub(t.arg(0))
        if kd == z3.Z3_OP_SIGN_EXT:
            a = self.sub(t.arg(0))
            n = t.arg(0).size()
            return z3.If(a >= 2 ** (n - 1), a + 2 ** w - 2 ** n, a)
        if kd == z3.Z3_OP_EXTRACT:
            hi, lo = d.params()
            return self.slice(t.arg(0), hi, lo)
        if kd in (z3.Z3_OP_BLSHR, z3.Z3_OP_BSHL) and z3.is_bv_value(t.arg(1)):
            n = t.arg(1).as_long()
            if n >= w:
                return z3.IntVal(0)
            if kd == z3.Z3_OP_BLSHR:
                return self.slice(t.arg(0), w - 1, n)
            return self.slice(t.arg(0), w - 1 - n, 0) * 2 ** n
        if kd == z3.Z3_OP_BAND and t.num_args() == 2:
            a, b = t.arg(0), t.arg(1)
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                m = a.as_long()
                if m & (m + 1) == 0:
                    n = m.bit_length()
                    return self.slice(b, n - 1, 0) if n else z3.IntVal(0)
                inv = ~m & (2 ** w - 1)
                if inv & (inv + 1) == 0:
                    n = inv.bit_length()
                    return self.sub(b) - self.slice(b, n - 1, 0)
            x, y = self.sub(a), self.sub(b)
            if str(x) > str(y):
                x, y = y, x
            r = z3.Function('lia_and%d' % w, IN, IN, IN)(x, y)
            self.out += [r >= 0, r <= x, r <= y]
            return r
        if kd == z3.Z3_OP_BOR and t.num_args() == 2:
            x, y = self.sub(t.arg(0)), self.sub(t.arg(1))
            if str(x) > str(y):
                x, y = y, x
            r = z3.Function('lia_or%d' % w, IN, IN, IN)(x, y)
            self.out += [r >= x, r >= y, r <= x + y, r < 2 ** w]
            return r
        if kd in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUREM, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM_I) and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long():
            c = t.arg(1).as_long()
            x = self.sub(t.arg(0))
            q, r = self.fresh(), self.fresh()
            self.out += [x == q * c + r, r >= 0, r < c, q >= 0]
            return q if kd in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I) else r
        # uninterpreted
        args = [self.sub(c) if z3.is_bv(c) else z3.If(self.form(c), z3.IntVal(1), z3.IntVal(0)) if z3.is_bool(c) else None
                for c in t.children()]
        if any(a is None for a in args):
            args = []
            nm = 'lia_t%d' % t.get_id()
        elif kd == z3.Z3_OP_UNINTERPRETED:
            nm = d.name()
        else:
            nm = 'lia_%s_%s_%d_%s' % (d.name(), '_'.join(str(p) for p in d.params()), w, '_'.join(str(c.size()) if z3.is_bv(c) else 'b' for c in t.children()))
        r = z3.Function(nm, *([IN] * len(args)), IN)(*args) if args else z3.Int(nm)
        self.out += self.rng(r, w)
        if kd in (z3.Z3_OP_BUDIV, z3.Z3_OP_BUDIV_I, z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            self.out.append(z3.Implies(args[1] > 0, r <= args[0]))
        if kd in (z3.Z3_OP_BUREM, z3.Z3_OP_BUREM_I):
            self.out.append(z3.Implies(args[1] > 0, r < args[1]))
        if kd == z3.Z3_OP_BLSHR:
            self.out.append(r <= args[0])
        return r

    def slice(self, x, hi, lo):
        w = x.size()
        a = self.sub(x)
        if hi == w - 1 and lo == 0:
            return a
        r = self.fresh()
        self.out += self.rng(r, hi - lo + 1)
        e = r * 2 ** lo
        if hi < w - 1:
            q = self.fresh()
            self.out += self.rng(q, w - 1 - hi)
            e = e + q * 2 ** (hi + 1)
        if lo > 0:
            l = self.fresh()
            self.out += self.rng(l, lo)
            e = e + l
        self.out.append(a == e)
        return r

    def form(self, f):
        if z3.is_true(f) or z3.is_false(f):
            return f
        kd = f.decl().kind()
        ch = f.children()
        if kd == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if kd == z3.Z3_OP_AND:
            return z3.And(*[self.form(c) for c in ch])
        if kd == z3.Z3_OP_OR:
            return z3.Or(*[self.form(c) for c in ch])
        if kd == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if kd == z3.Z3_OP_XOR:
            return z3.Xor(self.form(ch[0]), self.form(ch[1]))
        if kd == z3.Z3_OP_ITE:
            return z3.If(self.form(ch[0]), self.form(ch[1]), self.form(ch[2]))
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and z3.is_bool(ch[0]):
            return self.form(ch[0]) == self.form(ch[1])
        if kd == z3.Z3_OP_EQ and z3.is_bv(ch[0]):
            return self.sub(ch[0]) == self.sub(ch[1])
        if kd == z3.Z3_OP_DISTINCT and z3.is_bv(ch[0]):
            return z3.Distinct(*[self.sub(c) for c in ch])
        cmp = {z3.Z3_OP_ULEQ: lambda a, b: a <= b, z3.Z3_OP_ULT: lambda a, b: a < b, z3.Z3_OP_UGEQ: lambda a, b: a >= b,
               z3.Z3_OP_UGT: lambda a, b: a > b}
        if kd in cmp:
            return cmp[kd](self.sub(ch[0]), self.sub(ch[1]))
        scmp = {z3.Z3_OP_SLEQ: lambda a, b: a <= b, z3.Z3_OP_SLT: lambda a, b: a < b, z3.Z3_OP_SGEQ: lambda a, b: a >= b,
                z3.Z3_OP_SGT: lambda a, b: a > b}
        if kd in scmp:
            w = ch[0].size()
            sg = lambda e: z3.If(e >= 2 ** (w - 1), e - 2 ** w, e)
            return scmp[kd](sg(self.sub(ch[0])), sg(self.sub(ch[1])))
        if kd == z3.Z3_OP_UNINTERPRETED and not ch:
            return f
        return z3.Bool('lia_f%d' % f.get_id())

    def query(self, conds):
        self.used = set()
        self.out_q = []
        self.keep = conds
        res = []
        for c in conds:
            k = ('f', c.get_id())
            r = self.c.get(k)
            if r is None:
                self.out = []
                e = self.form(c)
                r = (c, e, self.out)
                self.c[k] = r
            res.append(r[1])
            self.use(k)
        return res + self.out_q


def unsat(tr, conds, timeout):
    s = z3.SolverFor('QF_UFLIA')
    # effort in solver steps (see engine.INC_STEPS)
    s.set('timeout', timeout * 25)
    s.set('rlimit', timeout * 8000)
    s.add(*tr.query(conds))
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False
