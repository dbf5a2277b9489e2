"""Integer encoding of bit-vector conditions that keeps the mod-2^w semantics.

Every bit-vector term becomes an integer term in [0, 2^w).  A wrapping operation
introduces a quotient variable with a total definition, so that a condition and the
definitions it needs are equisatisfiable with the bit-vector condition.  Terms outside
the fragment raise NotLinear (the caller then falls back to bit-vectors)."""
import z3


class NotLinear(Exception):
    pass


class Enc:
    def __init__(self):
        self.cache = {}     # ast id -> (int term, eval term, frozenset of def ids)
        self.keep = []
        self.defs = []      # def id -> constraint
        self.vars = {}
        self.lins = {}
        self.sums = {}
        self.n = 0

    def newdef(self, c):
        self.defs.append(c)
        return len(self.defs) - 1

    def fresh(self):
        self.n += 1
        return z3.Int('k!%d' % self.n)

    def t(self, e):
        k = e.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self.build(e)
            self.cache[k] = r
            self.keep.append(e)
        return r

    def wrap(self, s, ev, ds, w, lo_known=None):
        """s mod 2^w"""
        s1 = z3.simplify(s)
        if z3.is_int_value(s1):
            v = z3.IntVal(s1.as_long() % (1 << w))
            return v, v, ds
        q = self.fresh()
        m = 1 << w
        t = s - q * m
        d = self.newdef(z3.And(t >= 0, t < m))
        return t, ev % m, ds | {d}

    def lin(self, e, w):
        """linear normal form of a bit-vector term modulo 2^w: ({atom id: (coefficient, atom)}, constant)"""
        key = e.get_id()
        r = self.lins.get(key)
        if r is not None:
            return r
        m = 1 << w
        k = e.decl().kind()
        out, c0 = {}, 0

        def acc(x, f):
            nonlocal c0
            d, c = self.lin(x, w)
            c0 = (c0 + f * c) % m
            for i, (co, at) in d.items():
                o = out.get(i)
                n = ((o[0] if o else 0) + f * co) % m
                if n:
                    out[i] = (n, at)
                elif o:
                    del out[i]
        if z3.is_bv_value(e):
            c0 = e.as_long()
        elif k == z3.Z3_OP_BADD:
            for x in e.children():
                acc(x, 1)
        elif k == z3.Z3_OP_BSUB:
            for i, x in enumerate(e.children()):
                acc(x, 1 if i == 0 else -1)
        elif k == z3.Z3_OP_BNEG:
            acc(e.children()[0], -1)
        elif k == z3.Z3_OP_BNOT:
            acc(e.children()[0], -1)
            c0 = (c0 - 1) % m
        elif k == z3.Z3_OP_BMUL:
            f, x = 1, None
            for y in e.children():
                if z3.is_bv_value(y):
                    f = f * y.as_long() % m
                elif x is None:
                    x = y
                else:
                    raise NotLinear('mul')
            if x is None:
                c0 = f
            else:
                acc(x, f)
        elif k == z3.Z3_OP_BSHL and z3.is_bv_value(e.children()[1]):
            n = e.children()[1].as_long()
            if n < w:
                acc(e.children()[0], 1 << n)
        else:
            out[key] = (1, e)
            self.keep.append(e)
        r = self.lins[key] = (out, c0)
        self.keep.append(e)
        return r

    def sum(self, e, w):
        out, c0 = self.lin(e, w)
        if not out:
            v = z3.IntVal(c0)
            return v, v, frozenset()
        if c0 == 0 and len(out) == 1:
            (co, at), = out.values()
            if co == 1:
                return self.t(at)
        key = (w, c0, tuple(sorted((i, co) for i, (co, _) in out.items())))
        r = self.sums.get(key)
        if r is not None:
            return r
        m = 1 << w
        h = m >> 1
        lo = hi = c0 if c0 < h else c0 - m
        s = ev = z3.IntVal(lo)
        ds = frozenset()
        for i, (co, at) in sorted(out.items()):
            ti, te, td = self.t(at)
            ds |= td
            if co >= h:
                co -= m
            s = s + ti * co
            ev = ev + te * co
            x = co * (m - 1)
            lo, hi = lo + min(x, 0), hi + max(x, 0)
        q = self.fresh()
        t = s - q * m
        d = self.newdef(z3.And(t >= 0, t < m, q >= lo // m, q <= hi // m))
        r = self.sums[key] = (t, ev % m, ds | {d})
        return r

    def build(self, e):
        d = e.decl()
        k = d.kind()
        ch = e.children()
        Z = z3
        if Z.is_bv_value(e):
            v = Z.IntVal(e.as_long())
            return v, v, frozenset()
        if k == Z.Z3_OP_TRUE or k == Z.Z3_OP_FALSE:
            return e, e, frozenset()
        if k == Z.Z3_OP_UNINTERPRETED and not ch:
            if Z.is_bool(e):
                return e, e, frozenset()
            if Z.is_bv(e):
                v = Z.Int('i.' + d.name())
                dd = self.newdef(Z.And(v >= 0, v < (1 << e.size())))
                self.vars[d.name()] = v
                return v, v, frozenset([dd])
            raise NotLinear(str(e))
        if k in (Z.Z3_OP_BADD, Z.Z3_OP_BSUB, Z.Z3_OP_BNEG, Z.Z3_OP_BMUL, Z.Z3_OP_BNOT) or \
                k == Z.Z3_OP_BSHL and Z.is_bv_value(ch[1]):
            return self.sum(e, e.size())
        cs = [self.t(c) for c in ch]
        ds = frozenset().union(*[c[2] for c in cs]) if cs else frozenset()
        a = [c[0] for c in cs]
        b = [c[1] for c in cs]
        if k == Z.Z3_OP_AND:
            return Z.And(*a), Z.And(*b), ds
        if k == Z.Z3_OP_OR:
            return Z.Or(*a), Z.Or(*b), ds
        if k == Z.Z3_OP_NOT:
            return Z.Not(a[0]), Z.Not(b[0]), ds
        if k == Z.Z3_OP_IMPLIES:
            return Z.Implies(*a), Z.Implies(*b), ds
        if k == Z.Z3_OP_XOR:
            return Z.Xor(*a), Z.Xor(*b), ds
        if k == Z.Z3_OP_ITE:
            return Z.If(*a), Z.If(*b), ds
        if k == Z.Z3_OP_EQ:
            return a[0] == a[1], b[0] == b[1], ds
        if k == Z.Z3_OP_DISTINCT:
            return Z.Distinct(*a), Z.Distinct(*b), ds
        if k == Z.Z3_OP_ULEQ:
            return a[0] <= a[1], b[0] <= b[1], ds
        if k == Z.Z3_OP_ULT:
            return a[0] < a[1], b[0] < b[1], ds
        if k == Z.Z3_OP_UGEQ:
            return a[0] >= a[1], b[0] >= b[1], ds
        if k == Z.Z3_OP_UGT:
            return a[0] > a[1], b[0] > b[1], ds
        if k in (Z.Z3_OP_SLEQ, Z.Z3_OP_SLT, Z.Z3_OP_SGEQ, Z.Z3_OP_SGT):
            w = ch[0].size()
            h, m = 1 << (w - 1), 1 << w
            a = [Z.If(x >= h, x - m, x) for x in a]
            b = [Z.If(x >= h, x - m, x) for x in b]
            f = {Z.Z3_OP_SLEQ: lambda x: x[0] <= x[1], Z.Z3_OP_SLT: lambda x: x[0] < x[1],
                 Z.Z3_OP_SGEQ: lambda x: x[0] >= x[1], Z.Z3_OP_SGT: lambda x: x[0] > x[1]}[k]
            return f(a), f(b), ds
        if not Z.is_bv(e):
            raise NotLinear(d.name())
        w = e.size()
        if k == Z.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x, y = a[0], b[0]
            if lo:
                q = self.fresh()
                dd = self.newdef(Z.And(q * (1 << lo) <= x, x < (q + 1) * (1 << lo)))
                ds = ds | {dd}
                x, y = q, y / (1 << lo)
            if hi + 1 < ch[0].size():
                return self.wrap(x, y, ds, hi - lo + 1)
            return x, y, ds
        if k == Z.Z3_OP_ZERO_EXT:
            return a[0], b[0], ds
        if k == Z.Z3_OP_SIGN_EXT:
            w0 = ch[0].size()
            add = (1 << w) - (1 << w0)
            return Z.If(a[0] >= 1 << (w0 - 1), a[0] + add, a[0]), Z.If(b[0] >= 1 << (w0 - 1), b[0] + add, b[0]), ds
        if k == Z.Z3_OP_CONCAT:
            x, y = a[0], b[0]
            for i in range(1, len(ch)):
                x = x * (1 << ch[i].size()) + a[i]
                y = y * (1 << ch[i].size()) + b[i]
            return x, y, ds
        if k in (Z.Z3_OP_BLSHR, Z.Z3_OP_BSHL, Z.Z3_OP_BUDIV, Z.Z3_OP_BUDIV_I, Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
            if not Z.is_int_value(a[1]):
                raise NotLinear(d.name())
            c = a[1].as_long()
            if k == Z.Z3_OP_BSHL:
                if c >= w:
                    return Z.IntVal(0), Z.IntVal(0), ds
                return self.wrap(a[0] * (1 << c), b[0] * (1 << c), ds, w)
            if k == Z.Z3_OP_BLSHR:
                if c >= w:
                    return Z.IntVal(0), Z.IntVal(0), ds
                c = 1 << c
            if c == 0:
                raise NotLinear('div by zero')
            q = self.fresh()
            dd = self.newdef(Z.And(q * c <= a[0], a[0] < (q + 1) * c))
            if k in (Z.Z3_OP_BUREM, Z.Z3_OP_BUREM_I):
                return a[0] - q * c, b[0] % c, ds | {dd}
            return q, b[0] / c, ds | {dd}
        if k == Z.Z3_OP_BAND:
            for i in (0, 1):
                if len(a) == 2 and Z.is_int_value(a[i]):
                    m = a[i].as_long()
                    if m & (m + 1) == 0:
                        n = m.bit_length()
                        if n == 0:
                            return Z.IntVal(0), Z.IntVal(0), ds
                        return self.wrap(a[1 - i], b[1 - i], ds, n)
                    m = (1 << w) - 1 - a[i].as_long()
                    if m & (m + 1) == 0:
                        n = m.bit_length()
                        lo, el, ds = self.wrap(a[1 - i], b[1 - i], ds, n)
                        return a[1 - i] - lo, b[1 - i] - el, ds
            raise NotLinear('and')
        raise NotLinear(d.name())


class IModel:
    """model of the integer encoding"""
    __slots__ = ('m', 'enc')

    def __init__(self, m, enc):
        self.m = m
        self.enc = enc

    def val(self, e):
        """int of a bit-vector term / bool of a condition"""
        try:
            r = self.m.eval(self.enc.t(e)[1], model_completion=True)
        except NotLinear:
            sub = [(z3.BitVec(n, 64), z3.BitVecVal(self.m.eval(v, model_completion=True).as_long(), 64)) for n, v in self.enc.vars.items()]
            r = z3.simplify(z3.substitute(e, *sub))
        if z3.is_bool(r):
            return z3.is_true(r)
        return r.as_long()


class BModel:
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def val(self, e):
        r = self.m.eval(e, model_completion=True)
        if z3.is_bool(r):
            return z3.is_true(r)
        return r.as_long()
