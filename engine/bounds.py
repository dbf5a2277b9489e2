"""Interval reasoning over the integer encoding: decides conditions that follow from
variable bounds alone, so that only the others are put to the solver."""
import z3

INF = 1 << 200


class Bounds:
    """linear forms of integer conditions, cached"""

    def __init__(self):
        self.cache = {}
        self.keep = []

    def linear(self, e):
        """integer term -> (dict var -> coef, const) or None"""
        k = e.get_id()
        r = self.cache.get(k, 0)
        if r != 0:
            return r
        r = self._linear(e)
        self.cache[k] = r
        self.keep.append(e)
        return r

    def _linear(self, e):
        if z3.is_int_value(e):
            return ({}, e.as_long())
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_UNINTERPRETED and not ch:
            return ({e.decl().name(): 1}, 0)
        if kd == z3.Z3_OP_ADD or kd == z3.Z3_OP_SUB:
            d, c = {}, 0
            for i, x in enumerate(ch):
                l = self.linear(x)
                if l is None:
                    return None
                s = -1 if kd == z3.Z3_OP_SUB and i else 1
                c += s * l[1]
                for v, a in l[0].items():
                    d[v] = d.get(v, 0) + s * a
            return ({v: a for v, a in d.items() if a}, c)
        if kd == z3.Z3_OP_UMINUS:
            l = self.linear(ch[0])
            return None if l is None else ({v: -a for v, a in l[0].items()}, -l[1])
        if kd == z3.Z3_OP_MUL and len(ch) == 2:
            a, b = self.linear(ch[0]), self.linear(ch[1])
            if a is None or b is None:
                return None
            if a[0] and b[0]:
                return None
            if a[0]:
                a, b = b, a
            return ({v: x * a[1] for v, x in b[0].items()}, b[1] * a[1])
        return None

    def atoms(self, e, neg=False):
        """condition -> list of (coefs, c, kind): sum <= c ('le') or sum == c ('eq') or != ('ne'), conjunctive; None if not of that form"""
        k = (e.get_id(), neg)
        r = self.cache.get(k, 0)
        if r != 0:
            return r
        r = self._atoms(e, neg)
        self.cache[k] = r
        self.keep.append(e)
        return r

    def _atoms(self, e, neg):
        kd = e.decl().kind()
        ch = e.children()
        if kd == z3.Z3_OP_NOT:
            return self.atoms(ch[0], not neg)
        if kd == z3.Z3_OP_AND and not neg or kd == z3.Z3_OP_OR and neg:
            out = []
            for x in ch:
                a = self.atoms(x, neg)
                if a is None:
                    return None
                out += a
            return out
        if kd in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ):
            if not z3.is_int(ch[0]):
                return None
            a, b = self.linear(ch[0]), self.linear(ch[1])
            if a is None or b is None:
                return None
            d = dict(a[0])
            for v, x in b[0].items():
                d[v] = d.get(v, 0) - x
            d = {v: x for v, x in d.items() if x}
            c = b[1] - a[1]
            if kd == z3.Z3_OP_EQ:
                return [(d, c, 'ne' if neg else 'eq')]
            if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                d = {v: -x for v, x in d.items()}
                c = -c
                kd = z3.Z3_OP_LE if kd == z3.Z3_OP_GE else z3.Z3_OP_LT
            if kd == z3.Z3_OP_LT:
                c -= 1
            if neg:
                d = {v: -x for v, x in d.items()}
                c = -c - 1
            return [(d, c, 'le')]
        return None


def rng(iv, d):
    lo = hi = 0
    for v, a in d.items():
        l, h = iv.get(v, (-INF, INF))
        if a > 0:
            lo += a * l
            hi += a * h
        else:
            lo += a * h
            hi += a * l
    return lo, hi


def decide(iv, atoms):
    """True / False / None"""
    if atoms is None:
        return None
    res = True
    for d, c, k in atoms:
        lo, hi = rng(iv, d)
        if k == 'le':
            r = True if hi <= c else False if lo > c else None
        elif k == 'eq':
            r = False if c < lo or c > hi else True if lo == hi else None
        else:
            r = True if c < lo or c > hi else False if lo == hi else None
        if r is False:
            return False
        if r is None:
            res = None
    return res


def _tight(iv, d, c):
    """sum <= c tightens every variable"""
    ch = False
    lo, _ = rng(iv, d)
    if lo < -INF // 2:
        # at most one unbounded term can still be tightened
        pass
    for v, a in d.items():
        l, h = iv.get(v, (-INF, INF))
        rest = lo - (a * l if a > 0 else a * h)
        if rest < -INF // 2:
            continue
        m = c - rest
        if a > 0:
            n = m // a
            if n < h:
                iv[v] = (l, n)
                ch = True
                lo, _ = rng(iv, d)
        else:
            n = -(m // -a)
            if n > l:
                iv[v] = (n, h)
                ch = True
                lo, _ = rng(iv, d)
    return ch


def learn(iv, atoms):
    if atoms is None:
        return False
    ch = False
    for d, c, k in atoms:
        if k == 'le':
            ch |= _tight(iv, d, c)
        elif k == 'eq':
            ch |= _tight(iv, d, c)
            ch |= _tight(iv, {v: -a for v, a in d.items()}, -c)
        elif len(d) == 1:
            (v, a), = d.items()
            if c % a == 0:
                x = c // a
                l, h = iv.get(v, (-INF, INF))
                if x == l:
                    iv[v] = (l + 1, h)
                    ch = True
                elif x == h:
                    iv[v] = (l, h - 1)
                    ch = True
    return ch
