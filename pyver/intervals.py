"""Interval analysis of terms (outward rounded, exact fractions): decides comparisons that need only the domain bounds."""
import decimal
from fractions import Fraction as F

import z3

_CTX = decimal.Context(prec=45, Emax=10 ** 6, Emin=-10 ** 6)
_SLACK = F(1, 10 ** 35)
TOP = (None, None)


def _dec(f):
    return _CTX.divide(decimal.Decimal(f.numerator), decimal.Decimal(f.denominator))


def _out(d, up):
    f = F(d)
    return f + abs(f) * _SLACK + F(1, 10 ** 60) if up else f - abs(f) * _SLACK - F(1, 10 ** 60)


def _exp(f, up):
    if f > 2000:
        return None if up else _out(_CTX.exp(decimal.Decimal(2000)), False)
    if f < -100:
        return _out(_CTX.exp(decimal.Decimal(-99)), True) if up else F(0)
    r = _out(_CTX.exp(_dec(f)), up)
    return r if up else max(r, F(0))


def _ln(f, up):
    if f <= 0:
        return None
    return _out(_CTX.ln(_dec(f)), up)


def _neg(a):
    return (None if a[1] is None else -a[1], None if a[0] is None else -a[0])


def _add(a, b):
    return (None if a[0] is None or b[0] is None else a[0] + b[0], None if a[1] is None or b[1] is None else a[1] + b[1])


def _mulb(x, y):
    """Product of extended numbers; x, y in Fraction or ('+'|'-')."""
    if x == 0 or y == 0:
        return F(0)
    sx = 1 if x == '+' or (x != '-' and x > 0) else -1
    sy = 1 if y == '+' or (y != '-' and y > 0) else -1
    if x in ('+', '-') or y in ('+', '-'):
        return '+' if sx * sy > 0 else '-'
    return x * y


def _mul(a, b):
    xs = [a[0] if a[0] is not None else '-', a[1] if a[1] is not None else '+']
    ys = [b[0] if b[0] is not None else '-', b[1] if b[1] is not None else '+']
    ps = [_mulb(x, y) for x in xs for y in ys]
    lo = None if '-' in ps else min([p for p in ps if p != '+'], default=None)
    hi = None if '+' in ps else max([p for p in ps if p != '-'], default=None)
    return lo, hi


def _hull(a, b):
    return (None if a[0] is None or b[0] is None else min(a[0], b[0]), None if a[1] is None or b[1] is None else max(a[1], b[1]))


def _ipow(a, n):
    if n == 0:
        return (F(1), F(1))
    lo, hi = a
    if n % 2:
        return (None if lo is None else lo ** n, None if hi is None else hi ** n)
    if lo is not None and lo >= 0:
        return (lo ** n, None if hi is None else hi ** n)
    if hi is not None and hi <= 0:
        return (hi ** n, None if lo is None else lo ** n)
    return (F(0), None if lo is None or hi is None else max(-lo, hi) ** n)


class Intervals(object):
    def __init__(self):
        self.env = {}
        self.memo = {}
        self.keep = []

    def bound(self, t, lo, hi):
        self.env[t.get_id()] = (F(lo), F(hi))
        self.keep.append(t)

    def of(self, t):
        stack = [t]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.memo:
                stack.pop()
                continue
            kids = [] if i in self.env or z3.is_rational_value(x) or z3.is_int_value(x) or not z3.is_app(x) else [
                c for c in x.children() if z3.is_arith(c)]
            todo = [c for c in kids if c.get_id() not in self.memo]
            if todo:
                stack.extend(todo)
                continue
            self.memo[i] = self.node(x)
            self.keep.append(x)
            stack.pop()
        return self.memo[t.get_id()]

    def node(self, t):
        i = t.get_id()
        if i in self.env:
            return self.env[i]
        if z3.is_int_value(t):
            v = F(t.as_long())
            return v, v
        if z3.is_rational_value(t):
            v = F(t.numerator_as_long(), t.denominator_as_long())
            return v, v
        if not z3.is_app(t):
            return TOP
        k = t.decl().kind()
        a = [self.memo.get(c.get_id(), TOP) for c in t.children()]
        if k == z3.Z3_OP_TO_REAL:
            return a[0]
        if k == z3.Z3_OP_ADD:
            r = a[0]
            for x in a[1:]:
                r = _add(r, x)
            return r
        if k == z3.Z3_OP_SUB:
            r = a[0]
            for x in a[1:]:
                r = _add(r, _neg(x))
            return r
        if k == z3.Z3_OP_UMINUS:
            return _neg(a[0])
        if k == z3.Z3_OP_MUL:
            groups = []
            for c, x in zip(t.children(), a):
                for g in groups:
                    if g[0].eq(c):
                        g[2] += 1
                        break
                else:
                    groups.append([c, x, 1])
            r = (F(1), F(1))
            for c, x, n in groups:
                r = _mul(r, _ipow(x, n) if n > 1 else x)
            return r
        if k == z3.Z3_OP_POWER:
            e = t.arg(1)
            if z3.is_int_value(e) or z3.is_rational_value(e):
                n = F(e.as_fraction() if z3.is_rational_value(e) else e.as_long())
                if n.denominator == 1 and 0 <= n <= 60:
                    return _ipow(a[0], int(n))
            return TOP
        if k == z3.Z3_OP_DIV:
            lo, hi = a[1]
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                if hi is None:
                    inv = (F(0), 1 / lo)
                elif lo is None:
                    inv = (1 / hi, F(0))
                else:
                    inv = (1 / hi, 1 / lo)
                return _mul(a[0], inv)
            return TOP
        if k == z3.Z3_OP_ITE:
            v = self.truth(t.arg(0))
            if v is not None:
                return self.of(t.arg(1) if v else t.arg(2))
            return _hull(self.of(t.arg(1)), self.of(t.arg(2)))
        if k == z3.Z3_OP_MOD:
            if a[1][0] is not None and a[1][0] == a[1][1] and a[1][0] > 0:
                return F(0), a[1][0] - 1
            return TOP
        if k == z3.Z3_OP_IDIV:
            if a[1][0] is not None and a[1][0] == a[1][1] and a[1][0] > 0:
                d = a[1][0]
                return (None if a[0][0] is None else F(a[0][0] // d), None if a[0][1] is None else F(a[0][1] // d))
            return TOP
        if k == z3.Z3_OP_BV2INT:
            return F(0), F(2 ** t.arg(0).size() - 1)
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            n = t.decl().name()
            lo, hi = a[0] if a else TOP
            if n.startswith('round_'):
                return (None if lo is None else F(lo.numerator // lo.denominator),
                        None if hi is None else F(-((-hi.numerator) // hi.denominator)))
            if n == 'exp':
                return (F(0) if lo is None else _exp(lo, False), None if hi is None else _exp(hi, True))
            if n == 'ln':
                return (None if lo is None else _ln(lo, False), None if hi is None else _ln(hi, True))
            if n == 'sqrt':
                return F(0), None if hi is None or hi < 0 else _out(_CTX.sqrt(_dec(hi)), True)
            if n == 'pow':
                return self.pow(a[0], a[1])
            if n == 'fl':
                e = F(1, 2 ** 52)
                return (None if lo is None else lo - abs(lo) * e, None if hi is None else hi + abs(hi) * e)
        return TOP

    def pow(self, x, y):
        """x ** y for x > 0 (callers never use it otherwise)."""
        xl, xh = x
        yl, yh = y
        if xl is None or yl is None or yh is None or xl < 0:
            return F(0) if xl is not None and xl >= 0 else None, None
        if yl >= 0 and xl == 0:
            if xh is None:
                return F(0), None
            h = max(F(1), xh)
            return F(0), _exp(_ln(h, True) * yh, True) if h > 1 else F(1)
        if xl == 0:
            return F(0), None
        l0 = _ln(xl, False)
        l1 = None if xh is None else _ln(xh, True)
        p = _mul((l0, l1), y)
        return (F(0) if p[0] is None else _exp(p[0], False), None if p[1] is None else _exp(p[1], True))

    def truth(self, c, memo=None):
        """True, False or None (not decided by intervals).  Shared subterms are looked at once."""
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if not z3.is_app(c):
            return None
        k = c.decl().kind()
        if k == z3.Z3_OP_NOT:
            v = self.truth(c.arg(0), memo)
            return None if v is None else not v
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            memo = {} if memo is None else memo
            i = c.get_id()
            if i in memo:
                return memo[i]
            vs = [self.truth(x, memo) for x in c.children()]
            memo[i] = stop if stop in vs else None if None in vs else not stop
            return memo[i]
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if c.num_args() != 2 or not z3.is_arith(c.arg(0)):
                return None
            a, b = self.of(c.arg(0)), self.of(c.arg(1))
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
                k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
            if k == z3.Z3_OP_LE:
                if a[1] is not None and b[0] is not None and a[1] <= b[0]:
                    return True
                if a[0] is not None and b[1] is not None and a[0] > b[1]:
                    return False
                return None
            if k == z3.Z3_OP_LT:
                if a[1] is not None and b[0] is not None and a[1] < b[0]:
                    return True
                if a[0] is not None and b[1] is not None and a[0] >= b[1]:
                    return False
                return None
            apart = ((a[1] is not None and b[0] is not None and a[1] < b[0]) or
                     (a[0] is not None and b[1] is not None and a[0] > b[1]))
            if apart:
                return k == z3.Z3_OP_DISTINCT
            return None
        return None
