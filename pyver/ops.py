"""Operations on values: conversion to terms, arithmetic, comparison, equality, truth, merging."""
import datetime
import decimal
import enum
import fractions

import z3

from .values import *  # noqa

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)

_I, _R = z3.IntSort(), z3.RealSort()


def is_conc(v):
    return not isinstance(v, (Sym, Ref))


def zbool(b):
    if isinstance(b, bool):
        return TRUE if b else FALSE
    return b


def z_and(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def z_or(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        if z3.is_false(c):
            continue
        if z3.is_true(c):
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def z_not(c):
    if isinstance(c, bool):
        return not c
    if z3.is_true(c):
        return False
    if z3.is_false(c):
        return True
    if z3.is_not(c):
        return c.arg(0)
    return z3.Not(c)


def mk_bool(c):
    """A program boolean from a condition."""
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SBool(c)


def simp_cond(c):
    if isinstance(c, bool):
        return c
    c = z3.simplify(c)
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return c


def mk_int(t):
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


def is_num(v):
    return isinstance(v, (int, float, decimal.Decimal, SInt, SBool, SDec, SFlt))


def int_t(v):
    if isinstance(v, bool):
        return z3.IntVal(1 if v else 0)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, SInt):
        if v.t is None:
            v.t = z3.BV2Int(v.bv, False)
        return v.t
    if isinstance(v, SBool):
        return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
    raise Unsupported('not an integer: %r' % (v,))


def real_t(v):
    if isinstance(v, (SDec, SFlt)):
        return v.t
    if isinstance(v, (int, float, decimal.Decimal)) and not isinstance(v, bool):
        return rv(v)
    t = int_t(v)
    return z3.ToReal(t)


def is_int_like(v):
    return isinstance(v, (int, SInt, SBool))


def canon(t):
    return z3.simplify(t, som=True)


def mk_dec(t):
    return SDec(t)


_REPR = z3.Function('repr_value', z3.RealSort(), z3.RealSort())
_FL = z3.Function('fl', _R, _R)         # rounding of a real to the nearest double
_EXP = z3.Function('exp', _R, _R)
_LN = z3.Function('ln', _R, _R)
_SQRT = z3.Function('sqrt', _R, _R)
_POW = z3.Function('pow', _R, _R, _R)
_YMD = z3.Function('ymd2ord', _I, _I, _I, _I)
_OY = z3.Function('ord_year', _I, _I)
_OM = z3.Function('ord_month', _I, _I)
_OD = z3.Function('ord_day', _I, _I)
_DIM = z3.Function('days_in_month', _I, _I, _I)

_QF = {}


def q_fun(mode):
    f = _QF.get(mode)
    if f is None:
        f = _QF[mode] = z3.Function('round_' + mode, _R, _I)
    return f


def seq_concat(a, items):
    """A byte sequence of symbolic length followed by known bytes."""
    base = a.extra.get('base', a)
    tail = tuple(a.extra.get('tail', ())) + tuple(items)

    def elem(eng, i):
        return eng.merge_vals([(i == base.length + k, x) for k, x in enumerate(tail)] +
                              [(i < base.length, base.elem(eng, i))])
    ex = dict(a.extra)
    ex.update(base=base, tail=tail)
    return SSeq(base.name + '+%d' % len(tail), z3.simplify(base.length + len(tail)), elem, ex)


def _collapse(c, x, t):
    """If(c, x, t), or just one of them when c says that they are equal wherever the other is taken."""
    for lit, other, cond in ((x, t, c), (t, x, z3.Not(c))):
        if z3.is_arith(lit) and (z3.is_rational_value(lit) or z3.is_int_value(lit)):
            cond = z3.simplify(cond)
            if cond.eq(z3.simplify(other == lit)):
                return other
            if z3.is_app(other) and other.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_rational_value(lit) and \
                    lit.denominator_as_long() == 1 and cond.eq(z3.simplify(other.arg(0) == lit.numerator_as_long())):
                return other
    return z3.If(c, x, t)


class Ops(object):
    """Mixin of Engine."""

    # ---- rounding, transcendental functions --------------------------------------------------------------------
    def axiom(self, key, make):
        if key in self.axiom_keys:
            return
        self.axiom_keys.add(key)
        r = make()
        for a in (r if isinstance(r, (list, tuple)) else [r]):
            self.axioms.append(a)

    def z_round(self, y, mode):
        """Integer term: y (a real term) rounded by a decimal rounding mode."""
        y = canon(y)
        if z3.is_rational_value(y):
            f = fractions.Fraction(y.numerator_as_long(), y.denominator_as_long())
            d = decimal.Context(prec=200).create_decimal(f.numerator) / decimal.Decimal(1)
            n = _round_frac(f, mode)
            return z3.IntVal(n)
        f = q_fun(mode)
        q = f(y)

        def ax():
            qr = z3.ToReal(q)
            half = z3.RealVal('1/2')
            if mode == 'ROUND_FLOOR':
                return [qr <= y, y < qr + 1]
            if mode == 'ROUND_CEILING':
                return [qr - 1 < y, y <= qr]
            if mode == 'ROUND_DOWN':
                return [z3.If(y >= 0, z3.And(qr <= y, y < qr + 1), z3.And(qr - 1 < y, y <= qr))]
            if mode == 'ROUND_UP':
                return [z3.If(y <= 0, z3.And(qr <= y, y < qr + 1), z3.And(qr - 1 < y, y <= qr))]
            # the three nearest modes: ties go to even / up / down
            out = [qr - half <= y, y <= qr + half]
            if mode == 'ROUND_HALF_UP':
                out.append(z3.Implies(y - qr == half, y < 0))
                out.append(z3.Implies(qr - y == half, y > 0))
            elif mode == 'ROUND_HALF_DOWN':
                out.append(z3.Implies(y - qr == half, y > 0))
                out.append(z3.Implies(qr - y == half, y < 0))
            elif mode == 'ROUND_HALF_EVEN':
                out.append(z3.Implies(z3.Or(y - qr == half, qr - y == half), q % 2 == 0))
            return out
        if not getattr(self, 'opaque_division', False):
            self.axiom(('round', mode, y.get_id()), ax)
        self.keep.append(y)
        return q

    def z_floor(self, y):
        return self.z_round(y, 'ROUND_FLOOR')

    def z_exp(self, x):
        x = canon(x)
        r = _EXP(x)
        self.axiom(('exp', x.get_id()), lambda: [r > 0, z3.Implies(x <= 0, r <= 1), z3.Implies(x >= 0, r >= 1)])
        self.keep.append(x)
        return r

    def z_ln(self, x):
        x = canon(x)
        r = _LN(x)
        self.axiom(('ln', x.get_id()), lambda: [z3.Implies(x <= 1, r <= 0), z3.Implies(x >= 1, r >= 0)])
        self.keep.append(x)
        return r

    def z_sqrt(self, x):
        x = canon(x)
        r = _SQRT(x)
        self.axiom(('sqrt', x.get_id()), lambda: [r >= 0, z3.Implies(x >= 0, r * r == x)])
        self.keep.append(x)
        return r

    def z_pow(self, x, y):
        x, y = canon(x), canon(y)
        r = _POW(x, y)
        self.axiom(('pow', x.get_id(), y.get_id()), lambda: [
            z3.Implies(x > 0, r > 0), z3.Implies(z3.And(x >= 1, y >= 0), r >= 1),
            z3.Implies(z3.And(x > 0, x <= 1, y >= 0), r <= 1)])
        self.keep.append(x)
        self.keep.append(y)
        return r

    def z_fl(self, x):
        x = canon(x)
        r = _FL(x)
        eps = z3.RealVal('1/%d' % 2 ** 53)
        self.axiom(('fl', x.get_id()), lambda: [
            z3.If(x >= 0, z3.And(r >= x - eps * x, r <= x + eps * x), z3.And(r >= x + eps * x, r <= x - eps * x))])
        self.keep.append(x)
        return r

    def z_repr(self, x):
        """The decimal that the shortest text of the float x says."""
        x = canon(x)
        r = _REPR(x)
        eps = z3.RealVal('1/%d' % 2 ** 52)
        self.axiom(('repr', x.get_id()), lambda: [
            z3.If(x >= 0, z3.And(r >= x - eps * x, r <= x + eps * x), z3.And(r >= x + eps * x, r <= x - eps * x))])
        self.keep.append(x)
        return r

    # ---- truth ---------------------------------------------------------------------------------------------------
    def truth(self, v):
        """The condition (bool or z3) under which v is true."""
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return v.t
        if isinstance(v, SInt):
            if v.bv is not None:
                return v.bv != 0
            return v.t != 0
        if isinstance(v, (SDec, SFlt)):
            return v.t != 0
        if isinstance(v, SEnum):
            if issubclass(v.cls, int):
                return v.t != 0
            return True
        if isinstance(v, (SDateTime, SDate, STime)):
            return True
        if isinstance(v, STimeDelta):
            return v.secs != 0
        if isinstance(v, Union):
            return z_or(*[z_and(c, self.truth(x)) for c, x in v.alts])
        if isinstance(v, SStr):
            return self.str_nonempty(v)
        if isinstance(v, SBytes):
            return len(v.items) > 0
        if isinstance(v, SOpaque):
            return self.opaque_truth(v)
        if isinstance(v, Ref):
            return self.ref_truth(v)
        if isinstance(v, SSeq):
            return v.length > 0
        if isinstance(v, Sym):
            raise Unsupported('truth of %r' % (v,))
        return bool(v)

    def str_nonempty(self, v):
        if any(isinstance(p, str) for p in v.parts):
            return True
        if any(p[0] in ('str', 'repr', 'fmt') for p in v.parts):
            return True  # decimal representations are never empty
        if any(p[0] == 'in' and getattr(p[1].tag, 'minlen', 0) > 0 and all(p[1].tag.samples) for p in v.parts):
            return True
        raise Unsupported('emptiness of %r' % (v,))

    def opaque_truth(self, v):
        if v.pytype is not None and v.pytype in (datetime.datetime, datetime.date, datetime.tzinfo):
            return True
        if v.t.sort().name() in getattr(self, 'truthy_sorts', ()):
            return True
        f = z3.Function('truth_%s' % v.t.sort().name(), v.t.sort(), z3.BoolSort())
        return f(v.t)

    # ---- equality ------------------------------------------------------------------------------------------------
    def eq(self, a, b):
        """The condition under which a == b."""
        if a is b:
            return True
        if isinstance(a, Union) or isinstance(b, Union):
            out = []
            for c, x in (a.alts if isinstance(a, Union) else [(True, a)]):
                for d, y in (b.alts if isinstance(b, Union) else [(True, b)]):
                    try:
                        out.append(z_and(c, d, self.eq(x, y)))
                    except Unsupported:
                        if self.check(z_and(c, d)) != z3.unsat:
                            raise
            return z_or(*out)
        ca, cb = is_conc(a), is_conc(b)
        if ca and cb:
            if isinstance(a, tuple) and isinstance(b, tuple):
                if len(a) != len(b):
                    return False
                return z_and(*[self.eq(x, y) for x, y in zip(a, b)])
            return bool(a == b)
        if isinstance(a, tuple) or isinstance(b, tuple):
            if not (isinstance(a, tuple) and isinstance(b, tuple)) or len(a) != len(b):
                return False
            return z_and(*[self.eq(x, y) for x, y in zip(a, b)])
        if is_num(a) and is_num(b):
            return self.num_eq(a, b)
        if is_num(a) or is_num(b):
            o = b if is_num(a) else a
            if isinstance(o, SOpaque):
                return self.opaque_eq(a, b)
            if isinstance(o, SEnum) and issubclass(o.cls, int):
                raise Unsupported('IntEnum comparison')
            return False
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            return self.opaque_eq(a, b)
        if isinstance(a, SEnum) or isinstance(b, SEnum):
            if isinstance(a, SEnum) and isinstance(b, SEnum):
                return a.t == b.t if a.cls is b.cls else False
            s, c = (a, b) if isinstance(a, SEnum) else (b, a)
            if isinstance(c, s.cls):
                return s.t == c.value
            return False
        if isinstance(a, SDateTime) or isinstance(b, SDateTime):
            a2, b2 = self.as_sdt(a), self.as_sdt(b)
            if a2 is None or b2 is None:
                return False
            if a2.aware is not None and b2.aware is not None and a2.aware != b2.aware:
                raise Unsupported('comparison across time zones')
            if (a2.aware is None) != (b2.aware is None):
                return False
            if a2.fields is not None and b2.fields is not None:
                return z_and(*[x == y for x, y in zip(a2.fields, b2.fields)])
            return z_and(a2.day_ord == b2.day_ord, a2.sod == b2.sod)
        if isinstance(a, SDate) or isinstance(b, SDate):
            a2, b2 = self.as_sdate(a), self.as_sdate(b)
            if a2 is None or b2 is None:
                return False
            return a2.day_ord == b2.day_ord
        if isinstance(a, STime) or isinstance(b, STime):
            a2, b2 = self.as_stime(a), self.as_stime(b)
            if a2 is None or b2 is None:
                return False
            return a2.sod == b2.sod
        if isinstance(a, STimeDelta) or isinstance(b, STimeDelta):
            a2, b2 = self.as_std(a), self.as_std(b)
            if a2 is None or b2 is None:
                return False
            return a2.secs == b2.secs
        if isinstance(a, SBStr) or isinstance(b, SBStr):
            pa, pb = as_bparts(a), as_bparts(b)
            if pa is not None and pb is not None:
                return self.str_eq(SStr(pa), SStr(pb))
            if isinstance(a, (SBytes, SSeq)) or isinstance(b, (SBytes, SSeq)):
                raise Unsupported('comparison of text and bytes')
            return False
        if isinstance(a, SBytes) or isinstance(b, SBytes):
            x, y = self.as_byte_items(a), self.as_byte_items(b)
            if x is None or y is None:
                return False
            if len(x) != len(y):
                return False
            return z_and(*[self.num_eq(p, q) for p, q in zip(x, y)])
        if isinstance(a, SStr) or isinstance(b, SStr):
            return self.str_eq(a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            return self.ref_eq(a, b)
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.ref_native_eq(a, b) if isinstance(a, Ref) else self.ref_native_eq(b, a)
        if isinstance(a, SSeq) and isinstance(b, SSeq):
            from .models import seq_shape
            (na, sa, la, ta), (nb, sb, lb, tb) = seq_shape(a), seq_shape(b)
            if na == nb and len(ta) == len(tb) and self.valid(z3.And(sa == sb, la == lb)):
                return z_and(*[self.eq(x, y) for x, y in zip(ta, tb)])
            if self.valid(a.length != b.length):
                return False
            raise Unsupported('equality of sequences')
        for s, c in ((a, b), (b, a)):
            if isinstance(s, SSeq) and s.extra and s.extra.get('pytype') is bytes and self.as_byte_items(c) is not None:
                items = self.as_byte_items(c)
                return z_and(s.length == len(items), *[self.num_eq(s.elem(self, z3.IntVal(i)), x)
                                                       for i, x in enumerate(items)])
        if isinstance(a, Sym) and isinstance(b, Sym) and type(a) is not type(b):
            raise Unsupported('equality of %r and %r' % (a, b))
        if b is None or a is None:
            return False
        raise Unsupported('equality of %r and %r' % (a, b))

    def opaque_eq(self, a, b):
        if isinstance(a, SOpaque) and isinstance(b, SOpaque):
            if a.t.sort() == b.t.sort():
                return a.t == b.t
            return False
        o, c = (a, b) if isinstance(a, SOpaque) else (b, a)
        if c is None:
            return False
        if o.pytype is not None and is_conc(c) and not isinstance(c, o.pytype):
            return False
        raise Unsupported('equality of opaque %r and %r' % (a, b))

    def num_eq(self, a, b):
        if is_int_like(a) and is_int_like(b):
            x = self.bv_pair(a, b)
            if x:
                return x[0] == x[1]
            return int_t(a) == int_t(b)
        if isinstance(a, (float, decimal.Decimal)) and not _finite(a) or \
                isinstance(b, (float, decimal.Decimal)) and not _finite(b):
            return False
        return real_t(a) == real_t(b)

    def bv_pair(self, a, b):
        """Both as bit-vectors of one width, when at least one is a bit-vector and the other is one or a constant."""
        if isinstance(a, SBool) or isinstance(b, SBool):
            return None
        abv = a.bv if isinstance(a, SInt) else None
        bbv = b.bv if isinstance(b, SInt) else None
        if abv is None and bbv is None:
            return None
        if abv is None:
            if not isinstance(a, int) or a < 0:
                return None
            w = max(bbv.size(), a.bit_length())
            return z3.BitVecVal(a, w), _zext(bbv, w)
        if bbv is None:
            if not isinstance(b, int) or b < 0:
                return None
            w = max(abv.size(), b.bit_length())
            return _zext(abv, w), z3.BitVecVal(b, w)
        w = max(abv.size(), bbv.size())
        return _zext(abv, w), _zext(bbv, w)

    def str_eq(self, a, b):
        pa, pb = self.as_parts(a), self.as_parts(b)
        if pa is None or pb is None:
            return False
        opts = [p for p in pa + pb if not isinstance(p, str) and p[0] == 'opt']
        if opts:
            return self.opt_eq(pa, pb, len(opts))
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) for x, y in zip(pa, pb)):
            conds = []
            ok = True
            for x, y in zip(pa, pb):
                if isinstance(x, str):
                    if x != y:
                        ok = False
                        break
                else:
                    if x[0] != y[0] or len(x) != len(y):
                        ok = False
                        break
                    for p, q in zip(x[1:], y[1:]):
                        if isinstance(p, (str, bytes)) and isinstance(q, (str, bytes)):
                            if p != q:
                                ok = False
                        else:
                            conds.append(self.eq(p, q))
            if ok:
                return z_and(*conds)
        for x, y in ((pa, pb), (pb, pa)):
            if len(x) == 1 and not isinstance(x[0], str) and x[0][0] == 'in' and all(isinstance(q, str) for q in y):
                return x[0][1].t == self.str_literal(x[0][1].t.sort(), ''.join(y))
        # different shape: distinct when the constant ends cannot agree
        if pa and pb:
            if isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return False
            if isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if n and pa[-1][-n:] != pb[-1][-n:]:
                    return False
        lits_a, lits_b = [x for x in pa if isinstance(x, str)], [x for x in pb if isinstance(x, str)]
        if not lits_a and not lits_b and len(pa) == 1 and len(pb) == 1:
            raise Unsupported('equality of strings %r and %r' % (a, b))
        # A different sequence of pieces.  The pieces are arbitrary values, so two differently structured strings are
        # taken as different (a refuted equality is replayed on the real code before it is believed).
        if not self.in_post:
            raise Unsupported('comparison of strings of different structure: %r, %r' % (a, b))
        return False

    def opt_eq(self, pa, pb, n):
        if len(pa) == len(pb) and all(isinstance(x, str) == isinstance(y, str) and (isinstance(x, str) or x[0] == y[0])
                                      for x, y in zip(pa, pb)):
            conds = []
            for x, y in zip(pa, pb):
                if isinstance(x, str):
                    conds.append(x == y)
                elif x[0] == 'opt':
                    g, h = zbool(x[1].t), zbool(y[1].t)
                    e = self.str_eq(x[2], y[2])
                    conds.append(z_or(z_and(g, h, e), z_and(z_not(g), z_not(h))))
                else:
                    conds.append(self.str_eq(SStr((x,)), SStr((y,))))
            return z_and(*conds)
        if n > 6:
            raise Unsupported('equality of text with many optional pieces')

        def cases(parts):
            for i, p in enumerate(parts):
                if not isinstance(p, str) and p[0] == 'opt':
                    g = p[1].t
                    return [(z_and(g, c), q) for c, q in cases(SStr(parts[:i] + p[2].parts + parts[i + 1:]).parts)] + \
                        [(z_and(z_not(g), c), q) for c, q in cases(SStr(parts[:i] + parts[i + 1:]).parts)]
            return [(True, parts)]
        return z_or(*[z_and(c, d, self.str_eq(SStr(x), SStr(y))) for c, x in cases(pa) for d, y in cases(pb)])

    def str_literal(self, sort, text):
        """The constant of the string sort that stands for a literal; different literals are different."""
        lits = self.__dict__.setdefault('str_lits', {})
        if text not in lits:
            c = lits[text] = z3.Const('lit!%d' % len(lits), sort)
            for t, d in lits.items():
                if t != text:
                    self.axiom(('lit', c.get_id(), d.get_id()), lambda d=d: [c != d])
        return lits[text]

    def as_parts(self, v):
        if isinstance(v, SStr):
            return v.parts
        if isinstance(v, str):
            return (v,) if v else ()
        return None

    def as_byte_items(self, v):
        if isinstance(v, SBytes):
            return v.items
        if isinstance(v, (bytes, bytearray)):
            return tuple(v)
        return None

    # ---- date helpers ----------------------------------------------------------------------------------------------
    def as_sdt(self, v):
        if isinstance(v, SDateTime):
            return v
        if isinstance(v, datetime.datetime) and v.tzinfo is None and v.microsecond == 0:
            f = tuple(z3.IntVal(x) for x in (v.year, v.month, v.day, v.hour, v.minute, v.second))
            return SDateTime(z3.IntVal(v.toordinal()), z3.IntVal(v.hour * 3600 + v.minute * 60 + v.second), f)
        return None

    def as_sdate(self, v):
        if isinstance(v, SDate):
            return v
        if isinstance(v, datetime.date) and not isinstance(v, datetime.datetime):
            return SDate(z3.IntVal(v.toordinal()), tuple(z3.IntVal(x) for x in (v.year, v.month, v.day)))
        return None

    def as_stime(self, v):
        if isinstance(v, STime):
            return v
        if isinstance(v, datetime.time) and v.microsecond == 0 and v.tzinfo is None:
            return STime(z3.IntVal(v.hour * 3600 + v.minute * 60 + v.second))
        return None

    def as_std(self, v):
        if isinstance(v, STimeDelta):
            return v
        if isinstance(v, datetime.timedelta) and v.microseconds == 0:
            return STimeDelta(z3.IntVal(v.days * 86400 + v.seconds))
        return None

    def ymd_ord(self, y, m, d):
        """Ordinal of a valid date, with the defining facts of the (uninterpreted) calendar functions."""
        if all(z3.is_int_value(z3.simplify(x)) for x in (y, m, d)):
            return z3.IntVal(datetime.date(*[z3.simplify(x).as_long() for x in (y, m, d)]).toordinal())
        y, m, d = canon(y), canon(m), canon(d)
        o = _YMD(y, m, d)
        self.axiom(('ymd', y.get_id(), m.get_id(), d.get_id()), lambda: [
            z3.Implies(self.valid_ymd(y, m, d), z3.And(_OY(o) == y, _OM(o) == m, _OD(o) == d, o >= 1, o <= 3652059)),
            # days of one month are consecutive
            z3.Implies(self.valid_ymd(y, m, d), o == _YMD(y, m, z3.IntVal(1)) + d - 1)])
        self.keep += [y, m, d]
        return o

    def leap(self, y):
        return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))

    def dim(self, y, m):
        t = z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31))
        return z3.If(m == 2, z3.If(self.leap(y), z3.IntVal(29), z3.IntVal(28)), t)

    def valid_ymd(self, y, m, d):
        return z3.And(y >= 1, y <= 9999, m >= 1, m <= 12, d >= 1, d <= self.dim(y, m))

    def ord_fields(self, o):
        o = canon(o)
        if z3.is_int_value(o):
            d = datetime.date.fromordinal(o.as_long())
            return z3.IntVal(d.year), z3.IntVal(d.month), z3.IntVal(d.day)
        if z3.is_app(o) and o.decl().eq(_YMD):
            # callers only build ordinals of valid dates
            return o.arg(0), o.arg(1), o.arg(2)
        y, m, d = _OY(o), _OM(o), _OD(o)
        self.axiom(('ordf', o.get_id()), lambda: [
            z3.Implies(z3.And(o >= 1, o <= 3652059), z3.And(self.valid_ymd(y, m, d), _YMD(y, m, d) == o))])
        self.keep.append(o)
        return y, m, d

    def dt_fields(self, v):
        if v.fields is not None:
            return v.fields
        y, m, d = self.ord_fields(v.day_ord)
        s = v.sod
        v.fields = (y, m, d, s / 3600, (s % 3600) / 60, s % 60)
        return v.fields

    # ---- comparison ------------------------------------------------------------------------------------------------
    def compare(self, op, a, b):
        """op in < <= > >= ; returns a condition; raises PyRaise(TypeError) for incomparable types."""
        if isinstance(a, Union):
            a = self.resolve(a)
        if isinstance(b, Union):
            b = self.resolve(b)
        if is_conc(a) and is_conc(b) and not _has_sym(a) and not _has_sym(b):
            try:
                return bool(_PYCMP[op](a, b))
            except TypeError as e:
                raise PyRaise(e)
        if is_num(a) and is_num(b):
            if is_int_like(a) and is_int_like(b):
                p = self.bv_pair(a, b)
                if p:
                    return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[op](*p)
                x, y = int_t(a), int_t(b)
            else:
                for q, r, sw in ((a, b, False), (b, a, True)):
                    if isinstance(q, (float, decimal.Decimal)) and not _finite(q):
                        return _inf_cmp(op, q, sw)
                x, y = real_t(a), real_t(b)
            return _ZCMP[op](x, y)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(op, list(a), list(b))
        for conv in (self.as_sdt, self.as_sdate, self.as_stime, self.as_std):
            x, y = conv(a), conv(b)
            if x is not None and y is not None:
                if isinstance(x, STimeDelta):
                    return _ZCMP[op](x.secs, y.secs)
                if isinstance(x, STime):
                    return _ZCMP[op](x.sod, y.sod)
                if isinstance(x, SDate):
                    return _ZCMP[op](x.day_ord, y.day_ord)
                if (x.aware is None) != (y.aware is None):
                    raise PyRaise(TypeError("can't compare offset-naive and offset-aware datetimes"))
                if x.fields is not None and y.fields is not None:
                    return self.lex(op, [SInt(q) for q in x.fields], [SInt(q) for q in y.fields])
                return _ZCMP[op](x.day_ord * 86400 + x.sod, y.day_ord * 86400 + y.sod)
        if isinstance(a, SOpaque) and isinstance(b, SOpaque) and a.t.sort() == b.t.sort():
            f = z3.Function('lt_%s' % a.t.sort().name(), a.t.sort(), a.t.sort(), z3.BoolSort())
            if op == '<':
                return f(a.t, b.t)
            if op == '>':
                return f(b.t, a.t)
            raise Unsupported('ordering of opaque values')
        if a is None or b is None:
            raise PyRaise(TypeError("'%s' not supported between instances of '%s' and '%s'" % (
                op, self.type_name(a), self.type_name(b))))
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            raise Unsupported('ordering of strings')
        if isinstance(a, SOpaque) or isinstance(b, SOpaque):
            raise Unsupported('ordering of %r and %r' % (a, b))
        if isinstance(a, Ref) or isinstance(b, Ref):
            raise Unsupported('ordering of objects')
        raise PyRaise(TypeError("'%s' not supported between instances of '%s' and '%s'" % (
            op, self.type_name(a), self.type_name(b))))

    def lex(self, op, xs, ys):
        strict = op[0]
        if not xs or not ys:
            if not xs and not ys:
                return '=' in op
            return (not xs) == (strict == '<')
        head = self.compare(strict, xs[0], ys[0])
        rest = self.lex(op, xs[1:], ys[1:])
        return z_or(head, z_and(self.eq(xs[0], ys[0]), rest))

    # ---- arithmetic ------------------------------------------------------------------------------------------------
    def binop(self, op, a, b):
        if isinstance(a, Union):
            a = self.resolve(a)
        if isinstance(b, Union):
            b = self.resolve(b)
        if is_conc(a) and is_conc(b) and not _has_sym(a) and not _has_sym(b):
            try:
                r = _PYOP[op](a, b)
            except Exception as e:
                raise PyRaise(e)
            return self.from_native(r)
        if op == '%' and isinstance(a, (str, SStr)):
            return self.percent_format(a, b)
        if is_num(a) and is_num(b):
            return self.num_op(op, a, b)
        if op == '+':
            if isinstance(a, SBStr) or isinstance(b, SBStr):
                x, y = as_bparts(a), as_bparts(b)
                if x is not None and y is not None:
                    return SBStr(x + y)
                if isinstance(a, SBytes) or isinstance(b, SBytes):
                    raise Unsupported('text and bytes')
            elif isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
                return self.mk_str(self.as_parts(a) + self.as_parts(b))
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            x, y = self.as_byte_items(a), self.as_byte_items(b)
            if x is not None and y is not None:
                return SBytes(x + y)
            if isinstance(a, SSeq) and a.extra and a.extra.get('pytype') is bytes and y is not None:
                return seq_concat(a, y)
        if op == '*' and isinstance(a, tuple) and isinstance(b, int):
            return a * b
        r = self.date_op(op, a, b)
        if r is not None:
            return r
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.ref_binop(op, a, b)
        if isinstance(a, SOpaque) or isinstance(b, SOpaque) or isinstance(a, SSeq) or isinstance(b, SSeq):
            raise Unsupported('%s on %r, %r' % (op, a, b))
        raise PyRaise(TypeError("unsupported operand type(s) for %s: '%s' and '%s'" % (
            op, self.type_name(a), self.type_name(b))))

    def is_utc(self, tz):
        return isinstance(tz, datetime.tzinfo) and str(tz) == 'UTC'

    def mk_str(self, parts):
        s = SStr(parts)
        if not s.parts:
            return ''
        if len(s.parts) == 1 and isinstance(s.parts[0], str):
            return s.parts[0]
        return s

    def date_op(self, op, a, b):
        td_b, td_a = self.as_std(b), self.as_std(a)
        if op in '+-' and td_b is not None:
            x = self.as_sdt(a)
            if x is not None and x.aware is not None and not self.is_utc(x.aware):
                raise Unsupported('arithmetic of a time in a zone')
            if x is not None:
                secs = x.sod + (td_b.secs if op == '+' else -td_b.secs)
                secs = z3.simplify(secs)
                o = z3.simplify(x.day_ord + secs / 86400)
                if not self.branch(z_and(o >= 1, o <= 3652059)):
                    raise PyRaise(OverflowError('date value out of range'))
                return SDateTime(o, z3.simplify(secs % 86400), None, x.aware)
            x = self.as_sdate(a)
            if x is not None:
                o = z3.simplify(x.day_ord + (td_b.secs / 86400 if op == '+' else -(td_b.secs / 86400)))
                if not self.branch(z_and(o >= 1, o <= 3652059)):
                    raise PyRaise(OverflowError('date value out of range'))
                return SDate(o)
            if td_a is not None:
                return STimeDelta(z3.simplify(td_a.secs + (td_b.secs if op == '+' else -td_b.secs)))
        if op == '+' and td_a is not None and self.as_sdt(b) is not None:
            return self.date_op('+', b, a)
        if op == '-':
            x, y = self.as_sdt(a), self.as_sdt(b)
            if x is not None and y is not None:
                if (x.aware is None) != (y.aware is None):
                    raise PyRaise(TypeError("can't subtract offset-naive and offset-aware datetimes"))
                if x.aware is not None and not (self.is_utc(x.aware) and self.is_utc(y.aware)):
                    raise Unsupported('arithmetic of times in zones')
                return STimeDelta(z3.simplify((x.day_ord - y.day_ord) * 86400 + x.sod - y.sod))
            x, y = self.as_sdate(a), self.as_sdate(b)
            if x is not None and y is not None:
                return STimeDelta(z3.simplify((x.day_ord - y.day_ord) * 86400))
        if op == '*':
            if td_a is not None and is_int_like(b):
                return STimeDelta(z3.simplify(td_a.secs * int_t(b)))
            if td_b is not None and is_int_like(a):
                return STimeDelta(z3.simplify(td_b.secs * int_t(a)))
        return None

    def num_op(self, op, a, b):
        fa, fb = isinstance(a, (float, SFlt)), isinstance(b, (float, SFlt))
        da, db = isinstance(a, (decimal.Decimal, SDec)), isinstance(b, (decimal.Decimal, SDec))
        if (fa and db) or (da and fb):
            raise PyRaise(TypeError("unsupported operand type(s) for %s: '%s' and '%s'" % (
                op, self.type_name(a), self.type_name(b))))
        if da or db:
            return self.dec_op(op, a, b)
        if fa or fb or op == '/':
            return self.flt_op(op, a, b)
        return self.int_op(op, a, b)

    def dec_op(self, op, a, b):
        if op == '**':
            if isinstance(b, int) or (isinstance(b, decimal.Decimal) and b == b.to_integral_value() and abs(b) < 100):
                n = int(b)
                if n >= 0:
                    x = real_t(a)
                    r = z3.RealVal(1)
                    for _ in range(n):
                        r = r * x
                    return SDec(z3.simplify(r) if n < 4 else r)
            x, y = real_t(a), real_t(b)
            if self.branch(x < 0) or self.branch(z_and(x == 0, y <= 0)):
                raise Unsupported('power of a non-positive base')
            if self.branch(x == 0):
                return SDec(z3.RealVal(0))
            return SDec(self.z_pow(x, y))
        x, y = real_t(a), real_t(b)
        if op == '+':
            return SDec(x + y)
        if op == '-':
            return SDec(x - y)
        if op == '*':
            return SDec(x * y)
        if op == '/':
            if not self.branch(y != 0):
                if self.branch(x == 0):
                    raise PyRaise(decimal.InvalidOperation())
                raise PyRaise(decimal.DivisionByZero())
            if getattr(self, 'opaque_division', False) and not z3.is_rational_value(canon(y)):
                # only that equal operands have equal quotients is known
                return SDec(z3.Function('quotient', z3.RealSort(), z3.RealSort(), z3.RealSort())(canon(x), canon(y)))
            return SDec(x / y)
        raise Unsupported('decimal operator %s' % op)

    def flt_op(self, op, a, b):
        if op == '/' and is_int_like(a) and isinstance(b, int) and b > 0:
            x = int_t(a)
            if b & (b - 1) == 0:
                if not self.valid(z3.And(x > -2 ** 53, x < 2 ** 53)):
                    raise Unsupported('float division of a large integer')
                return SFlt(z3.ToReal(x) / z3.RealVal(b), (x, b))
            return SFlt(self.z_fl(z3.ToReal(x) / z3.RealVal(b)), (x, b))
        x, y = real_t(a), real_t(b)
        if op in '+-':
            e = x + y if op == '+' else x - y
            if self.dyadic(a) and self.dyadic(b):
                return SFlt(e, None)
            return SFlt(self.z_fl(e))
        if op == '*':
            for p, q in ((a, b), (b, a)):
                if is_int_like(p) and isinstance(q, float) and _finite(q):
                    n, d = q.as_integer_ratio()
                    if abs(n) < 2 ** 20 and d <= 2 ** 20 and self.valid(
                            z3.And(int_t(p) > -2 ** 30, int_t(p) < 2 ** 30)):
                        return SFlt(x * y)   # exact
            return SFlt(self.z_fl(x * y))
        if op == '/':
            if not self.branch(y != 0):
                raise PyRaise(ZeroDivisionError('float division by zero'))
            return SFlt(self.z_fl(x / y))
        raise Unsupported('float operator %s' % op)

    def dyadic(self, v):
        """v is a multiple of 2^-20 below 2^32 in magnitude (so sums of two are exact doubles)."""
        if isinstance(v, int):
            return abs(v) < 2 ** 32
        if isinstance(v, float):
            return _finite(v) and abs(v) < 2 ** 32 and (v * 2 ** 20).is_integer()
        if isinstance(v, SInt):
            return self.valid(z3.And(int_t(v) < 2 ** 32, int_t(v) > -2 ** 32))
        if isinstance(v, SFlt):
            if v.quot and v.quot[1] & (v.quot[1] - 1) == 0 and v.quot[1] <= 2 ** 20:
                return self.valid(z3.And(v.t < 2 ** 32, v.t > -2 ** 32))
        return False

    def z_div(self, x, k):
        """x div k for a constant k > 0 (floor), splitting off the multiples of k in a sum."""
        q, r = self.split_multiple(x, k)
        if r is None:
            return q
        if self.oracle is not None or True:
            if self.check(z_not(z3.And(r >= 0, r < k))) == z3.unsat:
                return q
        return z3.simplify(q + r / k)

    def z_mod(self, x, k):
        q, r = self.split_multiple(x, k)
        if r is None:
            return z3.IntVal(0)
        if self.check(z_not(z3.And(r >= 0, r < k))) == z3.unsat:
            return r
        return z3.simplify(r % k)

    def split_multiple(self, x, k):
        """(q, r) with x == k*q + r; r None when zero."""
        x = z3.simplify(x, som=True)
        q, r = [], []
        for a in (x.children() if z3.is_add(x) else [x]):
            if z3.is_int_value(a):
                n = a.as_long()
                q.append(z3.IntVal(n // k))
                if n % k:
                    r.append(z3.IntVal(n % k))
                continue
            if z3.is_mul(a) and z3.is_int_value(a.arg(0)):
                n = a.arg(0).as_long()
                rest = a.children()[1:]
                t = rest[0] if len(rest) == 1 else z3.Product(*rest)
                if n % k == 0:
                    q.append(t * (n // k))
                    continue
            r.append(a)
        qt = z3.simplify(z3.Sum(q)) if q else z3.IntVal(0)
        return qt, (None if not r else r[0] if len(r) == 1 else z3.simplify(z3.Sum(r)))

    def int_op(self, op, a, b):
        pr = self.bv_pair(a, b)
        if pr is not None and op in ('&', '|', '^'):
            x, y = pr
            r = {'&': x & y, '|': x | y, '^': x ^ y}[op]
            r = z3.simplify(r)
            if z3.is_bv_value(r):
                return r.as_long()
            return SInt(None, r)
        if isinstance(a, SInt) and a.bv is not None and isinstance(b, int) and op in ('<<', '>>') and 0 <= b <= 64:
            if op == '<<':
                r = z3.Concat(a.bv, z3.BitVecVal(0, b)) if b else a.bv
            else:
                w = a.bv.size()
                if b >= w:
                    return 0
                r = z3.Extract(w - 1, b, a.bv)
            r = z3.simplify(r)
            return r.as_long() if z3.is_bv_value(r) else SInt(None, r)
        if pr is not None and op == '%' and isinstance(b, int) and b & (b - 1) == 0 and b > 0:
            return self.int_op('&', a, b - 1)
        if pr is not None and op == '+':
            x, y = pr
            w = x.size() + 1
            return SInt(None, z3.simplify(_zext(x, w) + _zext(y, w)))
        if pr is not None and op == '*' and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            return self.int_op('<<', a, b.bit_length() - 1)
        if pr is not None and op == '//' and isinstance(b, int) and b > 0 and b & (b - 1) == 0:
            return self.int_op('>>', a, b.bit_length() - 1)
        x, y = int_t(a), int_t(b)
        if op == '+':
            return mk_int(x + y)
        if op == '-':
            return mk_int(x - y)
        if op == '*':
            return mk_int(x * y)
        if op in ('//', '%'):
            y = z3.simplify(y)
            if z3.is_int_value(y):
                k = y.as_long()
                if k == 0:
                    raise PyRaise(ZeroDivisionError('integer division or modulo by zero'))
                if k > 0:
                    return mk_int(self.z_div(x, k) if op == '//' else self.z_mod(x, k))
            raise Unsupported('division by a symbolic or negative integer')
        if op == '<<' and isinstance(b, int) and b >= 0:
            return mk_int(x * (1 << b))
        if op == '>>' and isinstance(b, int) and b >= 0:
            return mk_int(self.z_div(x, 1 << b))
        if op == '&':
            if isinstance(a, int):
                a, b, x, y = b, a, y, x
            if isinstance(b, int) and b >= 0:
                if b == 0:
                    return 0
                lo = (b & -b).bit_length() - 1
                hi = b.bit_length()
                if b == (1 << hi) - (1 << lo):
                    q = self.z_div(x, 1 << lo) if lo else x
                    return mk_int(self.z_mod(q, 1 << (hi - lo)) * (1 << lo))
                # several runs of bits
                out = z3.IntVal(0)
                i = 0
                while (b >> i):
                    if (b >> i) & 1:
                        j = i
                        while (b >> j) & 1:
                            j += 1
                        out = out + (x / (1 << i)) % (1 << (j - i)) * (1 << i)
                        i = j
                    else:
                        i += 1
                return mk_int(out)
        if op in ('|', '^'):
            # disjoint bits: one is a multiple of 2^k, the other lies in [0, 2^k)
            for p, q in ((x, y), (y, x)):
                t = _two(z3.simplify(p))
                if t and self.valid(z3.And(q >= 0, q < (1 << t))):
                    return mk_int(x + y)
                for k in (4, 8, 12, 16, 24):
                    if self.valid(z3.And(q >= 0, q < (1 << k), p % (1 << k) == 0)):
                        return mk_int(x + y)
        if op == '**' and isinstance(b, int) and 0 <= b <= 8:
            r = z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return mk_int(r)
        raise Unsupported('integer operator %s on %r, %r' % (op, a, b))

    def unop(self, op, a):
        if isinstance(a, Union):
            a = self.resolve(a)
        if op == 'not':
            return mk_bool(z_not(self.truth(a)))
        if is_conc(a):
            try:
                return {'-': lambda: -a, '+': lambda: +a, '~': lambda: ~a}[op]()
            except Exception as e:
                raise PyRaise(e)
        if isinstance(a, SBool):
            a = SInt(int_t(a))
        if op == '+':
            return a
        if op == '-':
            if isinstance(a, SInt):
                return mk_int(-int_t(a))
            if isinstance(a, SDec):
                return SDec(-a.t)
            if isinstance(a, SFlt):
                return SFlt(-a.t)
            if isinstance(a, STimeDelta):
                return STimeDelta(-a.secs)
        if op == '~' and isinstance(a, SInt):
            return mk_int(-int_t(a) - 1)
        raise Unsupported('unary %s on %r' % (op, a))

    # ---- merging ---------------------------------------------------------------------------------------------------
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, (int, str, bytes, float, decimal.Decimal)):
            if isinstance(a, decimal.Decimal):
                return a.as_tuple() == b.as_tuple()
            return a == b
        if isinstance(a, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, Ref):
            return a.id == b.id
        if isinstance(a, SInt):
            if a.t is None and b.t is None:
                return a.bv.eq(b.bv)
            return a.t is not None and b.t is not None and a.t.eq(b.t)
        if isinstance(a, (SBool, SDec, SOpaque, SFlt)):
            return a.t.eq(b.t)
        if isinstance(a, SEnum):
            return a.cls is b.cls and a.t.eq(b.t)
        if isinstance(a, SDateTime):
            return a.day_ord.eq(b.day_ord) and a.sod.eq(b.sod) and a.aware == b.aware
        if isinstance(a, SJoin):
            return a.same(b)
        if isinstance(a, SStr):
            return len(a.parts) == len(b.parts) and all(
                self.same_part(x, y) for x, y in zip(a.parts, b.parts))
        if isinstance(a, SBytes):
            return len(a.items) == len(b.items) and all(self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, (datetime.date, datetime.timedelta, datetime.time)):
            return a == b
        return False

    def same_part(self, x, y):
        if isinstance(x, str) or isinstance(y, str):
            return x == y
        return len(x) == len(y) and all(
            (p == q) if isinstance(p, (str, bytes)) or isinstance(q, (str, bytes)) else self.same(p, q)
            for p, q in zip(x, y))

    def kind_of(self, v):
        if isinstance(v, (bool, SBool)):
            return 'bool'
        if isinstance(v, (int, SInt)) and not isinstance(v, enum.Enum):
            return 'int'
        if isinstance(v, SDec) or (isinstance(v, decimal.Decimal) and v.is_finite()):
            return 'dec'
        if isinstance(v, SFlt) or (isinstance(v, float) and _finite(v)):
            return 'flt'
        if isinstance(v, SEnum):
            return ('enum', v.cls)
        if isinstance(v, enum.Enum) and isinstance(v.value, int) and not isinstance(v, int):
            return ('enum', type(v))
        if isinstance(v, SDateTime):
            return ('dt', v.aware)
        if isinstance(v, datetime.datetime) and v.tzinfo is None and v.microsecond == 0:
            return ('dt', None)
        if isinstance(v, tuple) and type(v) is tuple:
            return ('tuple', len(v))
        if isinstance(v, SOpaque):
            return ('opaque', v.t.sort(), v.pytype)
        if isinstance(v, SStr) and not isinstance(v, SBStr):
            return 'str'
        return None

    def merge_strs(self, alts):
        """Text that is the same up to an optional piece at the end: [(cond, value)] -> [(cond, value)]."""
        out = []
        for c, v in alts:
            if isinstance(v, (SStr, str)) and not isinstance(v, (SBStr, enum.Enum)):
                for i, (d, w) in enumerate(out):
                    if isinstance(w, (SStr, str)) and (isinstance(v, SStr) or isinstance(w, SStr)):
                        x = self.opt_str(d, w, c, v)
                        if x is not None:
                            out[i] = (z_or(c, d), x)
                            break
                else:
                    out.append((c, v))
            else:
                out.append((c, v))
        return out

    def opt_str(self, d, w, c, v):
        pw, pv = self.as_parts(w), self.as_parts(v)
        if len(pw) > len(pv) or (len(pw) == len(pv) and len(str(pw[-1:])) > len(str(pv[-1:]))):
            c, v, pv, d, w, pw = d, w, pw, c, v, pv
        # pw is to be a prefix of pv
        k = 0
        while k < len(pw) and self.same_part(pw[k], pv[k]):
            k += 1
        if k == len(pw):
            rest = pv[k:]
        elif k == len(pw) - 1 and isinstance(pw[k], str) and isinstance(pv[k], str) and pv[k].startswith(pw[k]):
            rest = (pv[k][len(pw[k]):],) + pv[k + 1:]
        else:
            return None
        if not pw:
            return None
        return SStr(tuple(pw) + (('opt', SBool(zbool(c)), SStr(rest)),))

    def merge_vals(self, alts):
        """alts: list of (cond, value), conditions exclusive and exhaustive."""
        first = alts[0][1]
        if all(self.same(first, v) for _, v in alts[1:]):
            return first
        flat = []
        for c, v in alts:
            if isinstance(v, Union):
                for c2, v2 in v.alts:
                    flat.append((z_and(c, c2), v2))
            else:
                flat.append((c, v))
        if any(isinstance(v, SStr) for _, v in flat):
            flat = self.merge_strs([(c, v) for c, v in flat if c is not False])
        groups = []  # (kind, [(cond, val)])
        for c, v in flat:
            if c is False:
                continue
            k = self.kind_of(v)
            for g in groups:
                if (k is not None and k != 'str' and g[0] == k) or (k in (None, 'str') and g[0] == k and self.same(g[1][0][1], v)):
                    g[1].append((c, v))
                    break
            else:
                groups.append((k, [(c, v)]))
        out = []
        for k, vs in groups:
            cond = z_or(*[c for c, _ in vs])
            v0 = vs[0][1]
            if all(self.same(v0, v) for _, v in vs[1:]):
                out.append((cond, v0))
                continue
            out.append((cond, self.ite_kind(k, vs)))
        if len(out) == 1:
            return out[0][1]
        return Union([(zbool(c), v) for c, v in out])

    def ite_kind(self, k, vs):
        def chain(f):
            t = f(vs[-1][1])
            for c, v in reversed(vs[:-1]):
                x = f(v)
                t = x if x.eq(t) else _collapse(zbool(c), x, t)
            return t
        if k == 'int':
            if all(isinstance(v, int) or (isinstance(v, SInt) and v.bv is not None) for _, v in vs) and \
                    any(isinstance(v, SInt) for _, v in vs) and all(not isinstance(v, int) or v >= 0 for _, v in vs):
                w = max([v.bv.size() if isinstance(v, SInt) else max(1, v.bit_length()) for _, v in vs])
                return SInt(None, chain(lambda v: _zext(v.bv, w) if isinstance(v, SInt) else z3.BitVecVal(v, w)))
            return SInt(chain(int_t))
        if k == 'bool':
            return SBool(chain(lambda v: zbool(v) if isinstance(v, bool) else v.t))
        if k == 'dec':
            return SDec(chain(real_t))
        if k == 'flt':
            return SFlt(chain(real_t))
        if k[0] == 'enum':
            return SEnum(k[1], chain(lambda v: v.t if isinstance(v, SEnum) else z3.IntVal(v.value)))
        if k[0] == 'dt':
            ds = [(c, self.as_sdt(v)) for c, v in vs]
            vs = ds
            o, s = chain(lambda v: v.day_ord), chain(lambda v: v.sod)
            f = None
            if all(v.fields is not None for _, v in ds):
                f = tuple(chain(lambda v, i=i: v.fields[i]) for i in range(6))
            return SDateTime(o, s, f, k[1])
        if k[0] == 'tuple':
            return tuple(self.merge_vals([(c, v[i]) for c, v in vs]) for i in range(k[1]))
        if k[0] == 'opaque':
            return SOpaque(chain(lambda v: v.t), k[2])
        raise Unsupported('merge')

    def type_name(self, v):
        t = self.type_of(v)
        return t.__name__ if isinstance(t, type) else str(t)


def _has_sym(v):
    if isinstance(v, (Sym, Ref)):
        return True
    if isinstance(v, tuple):
        return any(_has_sym(x) for x in v)
    return False


def _two(t):
    """A k such that the integer term is a multiple of 2 ** k, by its form."""
    if z3.is_int_value(t):
        n = t.as_long()
        return 64 if n == 0 else min(64, (n & -n).bit_length() - 1)
    if z3.is_add(t):
        return min(_two(c) for c in t.children())
    if z3.is_mul(t):
        return min(64, sum(_two(c) for c in t.children()))
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return min(_two(t.arg(1)), _two(t.arg(2)))
    return 0


def _zext(bv, w):
    n = bv.size()
    return z3.ZeroExt(w - n, bv) if w > n else bv


def _finite(x):
    if isinstance(x, float):
        return x == x and x not in (float('inf'), float('-inf'))
    return x.is_finite() if isinstance(x, decimal.Decimal) else True


def _inf_cmp(op, q, swapped):
    if q != q:
        return False
    big = q > 0
    # q op finite (or finite op q when swapped)
    if op in ('>', '>='):
        return big != swapped
    return big == swapped


def _round_frac(f, mode):
    import math
    fl = math.floor(f)
    r = f - fl
    if r == 0:
        return fl
    if mode == 'ROUND_FLOOR':
        return fl
    if mode == 'ROUND_CEILING':
        return fl + 1
    if mode == 'ROUND_DOWN':
        return fl if f > 0 else fl + 1
    if mode == 'ROUND_UP':
        return fl + 1 if f > 0 else fl
    half = fractions.Fraction(1, 2)
    if r != half:
        return fl if r < half else fl + 1
    if mode == 'ROUND_HALF_EVEN':
        return fl if fl % 2 == 0 else fl + 1
    if mode == 'ROUND_HALF_UP':
        return fl + 1 if f > 0 else fl
    return fl if f > 0 else fl + 1


def _mk_ops():
    import operator as o
    cmp_ = {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge}
    op = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow, '<<': o.lshift,
          '>>': o.rshift, '&': o.and_, '|': o.or_, '^': o.xor}
    return cmp_, op


_PYCMP, _PYOP = _mk_ops()
_ZCMP = _PYCMP
