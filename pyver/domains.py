"""Symbolic inputs for the domains of specs.base, and native values for symbolic ones under a model."""
import datetime
import decimal

import z3

from specs import base as B
from .values import *  # noqa
from .ops import *  # noqa
from . import models

_STR = z3.DeclareSort('Str')


class Leaf(object):
    """Makes constants (or, inside a sequence, functions of the index)."""

    def __init__(self, eng, prefix, index=None):
        self.eng, self.prefix, self.index = eng, prefix, index
        self.nofacts = False

    def sub(self, name):
        lf = Leaf(self.eng, '%s.%s' % (self.prefix, name), self.index)
        lf.nofacts = self.nofacts
        return lf

    def const(self, sort):
        if self.index is None:
            return z3.Const(self.prefix, sort)
        return z3.Function(self.prefix, z3.IntSort(), sort)(self.index)

    def bound(self, t, lo, hi):
        if not self.nofacts:
            self.eng.ivals.bound(t, lo, hi)

    def fact(self, c):
        if c is True or self.nofacts:
            return
        if self.index is None:
            self.eng.assume(c)
        else:
            self.eng.axiom(('dom', c.get_id()), lambda: [c])
            self.eng.keep.append(c)


def sym(d, lf):
    eng = lf.eng
    if not isinstance(d, B.Domain):
        return eng.from_native(d)
    if isinstance(d, B.Int):
        if d.bv:
            t = lf.const(z3.BitVecSort(d.bv))
            if d.lo > 0:
                lf.fact(z3.UGE(t, d.lo))
            if d.hi < 2 ** d.bv - 1:
                lf.fact(z3.ULE(t, d.hi))
            return SInt(None, t)
        t = lf.const(z3.IntSort())
        lf.fact(z3.And(t >= d.lo, t <= d.hi))
        lf.bound(t, d.lo, d.hi)
        return SInt(t)
    if isinstance(d, B.Bool_):
        return SBool(lf.const(z3.BoolSort()))
    if isinstance(d, B.Dec):
        t = lf.const(z3.IntSort())
        lf.fact(z3.And(t >= d.lo, t <= d.hi))
        lf.bound(t, d.lo, d.hi)
        return SDec(z3.ToReal(t) / z3.RealVal(10 ** d.places))
    if isinstance(d, B.Bytes):
        items = []
        for i in range(d.n):
            f = d.fixed.get(i)
            if isinstance(f, int):
                items.append(f)
                continue
            lo, hi = f or (0, 255)
            if d.bv:
                t = lf.sub(str(i)).const(z3.BitVecSort(8))
                if (lo, hi) != (0, 255):
                    lf.fact(z3.And(z3.UGE(t, lo), z3.ULE(t, hi)))
                items.append(SInt(None, t))
            else:
                t = lf.sub(str(i)).const(z3.IntSort())
                lf.fact(z3.And(t >= lo, t <= hi))
                items.append(SInt(t))
        return models.mk_bytes(items)
    if isinstance(d, B.Choice):
        if len(d.alts) == 1:
            return sym(d.alts[0], lf)
        t = lf.sub('which').const(z3.IntSort())
        lf.fact(z3.And(t >= 0, t < len(d.alts)))
        k = len(d.alts) - 1
        return Union([(t == i if not lf.nofacts or i < k else z3.Not(z3.Or(*[t == j for j in range(k)])), sym(a, lf.sub('alt%d' % i) if sum(isinstance(b, B.Domain) for b in d.alts) > 1 else lf)) for i, a in enumerate(d.alts)])
    if isinstance(d, B.EnumOf):
        t = lf.const(z3.IntSort())
        lf.fact(z3.Or(*[t == m.value for m in d.cls]))
        return SEnum(d.cls, t)
    if isinstance(d, (B.DateTime_, B.Date_)):
        if lf.nofacts:
            o = lf.sub('ord').const(z3.IntSort())
            return SDate(o) if isinstance(d, B.Date_) else SDateTime(o, lf.sub('sod').const(z3.IntSort()))
        y, m, dd = (lf.sub(n).const(z3.IntSort()) for n in 'ymd')
        lo, hi = d.lo, d.hi
        lf.fact(z3.And(eng.valid_ymd(y, m, dd), y >= lo.year, y <= hi.year))
        o = eng.ymd_ord(y, m, dd)
        lf.fact(z3.And(o >= lo.toordinal(), o <= hi.toordinal()))
        if isinstance(d, B.Date_):
            return SDate(o, (y, m, dd))
        H, M, S = (lf.sub(n).const(z3.IntSort()) for n in 'HMS')
        lf.fact(z3.And(H >= 0, H <= 23, M >= 0, M <= 59, S >= 0, S <= 59))
        if d.step >= 60:
            lf.fact(S == 0)
            S = z3.IntVal(0)
            if d.step > 60:
                lf.fact((H * 3600 + M * 60) % d.step == 0)
        return SDateTime(o, z3.simplify(H * 3600 + M * 60 + S), (y, m, dd, H, M, S))
    if isinstance(d, B.Str_):
        return SStr([('in', SOpaque(lf.const(_STR), str, d))])
    if isinstance(d, B.Tup):
        return tuple(sym(x, lf.sub(str(i))) for i, x in enumerate(d.doms))
    if isinstance(d, B.ListOf):
        return eng.new_list([sym(d.dom, lf.sub(str(i))) for i in range(d.n)])
    if isinstance(d, B.Rec):
        entries = {}
        for k, x in d.fields.items():
            g = True
            if isinstance(x, B.Maybe):
                g = lf.sub(k).sub('there').const(z3.BoolSort())
                x = x.dom
            entries[k] = (g, sym(x, lf.sub(k)))
        if d.cls is dict:
            return eng.alloc(DictObj(entries), 'dict')
        return eng.alloc(InstObj(d.cls, {}, DictObj(entries)), 'inst')
    if isinstance(d, B.Seq):
        n = lf.sub('len').const(z3.IntSort())
        lf.fact(n >= 0)
        dom = d.dom
        prefix = lf.prefix

        def elem(e, i):
            return sym(dom, Leaf(e, prefix + '.elem', i))
        return SSeq(d.name, n, elem, {'pytype': bytes if d.kind == 'bytes' else list, 'dom': d})
    if hasattr(d, 'symbolic'):
        return d.symbolic(lf)
    raise Unsupported('domain %s' % type(d).__name__)


def native(eng, model, v, state=None):
    """The native value of a symbolic one under a model."""
    ev = lambda t: model.eval(t, model_completion=True)
    there = lambda g: z3.is_true(ev(zbool(g)))
    if isinstance(v, SInt):
        return ev(v.bv if v.t is None else v.t).as_long()
    if isinstance(v, SBool):
        return z3.is_true(ev(v.t))
    if isinstance(v, SDec):
        t = z3.simplify(ev(v.t))
        if z3.is_algebraic_value(t):
            t = t.approx(20)
        return (decimal.Decimal(t.numerator_as_long()) / decimal.Decimal(t.denominator_as_long()))
    if isinstance(v, SEnum):
        return v.cls(ev(v.t).as_long())
    if isinstance(v, SBytes):
        return bytes(native(eng, model, x, state) if isinstance(x, Sym) else x for x in v.items)
    if isinstance(v, SDateTime):
        y, m, d, H, M, S = [ev(x).as_long() for x in v.fields]
        return datetime.datetime(y, m, d, H, M, S)
    if isinstance(v, SDate):
        return datetime.date(*[ev(x).as_long() for x in v.fields])
    if isinstance(v, SStr):
        out = ''
        for p in v.parts:
            if isinstance(p, str):
                out += p
            elif p[0] == 'in':
                lit = [k for k, c in getattr(eng, 'str_lits', {}).items() if z3.is_true(ev(c == p[1].t))]
                if lit:
                    out += lit[0]
                    continue
                name = str(ev(p[1].t))
                k = int(name.rsplit('!', 1)[-1]) if '!' in name else 0
                out += (p[1].tag.samples[k % len(p[1].tag.samples)] if p[1].tag.samples else 'a b&c%%d?%d' % k)
            else:
                raise Unsupported('native value of %r' % (v,))
        return out
    if isinstance(v, Union):
        for c, x in v.alts:
            if z3.is_true(ev(zbool(c))):
                return native(eng, model, x, state)
        return native(eng, model, v.alts[-1][1], state)
    if isinstance(v, tuple):
        return tuple(native(eng, model, x, state) for x in v)
    if isinstance(v, SSeq):
        n = ev(v.length).as_long()
        if n > 3000:
            raise Unsupported('counterexample with a sequence of %d elements' % n)
        xs = []
        for i in range(n):
            saved = eng.st
            eng.st = (state or saved).copy()
            try:
                e = v.elem(eng, z3.IntVal(i))
                xs.append(native(eng, model, e, eng.st))
            finally:
                eng.st = saved
        return bytes(xs) if v.extra.get('pytype') is bytes else xs
    if isinstance(v, Ref):
        o = (state or eng.st).heap[v.id]
        if isinstance(o, InstObj):
            if isinstance(o.payload, DictObj):
                kw = {k: native(eng, model, x, state) for k, (g, x) in o.payload.entries.items() if there(g)}
                return o.cls(**kw)
            raise Unsupported('native value of an instance')
        if isinstance(o, DictObj):
            return {k: native(eng, model, x, state) for k, (g, x) in o.entries.items() if there(g)}
        if isinstance(o, ListObj):
            return [native(eng, model, x, state) for g, x in o.items]
    if isinstance(v, SOpaque) and hasattr(v.tag, 'concrete'):
        return v.tag.concrete(ev, v)
    if isinstance(v, Sym):
        raise Unsupported('native value of %r' % (v,))
    return v
