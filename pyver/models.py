"""Models of built-in and library operations on symbolic values: the trusted part of the semantics."""
import builtins
import collections
import datetime
import decimal
import enum
import functools
import itertools
import math
import operator
import string
import struct
import types

import six
import z3

from .values import *  # noqa
from .ops import *  # noqa
from .ops import _has_sym, _finite, _zext
from .interp import (Closure, Bound, Method, SuperProxy, GenCall, CtxGen, CannotMerge, SliceV, UNBOUND, _find, _has)

NO = object()

TRUSTED_MODULES = ('builtins', 'decimal', '_decimal', '_pydecimal', 'datetime', '_datetime', 'struct', '_struct', 'six',
                   'operator', '_operator', 'math', 'collections', '_collections', 'enum', 'itertools', 'functools',
                   'string', 'urllib.parse', 're', '__builtin__', 'calendar', 'binascii')


class Src(object):
    """A finite list of guarded items to iterate over."""

    def __init__(self, items, consumed=None):
        self.items = items
        if consumed is not None:
            self.consumed = consumed


class SymIter(object):
    """Iteration over a sequence of symbolic length."""

    def __init__(self, seq, wrap=None):
        self.seq = seq
        self.plain = wrap is None
        self.fused = False   # the elements are tuples of the items to go through
        self.wrap = wrap or (lambda eng, i, v: v)


# ---- iteration -------------------------------------------------------------------------------------------------------

def for_source(eng, v):
    if isinstance(v, Union):
        return Union([(c, for_source(eng, x)) for c, x in v.alts])
    if isinstance(v, (Src, SymIter, GenCall)):
        return v
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, ListObj):
            if o.base is not None:
                return items_of(eng, o)
            return Src(list(o.items))
        if isinstance(o, DictObj):
            if o.base is not None:
                return SymIter(members_of(eng, o, 'as it comes'))
            return Src(dict_keys(eng, o))
        if isinstance(o, IterObj):
            ref = v

            def consumed(e, n):
                oo = e.obj(ref)
                e.put(ref, IterObj(oo.items, oo.pos + n))
            return Src(list(o.items[o.pos:]), consumed)
        if isinstance(o, InstObj):
            m = _find(o.cls, '__iter__', None)
            if isinstance(m, types.FunctionType):
                return for_source(eng, eng.resolve(eng.call(m, (v,))))
            if isinstance(o.payload, DictObj):
                return Src(dict_keys(eng, o.payload))
            if isinstance(o.payload, ListObj):
                return Src(list(o.payload.items))
        raise PyRaise(TypeError("'%s' object is not iterable" % eng.type_name(v)))
    if isinstance(v, SSeq):
        return SymIter(v)
    if isinstance(v, SRange):
        n = z3.simplify(v.stop - v.start)
        if z3.is_int_value(n):
            return Src([(True, mk_int(v.start + i)) for i in range(n.as_long())])
        return SymIter(SSeq('range', z3.If(n > 0, n, z3.IntVal(0)), lambda e, i: SInt(v.start + i)))
    if isinstance(v, SBytes):
        return Src([(True, x) for x in v.items])
    if isinstance(v, Sym):
        raise Unsupported('iteration over %r' % (v,))
    if isinstance(v, (Closure, Bound, Method)):
        raise PyRaise(TypeError('not iterable'))
    try:
        it = iter(v)
    except TypeError as e:
        raise PyRaise(e)
    return Src([(True, eng.from_native(x)) for x in it])


def items_of(eng, o):
    """Iteration over a list that a loop has made: over the elements of that loop, and the items each has added."""
    tag = o.base.tag
    if o.items or not tag or tag[0] != 'prefix' or not z3.is_app(o.base.t) or o.base.t.num_args() != 1:
        raise Unsupported('iteration over a list with an unknown prefix')
    f = next(f for f in eng.folds if f.fold.name == tag[1])
    if o.base.t.decl().name() != 'L.%s.%s' % tag[1:]:
        raise Unsupported('iteration over a list with an unknown prefix')

    def elem(e, i):
        x = e.call(f.fold.elem, (f.x, SInt(i)))
        return e.call(f.fold.lists[tag[2]], (f.x, f.ns(i), x, SInt(i)))
    r = SymIter(SSeq(tag[2], o.base.t.arg(0), elem))
    r.plain = False
    r.fused = True
    return r


def members_of(eng, o, how):
    """The members of a set that a loop has made."""
    tag = o.base.tag if isinstance(o.base, SOpaque) else None
    if not tag or tag[0] != 'members' or o.entries or o.extra:
        raise Unsupported('iteration over a set with unknown contents')
    _, f, name, idx = tag
    if not eng.valid(idx == int_t(f.count())):
        raise Unsupported('iteration over a set that is not complete')
    return f.ordered(name, how)


def iter_values(eng, v):
    s = for_source(eng, eng.resolve(v))
    if isinstance(s, GenCall):
        return gen_values(eng, s)
    if isinstance(s, SymIter):
        n = z3.simplify(s.seq.length)
        if z3.is_int_value(n):
            return [s.wrap(eng, i, s.seq.elem(eng, z3.IntVal(i))) for i in range(n.as_long())]
        raise Unsupported('iteration over a sequence of symbolic length outside a for statement')
    out = []
    for g, x in s.items:
        if g is True or eng.branch(g):
            out.append(x)
    c = getattr(s, 'consumed', None)
    if c:
        c(eng, len(s.items))
    return out


def guarded_values(eng, v):
    """[(guard, value)] of an iterable."""
    s = for_source(eng, eng.resolve(v))
    if isinstance(s, GenCall):
        o = eng.obj(gen_list(eng, s))
        return list(o.items)
    if isinstance(s, Src):
        out = list(s.items)
        c = getattr(s, 'consumed', None)
        if c:
            c(eng, len(out))
        return out
    return [(True, x) for x in iter_values(eng, s)]


def gen_values(eng, g):
    return iter_values(eng, gen_list(eng, g))


def gen_list(eng, g):
    acc = eng.new_list(())

    def compute():
        def handler(v):
            o = eng.obj(acc)
            st = eng.st.copy()
            eng.st = st
            eng.put(acc, ListObj(o.items + ((True, v),)))
            return [(eng.st, 'next', None)]
        res = []
        for st, kind, v in eng.gen_run(g, handler):
            if kind in ('next', 'return'):
                res.append((st, 'val', None))
            else:
                res.append((st, 'raise', v))
        return eng.merge_outcomes(res)
    eng.choose_outcome(compute)
    return acc


def dict_keys(eng, o):
    if o.base is not None:
        raise Unsupported('iteration over a dict with unknown contents')
    return [(g, k) for k, (g, _) in o.entries.items()] + [(g, k) for g, k, _ in o.extra]


def dict_items(eng, o):
    if o.base is not None:
        raise Unsupported('iteration over a dict with unknown contents')
    return [(g, (k, v)) for k, (g, v) in o.entries.items()] + [(g, (k, v)) for g, k, v in o.extra]


def flat(eng, ref):
    """The list object of a ref with all guards decided (forks)."""
    o = lobj(eng, ref)
    if any(g is not True for g, _ in o.items):
        items = [(True, v) for g, v in o.items if g is True or eng.branch(g)]
        o = ListObj(items, o.base, o.maxlen, o.kind)
        put_l(eng, ref, o)
    return o


def lobj(eng, ref):
    o = eng.obj(ref)
    return o.payload if isinstance(o, InstObj) else o


def put_l(eng, ref, l):
    o = eng.obj(ref)
    eng.put(ref, InstObj(o.cls, o.attrs, l) if isinstance(o, InstObj) else l)


dobj, put_d = lobj, put_l


# ---- dictionaries ----------------------------------------------------------------------------------------------------

def is_key(k):
    if isinstance(k, Sym):
        return False
    if isinstance(k, tuple):
        return all(is_key(x) for x in k)
    return True


def dict_set(eng, r, k, v):
    d = dobj(eng, r)
    if isinstance(k, Union) and d.base is None and not d.extra and d.kind != 'ordereddict' and \
            all(type(x) is str for _, x in k.alts):
        # each of the keys, where it is the key (a key's place among the others is that of its first possible entry)
        e = dict(d.entries)
        for c, x in k.alts:
            old = e.get(x)
            if old is None:
                e[x] = (c, v)
            else:
                e[x] = (z_or(old[0], c), eng.merge_vals([(c, v), (z_not(c), old[1])]))
        put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
        return
    k = eng.resolve(k) if isinstance(k, Union) else k
    if d.base is not None and d.kind == 'set':
        put_d(eng, r, DictObj(d.entries, d.extra + ((True, k, v),), d.default, d.kind, d.base))
        return
    if is_key(k):
        try:
            hash(k)
        except TypeError as e:
            raise PyRaise(e)
        if not d.extra or k in d.entries:
            for g, kk, _ in d.extra:
                if eng.valid(eng.eq(kk, k)) or eng.check(zbool(eng.eq(kk, k))) != z3.unsat:
                    raise Unsupported('dict with possibly equal symbolic keys')
            e = dict(d.entries)
            e[k] = (True, v)
            put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
            return
    # symbolic: decide equality with each existing key
    for kk in d.entries:
        if eng.branch(zbool(z_and(d.entries[kk][0], eng.eq(kk, k)))):
            e = dict(d.entries)
            e[kk] = (True, v)
            put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
            return
    for i, (g, kk, _) in enumerate(d.extra):
        if eng.branch(zbool(z_and(g, eng.eq(kk, k)))):
            ex = list(d.extra)
            ex[i] = (True, kk, v)
            put_d(eng, r, DictObj(d.entries, ex, d.default, d.kind, d.base))
            return
    if is_key(k):
        e = dict(d.entries)
        e[k] = (True, v)
        put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
        return
    put_d(eng, r, DictObj(d.entries, d.extra + ((True, k, v),), d.default, d.kind, d.base))


def runs(entries):
    """The entries of a dict with integer keys as (first, last, value): successive keys of the same value together."""
    out = []
    for k in sorted(entries):
        v = entries[k][1]
        if out and out[-1][1] == k - 1 and out[-1][2] is v:
            out[-1][1] = k
        else:
            out.append([k, k, v])
    return out


def dict_lookup(eng, d, k, missing):
    """Value for key k; `missing()` where absent (may raise)."""
    k = eng.resolve(k) if isinstance(k, Union) else k
    if d.base is not None:
        raise Unsupported('lookup in a dict with unknown contents')
    if is_key(k) and not d.extra:
        try:
            e = d.entries.get(k)
        except TypeError as ex:
            raise PyRaise(ex)
        if e is None:
            return missing()
        if e[0] is True or eng.branch(e[0]):
            return e[1]
        return missing()
    if isinstance(k, SInt) and not d.extra and all(type(kk) is int and g is True for kk, (g, _) in d.entries.items()):
        for first, last, v in runs(d.entries):
            c = simp_cond(z_and(first <= int_t(k), int_t(k) <= last) if first < last else eng.eq(first, k))
            if c is not False and eng.branch(c):
                return v
        return missing()
    for kk, (g, v) in d.entries.items():
        c = simp_cond(z_and(g, eng.eq(kk, k)))
        if c is not False and eng.branch(c):
            return v
    for g, kk, v in d.extra:
        c = simp_cond(z_and(g, eng.eq(kk, k)))
        if c is not False and eng.branch(c):
            return v
    return missing()


def dict_del(eng, r, k):
    d = dobj(eng, r)
    if not is_key(k) or d.extra:
        raise Unsupported('deletion of a symbolic key')
    if k not in d.entries or not eng.branch(d.entries[k][0]):
        raise PyRaise(KeyError(k))
    e = dict(d.entries)
    v = e.pop(k)[1]
    put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
    return v


def dict_contains(eng, d, k):
    if isinstance(k, Union):
        return z_or(*[z_and(c, dict_contains(eng, d, x)) for c, x in k.alts])
    tag = d.base.tag if isinstance(d.base, SOpaque) else None
    if tag and tag[0] == 'members' and d.kind == 'set':
        if not (all(is_int_like(eng.resolve(x)) for x in k) if isinstance(k, tuple) else is_int_like(k)):
            raise Unsupported('membership of %r' % (k,))
        n, tupled = tag[1].arity(tag[2])
        if (len(k) if isinstance(k, tuple) else None) != (n if tupled else None):
            return False
        return z_or(*([tag[1].member(tag[2], k, tag[3])] +
                      [z_and(g, eng.eq(kk, k)) for kk, (g, _) in d.entries.items()] +
                      [z_and(g, eng.eq(kk, k)) for g, kk, _ in d.extra]))
    if d.base is not None:
        raise Unsupported('membership in a dict with unknown contents')
    if is_key(k) and not d.extra:
        try:
            e = d.entries.get(k)
        except TypeError as ex:
            raise PyRaise(ex)
        return False if e is None else e[0]
    return z_or(*([z_and(g, eng.eq(kk, k)) for kk, (g, _) in d.entries.items()] +
                  [z_and(g, eng.eq(kk, k)) for g, kk, _ in d.extra]))


def dict_update(eng, r, v):
    v = eng.resolve(v)
    if isinstance(v, Ref):
        o = dobj(eng, v)
        if isinstance(o, DictObj):
            d = dobj(eng, r)
            if o.base is None and d.base is None and not o.extra and not d.extra:
                e = dict(d.entries)
                for k, (g, x) in o.entries.items():
                    if g is True or k not in e:
                        e[k] = (g, x)
                    else:
                        g0, x0 = e[k]
                        e[k] = (True if g0 is True else z_or(g, g0), eng.merge_vals([(g, x), (z_not(g), x0)]))
                put_d(eng, r, DictObj(e, (), d.default, d.kind, None))
                return
            for g, (k, x) in dict_items(eng, o):
                if g is True or eng.branch(g):
                    dict_set(eng, r, k, x)
            return
        update_pairs(eng, r, v)
        return
    if isinstance(v, dict):
        for k, x in v.items():
            dict_set(eng, r, k, eng.from_native(x))
        return
    update_pairs(eng, r, v)


def update_pairs(eng, r, v):
    for g, p in guarded_values(eng, v):
        k, x = iter_values(eng, p)
        if g is not True:
            d = dobj(eng, r)
            if is_key(k) and d.base is None and not d.extra:
                e = dict(d.entries)
                if k not in e:
                    e[k] = (g, x)
                else:
                    g0, x0 = e[k]
                    e[k] = (True if g0 is True else z_or(g, g0), eng.merge_vals([(g, x), (z_not(g), x0)]))
                put_d(eng, r, DictObj(e, (), d.default, d.kind, None))
                continue
            if not eng.branch(g):
                continue
        dict_set(eng, r, k, x)


def dict_init(eng, r, args, kwargs):
    for a in args:
        dict_update(eng, r, a)
    for k, v in kwargs.items():
        if isinstance(v, Guarded):
            d = dobj(eng, r)
            e = dict(d.entries)
            e[k] = (v.guard, v.value)
            put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
            continue
        dict_set(eng, r, k, v)


class Guarded(object):
    """A keyword argument present only under a condition (used when ** expands a guarded dict)."""

    def __init__(self, guard, value):
        self.guard = guard
        self.value = value


def kwargs_items(eng, v):
    v = eng.resolve(v)
    if isinstance(v, Ref):
        o = dobj(eng, v)
        if isinstance(o, DictObj):
            if o.extra or o.base is not None:
                raise Unsupported('** of a dict with symbolic keys')
            out = []
            for k, (g, x) in o.entries.items():
                if g is True or eng.branch(g):
                    out.append((k, x))
            return out
    if isinstance(v, dict):
        return [(k, eng.from_native(x)) for k, x in v.items()]
    raise Unsupported('** of %r' % (v,))


# ---- subscripts ------------------------------------------------------------------------------------------------------

def get_item(eng, v, i):
    v = eng.resolve(v)
    if isinstance(i, Union):
        i = eng.resolve(i)
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, InstObj):
            m = _find(o.cls, '__getitem__', None)
            if isinstance(m, types.FunctionType):
                return eng.call(m, (v, i))
            o = o.payload
        if isinstance(o, DictObj):
            def missing():
                if o.default is not None:
                    x = eng.call(o.default, ())
                    dict_set(eng, v, i, x)
                    return x
                if o.kind == 'counter':
                    return 0
                oo = eng.obj(v)
                mm = _find(oo.cls, '__missing__', None) if isinstance(oo, InstObj) else None
                if mm is not None:
                    return eng.call(mm, (v, i))
                raise PyRaise(KeyError(i))
            return dict_lookup(eng, o, i, missing)
        if isinstance(o, ListObj):
            if isinstance(i, SliceV):
                o = flat(eng, v)
                if o.base is not None:
                    raise Unsupported('slice of a list with an unknown prefix')
                xs = [x for _, x in o.items][native_slice(eng, i)]
                return eng.new_list(xs, o.kind)
            if isinstance(i, int) and i in (0, -1) and o.base is None and any(g is not True for g, _ in o.items):
                # the first (last) element that is there
                alts, none = [], True
                for g, x in (o.items if i == 0 else reversed(o.items)):
                    alts.append((simp_cond(z_and(none, g)), x))
                    none = simp_cond(z_and(none, z_not(g)))
                if eng.branch(none):
                    raise PyRaise(IndexError('list index out of range'))
                return eng.merge_vals([(c, x) for c, x in alts if c is not False])
            return seq_index(eng, flat(eng, v), i)
        raise PyRaise(TypeError("'%s' object is not subscriptable" % eng.type_name(v)))
    if isinstance(v, SBytes):
        if isinstance(i, SliceV):
            xs = v.items[native_slice(eng, i, len(v.items))]
            return SBytes(xs) if any(isinstance(x, Sym) for x in xs) else bytes(xs)
        return tuple_index(eng, v.items, i, 'index out of range')
    if isinstance(v, SSeq):
        if isinstance(i, SliceV):
            return seq_slice(eng, v, i)
        if not is_int_like(i):
            raise PyRaise(TypeError('indices must be integers'))
        it = int_t(i)
        if eng.branch(z3.And(it >= 0, it < v.length)):
            return v.elem(eng, z3.simplify(it))
        if eng.branch(z3.And(it < 0, it >= -v.length)):
            return v.elem(eng, z3.simplify(v.length + it))
        raise PyRaise(IndexError('index out of range'))
    if isinstance(v, SStr):
        if isinstance(i, SliceV):
            return str_slice(eng, v, i)
        raise Unsupported('subscript of a symbolic string')
    if isinstance(v, Sym):
        raise PyRaise(TypeError("'%s' object is not subscriptable" % eng.type_name(v)))
    if isinstance(i, SliceV):
        return eng.from_native(v[native_slice(eng, i)])
    if isinstance(v, (tuple, list, bytes)):
        if isinstance(i, (int, SInt, SBool)):
            return tuple_index(eng, v, i, 'index out of range')
        raise PyRaise(TypeError('indices must be integers'))
    if isinstance(v, collections.abc.Mapping) and not is_key(i):
        ks = list(v)
        conds = [simp_cond(eng.eq(i, k)) for k in ks]
        live = [(c, v[k]) for c, k in zip(conds, ks) if c is not False]
        if not live:
            raise PyRaise(KeyError(i))
        some = z_or(*[c for c, _ in live])
        if not eng.branch(some):
            raise PyRaise(KeyError(i))
        return eng.merge_vals([(c, eng.from_native(x)) for c, x in live])
    if isinstance(v, type) and issubclass(v, enum.Enum):
        try:
            return v[i]
        except KeyError as e:
            raise PyRaise(e)
    try:
        return eng.from_native(v[eng.to_native(i) if not isinstance(i, Ref) else i])
    except Unsupported:
        raise
    except Exception as e:
        raise PyRaise(e)


def seq_slice(eng, v, s):
    """A part of a sequence of symbolic length."""
    if s.step is not None and s.step != 1:
        raise Unsupported('slice of a symbolic sequence with a step')
    n = v.length

    def clamp(x, default):
        if x is None:
            return default
        t = int_t(x)
        if not eng.branch(t >= 0):
            t = z3.simplify(n + t)
            return t if eng.branch(t >= 0) else z3.IntVal(0)
        return t if eng.branch(t <= n) else n
    lo, hi = clamp(s.lo, z3.IntVal(0)), clamp(s.hi, n)
    if not eng.branch(hi >= lo):
        hi = lo
    if 'tail' in v.extra:
        b = v.extra['base']
        if eng.valid(hi <= b.length):
            return seq_slice(eng, b, SliceV(SInt(lo), SInt(hi), None))
        if eng.valid(z3.And(lo == 0, hi == n)):
            return v
        raise Unsupported('slice of a concatenation')
    name, elem, start = v.extra.get('src') or (v.name, v.elem, z3.IntVal(0))
    start = z3.simplify(start + lo)
    ex = dict(v.extra)
    ex['src'] = (name, elem, start)
    return SSeq('%s[%s,%s]' % (name, start, z3.simplify(hi - lo)), z3.simplify(hi - lo),
                lambda e, i: elem(e, z3.simplify(start + i)), ex)


def seq_shape(v):
    """(source name, start, length, tail) of a sequence: a part of an input followed by known elements."""
    tail = tuple(v.extra.get('tail', ()))
    b = v.extra['base'] if tail else v
    name, _, start = b.extra.get('src') or (b.name, None, z3.IntVal(0))
    return name, start, b.length, tail


def native_slice(eng, s, n=None):
    def f(x):
        if x is None or isinstance(x, int):
            return x
        if isinstance(x, SInt) and n is not None and n <= 64:
            t = int_t(x)
            ks = list(range(-n, n + 1))
            i = eng.choose([t == k for k in ks] + [t > n, t < -n])
            return (ks + [n, -n])[i]
        raise Unsupported('symbolic slice bound')
    return slice(f(s.lo), f(s.hi), f(s.step))


def str_slice(eng, v, s):
    lo, hi = s.lo or 0, s.hi
    if s.step is not None or not isinstance(lo, int):
        raise Unsupported('slice of a symbolic string')
    first = v.parts[0] if v.parts and isinstance(v.parts[0], str) else ''
    last = v.parts[-1] if v.parts and isinstance(v.parts[-1], str) else ''
    if 0 <= lo <= len(first) and hi is None:
        return eng.mk_str((first[lo:],) + v.parts[1 if first else 0:])
    if 0 <= lo <= len(first) and isinstance(hi, int) and 0 <= hi <= len(first):
        return first[lo:hi]
    if 0 <= lo <= len(first) and isinstance(hi, int) and hi < 0 and -hi <= len(last) and len(v.parts) > 1:
        return eng.mk_str((first[lo:],) + v.parts[1 if first else 0:-1] + (last[:hi],))
    raise Unsupported('slice of a symbolic string')


def seq_index(eng, o, i):
    n = len(o.items)
    if o.base is not None:
        if isinstance(i, int) and i < 0 and -i <= n:
            return o.items[i][1]
        raise Unsupported('index into a list with an unknown prefix')
    return tuple_index(eng, [x for _, x in o.items], i, 'list index out of range')


def tuple_index(eng, xs, i, msg):
    if isinstance(i, (int,)):
        try:
            x = xs[i]
        except IndexError as e:
            raise PyRaise(e)
        return eng.from_native(x)
    n = len(xs)
    if isinstance(i, SInt) and i.bv is not None:
        w = i.bv.size()
        if n < 2 ** w and not eng.branch(z3.ULT(i.bv, z3.BitVecVal(n, w))):
            raise PyRaise(IndexError(msg))
        if all(isinstance(x, int) and x >= 0 for x in xs):
            ow = max(max(x.bit_length() for x in xs), 1)
            t = z3.BitVecVal(xs[0], ow)
            for j in range(1, min(n, 2 ** w)):
                t = z3.If(i.bv == j, z3.BitVecVal(xs[j], ow), t)
            return SInt(None, t)
    it = int_t(i)
    if not eng.branch(z3.And(it >= -n, it < n)):
        raise PyRaise(IndexError(msg))
    neg = eng.branch(it < 0)
    live = []
    for j in range(n):
        c = simp_cond(it == (j - n if neg else j))
        if c is not False:
            live.append((c, eng.from_native(xs[j])))
    return eng.merge_vals(live)


def set_item(eng, v, i, value):
    v = eng.resolve(v)
    if isinstance(i, Union):
        i = eng.resolve(i)
    if not isinstance(v, Ref):
        raise Unsupported('item assignment on %s' % eng.type_name(v))
    o = eng.obj(v)
    if isinstance(o, InstObj):
        m = _find(o.cls, '__setitem__', None)
        if isinstance(m, types.FunctionType):
            eng.call(m, (v, i, value))
            return
        o = o.payload
    if isinstance(o, DictObj):
        dict_set(eng, v, i, value)
        return
    if isinstance(o, ListObj):
        o = flat(eng, v)
        if isinstance(i, int) and o.base is None:
            items = list(o.items)
            try:
                items[i] = (True, value)
            except IndexError as e:
                raise PyRaise(e)
            put_l(eng, v, ListObj(items, o.base, o.maxlen, o.kind))
            return
        raise Unsupported('list assignment at a symbolic index')
    raise PyRaise(TypeError('object does not support item assignment'))


def del_item(eng, v, i):
    v = eng.resolve(v)
    o = dobj(eng, v) if isinstance(v, Ref) else None
    if isinstance(o, DictObj):
        dict_del(eng, v, i)
        return
    if isinstance(o, ListObj) and isinstance(i, int):
        o = flat(eng, v)
        items = list(o.items)
        try:
            del items[i]
        except IndexError as e:
            raise PyRaise(e)
        put_l(eng, v, ListObj(items, o.base, o.maxlen, o.kind))
        return
    raise Unsupported('deletion')


def contains(eng, coll, v):
    """Condition: v in coll."""
    if isinstance(coll, Union):
        return z_or(*[z_and(c, contains(eng, x, v)) for c, x in coll.alts])
    if isinstance(coll, Ref):
        o = eng.obj(coll)
        if isinstance(o, InstObj):
            m = _find(o.cls, '__contains__', None)
            if isinstance(m, types.FunctionType):
                return eng.truth(eng.call(m, (coll, v)))
            o = o.payload
        if isinstance(o, DictObj):
            return dict_contains(eng, o, v)
        if isinstance(o, ListObj):
            if o.base is not None:
                raise Unsupported('membership in a list with an unknown prefix')
            return z_or(*[z_and(g, eng.eq(v, x)) for g, x in o.items])
        return z_or(*[eng.eq(v, x) for x in iter_values(eng, coll)])
    if isinstance(coll, SRange):
        return z_and(int_t(v) >= coll.start, int_t(v) < coll.stop)
    if isinstance(coll, (SStr, str)):
        if isinstance(v, str) and isinstance(coll, str):
            return v in coll
        if isinstance(v, str) and isinstance(coll, SStr) and any(isinstance(p, str) and v in p for p in coll.parts):
            return True
        raise Unsupported('substring test on a symbolic string')
    if isinstance(coll, Sym):
        raise Unsupported('membership in %r' % (coll,))
    if isinstance(coll, range) and not is_conc(v):
        if is_int_like(v):
            if coll.step == 1:
                return z_and(int_t(v) >= coll.start, int_t(v) < coll.stop)
        return z_or(*[eng.eq(v, x) for x in coll])
    if is_conc(v) and not _has_sym(v):
        try:
            return v in coll
        except Exception as e:
            raise PyRaise(e)
    if isinstance(v, Union):
        return z_or(*[z_and(c, contains(eng, coll, x)) for c, x in v.alts])
    try:
        xs = list(coll)
    except TypeError as e:
        raise PyRaise(e)
    return z_or(*[eng.eq(v, x) for x in xs])


def inplace(eng, op, cur, v):
    cur = eng.resolve(cur)
    if isinstance(cur, Ref):
        o = lobj(eng, cur)
        if op == '+' and isinstance(o, ListObj):
            list_extend(eng, cur, v)
            return cur
        if op == '|' and isinstance(o, DictObj) and o.kind == 'set':
            for x in iter_values(eng, v):
                dict_set(eng, cur, x, None)
            return cur
    return eng.binop(op, cur, eng.resolve(v))


def narrow(eng, v, g=True):
    """A union without the alternatives that are impossible here; one number if only numbers are left."""
    if not isinstance(v, Union):
        return v
    alts = [(c, x) for c, x in v.alts if eng.check(zbool(z_and(zbool(g), zbool(c)))) != z3.unsat]
    if not alts:
        return v
    if len(alts) == 1:
        return alts[0][1]
    return eng.merge_vals(alts) if len(alts) < len(v.alts) else v


def implied(eng, g, h):
    """Whether condition g implies h, wherever the program is."""
    if h is True or g is h or g is False:
        return True
    if g is True:
        return False
    cache = eng.__dict__.setdefault('implications', {})
    k = (g.get_id(), h.get_id())
    if k not in cache:
        s = z3.Solver()
        s.set('timeout', 500)
        s.add(g, z3.Not(h))
        cache[k] = (s.check() == z3.unsat, g, h)
    return cache[k][0]


def list_append(eng, ref, v):
    o = lobj(eng, ref)
    v = narrow(eng, v)
    if o.maxlen is not None:
        if o.base is None and len(o.items) == o.maxlen and all(
                implied(eng, g, h) for (g, _), (h, _) in zip(o.items, o.items[1:])):
            # what is there are the last items: the first one goes if it is there, and nothing else does
            put_l(eng, ref, ListObj(o.items[1:] + ((True, v),), o.base, o.maxlen, o.kind))
            return
        o = flat(eng, ref)
        items = o.items + ((True, v),)
        if o.base is not None:
            raise Unsupported('bounded deque with unknown prefix')
        if len(items) > o.maxlen:
            items = items[len(items) - o.maxlen:]
        put_l(eng, ref, ListObj(items, o.base, o.maxlen, o.kind))
        return
    put_l(eng, ref, ListObj(o.items + ((True, v),), o.base, o.maxlen, o.kind))


def list_extend(eng, ref, v):
    v = eng.resolve(v)
    if isinstance(v, Ref):
        s = lobj(eng, v)
        o = lobj(eng, ref)
        if isinstance(s, ListObj) and s.base is None and o.maxlen is None:
            put_l(eng, ref, ListObj(o.items + s.items, o.base, o.maxlen, o.kind))
            return
        if isinstance(s, ListObj) and o.maxlen is None:
            from . import loops
            base = loops.joined(eng, o, s.base)
            if base is not None:
                put_l(eng, ref, ListObj(s.items, base, o.maxlen, o.kind))
                return
    for x in iter_values(eng, v):
        list_append(eng, ref, x)


# ---- truth, equality and operators on references -------------------------------------------------------------------

def ref_truth(eng, v):
    o = eng.obj(v)
    if isinstance(o, InstObj):
        m = _find(o.cls, '__bool__', None) or _find(o.cls, '__nonzero__', None)
        if isinstance(m, types.FunctionType):
            return eng.truth(eng.call(m, (v,)))
        m = _find(o.cls, '__len__', None)
        if isinstance(m, types.FunctionType):
            return eng.truth(eng.call(m, (v,)))
        if not isinstance(o.payload, (DictObj, ListObj)) or issubclass(o.cls, BaseException):
            return True
        o = o.payload
    if isinstance(o, ListObj):
        if o.base is not None:
            if any(g is True for g, _ in o.items):
                return True
            raise Unsupported('emptiness of a list with an unknown prefix')
        return z_or(*[g for g, _ in o.items])
    if isinstance(o, DictObj):
        if o.base is not None:
            raise Unsupported('emptiness of a dict with unknown contents')
        return z_or(*([g for g, _ in o.entries.values()] + [g for g, _, _ in o.extra]))
    return True


def ref_eq(eng, a, b):
    if a.id == b.id:
        return True
    x, y = eng.obj(a), eng.obj(b)
    if isinstance(x, InstObj) and isinstance(x.payload, (DictObj, ListObj)):
        x = x.payload
    if isinstance(y, InstObj) and isinstance(y.payload, (DictObj, ListObj)):
        y = y.payload
    if isinstance(x, ListObj) and isinstance(y, ListObj):
        if x.kind != y.kind:
            return False
        if (x.base is None) != (y.base is None):
            raise Unsupported('equality of lists with an unknown prefix')
        base = True if x.base is None else eng.eq(x.base, y.base)
        return z_and(base, guarded_eq(eng, list(x.items), list(y.items)))
    if isinstance(x, DictObj) and isinstance(y, DictObj):
        if x.extra or y.extra:
            if len(x.extra) == len(y.extra) and set(x.entries) == set(y.entries):
                cs = [z_and(zb_iff(g1, g2), eng.eq(k1, k2), eng.eq(v1, v2)) for (g1, k1, v1), (g2, k2, v2) in zip(
                    x.extra, y.extra)]
                return z_and(dict_eq(eng, x, y), *cs)
            raise Unsupported('equality of dicts with symbolic keys')
        base = True
        if x.base is not None or y.base is not None:
            if x.base is None or y.base is None:
                raise Unsupported('equality of dicts with unknown contents')
            base = eng.eq(x.base, y.base)
        return z_and(base, dict_eq(eng, x, y))
    return False


def zb_iff(a, b):
    if a is True and b is True:
        return True
    return zbool(a) == zbool(b)


def dict_eq(eng, x, y):
    cs = []
    for k in list(x.entries) + [k for k in y.entries if k not in x.entries]:
        gx, vx = x.entries.get(k, (False, None))
        gy, vy = y.entries.get(k, (False, None))
        cs.append(zb_iff(gx, gy) if not (isinstance(gx, bool) and isinstance(gy, bool)) else gx == gy)
        if gx is not False and gy is not False:
            cs.append(z_or(z_not(gx), eng.eq(vx, vy)))
    return z_and(*cs)


def guarded_eq(eng, xs, ys):
    """Equality of two sequences with guarded entries."""
    if len(xs) == len(ys) and all(_iffy(g, h) for (g, _), (h, _) in zip(xs, ys)):
        return z_and(*[z_or(z_not(g), eng.eq(v, w)) for (g, v), (_, w) in zip(xs, ys)])
    # drop entries known absent, then compare by cases
    memo = {}

    def go(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if i == len(xs):
            r = z_and(*[z_not(g) for g, _ in ys[j:]])
        elif j == len(ys):
            r = z_and(*[z_not(g) for g, _ in xs[i:]])
        else:
            (g, v), (h, w) = xs[i], ys[j]
            r = z_or(z_and(g, h, eng.eq(v, w), go(i + 1, j + 1)),
                     z_and(z_not(g), go(i + 1, j)) if g is not True else False,
                     z_and(g, z_not(h), go(i, j + 1)) if h is not True else False)
        memo[i, j] = r
        return r
    if len(xs) * len(ys) > 4000:
        raise Unsupported('equality of long guarded lists')
    return go(0, 0)


def _iffy(g, h):
    if isinstance(g, bool) or isinstance(h, bool):
        return g is h
    return g.eq(h)


def ref_native_eq(eng, r, v):
    if v is None or isinstance(v, (int, str, bytes, decimal.Decimal, enum.Enum, type)):
        return False
    o = eng.obj(r)
    p = o.payload if isinstance(o, InstObj) else o
    if isinstance(v, list) and isinstance(p, ListObj):
        return ref_eq(eng, r, eng.from_native(v))
    if isinstance(v, dict) and isinstance(p, DictObj):
        return ref_eq(eng, r, eng.from_native(v))
    if isinstance(v, (set, frozenset)) and isinstance(p, DictObj) and p.kind in ('set', 'frozenset'):
        return dict_eq(eng, p, DictObj({k: (True, None) for k in v}))
    return False


def ref_binop(eng, op, a, b):
    if isinstance(a, Ref) and isinstance(eng.obj(a), InstObj):
        names = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '%': '__mod__'}
        m = _find(eng.obj(a).cls, names.get(op, '?'), None)
        if isinstance(m, types.FunctionType):
            return eng.call(m, (a, b))
    if op == '+' and isinstance(a, Ref):
        x = lobj(eng, a)
        if isinstance(x, ListObj):
            if isinstance(b, Ref) and isinstance(lobj(eng, b), ListObj):
                y = lobj(eng, b)
                if y.base is None:
                    return eng.alloc(ListObj(x.items + y.items, x.base, None, x.kind), x.kind)
                from . import loops
                base = loops.joined(eng, x, y.base)
                if base is None:
                    raise Unsupported('concatenation with an unknown list')
                return eng.alloc(ListObj(y.items, base, None, x.kind), x.kind)
            if isinstance(b, list):
                return eng.alloc(ListObj(x.items + tuple((True, eng.from_native(v)) for v in b), x.base, None, x.kind),
                                 x.kind)
            raise PyRaise(TypeError('can only concatenate list'))
    if op == '+' and isinstance(b, Ref) and isinstance(a, list):
        return ref_binop(eng, op, eng.from_native(a), b)
    if op == '*' and isinstance(b, (Ref, list)) and isinstance(a, (int, SInt)) and not isinstance(a, bool):
        return ref_binop(eng, op, b if isinstance(b, Ref) else eng.from_native(b), a)
    if op == '*' and isinstance(a, Ref) and isinstance(b, SInt) and isinstance(lobj(eng, a), ListObj):
        x = lobj(eng, a)
        n = int_t(b)
        lo, hi = few(eng, n)
        if x.base is None and len(x.items) == 1 and x.items[0][0] is True and hi is not None and hi <= 200:
            return eng.alloc(ListObj([(True if lo is not None and i < lo else z3.simplify(z3.IntVal(i) < n), x.items[0][1])
                                      for i in range(hi)], None, None, x.kind), x.kind)
        raise Unsupported('a list repeated a symbolic number of times')
    if op == '*' and isinstance(a, Ref) and isinstance(b, int) and isinstance(lobj(eng, a), ListObj):
        x = lobj(eng, a)
        if x.base is None:
            return eng.alloc(ListObj(x.items * b, None, None, x.kind), x.kind)
    for u in (a, b):
        if isinstance(u, Ref) and isinstance(lobj(eng, u), DictObj):
            x, y = set_of(eng, a), set_of(eng, b)
            if op in '-&|^' and x is not None and y is not None:
                if op == '-':
                    out = [(z_and(g, z_not(y.get(k, False))), k) for k, g in x.items()]
                elif op == '&':
                    out = [(z_and(g, y.get(k, False)), k) for k, g in x.items()]
                elif op == '|':
                    ks = list(x) + [k for k in y if k not in x]
                    out = [(z_or(x.get(k, False), y.get(k, False)), k) for k in ks]
                else:
                    raise Unsupported('set xor')
                return eng.alloc(DictObj({k: (g, None) for g, k in out if g is not False}, kind='set'), 'set')
            break
    raise PyRaise(TypeError("unsupported operand type(s) for %s: '%s' and '%s'" % (op, eng.type_name(a),
                                                                                  eng.type_name(b))))


def set_of(eng, v):
    if isinstance(v, Ref):
        o = dobj(eng, v)
        if isinstance(o, DictObj) and not o.extra and o.base is None:
            return {k: g for k, (g, _) in o.entries.items()}
        return None
    if isinstance(v, (set, frozenset)) or isinstance(v, collections.abc.KeysView):
        return {k: True for k in v}
    return None


# ---- strings ---------------------------------------------------------------------------------------------------------

def str_(eng, x):
    x = eng.resolve(x)
    if isinstance(x, (str, SStr)):
        return x
    if isinstance(x, SEnum):
        return str(eng.concrete_enum(x))
    if isinstance(x, SBool):
        return 'True' if eng.branch(x.t) else 'False'
    if isinstance(x, Ref):
        o = eng.obj(x)
        if isinstance(o, InstObj):
            m = _find(o.cls, '__str__', None)
            if isinstance(m, types.FunctionType):
                return eng.call(m, (x,))
            if issubclass(o.cls, BaseException):
                if len(o.payload) == 0:
                    return ''
                return str_(eng, o.payload[0]) if len(o.payload) == 1 else str_(eng, tuple(o.payload))
            m = _find(o.cls, '__repr__', None)
            if isinstance(m, types.FunctionType):
                return eng.call(m, (x,))
        try:
            return str(eng.to_native(x))
        except Unsupported:
            return eng.mk_str([('strobj', x.id)])
    if isinstance(x, tuple) and _has_sym(x):
        parts = ['(']
        for i, y in enumerate(x):
            if i:
                parts.append(', ')
            parts.extend(eng.as_parts(repr_(eng, y)))
        parts.append(',)' if len(x) == 1 else ')')
        return eng.mk_str(parts)
    if isinstance(x, SBytes):
        return eng.mk_str([('repr', x)])
    if isinstance(x, Sym):
        return eng.mk_str([('str', x)])
    if isinstance(x, (Closure, Bound, Method)):
        return eng.mk_str([('strobj', 'fn')])
    try:
        return str(x)
    except Exception as e:
        raise PyRaise(e)


def repr_(eng, x):
    x = eng.resolve(x)
    if isinstance(x, (SInt, SFlt)):
        return str_(eng, x)
    if isinstance(x, SEnum):
        return repr(eng.concrete_enum(x))
    if isinstance(x, Ref):
        try:
            return repr(eng.to_native(x))
        except Unsupported:
            return eng.mk_str([('strobj', x.id)])
    if isinstance(x, Sym) or _has_sym(x):
        if isinstance(x, tuple):
            return str_(eng, x)
        return eng.mk_str([('repr', x)])
    return repr(x)


def format_(eng, x, spec):
    x = eng.resolve(x)
    if spec == '':
        return str_(eng, x)
    if isinstance(x, SEnum):
        x = eng.concrete_enum(x)
    if not isinstance(x, (Sym, Ref)):
        try:
            return format(x, spec)
        except Exception as e:
            raise PyRaise(e)
    if isinstance(x, SInt) and spec in ('d', 'n'):
        return str_(eng, x)
    if isinstance(x, SInt) and spec == '02':
        spec = '02d'
    if isinstance(x, Sym):
        return eng.mk_str([('fmt', spec, x)])
    raise Unsupported('format of %r' % (x,))


def percent_format(eng, fmt, args):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    args = eng.resolve(args)
    parts = []
    pos = 0
    i = 0
    tup = args if isinstance(args, tuple) else (args,)
    used_map = False
    import re
    rx = re.compile(r'%(?:\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+))?([a-zA-Z%])')
    for m in rx.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        name, flags, width, prec, conv = m.groups()
        if conv == '%':
            parts.append('%')
            continue
        if width == '*':
            raise Unsupported('* width')
        if name is not None:
            used_map = True
            v = get_item(eng, args, name)
        else:
            if i >= len(tup):
                raise PyRaise(TypeError('not enough arguments for format string'))
            v = tup[i]
            i += 1
        v = eng.resolve(v)
        spec = m.group(0) if name is None else '%' + m.group(0)[m.group(0).index(')') + 1:]
        if spec == '%s':
            parts.extend(eng.as_parts(str_(eng, v)))
        elif spec == '%r':
            parts.extend(eng.as_parts(repr_(eng, v)))
        elif not isinstance(v, (Sym, Ref)):
            try:
                parts.append(spec % (v,))
            except Exception as e:
                raise PyRaise(e)
        elif conv in 'di' and isinstance(v, (SInt, SDec, SFlt, SBool)):
            if not isinstance(v, SInt):
                v = to_int(eng, v)
            if spec in ('%d', '%i'):
                parts.extend(eng.as_parts(str_(eng, v)))
            else:
                parts.append(('fmt', flags + (width or '') + 'd', v))
        elif conv in 'xX' and isinstance(v, SInt) and flags in ('', '0'):
            parts.append(('fmt', flags + (width or '') + conv, v))
        elif conv in 'feg' and is_num(v):
            parts.append(('fmt', spec[1:], v))
        elif conv == 's':
            parts.append(('fmt', 's' + spec[1:], v))
        else:
            raise PyRaise(TypeError('%%%s format: a number is required, not %s' % (conv, eng.type_name(v))))
    parts.append(fmt[pos:])
    if not used_map and i < len(tup) and not (isinstance(args, Ref) and i == 0):
        raise PyRaise(TypeError('not all arguments converted during string formatting'))
    return eng.mk_str(parts)


def str_format(eng, fmt, args, kwargs):
    if not isinstance(fmt, str):
        raise Unsupported('symbolic format string')
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        parts.append(lit)
        if field is None:
            continue
        import _string
        first, rest = _string.formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                raise PyRaise(IndexError('Replacement index %d out of range for positional args tuple' % first))
            v = args[first]
        else:
            if first not in kwargs:
                raise PyRaise(KeyError(first))
            v = kwargs[first]
        for is_attr, name in rest:
            v = eng.get_attr(v, name) if is_attr else get_item(eng, v, name)
        if '{' in (spec or ''):
            raise Unsupported('nested format spec')
        if conv == 'r':
            parts.extend(eng.as_parts(repr_(eng, v)))
        elif conv == 's':
            parts.extend(eng.as_parts(format_(eng, str_(eng, v), spec or '')))
        else:
            parts.extend(eng.as_parts(format_(eng, v, spec or '')))
    return eng.mk_str(parts)


DIGITS = set('0123456789')


def atom_chars(p):
    """The characters an atom of a text may contain, if that is known and it is never empty; else None."""
    if p[0] == 'str' and isinstance(p[1], (SInt, SDec)):
        return DIGITS | set('-') if isinstance(p[1], SInt) else DIGITS | set('-+.E')
    if p[0] == 'in' and getattr(p[1].tag, 'minlen', 0) > 0 and all(p[1].tag.samples):
        return set(p[1].tag.alphabet) | set(''.join(p[1].tag.samples))
    return None


WHITE = set(' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0')
LINES = set('\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029')


def with_marks(eng, s, name, args, kwargs):
    """A method of str that only looks for characters which the atoms of s do not contain; else NO."""
    if not all(isinstance(a, (str, int, type(None))) for a in list(args) + list(kwargs.values())):
        return NO
    look = args[0] if args else kwargs.get('sep', kwargs.get('chars'))
    if name == 'splitlines':
        look = LINES
    elif name in ('split', 'rsplit', 'strip', 'lstrip', 'rstrip'):
        look = WHITE if look is None else look
    elif name not in ('partition', 'rpartition', 'count', '__contains__'):
        return NO
    if not isinstance(look, (str, set)) or not look:
        return NO
    text, atoms = '', {}
    for p in s.parts:
        if isinstance(p, str):
            if any(0xE000 <= ord(c) <= 0xF8FF for c in p):
                return NO
            text += p
        else:
            cs = atom_chars(p)
            if cs is None or cs & set(look):
                return NO
            c = chr(0xE000 + len(atoms))
            atoms[c] = p
            text += c

    def back(v):
        if isinstance(v, str):
            return eng.mk_str([atoms.get(c, c) for c in v])
        if isinstance(v, tuple):
            return tuple(back(x) for x in v)
        if isinstance(v, list):
            return eng.new_list([back(x) for x in v])
        return v
    return back(getattr(text, name)(*args, **kwargs))


def str_method(eng, s, name, args, kwargs):
    if name == 'format':
        return str_format(eng, s, args, kwargs)
    if name == 'join':
        xs = guarded_values(eng, args[0])
        if any(g is not True for g, _ in xs):
            if isinstance(s, str) and s.strip() and all(isinstance(x, str) for _, x in xs):
                return eng.mk_str([('join', s, SJoin(xs))])
            out = join_optional(eng, s, xs)
            if out is not None:
                return eng.mk_str(out)
            xs = [(True, x) for g, x in xs if g is True or eng.branch(g)]
        out = []
        for i, (_, x) in enumerate(xs):
            x = eng.resolve(x)
            p = eng.as_parts(x)
            if p is None:
                raise PyRaise(TypeError('sequence item %d: expected str instance, %s found' % (i, eng.type_name(x))))
            if i:
                out.extend(eng.as_parts(s))
            out.extend(p)
        return eng.mk_str(out)
    if name == 'encode':
        if isinstance(s, SStr):
            return SBStr(s.parts)
        return s.encode(*args)
    if name == 'decode' and isinstance(s, SBStr):
        return SStr(s.parts)
    if isinstance(s, SStr):
        if name == 'startswith' and isinstance(args[0], str):
            p = s.parts
            if p and isinstance(p[0], str) and (len(p[0]) >= len(args[0]) or not args[0].startswith(p[0])):
                return p[0].startswith(args[0])
        if name == 'endswith' and isinstance(args[0], str):
            p = s.parts
            if p and isinstance(p[-1], str) and (len(p[-1]) >= len(args[0]) or not args[0].endswith(p[-1])):
                return p[-1].endswith(args[0])
        r = with_marks(eng, s, name, args, kwargs)
        if r is not NO:
            return r
        if name in ('strip', 'rstrip', 'lstrip') and len(args) <= 1:
            p = list(s.parts)
            if all(isinstance(x, str) or x[0] in ('str', 'fmt') for x in p):
                if name != 'rstrip' and isinstance(p[0], str):
                    p[0] = p[0].lstrip(*args)
                if name != 'lstrip' and isinstance(p[-1], str):
                    p[-1] = p[-1].rstrip(*args)
                return eng.mk_str(p)
        if name == 'replace' and all(isinstance(a, str) for a in args):
            if all(isinstance(x, str) or x[0] in ('str', 'fmt') for x in s.parts):
                # numbers and dates contain none of the letters replaced here
                if args[0].isalpha():
                    return eng.mk_str([x.replace(*args) if isinstance(x, str) else x for x in s.parts])
        raise Unsupported('str.%s on a symbolic string' % name)
    return call_pure(eng, getattr(s, name), args, kwargs)


# ---- numbers ---------------------------------------------------------------------------------------------------------

def to_int(eng, v):
    v = eng.resolve(v)
    if isinstance(v, (SInt,)):
        return v
    if isinstance(v, SBool):
        return SInt(int_t(v))
    if isinstance(v, SFlt) and v.quot is not None and isinstance(v.quot[1], int):
        # trunc(RN(n/d)) = trunc(n/d) for |n| < 2^50, 0 < d < 2^20
        n, d = v.quot
        if d < 2 ** 20 and eng.valid(z3.And(n > -2 ** 50, n < 2 ** 50)):
            if eng.valid(n >= 0):
                return mk_int(eng.z_div(n, d))
            return mk_int(z3.If(n >= 0, n / d, -((-n) / d)))
    if isinstance(v, (SDec, SFlt)):
        return mk_int(eng.z_round(v.t, 'ROUND_DOWN'))
    if isinstance(v, SStr):
        if len(v.parts) == 1 and v.parts[0][0] == 'str' and isinstance(v.parts[0][1], SInt):
            return v.parts[0][1]
        raise Unsupported('int of a symbolic string')
    if isinstance(v, SEnum) and issubclass(v.cls, int):
        return SInt(v.t)
    if isinstance(v, (Sym, Ref)):
        raise PyRaise(TypeError('int() argument must be a string or a number, not %r' % eng.type_name(v)))
    try:
        return int(v)
    except Exception as e:
        raise PyRaise(e)


def m_int(eng, args, kwargs):
    if not args:
        return 0
    if len(args) > 1 or kwargs:
        v = eng.resolve(args[0])
        base = args[1] if len(args) > 1 else kwargs.get('base')
        if isinstance(v, SStr) and base == 16:
            # the value of a hexadecimal representation made by formatting a number >= 0
            ps = v.parts[1:] if v.parts and v.parts[0] in ('0x', '0X') else v.parts
            if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'fmt' and ps[0][1][-1:] in 'xX' and \
                    isinstance(ps[0][2], SInt) and eng.valid(int_t(ps[0][2]) >= 0):
                return ps[0][2]
        return call_pure(eng, int, args, kwargs)
    return to_int(eng, args[0])


def m_float(eng, args, kwargs):
    v = eng.resolve(args[0]) if args else 0.0
    if isinstance(v, SInt):
        if not eng.valid(z3.And(int_t(v) < 2 ** 53, int_t(v) > -2 ** 53)):
            raise Unsupported('float of a large integer')
        return SFlt(z3.ToReal(int_t(v)), (int_t(v), 1))
    if isinstance(v, SDec):
        return SFlt(eng.z_fl(v.t))
    if isinstance(v, SFlt):
        return v
    if isinstance(v, SStr):
        p = v.parts
        if len(p) == 1 and p[0][0] == 'str' and is_num(p[0][1]):
            return m_float(eng, (p[0][1],), {})
        raise Unsupported('float of a symbolic string')
    if isinstance(v, (Sym, Ref)):
        raise PyRaise(TypeError('float() argument'))
    return call_pure(eng, float, (v,), {})


def m_decimal(eng, args, kwargs):
    v = eng.resolve(args[0]) if args else kwargs.get('value', '0')
    if isinstance(v, (SInt, SBool)):
        return SDec(z3.ToReal(int_t(v)))
    if isinstance(v, SDec):
        return v
    if isinstance(v, SFlt):
        return SDec(v.t)
    if isinstance(v, SStr):
        p = v.parts
        if len(p) == 1 and not isinstance(p[0], str):
            if p[0][0] == 'str' and isinstance(p[0][1], (SInt, SDec)):
                return m_decimal(eng, (p[0][1],), {})
            if p[0][0] == 'fmt' and isinstance(p[0][2], (SDec, SInt, SFlt)):
                import re
                m = re.match(r'^\.(\d+)f$', p[0][1])
                if m:
                    k = 10 ** int(m.group(1))
                    return SDec(z3.ToReal(eng.z_round(real_t(p[0][2]) * k, 'ROUND_HALF_EVEN')) / k)
            if p[0][0] == 'str' and isinstance(p[0][1], SFlt):
                return SDec(eng.z_repr(p[0][1].t))
        raise Unsupported('Decimal of a symbolic string')
    if isinstance(v, (Sym, Ref)):
        if isinstance(v, SOpaque):
            raise Unsupported('Decimal of an opaque value')
        raise PyRaise(TypeError('conversion to Decimal is not supported'))
    return call_pure(eng, decimal.Decimal, (v,), {})


def quantize(eng, x, args, kwargs):
    exp = args[0] if args else kwargs['exp']
    mode = args[1] if len(args) > 1 else kwargs.get('rounding')
    ctx = kwargs.get('context') or (args[2] if len(args) > 2 else None)
    if isinstance(exp, Sym):
        raise Unsupported('quantize to a symbolic exponent')
    if mode is None:
        mode = (ctx or decimal.getcontext()).rounding
    e = decimal.Decimal(exp).as_tuple().exponent
    f = Fraction(10) ** e
    unit = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    return SDec(z3.ToReal(eng.z_round(real_t(x) / unit, mode)) * unit)


def dec_method(eng, x, name, args, kwargs):
    """A method of decimal.Decimal on a symbolic receiver (or with symbolic arguments)."""
    if name == 'quantize':
        return quantize(eng, x, args, kwargs)
    if name in ('to_integral_value', 'to_integral', 'to_integral_exact'):
        mode = args[0] if args else kwargs.get('rounding') or decimal.getcontext().rounding
        return SDec(z3.ToReal(eng.z_round(real_t(x), mode)))
    if name == 'exp':
        return SDec(eng.z_exp(real_t(x)))
    if name == 'ln':
        return SDec(ln_(eng, real_t(x)))
    if name == 'log10':
        return SDec(ln_(eng, real_t(x)) / eng.z_ln(z3.RealVal(10)))
    if name == 'sqrt':
        if not eng.branch(real_t(x) >= 0):
            raise PyRaise(decimal.InvalidOperation())
        return SDec(eng.z_sqrt(real_t(x)))
    if name in ('is_nan', 'is_infinite', 'is_snan'):
        return False
    if name == 'is_finite':
        return True
    if name == 'is_zero':
        return mk_bool(real_t(x) == 0)
    if name == 'is_signed':
        return mk_bool(real_t(x) < 0)
    if name == 'copy_abs':
        return SDec(z3.If(real_t(x) < 0, -real_t(x), real_t(x)))
    if name == 'normalize':
        return SDec(real_t(x))
    if name in ('max', 'min'):
        a, b = real_t(x), real_t(args[0])
        return SDec(z3.If(a >= b, a, b) if name == 'max' else z3.If(a <= b, a, b))
    if name == 'compare':
        a, b = real_t(x), real_t(args[0])
        return SDec(z3.If(a < b, z3.RealVal(-1), z3.If(a == b, z3.RealVal(0), z3.RealVal(1))))
    names = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/'}
    if name in names:
        return eng.binop(names[name], x, args[0])
    raise Unsupported('Decimal.%s' % name)


def ln_(eng, t):
    if not eng.branch(t > 0):
        if eng.branch(t == 0):
            raise Unsupported('ln(0)')
        raise PyRaise(decimal.InvalidOperation())
    return eng.z_ln(t)


def m_round(eng, args, kwargs):
    v = eng.resolve(args[0])
    n = args[1] if len(args) > 1 else kwargs.get('ndigits')
    if not isinstance(v, Sym):
        return call_pure(eng, round, args, kwargs)
    if n is None:
        if isinstance(v, SInt):
            return v
        return mk_int(eng.z_round(real_t(v), 'ROUND_HALF_EVEN'))
    if isinstance(v, SDec) and isinstance(n, int):
        f = Fraction(10) ** -n
        unit = z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        return SDec(z3.ToReal(eng.z_round(v.t / unit, 'ROUND_HALF_EVEN')) * unit)
    if isinstance(v, SInt) and isinstance(n, int) and n >= 0:
        return v
    raise Unsupported('round')


def m_abs(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, SInt):
        t = int_t(v)
        return mk_int(z3.If(t < 0, -t, t))
    if isinstance(v, SDec):
        return SDec(z3.If(v.t < 0, -v.t, v.t))
    if isinstance(v, SFlt):
        return SFlt(z3.If(v.t < 0, -v.t, v.t))
    if isinstance(v, STimeDelta):
        return STimeDelta(z3.If(v.secs < 0, -v.secs, v.secs))
    return call_pure(eng, abs, (v,), {})


def m_pow(eng, args, kwargs):
    return eng.binop('**', args[0], args[1])


def m_divmod(eng, args, kwargs):
    return (eng.binop('//', args[0], args[1]), eng.binop('%', args[0], args[1]))


def m_minmax(name):
    def m(eng, args, kwargs):
        key = kwargs.get('key')
        op = '<' if name == 'min' else '>'
        if len(args) == 1:
            src = for_source(eng, eng.resolve(args[0]))
            if isinstance(src, Src):
                items = [(g, v) for g, v in src.items if g is not False]
            elif isinstance(src, SymIter):
                raise Unsupported('%s of a symbolic sequence' % name)
            else:
                items = [(True, v) for v in iter_values(eng, src)]
        else:
            items = [(True, v) for v in args]
        if not items:
            if 'default' in kwargs:
                return kwargs['default']
            raise PyRaise(ValueError('%s() arg is an empty sequence' % name))
        items = [(g, narrow(eng, v, g)) for g, v in items]
        if all(g is True for g, _ in items):
            pass
        elif any(isinstance(v, Union) or key or not is_num(v) for _, v in items):
            items = [(True, v) for g, v in items if g is True or eng.branch(g)]
            if not items:
                if 'default' in kwargs:
                    return kwargs['default']
                raise PyRaise(ValueError('%s() arg is an empty sequence' % name))
        else:
            some = z_or(*[g for g, _ in items])
            if not eng.branch(some):
                if 'default' in kwargs:
                    return kwargs['default']
                raise PyRaise(ValueError('%s() arg is an empty sequence' % name))
        items = [(g, eng.resolve(v)) for g, v in items]
        have, best = items[0]
        bk = eng.call(key, (best,)) if key else best
        for g, v in items[1:]:
            k = eng.call(key, (v,)) if key else v
            better = eng.compare(op, k, bk)
            take = simp_cond(z_and(g, z_or(z_not(have), better)))
            if take is True:
                best, bk = v, k
            elif take is not False:
                if key is None and is_num(v) and is_num(best):
                    best = bk = eng.merge_vals([(take, v), (z_not(take), best)])
                    if isinstance(best, Union):
                        best = bk = eng.resolve(best)
                elif eng.branch(take):
                    best, bk = v, k
            have = z_or(have, g)
        return best
    return m


def m_sum(eng, args, kwargs):
    acc = args[1] if len(args) > 1 else kwargs.get('start', 0)
    v = eng.resolve(args[0])
    o = eng.obj(v) if isinstance(v, Ref) else None
    from . import loops
    if isinstance(o, ListObj) and o.base is not None and loops.is_bag(o.base):
        return eng.binop('+', acc, loops.bag_of(eng, o)[1])
    src = for_source(eng, eng.resolve(args[0]))
    if isinstance(src, Src):
        for g, v in src.items:
            v = eng.resolve(v)
            if g is True:
                acc = eng.binop('+', acc, v)
            elif is_num(v) and is_num(acc) and (isinstance(v, (SDec, decimal.Decimal, SInt, int))):
                acc = eng.merge_vals([(g, eng.binop('+', acc, v)), (z_not(g), acc)])
                if isinstance(acc, Union):
                    acc = eng.resolve(acc)
            elif eng.branch(g):
                acc = eng.binop('+', acc, v)
        return acc
    for v in iter_values(eng, src):
        acc = eng.binop('+', acc, v)
    return acc


def m_len(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, InstObj):
            m = _find(o.cls, '__len__', None)
            if isinstance(m, types.FunctionType):
                return eng.call(m, (v,))
            o = o.payload
        if isinstance(o, ListObj):
            if o.base is not None:
                from . import loops
                return mk_int(loops.length(eng, o))
            gs = [g for g, _ in o.items]
        elif isinstance(o, DictObj):
            if o.base is not None:
                raise Unsupported('length of a dict with unknown contents')
            gs = [g for g, _ in o.entries.values()] + [g for g, _, _ in o.extra]
        else:
            raise PyRaise(TypeError("object of type '%s' has no len()" % eng.type_name(v)))
        n = sum(1 for g in gs if g is True)
        t = z3.IntVal(n)
        for g in gs:
            if g is not True:
                t = t + z3.If(zbool(g), z3.IntVal(1), z3.IntVal(0))
        return mk_int(t)
    if isinstance(v, SBytes):
        return len(v.items)
    if isinstance(v, SSeq):
        return mk_int(v.length)
    if isinstance(v, SRange):
        return mk_int(z3.If(v.stop > v.start, v.stop - v.start, z3.IntVal(0)))
    if isinstance(v, Sym):
        if isinstance(v, (SStr, SOpaque)):
            raise Unsupported('length of %r' % (v,))
        raise PyRaise(TypeError("object of type '%s' has no len()" % eng.type_name(v)))
    if isinstance(v, (tuple, str, bytes, dict)):
        return len(v)
    return call_pure(eng, len, (v,), {})


def m_range(eng, args, kwargs):
    args = [eng.resolve(a) for a in args]
    if all(isinstance(a, int) for a in args):
        return range(*args)
    if not all(is_int_like(a) for a in args):
        raise PyRaise(TypeError('range() integer argument expected'))
    if len(args) == 1:
        return SRange(z3.IntVal(0), int_t(args[0]))
    if len(args) == 2:
        return SRange(int_t(args[0]), int_t(args[1]))
    return range(*[one_of_few(eng, a) for a in args])


def few(eng, t):
    """Bounds of an integer, from the conditions here if it has many values in general; None where there are none."""
    lo, hi = [None if v is None or abs(v) == float('inf') else int(v) for v in eng.ivals.of(t)]
    if hi is None or hi > 200:
        hi = next((b for b in (10, 16, 64) if eng.valid(t <= b)), hi)
    if lo is None or lo < -64:
        lo = next((b for b in (0, -1, -64) if eng.valid(t >= b)), lo)
    return lo, hi


def one_of_few(eng, v):
    """The values of an integer that has few (forks)."""
    if isinstance(v, int):
        return v
    t = int_t(v)
    lo, hi = few(eng, t)
    if lo is None or hi is None or hi - lo > 64:
        raise Unsupported('an integer with many values where the program needs to know it')
    vs = list(range(int(lo), int(hi) + 1))
    return vs[eng.choose([t == c for c in vs])]


def m_enumerate(eng, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', 0)
    v = for_source(eng, eng.resolve(args[0]))
    if isinstance(v, SymIter):
        w = v.wrap
        return SymIter(v.seq, lambda e, i, x: (e.binop('+', mk_int(i), start), w(e, i, x)))
    if isinstance(v, Src) and all(g is True for g, _ in v.items):
        return Src([(True, (eng.binop('+', start, i), x)) for i, (_, x) in enumerate(v.items)])
    return Src([(True, (eng.binop('+', start, i), x)) for i, x in enumerate(iter_values(eng, v))])


def m_zip(eng, args, kwargs):
    lists = [guarded_values(eng, a) for a in args]
    if len(set(len(l) for l in lists)) == 1 and all(
            len(set(str(g) if isinstance(g, bool) else g.get_id() for g, _ in col)) == 1 for col in zip(*lists)):
        return Src([(col[0][0], tuple(x for _, x in col)) for col in zip(*lists)])
    lists = [[x for g, x in l if g is True or eng.branch(g)] for l in lists]
    return Src([(True, t) for t in zip(*lists)])


def m_map(eng, args, kwargs):
    lists = [iter_values(eng, a) for a in args[1:]]
    return eng.new_list([eng.call(args[0], t) for t in zip(*lists)])


def m_filter(eng, args, kwargs):
    out = []
    for x in iter_values(eng, args[1]):
        t = eng.truth(eng.call(args[0], (x,)) if args[0] is not None else x)
        if eng.branch(t):
            out.append(x)
    return eng.new_list(out)


def m_list(eng, args, kwargs):
    if not args:
        return eng.new_list(())
    s = for_source(eng, eng.resolve(args[0]))
    if isinstance(s, Src):
        items = list(s.items)
        c = getattr(s, 'consumed', None)
        if c:
            c(eng, len(items))
        return eng.alloc(ListObj(items), 'list')
    if isinstance(s, SymIter) and (isinstance(eng.resolve(args[0]), SSeq) or s.plain):
        return s.seq
    return eng.new_list(iter_values(eng, s))


def m_tuple(eng, args, kwargs):
    return tuple(iter_values(eng, args[0])) if args else ()


def m_dict(eng, args, kwargs):
    r = eng.new_dict()
    dict_init(eng, r, args, kwargs)
    return r


def m_set(kind):
    def m(eng, args, kwargs):
        r = eng.new_dict((), kind)
        if args:
            src = for_source(eng, eng.resolve(args[0]))
            if isinstance(src, Src):
                for g, v in src.items:
                    if g is True:
                        dict_set(eng, r, v, None)
                    elif is_key(v):
                        d = dobj(eng, r)
                        if v not in d.entries:
                            e = dict(d.entries)
                            e[v] = (g, None)
                            put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
                        elif d.entries[v][0] is not True:
                            e = dict(d.entries)
                            e[v] = (z_or(e[v][0], g), None)
                            put_d(eng, r, DictObj(e, d.extra, d.default, d.kind, d.base))
                    elif eng.branch(g):
                        dict_set(eng, r, v, None)
            else:
                for v in iter_values(eng, src):
                    dict_set(eng, r, v, None)
        return r
    return m


def m_deque(eng, args, kwargs):
    maxlen = args[1] if len(args) > 1 else kwargs.get('maxlen')
    if isinstance(maxlen, Sym):
        raise Unsupported('symbolic maxlen')
    r = eng.alloc(ListObj((), None, maxlen, 'deque'), 'deque')
    if args:
        for v in iter_values(eng, args[0]):
            list_append(eng, r, v)
    return r


def m_defaultdict(eng, args, kwargs):
    r = eng.alloc(DictObj({}, (), args[0] if args else None, 'defaultdict'), 'defaultdict')
    dict_init(eng, r, args[1:], kwargs)
    return r


def m_ordereddict(eng, args, kwargs):
    r = eng.alloc(DictObj({}, (), None, 'ordereddict'), 'ordereddict')
    dict_init(eng, r, args, kwargs)
    return r


class SCounter(Sym):
    """How often each of some opaque values occurs."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


def most_common(eng, c, n):
    """[(a most frequent value, its count)] and more, of which nothing is said."""
    if n is not None and not (isinstance(n, int) and n > 0):
        raise Unsupported('most_common(%r)' % (n,))
    if not eng.branch(z_or(*[zbool(g) for g, _ in c.items])):
        return eng.new_list(())
    v0 = c.items[0][1]
    r = SOpaque(z3.Const(eng.fresh_name('mode'), v0.t.sort()), v0.pytype, v0.tag)

    def count(v):
        return z3.Sum([z3.If(z_and(zbool(g), w.t == v.t), z3.IntVal(1), z3.IntVal(0)) for g, w in c.items])
    eng.assume(z_or(*[z_and(zbool(g), w.t == r.t) for g, w in c.items]))
    best = count(r)
    for g, w in c.items:
        eng.assume(z3.Implies(zbool(g), count(w) <= best))
    first = (r, mk_int(best))
    if n == 1:
        return eng.new_list((first,))
    length = z3.Const(eng.fresh_name('different'), z3.IntSort())
    eng.assume(z3.And(length >= 1, length <= len(c.items)))

    def elem(e, i):
        if z3.is_int_value(i) and i.as_long() == 0:
            return first
        raise Unsupported('other values than the most common')
    return SSeq('most_common', length, elem, {'pytype': list})


def m_counter(eng, args, kwargs):
    if args:
        gv = guarded_values(eng, args[0])
        if len(gv) > 3 and all(isinstance(v, SOpaque) for _, v in gv) and len(set(v.t.sort() for _, v in gv)) == 1:
            return SCounter(tuple(gv))
    r = eng.alloc(DictObj({}, (), None, 'counter'), 'counter')
    if args:
        for x in iter_values(eng, args[0]):
            counter_add(eng, r, x)
    return r


def counter_add(eng, r, x):
    cur = dict_lookup(eng, dobj(eng, r), x, lambda: 0)
    dict_set(eng, r, x, eng.binop('+', cur, 1))


def m_sorted(eng, args, kwargs):
    key = kwargs.get('key')
    rev = kwargs.get('reverse', False)
    src = eng.resolve(args[0])
    o = eng.obj(src) if isinstance(src, Ref) else None
    if key is None and isinstance(rev, bool) and isinstance(o, (ListObj, DictObj)) and o.base is None and \
            not getattr(o, 'extra', ()):
        gv = guarded_values(eng, src)
        if any(g is not True for g, _ in gv) and not any(isinstance(v, (Sym, Ref)) or _has_sym(v) for _, v in gv):
            try:
                return eng.alloc(ListObj(tuple(sorted(gv, key=lambda e: e[1], reverse=rev))), 'list')
            except TypeError as e:
                raise PyRaise(e)
    if isinstance(o, DictObj) and o.base is not None:
        return members_of(eng, o, 'sorted')
    if isinstance(src, SSeq) and (src.extra or {}).get('members'):
        f, name = src.extra['members']
        return f.ordered(name, 'sorted')
    xs = iter_values(eng, src)
    return eng.new_list(sort_vals(eng, xs, key, rev))


def sort_vals(eng, xs, key, rev):
    ks = [eng.call(key, (x,)) if key else x for x in xs]
    if not any(isinstance(k, (Sym, Ref)) or _has_sym(k) for k in ks):
        try:
            idx = sorted(range(len(xs)), key=lambda i: ks[i], reverse=bool(rev))
        except TypeError as e:
            raise PyRaise(e)
        return [xs[i] for i in idx]
    if len(xs) > 6:
        raise Unsupported('sort of symbolic values')
    out = []
    for x, k in zip(xs, ks):
        i = len(out)
        while i > 0:
            c = eng.compare('<' if not rev else '>', k, out[i - 1][1])
            if not eng.branch(c):
                break
            i -= 1
        out.insert(i, (x, k))
    return [x for x, _ in out]


def m_isinstance(eng, args, kwargs):
    return mk_bool(eng.isinstance_(args[0], args[1]))


def m_type(eng, args, kwargs):
    if len(args) != 1:
        raise Unsupported('type()')
    return eng.type_of(eng.resolve(args[0]))


def m_bool(eng, args, kwargs):
    return mk_bool(eng.truth(args[0])) if args else False


def m_str(eng, args, kwargs):
    if not args:
        return ''
    return str_(eng, args[0])


def m_repr(eng, args, kwargs):
    return repr_(eng, args[0])


def m_format(eng, args, kwargs):
    return format_(eng, args[0], args[1] if len(args) > 1 else '')


def m_ord(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, SBytes):
        if len(v.items) != 1:
            raise PyRaise(TypeError('ord() expected a character'))
        return v.items[0]
    if isinstance(v, SInt):
        raise PyRaise(TypeError('ord() expected string of length 1, but int found'))
    if isinstance(v, Sym):
        raise Unsupported('ord')
    return call_pure(eng, ord, (v,), {})


def m_byte2int(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, SBytes):
        if not v.items:
            raise PyRaise(IndexError('index out of range'))
        return v.items[0]
    return call_pure(eng, six.byte2int, (v,), {})


def m_bytes(eng, args, kwargs):
    v = eng.resolve(args[0]) if args else b''
    if isinstance(v, (SBytes,)):
        return v
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if isinstance(v, (str, SStr)) and len(args) > 1:
        return str_method(eng, v, 'encode', args[1:], {})
    if isinstance(v, Ref) or isinstance(v, (tuple, list)):
        return mk_bytes(iter_values(eng, v))
    return call_pure(eng, bytes, args, kwargs)


def join_optional(eng, sep, xs):
    """The parts of sep.join(xs) where the first of xs is there for certain and others are there under a condition."""
    if xs[0][0] is not True:
        return None
    out = []
    for i, (g, x) in enumerate(xs):
        if isinstance(x, Union):
            return None
        p = eng.as_parts(x)
        if p is None:
            return None
        p = (tuple(eng.as_parts(sep)) if i else ()) + tuple(p)
        if g is True:
            out.extend(p)
        else:
            out.append(('opt', SBool(zbool(g)), eng.mk_str(p)))
    return out


def join_text(eng, sep, xs):
    parts = []
    for i, x in enumerate(iter_values(eng, xs)):
        p = as_bparts(eng.resolve(x))
        if p is None:
            raise Unsupported('join of bytes and text')
        parts.extend((as_bparts(sep) if i else ()) + p)
    return SBStr(parts)


def mk_bytes(items):
    if all(isinstance(x, int) for x in items):
        return bytes(items)
    return SBytes(items)


def m_getattr(eng, args, kwargs):
    try:
        return eng.get_attr(args[0], args[1])
    except PyRaise as e:
        if len(args) > 2 and issubclass(eng.exc_class(e.exc), AttributeError):
            return args[2]
        raise


def m_setattr(eng, args, kwargs):
    eng.set_attr(args[0], args[1], args[2])


def m_hasattr(eng, args, kwargs):
    try:
        eng.get_attr(args[0], args[1])
        return True
    except PyRaise as e:
        if issubclass(eng.exc_class(e.exc), AttributeError):
            return False
        raise


def m_super(eng, args, kwargs):
    return SuperProxy(args[0], args[1])


def m_print(eng, args, kwargs):
    for a in args:
        str_(eng, a)
    return None


def m_iter(eng, args, kwargs):
    v = eng.resolve(args[0])
    s = for_source(eng, v)
    if isinstance(s, Src):
        return eng.alloc(IterObj(tuple((True, x) for x in iter_values(eng, s))), 'iter')
    if isinstance(s, GenCall):
        return eng.alloc(IterObj(tuple((True, x) for x in gen_values(eng, s))), 'iter')
    return s


def m_next(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, Ref):
        o = eng.obj(v)
        if isinstance(o, IterObj):
            if o.pos < len(o.items):
                eng.put(v, IterObj(o.items, o.pos + 1))
                return o.items[o.pos][1]
            if len(args) > 1:
                return args[1]
            raise PyRaise(StopIteration())
        if isinstance(o, InstObj):
            m = _find(o.cls, '__next__', None)
            if m is not None:
                return eng.call(m, (v,))
    if isinstance(v, Src) and len(args) > 1 or isinstance(v, (GenCall, Src)):
        xs = iter_values(eng, v)
        if xs:
            return xs[0]
        if len(args) > 1:
            return args[1]
        raise PyRaise(StopIteration())
    raise Unsupported('next of %r' % (v,))


def m_any(eng, args, kwargs):
    s = for_source(eng, eng.resolve(args[0]))
    items = s.items if isinstance(s, Src) else [(True, v) for v in iter_values(eng, s)]
    return mk_bool(z_or(*[z_and(g, eng.truth(v)) for g, v in items]))


def m_all(eng, args, kwargs):
    s = for_source(eng, eng.resolve(args[0]))
    items = s.items if isinstance(s, Src) else [(True, v) for v in iter_values(eng, s)]
    return mk_bool(z_and(*[z_or(z_not(g), eng.truth(v)) for g, v in items]))


def m_reversed(eng, args, kwargs):
    v = eng.resolve(args[0])
    s = for_source(eng, v)
    if isinstance(s, Src):
        return Src(list(reversed(s.items)))
    if isinstance(s, SymIter):
        q = s.seq
        w = s.wrap
        return SymIter(SSeq('rev_' + q.name, q.length, lambda e, i: w(e, q.length - 1 - i, q.elem(e, q.length - 1 - i))))
    return Src([(True, x) for x in reversed(iter_values(eng, s))])


def m_iteritems(eng, args, kwargs):
    return call_method(eng, eng.resolve(args[0]), 'items', (), {})


def m_iterkeys(eng, args, kwargs):
    return call_method(eng, eng.resolve(args[0]), 'keys', (), {})


def m_itervalues(eng, args, kwargs):
    return call_method(eng, eng.resolve(args[0]), 'values', (), {})


def m_chr(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, Sym):
        raise Unsupported('chr')
    return call_pure(eng, chr, (v,), {})


def m_int2byte(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, SInt):
        if not eng.branch(z3.And(int_t(v) >= 0, int_t(v) <= 255)):
            raise PyRaise(struct.error('ubyte format requires 0 <= number <= 255'))
        return SBytes((v,))
    return call_pure(eng, six.int2byte, (v,), {})


# ---- struct ----------------------------------------------------------------------------------------------------------

_SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8}


def parse_fmt(fmt):
    import re
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = '@'
    if fmt and fmt[0] in '=<>!@':
        order, fmt = fmt[0], fmt[1:]
    out = []
    for n, c in re.findall(r'\s*(\d*)([a-zA-Z?])', fmt):
        out.append((int(n) if n else None, c))
    return order, out


def m_unpack_from(eng, args, kwargs):
    fmt = args[0]
    data = eng.resolve(args[1])
    off = args[2] if len(args) > 2 else kwargs.get('offset', 0)
    if not isinstance(data, (SBytes, SSeq)):
        if isinstance(data, (bytes, bytearray, memoryview)):
            return call_pure(eng, struct.unpack_from, (fmt, data, off), {})
        if isinstance(data, (Sym, Ref)):
            raise PyRaise(TypeError("a bytes-like object is required, not '%s'" % eng.type_name(data)))
        return call_pure(eng, struct.unpack_from, (fmt, data, off), {})
    return unpack(eng, fmt, data, off, False)


def m_unpack(eng, args, kwargs):
    data = eng.resolve(args[1])
    if isinstance(data, SBytes):
        return unpack(eng, args[0], data, 0, True)
    if isinstance(data, (Sym, Ref)):
        raise PyRaise(TypeError("a bytes-like object is required, not '%s'" % eng.type_name(data)))
    return call_pure(eng, struct.unpack, (args[0], data), {})


def unpack(eng, fmt, data, off, exact):
    if isinstance(fmt, Sym) or isinstance(off, Sym):
        raise Unsupported('struct.unpack with a symbolic format')
    try:
        size = struct.calcsize(fmt)
    except struct.error as e:
        raise PyRaise(e)
    if isinstance(data, SSeq):
        if not eng.branch(data.length == size if exact else data.length >= off + size):
            raise PyRaise(struct.error('unpack requires a buffer of %d bytes' % size))
        data = SBytes([data.elem(eng, z3.IntVal(i)) for i in range(off + size)])
    n = len(data.items)
    if (exact and n != size) or n - off < size:
        raise PyRaise(struct.error('unpack requires a buffer of at least %d bytes' % size))
    order, codes = parse_fmt(fmt)
    if order == '@' and any(c not in 'xcbBs' for _, c in codes):
        # native sizes and alignment: only formats whose layout coincides with the standard one
        if struct.calcsize('=' + (fmt if isinstance(fmt, str) else fmt.decode()).lstrip('@')) != size:
            raise Unsupported('native struct alignment')
    big = order in '>!'
    p = off
    out = []
    for cnt, c in codes:
        if c == 'x':
            p += 1 if cnt is None else cnt
            continue
        if c == 's':
            k = 1 if cnt is None else cnt
            out.append(mk_bytes(data.items[p:p + k]))
            p += k
            continue
        for _ in range(1 if cnt is None else cnt):
            if c == 'c':
                out.append(mk_bytes(data.items[p:p + 1]))
                p += 1
                continue
            if c not in _SIZES:
                raise Unsupported('struct format %s' % c)
            k = _SIZES[c]
            bs = data.items[p:p + k]
            p += k
            if big:
                bs = bs[::-1]
            if all(isinstance(b, int) for b in bs):
                out.append(int.from_bytes(bytes(bs), 'little', signed=c.islower()))
                continue
            if any(isinstance(b, SInt) and b.bv is not None for b in bs) and not c.islower():
                vs = [_zext(b.bv, 8) if isinstance(b, SInt) else z3.BitVecVal(b, 8) for b in bs]
                out.append(SInt(None, z3.simplify(z3.Concat(*reversed(vs)) if len(vs) > 1 else vs[0])))
                continue
            t = z3.IntVal(0)
            for i, b in enumerate(bs):
                t = t + int_t(b) * (256 ** i)
            t = z3.simplify(t)
            if c.islower():
                t = z3.If(t >= 256 ** k // 2, t - 256 ** k, t)
            out.append(mk_int(t))
    return tuple(out)


def m_pack(eng, args, kwargs):
    fmt = args[0]
    vals = [eng.resolve(a) for a in args[1:]]
    if not any(isinstance(v, (Sym, Ref)) for v in vals):
        return call_pure(eng, struct.pack, (fmt,) + tuple(vals), {})
    order, codes = parse_fmt(fmt)
    if order == '@' and any(c not in 'xcbBs' for _, c in codes):
        raise Unsupported('native struct alignment')
    big = order in '>!'
    out = []
    i = 0
    for cnt, c in codes:
        if c == 'x':
            out.extend([0] * (1 if cnt is None else cnt))
            continue
        if c == 's':
            k = 1 if cnt is None else cnt
            v = eng.as_byte_items(vals[i])
            i += 1
            if v is None:
                raise PyRaise(struct.error("argument for 's' must be a bytes object"))
            out.extend((tuple(v) + (0,) * k)[:k])
            continue
        for _ in range(1 if cnt is None else cnt):
            if i >= len(vals):
                raise PyRaise(struct.error('pack expected more items'))
            v = vals[i]
            i += 1
            if c == 'c':
                b = eng.as_byte_items(v)
                if b is None or len(b) != 1:
                    raise PyRaise(struct.error('char format requires a bytes object of length 1'))
                out.extend(b)
                continue
            if c not in _SIZES:
                raise Unsupported('struct format %s' % c)
            k = _SIZES[c]
            if not is_int_like(v):
                raise PyRaise(struct.error('required argument is not an integer'))
            if isinstance(v, SInt) and v.bv is not None and not c.islower():
                w = v.bv.size()
                if w > 8 * k and not eng.branch(z3.ULT(v.bv, z3.BitVecVal(2 ** (8 * k), w))):
                    raise PyRaise(struct.error('argument out of range'))
                bvv = _zext(v.bv, 8 * k) if w <= 8 * k else z3.Extract(8 * k - 1, 0, v.bv)
                bs = [SInt(None, z3.simplify(z3.Extract(8 * j + 7, 8 * j, bvv))) for j in range(k)]
            else:
                t = int_t(v)
                lo, hi = (-(256 ** k) // 2, 256 ** k // 2 - 1) if c.islower() else (0, 256 ** k - 1)
                if not eng.branch(z3.And(t >= lo, t <= hi)):
                    raise PyRaise(struct.error('argument out of range'))
                bs = [mk_int((t / (256 ** j)) % 256) for j in range(k)]
            out.extend(bs[::-1] if big else bs)
    if i != len(vals):
        raise PyRaise(struct.error('pack expected fewer items'))
    return mk_bytes(out)


# ---- dates -----------------------------------------------------------------------------------------------------------

def need_int(eng, v):
    v = eng.resolve(v)
    if not is_int_like(v):
        if isinstance(v, (SOpaque,)):
            raise Unsupported('date part %r' % (v,))
        raise PyRaise(TypeError("an integer is required (got type %s)" % eng.type_name(v)))
    return v


def m_datetime(eng, args, kwargs):
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
    vals = dict(zip(names, args))
    vals.update(kwargs)
    vals = {k: eng.resolve(v) for k, v in vals.items()}
    if not any(isinstance(v, (Sym, Ref)) for v in vals.values()):
        return call_pure(eng, datetime.datetime, args, kwargs)
    for k in ('year', 'month', 'day'):
        if k not in vals:
            raise PyRaise(TypeError('missing date part'))
    if vals.get('microsecond', 0) != 0:
        raise Unsupported('microseconds')
    f = [int_t(need_int(eng, vals.get(k, 0))) for k in names[:6]]
    return mk_datetime(eng, f, vals.get('tzinfo'))


def mk_datetime(eng, f, tz=None):
    y, m, d, H, M, S = f
    if not eng.branch(z3.And(eng.valid_ymd(y, m, d), H >= 0, H <= 23, M >= 0, M <= 59, S >= 0, S <= 59)):
        raise PyRaise(ValueError('date or time out of range'))
    f = tuple(z3.simplify(x) for x in f)
    return SDateTime(eng.ymd_ord(y, m, d), z3.simplify(H * 3600 + M * 60 + S), f, tz)


def m_date(eng, args, kwargs):
    names = ('year', 'month', 'day')
    vals = dict(zip(names, args))
    vals.update(kwargs)
    vals = {k: eng.resolve(v) for k, v in vals.items()}
    if not any(isinstance(v, (Sym, Ref)) for v in vals.values()):
        return call_pure(eng, datetime.date, args, kwargs)
    y, m, d = [int_t(need_int(eng, vals[k])) for k in names]
    if not eng.branch(eng.valid_ymd(y, m, d)):
        raise PyRaise(ValueError('day is out of range for month'))
    return SDate(eng.ymd_ord(y, m, d), (y, m, d))


def m_time(eng, args, kwargs):
    names = ('hour', 'minute', 'second')
    if len(args) > 3 or any(k not in names for k in kwargs):
        if any(isinstance(a, Sym) for a in args):
            raise Unsupported('time')
        return call_pure(eng, datetime.time, args, kwargs)
    vals = dict(zip(names, args))
    vals.update(kwargs)
    vals = {k: eng.resolve(v) for k, v in vals.items()}
    if not any(isinstance(v, (Sym, Ref)) for v in vals.values()):
        return call_pure(eng, datetime.time, args, kwargs)
    H, M, S = [int_t(need_int(eng, vals.get(k, 0))) for k in names]
    if not eng.branch(z3.And(H >= 0, H <= 23, M >= 0, M <= 59, S >= 0, S <= 59)):
        raise PyRaise(ValueError('time out of range'))
    return STime(z3.simplify(H * 3600 + M * 60 + S))


def m_timedelta(eng, args, kwargs):
    names = ('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks')
    vals = dict(zip(names, args))
    vals.update(kwargs)
    vals = {k: eng.resolve(v) for k, v in vals.items()}
    if not any(isinstance(v, (Sym, Ref)) for v in vals.values()):
        return call_pure(eng, datetime.timedelta, args, kwargs)
    mul = {'days': 86400, 'seconds': 1, 'minutes': 60, 'hours': 3600, 'weeks': 604800}
    t = z3.IntVal(0)
    for k, v in vals.items():
        if k not in mul:
            if v == 0:
                continue
            raise Unsupported('timedelta %s' % k)
        if isinstance(v, (float, SFlt)):
            if isinstance(v, float) and v.is_integer():
                v = int(v)
            else:
                raise Unsupported('timedelta of a float')
        if isinstance(v, (SDec, decimal.Decimal)):
            raise PyRaise(TypeError('unsupported type for timedelta %s component: decimal.Decimal' % k))
        t = t + int_t(need_int(eng, v)) * mul[k]
    return STimeDelta(z3.simplify(t))


def m_combine(eng, args, kwargs):
    d, t = eng.resolve(args[0]), eng.resolve(args[1])
    if not isinstance(d, Sym) and not isinstance(t, Sym):
        return call_pure(eng, datetime.datetime.combine, args, kwargs)
    d2 = eng.as_sdate(d) or eng.as_sdt(d)
    t2 = eng.as_stime(t)
    if d2 is None or t2 is None:
        raise PyRaise(TypeError('combine() argument'))
    f = None
    if d2.fields is not None:
        f = tuple(d2.fields[:3]) + (z3.simplify(t2.sod / 3600), z3.simplify(t2.sod % 3600 / 60),
                                    z3.simplify(t2.sod % 60))
    return SDateTime(d2.day_ord, t2.sod, f, None)


def dt_attr(eng, v, name):
    if isinstance(v, STimeDelta):
        if name == 'days':
            return mk_int(v.secs / 86400)
        if name == 'seconds':
            return mk_int(v.secs % 86400)
        if name == 'microseconds':
            return 0
        return Method(name, v)
    if isinstance(v, STime):
        if name in ('hour', 'minute', 'second'):
            return mk_int({'hour': v.sod / 3600, 'minute': v.sod % 3600 / 60, 'second': v.sod % 60}[name])
        if name == 'microsecond':
            return 0
        if name == 'tzinfo':
            return None
        return Method(name, v)
    if isinstance(v, SDate):
        if name in ('year', 'month', 'day'):
            f = v.fields or eng.ord_fields(v.day_ord)
            v.fields = f
            return mk_int(f[('year', 'month', 'day').index(name)])
        return Method(name, v)
    names = ('year', 'month', 'day', 'hour', 'minute', 'second')
    if name in names:
        return mk_int(eng.dt_fields(v)[names.index(name)])
    if name == 'microsecond':
        return 0
    if name == 'tzinfo':
        if isinstance(v.aware, tuple):
            raise Unsupported('tzinfo of a localized time')
        return v.aware
    return Method(name, v)


ISO_YEAR = z3.Function('iso_year', z3.IntSort(), z3.IntSort())
ISO_WEEK = z3.Function('iso_week', z3.IntSort(), z3.IntSort())


def iso_fields(eng, o):
    """(ISO year, week, day of the week): the first two are functions of the Monday of the week, different for different
    Mondays and growing with them."""
    o = canon(o)
    monday = z3.simplify(o - (o + 6) % 7)
    y, w = ISO_YEAR(monday), ISO_WEEK(monday)
    mondays = eng.__dict__.setdefault('iso_mondays', [])

    def facts():
        out = [w >= 1, w <= 53, y >= 1, y <= 9999]
        for m in mondays:
            before = z3.Or(ISO_YEAR(m) < y, z3.And(ISO_YEAR(m) == y, ISO_WEEK(m) < w))
            out += [(m < monday) == before, (m == monday) == z3.And(ISO_YEAR(m) == y, ISO_WEEK(m) == w)]
        mondays.append(monday)
        return out
    eng.axiom(('iso', monday.get_id()), facts)
    eng.keep.append(monday)
    return (mk_int(y), mk_int(w), mk_int((o + 6) % 7 + 1))


def calendar_facts(eng, a, b):
    """How the ordinals of two dates go with their years, months and days: months follow one another, each of at least 28
    days.  (True of the calendar; checked for all months by tools/calendar_check.py.)"""
    from .ops import _YMD
    fa, fb = (eng.dt_fields(v)[:3] if isinstance(v, SDateTime) else (v.fields or eng.ord_fields(v.day_ord)) for v in (a, b))

    def first(f):
        return eng.ymd_ord(f[0], f[1], z3.IntVal(1))

    def facts():
        out = []
        for p, q in ((fa, fb), (fb, fa)):
            k = q[0] * 12 + q[1] - p[0] * 12 - p[1]
            out += [z3.Implies(k >= 1, first(q) >= first(p) + eng.dim(p[0], p[1]) + 28 * (k - 1)),
                    z3.Implies(k == 1, first(q) == first(p) + eng.dim(p[0], p[1]))]
        for v, f in ((a, fa), (b, fb)):
            out.append(v.day_ord == first(f) + f[2] - 1)
        return out
    eng.axiom(('calendar', a.day_ord.get_id(), b.day_ord.get_id()), facts)
    eng.keep += [a.day_ord, b.day_ord]


def dt_method(eng, v, name, args, kwargs):
    if isinstance(v, (datetime.date, datetime.time, datetime.timedelta)) and not isinstance(v, Sym):
        c = eng.as_sdt(v) or eng.as_sdate(v) or eng.as_stime(v) or eng.as_std(v)
        if c is None:
            raise Unsupported('%s of %r' % (name, v))
        v = c
    if isinstance(v, STimeDelta):
        if name == 'total_seconds':
            return SFlt(z3.ToReal(v.secs), (v.secs, 1))
        raise Unsupported('timedelta.%s' % name)
    if name in ('strftime', '__format__'):
        return eng.mk_str([('fmt', args[0], v)])
    if name == 'isoformat':
        return eng.mk_str([('fmt', 'iso' + ''.join(str(a) for a in args), v)])
    if name in ('weekday', 'isoweekday', 'toordinal') and isinstance(v, (SDate, SDateTime)):
        o = v.day_ord
        return mk_int({'weekday': (o + 6) % 7, 'isoweekday': (o + 6) % 7 + 1, 'toordinal': o}[name])
    if name == 'isocalendar' and isinstance(v, (SDate, SDateTime)):
        return iso_fields(eng, v.day_ord)
    if name == 'date' and isinstance(v, SDateTime):
        return SDate(v.day_ord, v.fields[:3] if v.fields is not None else None)
    if name in ('time', 'timetz') and isinstance(v, SDateTime):
        return STime(v.sod)
    if name == 'replace':
        if isinstance(v, SDateTime):
            names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
            vals = dict(zip(names, args))
            vals.update(kwargs)
            tz = vals.pop('tzinfo', v.aware)
            if vals.pop('microsecond', 0) != 0:
                raise Unsupported('microseconds')
            if not vals:
                return SDateTime(v.day_ord, v.sod, v.fields, tz)
            f = list(eng.dt_fields(v))
            touched = False
            for k, x in vals.items():
                f[names.index(k)] = int_t(need_int(eng, x))
                touched = touched or k in ('year', 'month', 'day')
            if not touched:
                H, M, S = f[3:]
                if not eng.branch(z3.And(H >= 0, H <= 23, M >= 0, M <= 59, S >= 0, S <= 59)):
                    raise PyRaise(ValueError('time out of range'))
                return SDateTime(v.day_ord, z3.simplify(H * 3600 + M * 60 + S), tuple(f), tz)
            return mk_datetime(eng, f, tz)
        if isinstance(v, SDate):
            f = list(v.fields or eng.ord_fields(v.day_ord))
            for k, x in list(zip(('year', 'month', 'day'), args)) + list(kwargs.items()):
                f[('year', 'month', 'day').index(k)] = int_t(need_int(eng, x))
            if not eng.branch(eng.valid_ymd(*f)):
                raise PyRaise(ValueError('day is out of range for month'))
            return SDate(eng.ymd_ord(*f), tuple(f))
    if name == 'utcoffset' and isinstance(v, SDateTime) and v.aware is None:
        return None
    if name in ('__add__', '__sub__'):
        return eng.binop('+' if name == '__add__' else '-', v, args[0])
    h = getattr(eng, 'tz_hook', None)
    if h is not None:
        r = h(eng, v, name, args, kwargs)
        if r is not NO:
            return r
    raise Unsupported('%s.%s' % (type(v).__name__, name))


# ---- enums -----------------------------------------------------------------------------------------------------------

def enum_lookup(eng, cls, args):
    v = eng.resolve(args[0])
    if isinstance(v, SEnum) and v.cls is cls:
        return v
    if isinstance(v, (SInt, SBool)):
        t = int_t(v)
        vals = [m.value for m in cls]
        if not all(isinstance(x, int) for x in vals):
            raise Unsupported('enum with non-integer values')
        if not eng.branch(z3.Or(*[t == x for x in vals])):
            raise PyRaise(ValueError('not a valid %s' % cls.__name__))
        return SEnum(cls, t)
    if isinstance(v, Sym):
        if is_num(v):
            live = [(eng.eq(v, m.value), m) for m in cls if isinstance(m.value, (int, decimal.Decimal, float))]
            live = [(c, m) for c, m in live if simp_cond(c) is not False]
            if live and eng.branch(z_or(*[c for c, _ in live])):
                return eng.merge_vals(live)
        elif isinstance(v, (SOpaque, SStr)):
            raise Unsupported('enum lookup of %r' % (v,))
        raise PyRaise(ValueError('not a valid %s' % cls.__name__))
    try:
        return cls(*args)
    except Exception as e:
        raise PyRaise(e)


def enum_attr(eng, v, name):
    if name == 'value' or name == '_value_':
        return SInt(v.t)
    if name == '__class__':
        return v.cls
    raw = _find(v.cls, name, None)
    if isinstance(raw, types.FunctionType):
        return Bound(raw, v)
    if isinstance(raw, property) and eng.interpretable(raw.fget):
        return eng.call(raw.fget, (v,))
    if isinstance(raw, (classmethod, staticmethod)):
        return eng.bind_attr(raw, v, v.cls, name)

    def one(m):
        def go():
            return eng.get_attr(m, name)
        return go
    # an attribute of the member: a table over the members
    alts = []
    for m in v.cls:
        try:
            x = getattr(m, name)
        except AttributeError as e:
            raise PyRaise(e)
        alts.append((v.t == m.value, eng.from_native(x)))
    return eng.merge_vals(alts)


# ---- attributes and methods -------------------------------------------------------------------------------------------

_DEC_ATTR = {'real', 'imag'}


def sym_attr(eng, v, name):
    if name == '__class__':
        return eng.type_of(v)
    if isinstance(v, (SDateTime, SDate, STime, STimeDelta)):
        if not hasattr(eng.type_of(v), name):
            raise PyRaise(AttributeError(name))
        return dt_attr(eng, v, name)
    if isinstance(v, SOpaque):
        t = v.pytype
        h = getattr(eng, 'opaque_attr', None)
        if h is not None:
            r = h(eng, v, name)
            if r is not NO:
                return r
        if t is None:
            raise Unsupported('attribute %s of %r' % (name, v))
        if not hasattr(t, name):
            if t.__module__ not in ('builtins', 'datetime', 'decimal'):
                raise Unsupported('attribute %s of %r' % (name, v))   # instances may have more than their class
            raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
        return Method(name, v)
    if isinstance(v, SCounter):
        return Method(name, v)
    t = eng.type_of(v)
    if not hasattr(t, name):
        raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
    if isinstance(v, (SInt, SBool)) and name in ('real', 'numerator'):
        return v
    return Method(name, v)


def get_method(eng, ref, name):
    t = eng.type_of(ref)
    o = eng.obj(ref)
    if name == '__class__':
        return t
    if isinstance(o, (StreamObj, IterObj)):
        return Method(name, ref)
    if isinstance(o, ListObj) and name == 'maxlen' and o.kind == 'deque':
        return o.maxlen
    if not hasattr(t, name):
        raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (t.__name__, name)))
    return Method(name, ref)


def native_attr(eng, v, name):
    """Methods of native values whose arguments may be symbolic."""
    ov = getattr(eng, 'attr_overrides', None)
    if ov:
        try:
            r = ov.get((v, name), NO)
        except TypeError:
            r = NO
        if r is not NO:
            return r
    if isinstance(v, (str, bytes, decimal.Decimal, datetime.date, datetime.time, datetime.timedelta, dict, tuple, list,
                      set, frozenset, int, float)) and not isinstance(v, enum.Enum) and not isinstance(v, type):
        if isinstance(v, (datetime.date, datetime.time, datetime.timedelta)) and name in (
                'year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo', 'days', 'seconds',
                'microseconds', 'min', 'max', 'resolution', 'fold'):
            return NO
        if type(v).__module__ not in ('builtins', 'decimal', 'datetime'):
            return NO
        if hasattr(v, name) and callable(getattr(v, name)):
            return Method(name, v)
    return NO


def call_method(eng, obj, name, args, kwargs):
    args = tuple(args)
    if isinstance(obj, Ref):
        return ref_method(eng, obj, name, args, kwargs)
    if isinstance(obj, (str, SStr)):
        return str_method(eng, obj, name, args, kwargs)
    args = tuple(eng.resolve(a) for a in args)
    if isinstance(obj, SCounter):
        if name == 'most_common':
            return most_common(eng, obj, args[0] if args else kwargs.get('n'))
        raise Unsupported('Counter.%s' % name)
    if isinstance(obj, SEnum):
        return eng.call(eng.get_attr(eng.concrete_enum(obj), name), args, kwargs)
    if isinstance(obj, (SDec,)) or (isinstance(obj, decimal.Decimal) and (any(isinstance(a, Sym) for a in args))):
        return dec_method(eng, obj, name, args, kwargs)
    if isinstance(obj, (SDateTime, SDate, STime, STimeDelta)) or (
            isinstance(obj, (datetime.date, datetime.time, datetime.timedelta)) and
            any(isinstance(a, Sym) for a in args + tuple(kwargs.values()))):
        return dt_method(eng, obj, name, args, kwargs)
    if isinstance(obj, dict):
        if name in ('items', 'keys', 'values') or any(isinstance(a, (Sym, Ref)) or _has_sym(a) for a in args):
            if name == 'items':
                return Src([(True, (k, eng.from_native(x))) for k, x in obj.items()])
            if name == 'keys':
                return Src([(True, k) for k in obj])
            if name == 'values':
                return Src([(True, eng.from_native(x)) for x in obj.values()])
            if name == 'get':
                d = args[1] if len(args) > 1 else None
                if is_key(args[0]):
                    return eng.from_native(obj[args[0]]) if args[0] in obj else d
                c = contains(eng, obj, args[0])
                if eng.branch(c):
                    return get_item(eng, obj, args[0])
                return d
            raise Unsupported('dict.%s' % name)
        if name in ('update', 'pop', 'clear', 'setdefault', 'popitem', '__setitem__', '__delitem__'):
            raise Unsupported('mutation of a module-level dict')
        return call_pure(eng, getattr(obj, name), args, kwargs)
    if isinstance(obj, (list, set)) and name in ('append', 'extend', 'insert', 'pop', 'remove', 'add', 'discard', 'sort',
                                                 'clear', 'update', 'reverse', '__setitem__'):
        raise Unsupported('mutation of a module-level %s' % type(obj).__name__)
    if isinstance(obj, (tuple, list)) and _has_sym(tuple(obj) + args):
        if name == 'index':
            for i, x in enumerate(obj):
                if eng.branch(zbool(eng.eq(x, args[0]))):
                    return i
            raise PyRaise(ValueError('not in tuple'))
        if name == 'count':
            t = z3.IntVal(0)
            for x in obj:
                t = t + z3.If(zbool(eng.eq(x, args[0])), z3.IntVal(1), z3.IntVal(0))
            return mk_int(t)
        raise Unsupported('tuple.%s' % name)
    if isinstance(obj, SInt):
        if name == 'bit_length':
            raise Unsupported('bit_length')
        if name == 'to_bytes':
            n = args[0] if args else kwargs.get('length')
            order = args[1] if len(args) > 1 else kwargs.get('byteorder', 'big')
            code = {1: 'B', 2: 'H', 4: 'I', 8: 'Q'}.get(n)
            if code and not kwargs.get('signed'):
                try:
                    return m_pack(eng, (('>' if order == 'big' else '<') + code, obj), {})
                except PyRaise:
                    raise PyRaise(OverflowError('int too big to convert'))
        raise Unsupported('int.%s' % name)
    if isinstance(obj, (SFlt, float)) and name == 'is_integer' and isinstance(obj, SFlt):
        return mk_bool(z3.ToReal(eng.z_round(obj.t, 'ROUND_FLOOR')) == obj.t)
    if isinstance(obj, (SBytes, bytes)):
        if name == 'join' and isinstance(obj, bytes):
            out = []
            for i, x in enumerate(iter_values(eng, args[0])):
                x = eng.resolve(x)
                if isinstance(x, SBStr):
                    # text of unknown length: everything as pieces of text
                    return join_text(eng, obj, args[0])
                if isinstance(x, SSeq) and x.extra and x.extra.get('pytype') is bytes:
                    acc = None
                    for y in iter_values(eng, args[0]):
                        acc = y if acc is None else eng.binop('+', eng.binop('+', acc, obj), y)
                    return acc
                b = eng.as_byte_items(x)
                if b is None:
                    raise PyRaise(TypeError('sequence item: expected a bytes-like object'))
                if i:
                    out.extend(obj)
                out.extend(b)
            return mk_bytes(out)
        if name in ('startswith', 'endswith'):
            x, y = eng.as_byte_items(obj), eng.as_byte_items(args[0])
            if y is None:
                raise PyRaise(TypeError('first arg must be bytes'))
            if len(y) > len(x):
                return False
            x = x[:len(y)] if name == 'startswith' else x[len(x) - len(y):]
            return mk_bool(eng.eq(mk_bytes(x), mk_bytes(y)))
        if isinstance(obj, SBytes):
            raise Unsupported('bytes.%s' % name)
    if isinstance(obj, SOpaque):
        h = getattr(eng, 'opaque_method', None)
        if h is not None:
            r = h(eng, obj, name, args, kwargs)
            if r is not NO:
                return r
        raise Unsupported('method %s of %r' % (name, obj))
    if isinstance(obj, type):
        f = getattr(obj, name)
        return eng.call(f, args, kwargs)
    if isinstance(obj, Sym):
        raise Unsupported('method %s of %r' % (name, obj))
    return call_pure(eng, getattr(obj, name), args, kwargs)


def ref_method(eng, r, name, args, kwargs):
    o = eng.obj(r)
    if isinstance(o, InstObj):
        if name == '__init__':
            if isinstance(o.payload, DictObj):
                dict_init(eng, r, args, kwargs)
            elif issubclass(o.cls, BaseException):
                eng.put(r, InstObj(o.cls, o.attrs, tuple(args)))
            return None
        if name == '__setattr__':
            attrs = dict(o.attrs)
            attrs[args[0]] = args[1]
            eng.put(r, InstObj(o.cls, attrs, o.payload))
            return None
        if name == '__getattribute__':
            v = o.attrs.get(args[0], UNBOUND)
            if v is not UNBOUND:
                return v
            raw = _find(o.cls, args[0], None)
            if raw is not None:
                return eng.bind_attr(raw, r, o.cls, args[0])
            raise PyRaise(AttributeError(args[0]))
        if name == '__delattr__':
            attrs = dict(o.attrs)
            if args[0] not in attrs:
                raise PyRaise(AttributeError(args[0]))
            del attrs[args[0]]
            eng.put(r, InstObj(o.cls, attrs, o.payload))
            return None
        if name in ('__eq__', '__ne__'):
            c = eng.eq(r, args[0])
            return mk_bool(c if name == '__eq__' else z_not(c))
        p = o.payload
    else:
        p = o
    if isinstance(p, DictObj):
        return dict_method(eng, r, p, name, args, kwargs)
    if isinstance(p, ListObj):
        return list_method(eng, r, p, name, args, kwargs)
    if isinstance(p, StreamObj):
        return stream_method(eng, r, p, name, args, kwargs)
    if isinstance(p, IterObj):
        if name in ('__next__', 'next'):
            return m_next(eng, (r,), {})
    raise Unsupported('method %s of %r' % (name, r))


def dict_method(eng, r, d, name, args, kwargs):
    if d.kind in ('set', 'frozenset'):
        return set_method(eng, r, d, name, args, kwargs)
    if name in ('items', 'iteritems', 'viewitems'):
        return Src(dict_items(eng, d))
    if name in ('keys', 'iterkeys', '__iter__'):
        return Src(dict_keys(eng, d))
    if name in ('values', 'itervalues'):
        return Src([(g, kv[1]) for g, kv in dict_items(eng, d)])
    if name == 'get':
        dflt = args[1] if len(args) > 1 else kwargs.get('default')
        k = args[0]
        if is_key(k) and not d.extra and d.base is None:
            e = d.entries.get(k)
            if e is None:
                return dflt
            if e[0] is True:
                return e[1]
            return eng.merge_vals([(e[0], e[1]), (z_not(e[0]), dflt)])
        return dict_lookup(eng, d, k, lambda: dflt)
    if name == '__getitem__':
        def missing():
            oo = eng.obj(r)
            raise PyRaise(KeyError(args[0]))
        return dict_lookup(eng, d, args[0], missing)
    if name == '__setitem__':
        dict_set(eng, r, args[0], args[1])
        return None
    if name == '__delitem__':
        dict_del(eng, r, args[0])
        return None
    if name in ('__contains__', 'has_key'):
        return mk_bool(dict_contains(eng, d, args[0]))
    if name == '__len__':
        return m_len(eng, (r,), {})
    if name == 'update':
        if d.kind == 'counter':
            for a in args:
                for x in iter_values(eng, a):
                    counter_add(eng, r, x)
            return None
        for a in args:
            dict_update(eng, r, a)
        for k, v in kwargs.items():
            dict_set(eng, r, k, v)
        return None
    if name == 'setdefault':
        dflt = args[1] if len(args) > 1 else None

        def missing():
            dict_set(eng, r, args[0], dflt)
            return dflt
        return dict_lookup(eng, d, args[0], missing)
    if name == 'pop':
        if is_key(args[0]) and not d.extra and d.base is None:
            e = d.entries.get(args[0])
            if e is not None and (e[0] is True or eng.branch(e[0])):
                return dict_del(eng, r, args[0])
            if len(args) > 1:
                if e is not None:
                    e2 = dict(d.entries)
                    e2.pop(args[0])
                    put_d(eng, r, DictObj(e2, d.extra, d.default, d.kind, d.base))
                return args[1]
            raise PyRaise(KeyError(args[0]))
        raise Unsupported('dict.pop of a symbolic key')
    if name == 'clear':
        put_d(eng, r, DictObj({}, (), d.default, d.kind))
        return None
    if name in ('copy', '__copy__'):
        return eng.alloc(DictObj(d.entries, d.extra, d.default, d.kind, d.base), d.kind)
    if name == 'most_common' and d.kind == 'counter':
        n = args[0] if args else None
        items = [kv for g, kv in dict_items(eng, d) if g is True or eng.branch(g)]
        out = sort_counter(eng, items, n)
        return eng.new_list(out)
    raise Unsupported('dict.%s' % name)


def sort_counter(eng, items, n):
    out = []
    for kv in items:
        i = len(out)
        while i > 0:
            if not eng.branch(eng.compare('>', kv[1], out[i - 1][1])):
                break
            i -= 1
        out.insert(i, kv)
    return out if n is None else out[:n]


def set_method(eng, r, d, name, args, kwargs):
    if name == 'add':
        dict_set(eng, r, args[0], None)
        return None
    if name in ('discard', 'remove'):
        c = dict_contains(eng, d, args[0])
        if eng.branch(zbool(c)):
            dict_del(eng, r, args[0])
        elif name == 'remove':
            raise PyRaise(KeyError(args[0]))
        return None
    if name == 'update':
        for a in args:
            for x in iter_values(eng, a):
                dict_set(eng, r, x, None)
        return None
    if name in ('union', 'difference', 'intersection'):
        op = {'union': '|', 'difference': '-', 'intersection': '&'}[name]
        b = args[0]
        if set_of(eng, b) is None:
            b = m_set('set')(eng, (b,), {})
        return ref_binop(eng, op, r, b)
    if name == 'copy':
        return eng.alloc(DictObj(d.entries, d.extra, d.default, d.kind, d.base), d.kind)
    if name == 'clear':
        put_d(eng, r, DictObj({}, (), None, d.kind))
        return None
    if name == '__contains__':
        return mk_bool(dict_contains(eng, d, args[0]))
    if name in ('issubset', 'issuperset'):
        x, y = set_of(eng, r), set_of(eng, args[0])
        if x is not None and y is not None:
            if name == 'issuperset':
                x, y = y, x
            return mk_bool(z_and(*[z_or(z_not(g), y.get(k, False)) for k, g in x.items()]))
    raise Unsupported('set.%s' % name)


def list_method(eng, r, o, name, args, kwargs):
    if name == 'append':
        list_append(eng, r, args[0])
        return None
    if name == 'extend':
        list_extend(eng, r, args[0])
        return None
    if name == 'clear':
        put_l(eng, r, ListObj((), None, o.maxlen, o.kind))
        return None
    if name in ('copy', '__copy__'):
        return eng.alloc(ListObj(o.items, o.base, o.maxlen, o.kind), o.kind)
    if name == '__len__':
        return m_len(eng, (r,), {})
    if name == '__getitem__':
        return seq_index(eng, flat(eng, r), args[0])
    if name == '__contains__':
        return mk_bool(contains(eng, r, args[0]))
    if name == '__iter__':
        return m_iter(eng, (r,), {})
    if o.base is not None and not (name == 'pop' and o.items and not args):
        raise Unsupported('list.%s with an unknown prefix' % name)
    if name == 'count':
        t = z3.IntVal(0)
        for g, x in o.items:
            t = t + z3.If(zbool(z_and(g, eng.eq(x, args[0]))), z3.IntVal(1), z3.IntVal(0))
        return mk_int(t)
    o = flat(eng, r)
    items = list(o.items)

    def put(xs):
        put_l(eng, r, ListObj(xs, o.base, o.maxlen, o.kind))
    if name in ('pop', 'popleft'):
        if not items:
            raise PyRaise(IndexError('pop from an empty %s' % o.kind))
        i = 0 if name == 'popleft' else (args[0] if args else -1)
        if not isinstance(i, int):
            raise Unsupported('pop at a symbolic index')
        try:
            x = items.pop(i)[1]
        except IndexError as e:
            raise PyRaise(e)
        put(items)
        return x
    if name == 'appendleft':
        items = [(True, args[0])] + items
        if o.maxlen is not None:
            items = items[:o.maxlen]
        put(items)
        return None
    if name == 'insert':
        if not isinstance(args[0], int):
            raise Unsupported('insert at a symbolic index')
        items.insert(args[0], (True, args[1]))
        put(items)
        return None
    if name == 'reverse':
        put(items[::-1])
        return None
    if name == 'remove':
        for i, (_, x) in enumerate(items):
            if eng.branch(zbool(eng.eq(x, args[0]))):
                put(items[:i] + items[i + 1:])
                return None
        raise PyRaise(ValueError('list.remove(x): x not in list'))
    if name == 'index':
        for i, (_, x) in enumerate(items):
            if eng.branch(zbool(eng.eq(x, args[0]))):
                return i
        raise PyRaise(ValueError('not in list'))
    if name == 'sort':
        put([(True, x) for x in sort_vals(eng, [x for _, x in items], kwargs.get('key'), kwargs.get('reverse', False))])
        return None
    if name == 'rotate':
        n = args[0] if args else 1
        if items:
            n %= len(items)
            put(items[-n:] + items[:-n])
        return None
    raise Unsupported('list.%s' % name)


def stream_method(eng, r, s, name, args, kwargs):
    if name == 'close':
        eng.put(r, StreamObj(s.name, s.byte, s.pos, s.length, True))
        return None
    if name == '__enter__':
        return r
    if name == '__exit__':
        eng.put(r, StreamObj(s.name, s.byte, s.pos, s.length, True))
        return None
    if s.closed:
        raise PyRaise(ValueError('I/O operation on closed file'))
    if name == 'tell':
        return mk_int(s.pos if not isinstance(s.pos, int) else z3.IntVal(s.pos))
    if name == 'seek':
        whence = args[1] if len(args) > 1 else 0
        off = int_t(args[0])
        if whence == 0:
            new = off
        elif whence == 1:
            new = s.pos + off
        else:
            new = s.length + off
        eng.put(r, StreamObj(s.name, s.byte, z3.simplify(zi(new)), s.length, False))
        return mk_int(zi(new))
    if name == 'read':
        n = args[0] if args else -1
        if not isinstance(n, int):
            n2 = z3.simplify(int_t(n))
            if not z3.is_int_value(n2):
                raise Unsupported('read of a symbolic length')
            n = n2.as_long()
        pos, length = zi(s.pos), zi(s.length)
        if n < 0:
            rest = z3.simplify(length - pos)
            if not z3.is_int_value(rest):
                raise Unsupported('read of the rest of a stream')
            n = max(0, rest.as_long())
        if n == 0:
            return b''
        if not eng.branch(length - pos >= n):
            # a short read: decide the number of bytes left
            if eng.branch(length - pos <= 0):
                return b''
            if n > 16:
                k = eng.choose([length - pos == i for i in range(1, n)]) + 1 if n <= 128 else None
                if k is None:
                    raise Unsupported('short read')
            else:
                k = eng.choose([length - pos == i for i in range(1, n)]) + 1
            n = k
        items = [s.byte(eng, z3.simplify(pos + i)) for i in range(n)]
        eng.put(r, StreamObj(s.name, s.byte, z3.simplify(pos + n), s.length, False))
        return mk_bytes(items)
    raise Unsupported('stream.%s' % name)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


# ---- native calls ----------------------------------------------------------------------------------------------------

def call_pure(eng, f, args, kwargs):
    try:
        a = [eng.to_native(eng.resolve(x)) for x in args]
        k = {n: eng.to_native(eng.resolve(x)) for n, x in kwargs.items()}
    except Unsupported as e:
        raise Unsupported('%s(...): %s' % (getattr(f, '__qualname__', f), e))
    for x in list(a) + list(k.values()):
        if isinstance(x, (Closure, Bound, Method)):
            raise Unsupported('native call of %s with a function of the program' % getattr(f, '__qualname__', f))
    try:
        return eng.from_native(f(*a, **k))
    except Exception as e:
        raise PyRaise(e)


def call_native(eng, f, args, kwargs):
    if isinstance(f, functools.partial):
        kw = dict(f.keywords)
        kw.update(kwargs)
        return eng.call(f.func, tuple(f.args) + tuple(args), kw)
    if isinstance(f, operator.itemgetter):
        _, keys = f.__reduce__()
        vs = [get_item(eng, args[0], k) for k in keys]
        return vs[0] if len(vs) == 1 else tuple(vs)
    if isinstance(f, operator.attrgetter):
        _, keys = f.__reduce__()
        vs = [eng.get_attr(args[0], k) for k in keys]
        return vs[0] if len(vs) == 1 else tuple(vs)
    mod = getattr(f, '__module__', None)
    owner = getattr(f, '__self__', None)
    if mod is None and owner is not None:
        mod = getattr(type(owner) if not isinstance(owner, type) else owner, '__module__', None)
    if mod is None and hasattr(f, '__objclass__'):
        # unbound method of a built-in type: dict.get(d, k), str.join(...)
        recv = eng.resolve(args[0])
        if isinstance(recv, (Sym, Ref)) or any(isinstance(a, (Sym, Ref)) or _has_sym(a) for a in args[1:]):
            return call_method(eng, recv, f.__name__, args[1:], kwargs)
        mod = 'builtins'
    h = getattr(eng, 'native_hook', None)
    if h is not None:
        r = h(eng, f, args, kwargs)
        if r is not NO:
            return r
    if mod in TRUSTED_MODULES or (mod or '').split('.')[0] in TRUSTED_MODULES:
        return call_pure(eng, f, args, kwargs)
    if not callable(f):
        raise PyRaise(TypeError("'%s' object is not callable" % type(f).__name__))
    raise Unsupported('call of %s.%s' % (mod, getattr(f, '__qualname__', f)))


def op_model(op):
    return lambda eng, args, kwargs: eng.binop(op, args[0], args[1])


def cmp_model(op):
    return lambda eng, args, kwargs: mk_bool(eng.compare(op, args[0], args[1]))


def m_copy(eng, args, kwargs):
    v = eng.resolve(args[0])
    if isinstance(v, Ref):
        o = eng.obj(v)
        return eng.alloc(o, v.kind)
    return v


def install(eng):
    m = eng.models
    m.update({
        int: m_int, float: m_float, str: m_str, bool: m_bool, list: m_list, tuple: m_tuple, dict: m_dict,
        set: m_set('set'), frozenset: m_set('frozenset'), bytes: m_bytes, bytearray: m_bytes, type: m_type, range: m_range,
        enumerate: m_enumerate, zip: m_zip, map: m_map, filter: m_filter, reversed: m_reversed, super: m_super,
        len: m_len, sum: m_sum, min: m_minmax('min'), max: m_minmax('max'), abs: m_abs, round: m_round, pow: m_pow,
        divmod: m_divmod, sorted: m_sorted, isinstance: m_isinstance, getattr: m_getattr, setattr: m_setattr,
        hasattr: m_hasattr, vars: lambda e, a, k: e.get_attr(e.resolve(a[0]), '__dict__'), repr: m_repr, ord: m_ord, chr: m_chr, print: m_print, iter: m_iter, next: m_next,
        any: m_any, all: m_all, format: m_format,
        decimal.Decimal: m_decimal, struct.unpack_from: m_unpack_from, struct.unpack: m_unpack, struct.pack: m_pack,
        datetime.datetime: m_datetime, datetime.date: m_date, datetime.time: m_time, datetime.timedelta: m_timedelta,
        datetime.datetime.combine: m_combine,
        collections.deque: m_deque, collections.defaultdict: m_defaultdict, collections.Counter: m_counter,
        collections.OrderedDict: m_ordereddict,
        six.iteritems: m_iteritems, six.iterkeys: m_iterkeys, six.itervalues: m_itervalues, six.byte2int: m_byte2int,
        six.int2byte: m_int2byte,
        operator.add: op_model('+'), operator.sub: op_model('-'), operator.mul: op_model('*'),
        operator.truediv: op_model('/'), operator.xor: op_model('^'), operator.and_: op_model('&'),
        operator.or_: op_model('|'), operator.lt: cmp_model('<'), operator.le: cmp_model('<='),
        operator.gt: cmp_model('>'), operator.ge: cmp_model('>='),
        operator.eq: lambda e, a, k: mk_bool(e.equal(a[0], a[1])),
    })
    import copy
    m[copy.copy] = m_copy
    m[math.floor] = lambda e, a, k: mk_int(e.z_round(real_t(e.resolve(a[0])), 'ROUND_FLOOR')) if isinstance(
        e.resolve(a[0]), Sym) else call_pure(e, math.floor, a, k)
    m[math.ceil] = lambda e, a, k: mk_int(e.z_round(real_t(e.resolve(a[0])), 'ROUND_CEILING')) if isinstance(
        e.resolve(a[0]), Sym) else call_pure(e, math.ceil, a, k)
    m[math.trunc] = lambda e, a, k: to_int(e, a[0])

    def reduce_(e, a, k):
        xs = iter_values(e, a[1])
        if len(a) > 2:
            acc = a[2]
        else:
            if not xs:
                raise PyRaise(TypeError('reduce() of empty sequence with no initial value'))
            acc, xs = xs[0], xs[1:]
        for x in xs:
            acc = e.call(a[0], (acc, x))
        return acc
    m[functools.reduce] = reduce_
    c = type(eng)
    c.str_, c.repr_, c.format_, c.percent_format = str_, repr_, format_, percent_format
    c.ref_truth, c.ref_eq, c.ref_native_eq, c.ref_binop = ref_truth, ref_eq, ref_native_eq, ref_binop
