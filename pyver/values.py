"""Symbolic values, heap objects and states of the verifier.

A value of the verified program is represented by
  * an ordinary Python object, when it is concrete (numbers, strings, classes, enum members, module tables, ...);
  * a `Sym` instance, when it is symbolic;
  * a `Ref`, when it is a mutable object allocated by the verified program (its contents live in the state's heap).
"""
import datetime
import decimal
import enum
from fractions import Fraction

import z3


class Unsupported(Exception):
    """The verifier cannot handle this construct.  Never a verdict: the obligation is reported as undecided."""


class PyRaise(Exception):
    """An exception raised by the verified program."""

    def __init__(self, exc):
        Exception.__init__(self)
        self.exc = exc


class Infeasible(Exception):
    """The current path condition is unsatisfiable."""


class Sym(object):
    __slots__ = ()

    def __bool__(self):
        raise Unsupported('a symbolic value was used as a native truth value')

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return id(self)


def rv(x):
    """A z3 real for a concrete number, exactly."""
    if isinstance(x, decimal.Decimal):
        if not x.is_finite():
            raise Unsupported('non-finite Decimal in symbolic arithmetic')
        f = Fraction(x)
    elif isinstance(x, float):
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float in symbolic arithmetic')
        f = Fraction(x)
    else:
        f = Fraction(x)
    return z3.RealVal('%d/%d' % (f.numerator, f.denominator))


class SInt(Sym):
    __slots__ = ('t', 'bv')

    def __init__(self, t, bv=None):
        self.t = t
        self.bv = bv  # optional unsigned bit-vector term with the same value

    def __repr__(self):
        return 'SInt(%s)' % (self.t if self.t is not None else self.bv,)


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SBool(%s)' % self.t


class SDec(Sym):
    """A finite decimal.Decimal, as the real number it denotes."""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'SDec(%s)' % self.t


class SFlt(Sym):
    """A float.  `t` is its real value; `quot` = (num, den) marks RN(num/den) of two exact integers."""
    __slots__ = ('t', 'quot')

    def __init__(self, t, quot=None):
        self.t = t
        self.quot = quot

    def __repr__(self):
        return 'SFlt(%s)' % self.t


class SEnum(Sym):
    """A member of enum class `cls` whose (integer) value is the term t; always a valid member on the path."""
    __slots__ = ('cls', 't')

    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def __repr__(self):
        return 'SEnum(%s,%s)' % (self.cls.__name__, self.t)


class SJoin(Sym):
    """The texts of a joined list: (guard, str) each."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def same(self, other):
        return isinstance(other, SJoin) and len(self.items) == len(other.items) and all(
            x == y and (g is h or (not isinstance(g, bool) and not isinstance(h, bool) and g.eq(h)))
            for (g, x), (h, y) in zip(self.items, other.items))

    def __iter__(self):
        return iter(self.items)


class SStr(Sym):
    """A str (or bytes if `binary`) made of parts: concrete strings and atoms (tuples of an operator and values)."""
    __slots__ = ('parts',)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, str):
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def __repr__(self):
        return 'SStr%r' % (self.parts,)


class SBStr(SStr):
    """bytes: an encoded symbolic string."""
    __slots__ = ()


def as_bparts(v):
    """The pieces of an encoded string or of concrete bytes."""
    if isinstance(v, SBStr):
        return v.parts
    if isinstance(v, bytes):
        return (v.decode('latin-1'),) if v else ()
    if isinstance(v, SBytes) and all(isinstance(x, int) for x in v.items):
        return (bytes(v.items).decode('latin-1'),) if v.items else ()
    return None


class SOpaque(Sym):
    """A value of an uninterpreted sort of which only its identity (equality) is known.  `pytype` is its Python type
    (or None when unknown)."""
    __slots__ = ('t', 'pytype', 'tag')

    def __init__(self, t, pytype=None, tag=None):
        self.t = t
        self.pytype = pytype
        self.tag = tag

    def __repr__(self):
        return 'SOpaque(%s)' % (self.t,)


class SBytes(Sym):
    """bytes of known length: a tuple of ints / SInts."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'SBytes[%d]' % len(self.items)


class SDateTime(Sym):
    """A naive datetime.datetime.  secs = seconds since 0001-01-01 (proleptic), plus optional known fields
    (year, month, day, hour, minute, second as integer terms).  Microseconds are 0.  `aware`: None or a tz tag."""
    __slots__ = ('day_ord', 'sod', 'fields', 'aware')

    def __init__(self, day_ord, sod, fields=None, aware=None):
        self.day_ord = day_ord   # z3 int: proleptic ordinal
        self.sod = sod           # z3 int: second of the day
        self.fields = fields     # optional tuple (y, m, d, H, M, S) of z3 ints
        self.aware = aware

    def __repr__(self):
        return 'SDateTime(%s,%s)' % (self.day_ord, self.sod)


class SDate(Sym):
    __slots__ = ('day_ord', 'fields')

    def __init__(self, day_ord, fields=None):
        self.day_ord = day_ord
        self.fields = fields


class STime(Sym):
    __slots__ = ('sod',)

    def __init__(self, sod):
        self.sod = sod


class STimeDelta(Sym):
    __slots__ = ('secs',)

    def __init__(self, secs):
        self.secs = secs  # z3 int


class SSeq(Sym):
    """An immutable sequence of symbolic length.  `length` is a z3 int, `elem(engine, index_term)` gives the element
    value at an index; `name` identifies it (loop contracts attach to the name)."""
    __slots__ = ('name', 'length', 'elem', 'extra')

    def __init__(self, name, length, elem, extra=None):
        self.name = name
        self.length = length
        self.elem = elem
        self.extra = extra

    def __repr__(self):
        return 'SSeq(%s)' % self.name


class SRange(Sym):
    __slots__ = ('start', 'stop')

    def __init__(self, start, stop):
        self.start = start
        self.stop = stop


class Union(Sym):
    """One of several values, under mutually exclusive and (on the path) exhaustive conditions."""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return 'Union%r' % (self.alts,)


class Unbound(object):
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class _Poison(object):
    """The value of a variable that is dead after a loop: reading it is outside the verifier's reach."""

    def __repr__(self):
        return '<dead>'


POISON = _Poison()


class Ref(object):
    __slots__ = ('id', 'kind')

    def __init__(self, id_, kind):
        self.id = id_
        self.kind = kind

    def __eq__(self, other):
        return isinstance(other, Ref) and other.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.id)


# --- heap objects: treated as immutable; every write makes a new one -------------------------------------------------

class Frame(object):
    __slots__ = ('vars',)

    def __init__(self, vars_):
        self.vars = vars_


class ListObj(object):
    """items: tuple of (guard, value); guard True or a z3 bool: the entry is present iff guard.
    base: None, or an opaque token for an unknown prefix (`SOpaque`)."""
    __slots__ = ('items', 'base', 'maxlen', 'kind')

    def __init__(self, items, base=None, maxlen=None, kind='list'):
        self.items = tuple(items)
        self.base = base
        self.maxlen = maxlen
        self.kind = kind


class DictObj(object):
    """entries: dict key -> (guard, value) with concrete hashable keys, in insertion order; `extra` for symbolic keys:
    tuple of (guard, key, value); default: default_factory.  kind: dict, set, frozenset, defaultdict, counter.
    base: an opaque token for unknown further contents."""
    __slots__ = ('entries', 'extra', 'default', 'kind', 'base')

    def __init__(self, entries, extra=(), default=None, kind='dict', base=None):
        self.entries = entries
        self.extra = tuple(extra)
        self.default = default
        self.kind = kind
        self.base = base


class InstObj(object):
    __slots__ = ('cls', 'attrs', 'payload')

    def __init__(self, cls, attrs, payload=None):
        self.cls = cls
        self.attrs = attrs
        self.payload = payload  # contents for subclasses of dict / list / Exception args


class IterObj(object):
    """An iterator over a known list of (guard, value)."""
    __slots__ = ('items', 'pos')

    def __init__(self, items, pos=0):
        self.items = items
        self.pos = pos


class StreamObj(object):
    """A binary input stream: a function giving byte i, the position and the length (z3 ints or ints)."""
    __slots__ = ('name', 'byte', 'pos', 'length', 'closed')

    def __init__(self, name, byte, pos, length, closed=False):
        self.name = name
        self.byte = byte
        self.pos = pos
        self.length = length
        self.closed = closed


_SALT = {}


def salt(key):
    s = _SALT.get(key)
    if s is None:
        s = _SALT[key] = len(_SALT) + 1
    return s


class State(object):
    __slots__ = ('pc', 'heap', 'salt', 'n')

    def __init__(self, pc=(), heap=None, salt_=0, n=0):
        self.pc = pc
        self.heap = heap if heap is not None else {}
        self.salt = salt_
        self.n = n

    def copy(self):
        return State(self.pc, dict(self.heap), self.salt, self.n)

    def fork(self, tag):
        s = State(self.pc, dict(self.heap), salt(('f', self.salt, self.n, tag)), 0)
        return s

    def fresh_id(self):
        self.n += 1
        return '%d.%d' % (self.salt, self.n)


CONCRETE_NUM = (int, decimal.Decimal, float)
