"""Specification vocabulary: input domains and cases.

A Case states a contract about the real code: for all inputs of its domains satisfying `pre`, executing `run` (which calls
the real functions) and then `post` gives only true obligations, and nothing escapes as an exception.  The verifier
executes `run` and `post` symbolically, for all inputs; the native runner executes the same text on concrete inputs, to
replay counterexamples and to search for failing inputs.
"""
import datetime
import decimal
import enum
import itertools

D = decimal.Decimal


class OutOfReach(BaseException):
    """The stand-ins for the outside world do not know what to do: no verdict."""


class Domain(object):
    pass


class Int(Domain):
    def __init__(self, lo, hi, special=(), bv=0):
        self.lo, self.hi, self.special, self.bv = lo, hi, tuple(special), bv

    def sample(self, rng, hints):
        r = rng.random()
        if r < 0.15:
            return rng.choice([self.lo, self.hi])
        if r < 0.3 and self.special:
            return rng.choice(self.special)
        if r < 0.55 and hints:
            v = rng.choice(hints) + rng.choice([-1, 0, 0, 1])
            v = int(v)
            if self.lo <= v <= self.hi:
                return v
        if r < 0.7:
            v = rng.randint(-20, 20)
            if self.lo <= v <= self.hi:
                return v
        return rng.randint(self.lo, self.hi)


class Bool_(Domain):
    def sample(self, rng, hints):
        return rng.random() < 0.5


class Dec(Domain):
    """A decimal with `places` digits after the point, lo <= x <= hi."""

    def __init__(self, lo, hi, places=1, special=()):
        self.places = places
        self.lo, self.hi = int(D(lo).scaleb(places)), int(D(hi).scaleb(places))
        self.special = [D(s) for s in special]

    def make(self, k):
        return D(k).scaleb(-self.places)

    def sample(self, rng, hints):
        r = rng.random()
        if r < 0.1:
            return self.make(rng.choice([self.lo, self.hi]))
        if r < 0.25 and self.special:
            return rng.choice(self.special)
        if r < 0.5 and hints:
            k = int(D(str(rng.choice(hints))).scaleb(self.places)) + rng.choice([-1, 0, 0, 1])
            if self.lo <= k <= self.hi:
                return self.make(k)
        if r < 0.6:
            k = rng.randint(-10, 10)
            if self.lo <= k <= self.hi:
                return self.make(k)
        return self.make(rng.randint(self.lo, self.hi))


class Number(Domain):
    """Any number; for the state of a fold."""

    def symbolic(self, lf):
        import z3
        from pyver.values import SDec
        return SDec(lf.const(z3.RealSort()))


class Bytes(Domain):
    """`n` arbitrary bytes; some positions may be restricted: fixed = {index: value or (lo, hi)}."""

    def __init__(self, n, fixed=None, bv=False, words=()):
        self.n, self.fixed, self.bv = n, fixed or {}, bv
        self.words = words   # (offset, size, signed) fields, for boundary-biased samples

    def sample(self, rng, hints):
        b = bytearray(rng.randrange(256) if rng.random() < 0.9 else rng.choice([0, 255, 127, 128]) for _ in range(self.n))
        for off, size, signed in self.words:
            if rng.random() < 0.45:
                cand = [0, 1, -1, 32767, -32768, 255, 15, 16, 80, 60, 59] + list(hints)
                v = int(rng.choice(cand)) % (256 ** size)
                b[off:off + size] = v.to_bytes(size, 'little')
        for i, v in self.fixed.items():
            b[i] = v if isinstance(v, int) else rng.randint(*v)
        return bytes(b)


class Choice(Domain):
    """One of several concrete values or domains."""

    def __init__(self, *alts):
        self.alts = alts

    def sample(self, rng, hints):
        a = rng.choice(self.alts)
        return a.sample(rng, hints) if isinstance(a, Domain) else a


def Opt(d):
    return Choice(None, d)


class Maybe(object):
    """A field that may be missing altogether; only in Rec."""

    def __init__(self, dom):
        self.dom = dom


class EnumOf(Domain):
    def __init__(self, cls):
        self.cls = cls

    def sample(self, rng, hints):
        return rng.choice(list(self.cls))


class DateTime_(Domain):
    """Naive datetimes of whole seconds (or multiples of `step` seconds within a day) between two dates."""

    def __init__(self, lo=datetime.datetime(2000, 1, 1), hi=datetime.datetime(2099, 12, 31, 23, 59, 59), step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def sample(self, rng, hints):
        r = rng.random()
        span = self.hi - self.lo
        total = span.days * 86400 + span.seconds
        s = rng.randrange(0, total + 1)
        v = self.lo + datetime.timedelta(seconds=s)
        if r < 0.2:
            v = v.replace(hour=rng.choice([0, 23, 12]), minute=rng.choice([0, 59]), second=0)
        elif r < 0.5:
            v = v.replace(second=0)
        if r < 0.3:
            v = v.replace(day=1)
        elif r < 0.4:
            v = v.replace(month=rng.choice([1, 12]), day=rng.choice([1, 31]))
        sod = v.hour * 3600 + v.minute * 60 + v.second
        v = v - datetime.timedelta(seconds=sod % self.step)
        if v < self.lo:
            v = self.lo
        return min(v, self.hi)


class Date_(Domain):
    def __init__(self, lo=datetime.date(2000, 1, 1), hi=datetime.date(2099, 12, 31)):
        self.lo, self.hi = lo, hi

    def sample(self, rng, hints):
        v = self.lo + datetime.timedelta(days=rng.randrange(0, (self.hi - self.lo).days + 1))
        if rng.random() < 0.3:
            v = v.replace(day=1)
        if v < self.lo:
            v = self.lo
        return v


HINTS = {'ints': [], 'texts': [], 'new': []}


def size(rng, small, big=600):
    """A number of items for a sample: the small one, at times one near a constant of the code."""
    h = HINTS['new'] if HINTS['new'] and rng.random() < 0.5 else HINTS['ints']
    if h and rng.random() < (0.25 if HINTS['new'] else 0.02):
        v = rng.choice(h) + rng.choice([-1, 0, 1, 1, 2])
        if 0 <= v <= big or (HINTS['new'] and 100 <= big < v <= 5000 and rng.random() < 0.2):
            return v
    return small


class Str_(Domain):
    """An arbitrary text, treated as an indivisible value by the verifier."""

    def __init__(self, alphabet='abcdefghijklmnopqrstuvwxyz0123456789&?=/ %#+', minlen=1, maxlen=12, samples=()):
        self.alphabet, self.minlen, self.maxlen, self.samples = alphabet, minlen, maxlen, samples

    def sample(self, rng, hints):
        if self.samples and rng.random() < 0.3:
            return rng.choice(self.samples)
        s = ''.join(rng.choice(self.alphabet) for _ in range(rng.randint(self.minlen, self.maxlen)))
        if HINTS['texts'] and rng.random() < 0.3:
            t = rng.choice(HINTS['texts'])
            if all(c in self.alphabet for c in t):
                k = rng.randint(0, len(s))
                s = (s[:k] + t + s[k:])[:max(self.maxlen, len(t))]
        return s


class Tup(Domain):
    def __init__(self, *doms):
        self.doms = doms

    def sample(self, rng, hints):
        return tuple(d.sample(rng, hints) if isinstance(d, Domain) else d for d in self.doms)


class ListOf(Domain):
    """A list of exactly `n` elements."""

    def __init__(self, n, dom):
        self.n, self.dom = n, dom

    def sample(self, rng, hints):
        return [self.dom.sample(rng, hints) for _ in range(self.n)]


class Rec(Domain):
    """A dict (or an instance of a dict subclass `cls`) with the given fields."""

    def __init__(self, fields, cls=dict):
        self.fields, self.cls = fields, cls

    def sample(self, rng, hints):
        kw = {}
        for k, d in self.fields.items():
            if isinstance(d, Maybe):
                if rng.random() < 0.25:
                    continue
                d = d.dom
            kw[k] = d.sample(rng, hints) if isinstance(d, Domain) else d
        return self.cls(**kw) if self.cls is not dict else kw


class Seq(Domain):
    """A finite sequence of arbitrary length."""

    def __init__(self, dom, name='seq', maxlen=12, kind='list', longlen=0):
        self.dom, self.name, self.maxlen, self.kind, self.longlen = dom, name, maxlen, kind, longlen

    def sample(self, rng, hints):
        n = rng.randint(0, self.maxlen)
        if self.longlen and rng.random() < 0.1:
            n = rng.randint(0, self.longlen)
        n = size(rng, n, max(self.longlen, self.maxlen, 300))
        xs = [self.dom.sample(rng, hints) for _ in range(n)]
        return bytes(xs) if self.kind == 'bytes' else xs


KEPT = None   # natively: objects kept from earlier samples


def kept(cls, *args):
    """An object to work on.  Natively at times the one an earlier sample of the case worked on: what it may remember must
    not matter."""
    if KEPT is None:
        return cls(*args)
    return KEPT(cls, args)


def vary(d, old, new, rng):
    """A sample of the domain that has most of the old one and some of the new one."""
    if isinstance(d, Bytes) and rng.random() < 0.7:
        b = bytearray(old)
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(d.n + 1)
            j = min(d.n, i + rng.randint(1, 8))
            b[i:j] = new[i:j]
        return bytes(b)
    if isinstance(d, Rec) and rng.random() < 0.8:
        for k in list(d.fields):
            if rng.random() < 0.2:
                if k in new:
                    old[k] = new[k]
                else:
                    old.pop(k, None)
        return old
    if isinstance(d, Tup):
        return tuple(vary(x, o, n, rng) for x, o, n in zip(d.doms, old, new))
    if isinstance(d, Seq) and type(d).sample is Seq.sample and len(old) and len(new) and rng.random() < 0.7:
        xs = list(old)
        for _ in range(rng.randint(1, 3)):
            xs[rng.randrange(len(xs))] = new[rng.randrange(len(new))]
        return bytes(xs) if d.kind == 'bytes' else xs
    if isinstance(d, ListOf) and len(old) == len(new):
        return [vary(d.dom, o, n, rng) for o, n in zip(old, new)]
    return new if rng.random() < 0.3 else old


class Case(object):
    """Subclasses define `inputs`, optionally `pre`, and `run`, `post`."""
    name = None
    inputs = {}
    folds = ()            # recursions the loops of the code are proved against
    contracts = ()        # names of contracts (specs.contracts) assumed for callees
    patches = ()          # ((object, attribute, replacement), ...): stand-ins for the outside world
    samples = 400         # native samples per run (quick tier)
    bounded = False       # True: never attempted deductively, only the bounded native check
    abstract = False      # a rejection that no failing input confirms is no verdict (the abstraction may be too coarse)
    thorough = False      # proved in the thorough tier only
    search = True         # takes part in the bounded native search
    prover = None         # optional name of a dedicated proof procedure
    budget = 60           # seconds for the verifier
    timeout = 0           # milliseconds for a query (0: as usual)
    afresh = 0            # milliseconds for a second attempt with a fresh solver

    def pre(self, x):
        return True

    def setup(self, eng):
        """Extra configuration of the verifier (contracts for callees)."""

    def post(self, r, x):
        return []

    def tweak(self, rng, x):
        """Native sampling only: correlate sampled inputs."""
        return x


class Fold(object):
    """A recursion over the elements of an input sequence; what a loop of the code is proved against.

    state: {component: Domain}; init(x) -> dict; step(x, s, e, i) -> dict.  lists: {name: f(x, s, e, i) -> tuple of the
    items appended for element i}.  stops (and late): stable(x, s, i) says the recursion has reached a state that no further
    element changes (early exits)."""
    name = 'fold'
    seq = 'data'
    state = {}
    lists = {}
    shapes = {}      # {name: f(x, s) -> ((present, item), ...)}: lists whose contents are a function of the state
    members = {}     # {name: f(x, e, i) -> key}: sets of the keys of the elements so far
    subject = None   # about(x, d, i): what holds of every d of this domain after i elements; proved by induction
    stops = False
    whiles = True    # a while loop may be proved against it
    late = False     # the code notices at the head of the next iteration
    peel = 0         # the elements are those of the loop after this many
    shared = False   # several lists may grow by the same items
    view = None      # another fold: the components (None, or f(x, s, i)) come from its state `offset(x)` elements further on
    until = None     # until(self, x, i): the element (counted from the start of the sequence) at which the loop ends early
    bags = {}        # {name: f(x, s) -> (number, sum)}: lists of which only the number of items and their sum are known
    closed = None    # closed(self, x, s, i): a closed form of the state; proved by induction, then used

    def matches(self, name):
        return True

    def count(self, x):
        return len(getattr(x, self.seq))

    def elem(self, x, i):
        return getattr(x, self.seq)[i]

    def init(self, x):
        return {}

    def step(self, x, s, e, i):
        return {}

    def stable(self, x, s, i):
        return False

    def hints(self, x, i):
        """Lemmas to be recalled before element i."""

    # size(self, x, name, i): the number of items of list `name` after i elements; proved by induction where it is used


def member(fold, x, name, key, i):
    """Whether one of the first i elements has that key."""
    return any(fold.members[name](x, fold.elem(x, j), j) == key for j in range(i))


def ordered(fold, x, name):
    """The keys of all elements, each once, in order.  (The verifier: in any order.)"""
    return sorted(set(fold.members[name](x, fold.elem(x, j), j) for j in range(fold.count(x))))


def position(fold, x, name, key):
    """The position of a key in ordered()."""
    return ordered(fold, x, name).index(key)


def fold_result(fold, x):
    """The state of a fold after all elements."""
    s = NS(**fold.init(x))
    acc = {}
    for k in fold.lists:
        acc[k] = []
    for i in range(fold.count(x)):
        e = fold.elem(x, i)
        for k in fold.lists:
            acc[k].extend(fold.lists[k](x, s, e, i))
        s = NS(**fold.step(x, s, e, i))
    for k in acc:
        setattr(s, k, acc[k])
    return s


def variants(cls, **alts):
    """One case per combination of alternative domains for some inputs."""
    out = []
    for combo in itertools.product(*[list(v.items()) for v in alts.values()]):
        ins = dict(cls.inputs)
        for k, (n, d) in zip(alts, combo):
            ins[k] = d
        label = cls.name + '(' + ','.join(n for n, _ in combo) + ')'
        out.append(type(cls.__name__, (cls,), {'inputs': ins, 'name': label})())
    return out


class Raised(object):
    """The outcome of a call that raised."""

    def __init__(self, exc):
        self.exc = exc


class NS(object):
    """The inputs of a case, as attributes."""

    def __init__(self, **kw):
        for k in kw:
            setattr(self, k, kw[k])
