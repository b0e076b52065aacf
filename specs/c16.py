"""C16: the high 10-minute wind average."""
from weatherlink import utils

from specs.base import *  # noqa

FILES = ['weatherlink/utils.py']
DIRECTIONS = ('N', 'NNE', 'E', 'SSW', 'W', 'NW')


def windows(records):
    """[(ten speeds, ten directions, ten end times of minutes)], one for each record that has ten minutes up to its end."""
    minutes, out = [], []
    for speed, direction, end, covered in records:
        for i in range(covered):
            minutes.append((speed, direction, end - datetime.timedelta(minutes=covered - 1 - i)))
        if len(minutes) >= 10:
            out.append(tuple(zip(*minutes[-10:])))
    return out


class Records(Case):
    """Whole days of records, of one length or of several."""
    name = 'records'
    bounded = True
    inputs = {'start': DateTime_(datetime.datetime(2000, 1, 1), datetime.datetime(2099, 12, 31), step=60),
              'n': Int(0, 60), 'kind': Choice(1, 2, 5, 10, 'mixed', 'mixed', 'long'), 'seed': Int(0, 2 ** 31),
              'speeds': Choice('int', 'decimal', 'few', 'zero', 'missing'), 'decimal_minutes': Bool_()}

    def tweak(self, rng, kw):
        kw['n'] = size(rng, kw['n'], 1500)
        return kw

    def records(self, x):
        import random
        rng = random.Random(x.seed)
        t = x.start
        out = []
        n = x.n * 10 if x.seed % 10 == 0 and x.n <= 60 else x.n
        for i in range(n):
            m = x.kind if isinstance(x.kind, int) else rng.randint(1, 10) if rng.random() < 0.5 else rng.choice([1, 1, 2, 5, 9, 10])
            if x.kind == 'long' and rng.random() < 0.1:
                m = rng.choice([11, 12, 15, 30, 120])
            s = {'int': lambda: rng.randint(0, 60), 'decimal': lambda: D(rng.randint(0, 999)).scaleb(-1),
                 'few': lambda: rng.choice([0, 1, 2, 2]), 'zero': lambda: 0,
                 'missing': lambda: rng.choice([None, rng.randint(0, 9)])}[x.speeds]()
            t += datetime.timedelta(minutes=m)
            out.append((s, rng.choice(DIRECTIONS[:1 + x.seed % 6]), t, m))
        return out

    def run(self, x):
        records = [(s, d, t, D(m) if x.decimal_minutes else m) for s, d, t, m in self.records(x)]
        return utils.calculate_10_minute_wind_average(records if x.seed % 2 else tuple(records))

    def post(self, r, x):
        records = self.records(x)
        best = None
        if all(m <= 10 for s, d, t, m in records):
            for speeds, directions, ends in windows(records):
                mean = D(sum([s or 0 for s in speeds])) / 10
                if mean > (best[0] if best else 0):
                    best = mean, directions, ends
        if best is None:
            return [('none', tuple(r) == (None, None, None, None))]
        mean, directions, ends = best
        most = max(directions.count(d) for d in directions)
        return [('speed', r[0] == mean), ('direction', directions.count(r[1]) == most), ('start', r[2] == ends[0]),
                ('end', r[3] == ends[9])]


class AnyValue(Domain):
    """Any hashable value."""

    def sample(self, rng, hints):
        return rng.choice(DIRECTIONS + (None,))

    def symbolic(self, lf):
        import z3
        from pyver.values import SOpaque
        return SOpaque(lf.const(z3.DeclareSort('Hashable')), str, self)

    def concrete(self, ev, v):
        name = str(ev(v.t))
        return 'direction-' + name.rsplit('!', 1)[-1]


SLOTS = range(10)
STAMP = DateTime_(datetime.datetime(2000, 1, 1), datetime.datetime(2099, 12, 31), step=60)


def last_ten(x, s, e, kind, k):
    """Slot k of the last ten minutes, the oldest first, after a record of e[3] minutes."""
    m = e[3]
    if m >= 10 - k:
        if kind == 's':
            return decimal_of(e[0])
        if kind == 'd':
            return e[1]
        return e[2] - datetime.timedelta(minutes=9 - k)
    for j in range(9 - k, 0, -1):
        if m == j:
            return getattr(s, kind + str(k + j))
    return getattr(s, kind + str(k))


def decimal_of(speed):
    return D(0) if speed is None else D(speed)


class LastTen(Fold):
    """The last ten minutes of the records so far, the highest mean of ten minutes so far, and those minutes."""
    name = 'minutes'
    seq = 'records'
    stops = True
    state = {'over': Bool_(), 'n': Int(0, 10), 'best': Number()}

    def init(self, x):
        return {'over': False, 'n': 0, 'best': D(0)}

    def step(self, x, s, e, i):
        if s.over or e[3] > 10:
            out = {}
            for k in self.state:
                out[k] = getattr(s, k)
            out['over'] = True
            return out
        n = s.n + e[3]
        out = {'over': False, 'n': n if n < 10 else 10}
        total = D(0)
        for k in SLOTS:
            for kind in 'sdt':
                out[kind + str(k)] = last_ten(x, s, e, kind, k)
            total = total + out['s%d' % k]
        mean = total / 10
        higher = n >= 10 and mean > s.best
        out['best'] = mean if higher else s.best
        for k in SLOTS:
            out['bd%d' % k] = out['d%d' % k] if higher else getattr(s, 'bd%d' % k)
            out['bt%d' % k] = out['t%d' % k] if higher else getattr(s, 'bt%d' % k)
        return out

    def stable(self, x, s, i):
        return s.over

    def closed(self, x, s, i):
        return s.n >= 0 and s.n <= 10 and s.best >= 0

    shapes = {
        'speeds': lambda x, s: [(s.n >= 10 - k, getattr(s, 's%d' % k)) for k in SLOTS],
        'directions': lambda x, s: [(s.n >= 10 - k, getattr(s, 'd%d' % k)) for k in SLOTS],
        'times': lambda x, s: [(s.n >= 10 - k, getattr(s, 't%d' % k)) for k in SLOTS],
        'best-directions': lambda x, s: [(s.best > 0, getattr(s, 'bd%d' % k)) for k in SLOTS],
        'best-times': lambda x, s: [(s.best > 0, getattr(s, 'bt%d' % k)) for k in SLOTS]}


for _k in SLOTS:
    LastTen.state.update({'s%d' % _k: Number(), 'd%d' % _k: AnyValue(), 't%d' % _k: STAMP,
                          'bd%d' % _k: AnyValue(), 'bt%d' % _k: STAMP})


class Average(Case):
    """Records of any number and any lengths."""
    name = 'average'
    search = False
    speed = Opt(Int(0, 255))
    minutes = Int(0, 1000)
    folds = (LastTen(),)
    budget = 240

    def run(self, x):
        return utils.calculate_10_minute_wind_average(x.records)

    def post(self, r, x):
        s = fold_result(self.folds[0], x)
        if s.over or s.best == 0:
            return [('none', r[0] is None and r[1] is None and r[2] is None and r[3] is None)]
        ds = [getattr(s, 'bd%d' % k) for k in SLOTS]
        count = sum([1 if d == r[1] else 0 for d in ds])
        return [('speed', r[0] == s.best), ('direction', count > 0),
                ('most-frequent', all([sum([1 if d == c else 0 for d in ds]) <= count for c in ds])),
                ('start', r[2] == s.bt0), ('end', r[3] == s.bt9)]


    @property
    def inputs(self):
        return {'records': Seq(Tup(self.speed, AnyValue(), STAMP, self.minutes), 'records')}


class Decimals(Average):
    name = 'average-of-decimals'
    speed = Opt(Dec('0', '255', places=2))


class DecimalMinutes(Average):
    name = 'average-of-decimal-minutes'
    minutes = Dec('0', '1000', places=0)


CASES = [Records(), Average(), Decimals(), DecimalMinutes()]
