"""The rain events of a sequence of archive records, and the database as the search for them sees it.

Only for the verifier: the records are a sequence of any length in order of time; the statements of the exporter are parsed,
what they select is compared with `with rain, after a time` on an arbitrary record, and answered with the records there are."""
import datetime

import mysql.connector

from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import sql, world
from specs.absdb import conjuncts, every, parsed, term, which

HOURS = datetime.timedelta(hours=3)
ARCHIVE, EVENTS = 'weather_archive_record', 'weather_rain_event'
COLUMNS = ('timestamp_station', 'rain_total', 'rain_rate_high')


# ---- facts about the sequence (contracts for the verifier) -------------------------------------------------------------
def record(x, i):
    """Record i: (time, rain, rate)."""
    raise OutOfReach()


def state(x, i):
    """The events after i records, without any lemma."""
    raise OutOfReach()


def at(x, i):
    """The events after i records."""
    raise OutOfReach()


def stepped(x, i):
    """Record i takes the events after i records to those after i + 1."""
    raise OutOfReach()


def about(x, d, i):
    """The lemma about record d and the events after i records."""
    raise OutOfReach()


def later(x, i, j):
    """If i < j then record i is before record j."""
    raise OutOfReach()


def next_wet(x, a):
    """The number of the first record with rain from number a on; the number of records if there is none."""
    raise OutOfReach()


def dry_until(x, a, j):
    """The records from a to before the next one with rain are dry: so is number j if it is one of them."""
    raise OutOfReach()


def gap_after(x, a):
    """The first record from number a on that is more than three hours after the last rain before it; or the number of
    records."""
    raise OutOfReach()


def close_until(x, a, j):
    """No record from a to before gap_after(a) has such a gap: neither has number j if it is one of them."""
    raise OutOfReach()


def tail(x, a):
    """The records from number a on."""
    raise OutOfReach()


def part(x, a, limit):
    """At most `limit` of them."""
    raise OutOfReach()


# ---- the events, by recursion ------------------------------------------------------------------------------------------
def when(x, i):
    return record(x, i)[0]


def wet(x, i):
    return record(x, i)[1] > 0


def gap(x, i):
    """More than three hours between the last rain before record i and record i."""
    return when(x, i) - when(x, state(x, i).last) > HOURS


def starts(x, i):
    """An event starts at record i."""
    return all([i >= 0, i < len(x.records), wet(x, i), any([not state(x, i).on, gap(x, i)])])


class Rain(Fold):
    """The event that is going on, or the last one: first and last record with rain, the total, number and sum of the rates,
    the highest rate and its first record; and the number of events."""
    name = 'rain'
    seq = 'records'
    whiles = False
    state = {'on': Bool_(), 'start': Int(0, 1), 'last': Int(0, 1), 'total': Number(), 'number': Int(0, 1), 'rates': Number(),
             'high': Number(), 'high_at': Int(0, 1), 'events': Int(0, 1)}
    subject = Int(0, 10 ** 9)

    def matches(self, name):
        return False

    def elem(self, x, i):
        return record(x, i)

    def init(self, x):
        return {'on': False, 'start': 0, 'last': -1, 'total': D(0), 'number': 1, 'rates': D(0), 'high': D(0), 'high_at': 0,
                'events': 0}

    def step(self, x, s, e, i):
        t, rain, rate = e
        rains = rain > 0
        new = all([rains, any([not s.on, t - when(x, s.last) > HOURS])])
        more = all([rains, not new])
        higher = all([more, rate > s.high])
        return {'on': any([s.on, rains]), 'start': i if new else s.start, 'last': i if rains else s.last,
                'total': rain if new else s.total + rain if more else s.total,
                'number': 1 if new else s.number + 1 if more else s.number,
                'rates': rate if new else s.rates + rate if more else s.rates,
                'high': rate if any([new, higher]) else s.high, 'high_at': i if any([new, higher]) else s.high_at,
                'events': s.events + 1 if new else s.events}

    def closed(self, x, s, i):
        return all([s.number > 0, any([all([not s.on, s.events == 0, s.last == -1]),
                    all([s.on, s.start >= 0, s.start <= s.last, s.last < i, wet(x, s.last), s.events == state(x, s.last + 1).events])])])

    def about(self, x, d, i):
        s = state(x, i)
        first = starts(x, d)
        close_until(x, d + 1, i)
        return all([any([d >= i, not wet(x, d), all([s.on, d <= s.last])]),
                    any([not first, d >= i, i > gap_after(x, d + 1),
                         all([s.on, s.start == d, s.events == state(x, d).events + 1])])])


RAIN = Rain()


class During(Fold):
    """The records after the one at which the event that is looked at starts."""
    name = 'during'
    view = RAIN
    whiles = False
    state = {'last': lambda x, s, i: when(x, s.last), 'recent': lambda x, s, i: when(x, i - 1), 'total': None, 'high': None,
             'high_at': lambda x, s, i: when(x, s.high_at), 'number': None, 'rates': None}
    bags = {'rates': lambda x, s: (s.number, s.rates)}

    def matches(self, name):
        return name == 'the records after'

    def offset(self, x):
        return world.get().start + 1

    def count(self, x):
        return len(x.records) - self.offset(x)

    def elem(self, x, i):
        return record(x, self.offset(x) + i)

    def until(self, x, i):
        return gap(x, i)

    def hints(self, x, i):
        o = self.offset(x)
        about(x, o - 1, o + i)


DURING = During()


def dry(x, p):
    """Three hours without rain have passed since the event that is going on after p records, and p is at its end."""
    n = len(x.records)
    last = when(x, at(x, p).last)
    return when(x, p) - last > HOURS if p < n else when(x, n - 1) - last >= HOURS


def selected(x, cs, args):
    """Which records a condition selects: (only those with rain, after which argument)."""
    t, rain, rate = record(x, x.any)
    row = {'timestamp_station': t, 'rain_total': rain, 'rain_rate_high': rate}
    chosen = every(cs, row, args)
    options = [(w, a) for w in (True, False) for a in [None] + list(range(len(args)))]
    k = which([chosen == all([rain > 0 if w else True, t > args[a] if a is not None else True]) for w, a in options])
    if k < 0:
        raise OutOfReach()
    return options[k]


class RainDB(object):
    def __init__(self, x):
        self.x = x
        self.start = -1          # the record at which the event starts that is looked at
        self.p = x.p             # the events before it are recorded
        self.latest = x.latest
        self.there, self.end, self.high_at = x.there, x.end, x.high_at
        self.total, self.average, self.high = x.total, x.average, x.high
        self.fine = True
        self.committed = True
        self.open = 0

    def cursor(self, *args, **kwargs):
        self.open = self.open + 1
        return Cursor(self)

    def commit(self):
        self.committed = True

    def close(self):
        pass

    def number_of(self, ts):
        """The number of records up to and including a time."""
        x = self.x
        m = state(x, self.p).last
        if which([all([m >= 0, m < len(x.records), ts == when(x, m)])]) == 0:
            return m + 1
        m = self.start
        if which([all([m >= 0, m < len(x.records), ts == when(x, m)])]) == 0:
            return m + 1
        raise OutOfReach()

    def select(self, s, args):
        cols, table, where, group, order, limit = s[1:]
        if group is not None:
            raise OutOfReach()
        if table == EVENTS and where is None and cols == (('fn', 'max', ('col', 'timestamp_end')),):
            return [(self.latest,)]
        if table != ARCHIVE or cols != tuple([('col', c) for c in COLUMNS]) or limit is None or \
                order != ((('col', 'timestamp_station'), False),):
            raise OutOfReach()
        rain, after = selected(self.x, conjuncts(where), args)
        a = self.number_of(args[after]) if after is not None else 0
        if not rain:
            return part(self.x, a, limit)
        end = at(self.x, self.p).last + 1
        if limit != 1 or which([a == end]) < 0:
            raise OutOfReach()
        return self.first(end)

    def first(self, a):
        x = self.x
        b = next_wet(x, a)
        self.start = b
        known(x, self.p, b)
        if b >= len(x.records):
            return []
        stepped(x, b)
        return [record(x, b)]

    def insert(self, s, args):
        table, cols, vals, dup = s[1:]
        if table != EVENTS or dup is None or len(cols) != len(vals) or len(set(cols)) != len(cols):
            raise OutOfReach()
        new, old = {}, {}
        for c, v in zip(cols, vals):
            new[c] = term(v, {}, args)
        for c, v in dup:
            old[c] = new[v[1]] if v[0] == 'new' else term(v, {}, args)
        x = self.x
        b = self.start
        if which([new['timestamp_start'] == when(x, b)]) < 0:
            raise OutOfReach()
        event_known(x, self.p, b)
        end = new['timestamp_end']
        mine = b == x.q

        def value(c, was):
            v = old.get(c, was) if self.there else new.get(c)
            return v if mine else was
        self.fine = all([self.fine, True if self.latest is None else new['timestamp_start'] > self.latest])
        if 'timestamp_end' not in old or which([old['timestamp_end'] == end]) < 0:
            raise OutOfReach()
        values = [value(c, v) for c, v in (('timestamp_end', self.end), ('timestamp_rain_rate_high', self.high_at),
                                           ('rain_total', self.total), ('rain_rate_average', self.average),
                                           ('rain_rate_high', self.high))]
        self.end, self.high_at, self.total, self.average, self.high = values
        self.there = any([self.there, mine])
        if end is not None:
            self.latest = end
            self.p = gap_after(x, b + 1)
        self.committed = False
        return None

    def run(self, cursor, s, args):
        if s[0] == 'select':
            return self.select(s, args)
        if s[0] == 'insert':
            return self.insert(s, args)
        raise OutOfReach()


class Cursor(object):
    def __init__(self, db):
        self.db = db
        self.rows = None
        self.closed = False

    def execute(self, statement, arguments=None):
        s, n = parsed(statement)
        args = list(arguments) if arguments else []
        if len(args) != n:
            raise sql.SQLError('%d placeholders' % n)
        self.rows = self.db.run(self, s, args)

    def fetchone(self):
        if not self.rows:
            return None
        r = self.rows[0]
        self.rows = self.rows[1:]
        return r

    def fetchall(self):
        if self.db.x.nothing_left:
            raise mysql.connector.errors.InterfaceError('nothing left')
        self.rows = None
        return []

    def __iter__(self):
        r = self.rows
        self.rows = None
        return iter(r)

    def close(self):
        if not self.closed:
            self.closed = True
            self.db.open = self.db.open - 1


# ---- the search, event by event ----------------------------------------------------------------------------------------
CENT = D('0.01')


def mean(v):
    return (v.rates / v.number).quantize(CENT) if v.number > 0 else D(0)


def row_fits(x, s, p):
    """The row of the event of record x.q, when all events before record p are recorded."""
    g = gap_after(x, x.q + 1)
    v = at(x, g)
    first = starts(x, x.q)
    return all([any([not first, x.q >= p, all([values_fit(x, s, v), s.end is not None and s.end == when(x, v.last)])]),
                any([not first, x.q < p, not s.there, s.end is None]),
                any([first, not s.there])])


def values_fit(x, s, v):
    return all([s.there, s.high_at == when(x, v.high_at), s.total == v.total, s.average == mean(v),
                s.high == v.high])


class Found(Fold):
    """All that one search changes: p is the number of records before which all events are recorded and closed."""
    name = 'found'
    stops = True
    state = {'p': Int(0, 1), 'done': Bool_(), 'ongoing': Int(0, 1), 'found': Int(0, 1), 'latest': Opt(DateTime_()),
             'there': Bool_(), 'end': Opt(DateTime_()), 'high_at': DateTime_(), 'total': Number(), 'average': Number(),
             'high': Number()}

    def matches(self, name):
        return False

    def count(self, x):
        return len(x.records) + 1

    def elem(self, x, i):
        return None

    def init(self, x):
        return {'p': x.p, 'done': False, 'ongoing': 0, 'found': 0, 'latest': x.latest, 'there': x.there, 'end': x.end,
                'high_at': x.high_at, 'total': x.total, 'average': x.average, 'high': x.high}

    def step(self, x, s, e, i):
        n = len(x.records)
        r = at(x, s.p)
        b = next_wet(x, r.last + 1)
        known(x, s.p, b)
        last = any([s.done, b >= n])      # nothing more to do
        stepped(x, b)
        event_known(x, s.p, b)
        g = gap_after(x, b + 1)
        v = at(x, g)
        end = when(x, v.last)
        open_ = all([g >= n, when(x, n - 1) - end < HOURS])
        mine = all([not last, b == x.q])
        closed = all([not last, not open_])
        return {'p': g if closed else s.p, 'done': any([last, open_]), 'ongoing': 1 if all([not last, open_]) else s.ongoing,
                'found': s.found + 1 if closed else s.found, 'latest': end if closed else s.latest,
                'there': any([s.there, mine]), 'end': s.end if not mine else None if open_ else end,
                'high_at': when(x, v.high_at) if mine else s.high_at, 'total': v.total if mine else s.total,
                'average': mean(v) if mine else s.average, 'high': v.high if mine else s.high}

    def stable(self, x, s, i):
        return s.done

    def closed(self, x, s, i):
        n = len(x.records)
        r = at(x, s.p)
        q = x.q
        b = next_wet(x, r.last + 1)
        dry_until(x, r.last + 1, q)
        close_until(x, b + 1, q)
        about(x, b, q)
        g = gap_after(x, b + 1)
        v = at(x, g)
        first = starts(x, q)
        finished = all([s.done, s.ongoing == 0, b >= n])
        raining = all([s.done, s.ongoing == 1, b < n, g >= n, when(x, n - 1) - when(x, v.last) < HOURS])
        return all([s.p >= 0, s.p <= n, any([finished, raining, all([not s.done, s.ongoing == 0, s.p >= x.p + i])]),
                    any([all([s.latest is None, not r.on, s.p == 0]),
                         all([s.latest is not None and s.latest == when(x, r.last), r.on, dry(x, s.p)])]),
                    s.found == r.events - at(x, x.p).events,
                    any([raining, row_fits(x, s, s.p)]),
                    any([not raining, q >= s.p, row_fits(x, s, s.p)]),
                    any([not raining, q < s.p, all([first, s.end is None, values_fit(x, s, at(x, gap_after(x, q + 1)))]),
                         all([not first, not s.there])])])


FOUND = Found()


# ---- the records after a time, bit by bit ------------------------------------------------------------------------------
def batch(x, i, a, limit=None):
    """How many records the i-th request for those from number a on is answered with: none only if there are none."""
    raise OutOfReach()


class Handed(object):
    """The database that hands out records: for the generator on its own."""

    def __init__(self, x):
        self.x = x
        self.start = x.start
        self.asked = 0
        self.at = self.size = 0          # the records of the last answer
        self.next = x.start + 1          # the record that is due
        self.fine = True

    def select(self, s, args):
        cols, table, where, group, order, limit = s[1:]
        x = self.x
        if group is not None or table != ARCHIVE or cols != tuple([('col', c) for c in COLUMNS]) or limit is None or \
                limit < 1 or order != ((('col', 'timestamp_station'), False),):
            raise OutOfReach()
        rain, after = selected(x, conjuncts(where), args)
        if rain or after is None:
            raise OutOfReach()
        self.fine = all([self.fine, args[after] == when(x, self.next - 1)])
        self.at = self.next
        self.size = batch(x, self.asked, self.at, limit)
        self.asked = self.asked + 1
        return part(x, self.at, limit)

    def run(self, cursor, s, args):
        if s[0] == 'select':
            return self.select(s, args)
        raise OutOfReach()

    def see(self, r):
        x = self.x
        self.fine = all([self.fine, r == record(x, self.next)])
        self.next = self.next + 1


class Plain(Fold):
    """The records themselves."""
    name = 'plain'
    seq = 'records'
    whiles = False
    state = {'i': Int(0, 1)}

    def matches(self, name):
        return False

    def elem(self, x, i):
        return None

    def init(self, x):
        return {'i': 0}

    def step(self, x, s, e, i):
        return {'i': i + 1}

    def closed(self, x, s, i):
        return s.i == i


PLAIN = Plain()


class OneBatch(Fold):
    """The records of one answer."""
    name = 'batch'
    view = PLAIN
    whiles = False
    state = {'next': lambda x, s, i: i, 'time': lambda x, s, i: when(x, i - 1) if i > world.get().at else None}

    def matches(self, name):
        return name == 'some records'

    def offset(self, x):
        return world.get().at

    def count(self, x):
        return world.get().size

    def elem(self, x, i):
        return record(x, world.get().at + i)


ONE_BATCH = OneBatch()


class Batches(Fold):
    """The answers, until there is one without a record."""
    name = 'batches'
    stops = late = True
    state = {'next': Int(0, 1), 'time': Opt(DateTime_()), 'at': Int(0, 1), 'size': Int(0, 1), 'asked': Int(0, 1)}

    def matches(self, name):
        return False

    def count(self, x):
        return len(x.records) - x.start

    def elem(self, x, i):
        return None

    def init(self, x):
        return {'next': x.start + 1, 'time': when(x, x.start), 'at': 0, 'size': 0, 'asked': 0}

    def step(self, x, s, e, i):
        n = batch(x, s.asked, s.next)
        done = s.time is None
        more = all([not done, n > 0])
        return {'next': s.next + n if more else s.next, 'time': when(x, s.next + n - 1) if more else None,
                'at': s.at if done else s.next, 'size': s.size if done else n, 'asked': s.asked if done else s.asked + 1}

    def stable(self, x, s, i):
        return s.time is None

    def closed(self, x, s, i):
        n = len(x.records)
        return all([s.next > x.start, s.next <= n, any([s.time is None, all([s.time == when(x, s.next - 1), s.next >= x.start + 1 + i])]),
                    any([s.time is not None, s.next == n])])


BATCHES = Batches()


# ---- lemmas, where they are needed -------------------------------------------------------------------------------------
def known(x, p, b):
    """Record b is the first one with rain from the end of the last event on (or the end): p is the end of that event."""
    n = len(x.records)
    r, s = at(x, p), at(x, b)
    a = r.last + 1
    dry_until(x, a, s.last)
    about(x, r.last, b)
    about(x, b, p)
    later(x, r.last, b)
    later(x, p, b)


def event_known(x, p, b):
    """The event that starts at record b."""
    g = gap_after(x, b + 1)
    at(x, g)
    about(x, b, g)
    later(x, b, x.q)
    later(x, x.q, b)


def install(eng):
    import z3
    from pyver import loops
    eng.opaque_division = True
    from pyver.values import SInt, SSeq, Unsupported
    from pyver.ops import int_t, zbool
    from pyver.models import SymIter

    def inst():
        return loops.inst_of(eng, RAIN)

    def num(e, v):
        return z3.simplify(int_t(e.resolve(v)))

    def records(e, x):
        return e.resolve(e.get_attr(x, 'records'))

    def c_record(e, a, k):
        return records(e, a[0]).elem(e, num(e, a[1]))

    def c_state(e, a, k):
        return inst().ns(num(e, a[1]))

    def c_at(e, a, k):
        i = num(e, a[1])
        n = records(e, a[0]).length
        facts(e, 'at', (i,), z3.And(i >= 0, i <= n), lambda: inst().lemmas(i))
        return inst().ns(i)

    def c_stepped(e, a, k):
        i = num(e, a[1])
        n = records(e, a[0]).length
        facts(e, 'step', (i,), z3.And(i >= 0, i < n), lambda: (inst().assume_step(i), inst().lemmas(z3.simplify(i + 1))))
        return None

    def c_about(e, a, k):
        d, i = num(e, a[1]), num(e, a[2])
        n = records(e, a[0]).length
        f = inst()
        if not f.check_about():
            raise Unsupported('the lemma about the records does not hold')
        facts(e, 'about', (d, i), z3.And(d >= 0, i >= 0, i <= n), lambda: e.assume(f.about(SInt(d), i)))
        return None

    def facts(e, what, terms, guard, make):
        """What make() assumes, under the guard: true everywhere."""
        def build():
            saved = e.st
            try:
                e.st = saved.fork((what,) + tuple(t.get_id() for t in terms))
                e.st.pc = (guard,)
                outs = e.merge_outcomes(e.explore(make))
            finally:
                e.st = saved
            if len(outs) != 1 or outs[0][1] != 'val':
                raise Unsupported('a lemma forks or raises')
            return [z3.Implies(guard, zbool(c)) for c in outs[0][0].pc[1:]]
        e.keep.extend(terms)
        e.axiom(('rain', what) + tuple(t.get_id() for t in terms), build)

    def known(e, key, make):
        e.keep.extend(key[1:])
        def build():
            saved = e.st
            try:
                e.st = saved.fork(('known',) + tuple(t.get_id() for t in key[1:]))
                e.st.pc = ()
                return make()
            finally:
                e.st = saved
        e.axiom(('rain', key[0]) + tuple(t.get_id() for t in key[1:]), build)

    def c_later(e, a, k):
        i, j = num(e, a[1]), num(e, a[2])
        s = records(e, a[0])
        ti, tj = s.elem(e, i)[0], s.elem(e, j)[0]
        known(e, ('later', i, j), lambda: z3.Implies(z3.And(i >= 0, i < j, j < s.length), zbool(e.compare('<', ti, tj))))
        return None

    def is_wet(e, s, i):
        return zbool(e.compare('>', s.elem(e, i)[1], 0))

    NW = z3.Function('next wet', z3.IntSort(), z3.IntSort())

    def c_next(e, a, k):
        i = num(e, a[1])
        s = records(e, a[0])
        b = NW(i)
        known(e, ('next', i), lambda: z3.Implies(z3.And(i >= 0, i <= s.length), z3.And(
            b >= i, b <= s.length, z3.Implies(b < s.length, is_wet(e, s, b)))))
        return SInt(b)

    def c_dry(e, a, k):
        i, j = num(e, a[1]), num(e, a[2])
        s = records(e, a[0])
        known(e, ('dry', i, j), lambda: z3.Implies(z3.And(i >= 0, i <= j, j < NW(i), j < s.length), z3.Not(is_wet(e, s, j))))
        return None

    def is_gap(e, x, i):
        return zbool(e.truth(e.call(gap, (x, SInt(i)))))

    def c_gap(e, a, k):
        i = num(e, a[1])
        s = records(e, a[0])
        g = z3.simplify(loops.inst_of(eng, DURING).first(i))
        known(e, ('gap', i), lambda: z3.Implies(z3.And(i >= 0, i <= s.length), z3.And(
            g >= i, g <= s.length, z3.Implies(g < s.length, is_gap(e, a[0], g)))))
        return SInt(g)

    def c_close(e, a, k):
        i, j = num(e, a[1]), num(e, a[2])
        s = records(e, a[0])
        g = z3.simplify(loops.inst_of(eng, DURING).first(i))
        known(e, ('close', i, j), lambda: z3.Implies(z3.And(i >= 0, i <= j, j < g, j < s.length),
                                                     z3.Not(is_gap(e, a[0], j))))
        return None

    def slice_of(e, x, a, length, name):
        s = records(e, x)
        return SSeq(name, z3.simplify(length), lambda e2, i: s.elem(e2, z3.simplify(a + i)), {'pytype': list})

    def c_tail(e, a, k):
        i = num(e, a[1])
        return slice_of(e, a[0], i, records(e, a[0]).length - i, 'the records after')

    def c_part(e, a, k):
        i, n = num(e, a[1]), num(e, a[2])
        left = records(e, a[0]).length - i
        return slice_of(e, a[0], i, z3.If(left < n, left, n), 'some records')
    BATCH = z3.Function('batch', z3.IntSort(), z3.IntSort(), z3.IntSort())

    def c_batch(e, a, k):
        i, at = num(e, a[1]), num(e, a[2])
        left = records(e, a[0]).length - at
        b = BATCH(i, at)
        known(e, ('batch', i, at), lambda: z3.Implies(left >= 0, z3.And(b >= 0, b <= left, z3.Implies(b == 0, left == 0))))
        if len(a) == 4:
            # the i-th request is this one
            n = num(e, a[3])
            e.assume(b == z3.If(left < n, left, n))
        return SInt(b)
    eng.contracts.update({batch: c_batch, record: c_record, state: c_state, at: c_at, stepped: c_stepped, about: c_about, later: c_later,
                          next_wet: c_next, dry_until: c_dry, gap_after: c_gap, close_until: c_close, tail: c_tail,
                          part: c_part})
