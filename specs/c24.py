"""C24: every summary touched by changed dates is recalculated once, in order."""
import datetime

import mysql.connector

from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import sql, summaries, world
from specs.c25 import archive_row, connect

FILES = ['weatherlink/exporter/mysql.py']


class Dates(Domain):
    """Dates and times with repetitions, around the borders of weeks, months and years."""

    def sample(self, rng, hints):
        base = rng.choice([datetime.datetime(2015, 12, 27), datetime.datetime(2016, 2, 25), datetime.datetime(2016, 10, 29),
                           datetime.datetime(2021, 1, 1), datetime.datetime(2018, 12, 30), datetime.datetime(2012, 1, 1)])
        out = []
        n = rng.randint(0, 6)
        many = size(rng, n, 70)
        if many > 6 or rng.random() < 0.01:
            # many days, weeks, months or years, some of them again
            step = rng.choice([1, 3, 7, 16, 31, 200, 366])
            out = [base + datetime.timedelta(days=step * i) for i in range(many if many > 6 else rng.randint(7, 40))]
            if rng.random() < 0.3:
                rng.shuffle(out)
        for _ in range(n):
            d = base + datetime.timedelta(days=rng.choice([0, 0, 1, 2, 3, 7, 31, 365, -3]), hours=rng.choice([0, 0, 11, 23]))
            out.append(d)
        return out


class Recalculated(Case):
    """Natively (bounded): which summaries are written, how often, in what order."""
    name = 'recalculated'
    bounded = True
    inputs = {'dates': Dates(), 'existing': Bool_(), 'kind': Choice('list', 'tuple', 'iterator')}

    def run(self, x):
        db = sql.Database()
        rng = random_for(x.dates)
        for i, d in enumerate(sorted(set(x.dates))):
            r = archive_row(rng, d, 5)
            r['timestamp_weatherlink'] = i
            db.rows('weather_archive_record').append(r)
        saved = mysql.connector.connect
        mysql.connector.connect = connect(db)
        try:
            e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
            e.connect()
            if x.existing:
                e.recalculate_summaries_for_dates(list(x.dates[:2]))
                db.updates = []
            dates = list(x.dates)
            dates = tuple(dates) if x.kind == 'tuple' else iter(dates) if x.kind == 'iterator' else dates
            e.recalculate_summaries_for_dates(dates)
        finally:
            mysql.connector.connect = saved
        return [summaries.key_of(r) for t, r, cols in db.updates if 'rain_total' in cols]

    def post(self, r, x):
        want = sorted(set(summaries.key(k, d) for d in x.dates for k in summaries.KINDS))
        out = [('nothing-else', all(k in want for k in r)), ('each-recalculated', all(k in r for k in want)),
               ('once', len(set(r)) == len(r))]
        for a, b in (('DAILY', 'WEEKLY'), ('DAILY', 'MONTHLY'), ('MONTHLY', 'YEARLY'), ('WEEKLY', 'YEARLY'),
                     ('DAILY', 'YEARLY')):
            last = max([i for i, k in enumerate(r) if k[0] == a] or [-1])
            first = min([i for i, k in enumerate(r) if k[0] == b] or [len(r)])
            out.append(('%s-before-%s' % (a.lower(), b.lower()), last < first))
        return out


def random_for(dates):
    import random
    return random.Random(len(dates))


class Calls(object):
    """Stands in for the four kinds of recalculation: counts those of one arbitrary day, week, month and year."""

    def __init__(self, x):
        self.x = x
        self.days, self.weeks, self.months, self.years = 0, 0, 0, 0
        self.weeks_begun, self.months_begun, self.years_begun = False, False, False
        self.in_order = True
        self.right_week = True


def daily_called(exporter_, year, month, day):
    w = world.get()
    d = w.x.day
    w.in_order = all([w.in_order, not w.weeks_begun, not w.months_begun, not w.years_begun])
    w.days = w.days + (1 if all([year == d.year, month == d.month, day == d.day]) else 0)


def weekly_called(exporter_, week_year, week_number, date):
    w = world.get()
    iso = date.isocalendar()
    w.right_week = all([w.right_week, iso[0] == week_year, iso[1] == week_number])
    w.in_order = all([w.in_order, not w.years_begun])
    w.weeks_begun = True
    w.weeks = w.weeks + (1 if all([week_year == w.x.week[0], week_number == w.x.week[1]]) else 0)


def monthly_called(exporter_, year, month):
    w = world.get()
    w.in_order = all([w.in_order, not w.years_begun])
    w.months_begun = True
    w.months = w.months + (1 if all([year == w.x.month[0], month == w.x.month[1]]) else 0)


def yearly_called(exporter_, year):
    w = world.get()
    w.years_begun = True
    w.years = w.years + (1 if year == w.x.year else 0)


def day_of(d):
    return d.year, d.month, d.day


def week_of(d):
    iso = d.isocalendar()
    return iso[0], iso[1]


class Seen(Fold):
    """The dates seen so far: their days, weeks, months and years."""
    name = 'seen'
    seq = 'dates'
    state = {'days': Int(0, 1)}
    members = {'day': lambda x, e, i: day_of(e), 'week': lambda x, e, i: week_of(e),
               'month': lambda x, e, i: (e.year, e.month), 'year': lambda x, e, i: e.year}
    lists = {'weeks': lambda x, s, e, i: () if member(SEEN, x, 'week', week_of(e), i) else (week_of(e) + (e,),)}
    subject = DateTime_()

    def matches(self, name):
        return name == 'dates'

    def about(self, x, d, i):
        """The week, month and year of a day seen have been seen."""
        return any([not member(SEEN, x, 'day', day_of(d), i),
                    all([member(SEEN, x, 'week', week_of(d), i), member(SEEN, x, 'month', (d.year, d.month), i),
                         member(SEEN, x, 'year', d.year, i)])])

    def init(self, x):
        return {'days': 0}

    def step(self, x, s, e, i):
        return {'days': 1 if day_of(e) == day_of(x.day) else s.days}

    def closed(self, x, s, i):
        return s.days == (1 if member(SEEN, x, 'day', day_of(x.day), i) else 0)


SEEN = Seen()


class Weeks(Fold):
    """The first date of each week."""
    name = 'weeks'
    seq = 'dates'
    state = {'weeks': Int(0, 1), 'begun': Bool_()}

    def matches(self, name):
        return name == 'weeks'

    def init(self, x):
        return {'weeks': 0, 'begun': False}

    def step(self, x, s, e, i):
        new = not member(SEEN, x, 'week', week_of(e), i)
        return {'weeks': s.weeks + 1 if all([new, week_of(e) == x.week]) else s.weeks, 'begun': any([s.begun, new])}

    def closed(self, x, s, i):
        return s.weeks == (1 if member(SEEN, x, 'week', x.week, i) else 0)


class Members(Fold):
    """The months, or the years."""
    state = {'number': Int(0, 1), 'begun': Bool_()}

    def __init__(self, which):
        self.name = 'each ' + which
        self.which = which

    def matches(self, name):
        return name == self.which

    def count(self, x):
        return len(ordered(SEEN, x, self.which))

    def elem(self, x, i):
        return ordered(SEEN, x, self.which)[i]

    def wanted(self, x):
        return x.month if self.which == 'month' else x.year

    def init(self, x):
        return {'number': 0, 'begun': False}

    def step(self, x, s, e, i):
        return {'number': s.number + 1 if e == self.wanted(x) else s.number, 'begun': True}

    def closed(self, x, s, i):
        k = self.wanted(x)
        return s.number == (1 if member(SEEN, x, self.which, k, len(x.dates)) and position(SEEN, x, self.which, k) < i else 0)


class EachOnce(Case):
    """Any number of dates."""
    name = 'each-once'
    abstract = True
    search = False
    budget = 200
    inputs = {'dates': Seq(DateTime_(), name='dates'), 'day': Date_(), 'week': Tup(Int(1, 9999), Int(1, 53)),
              'month': Tup(Int(1, 9999), Int(1, 12)), 'year': Int(1, 9999)}
    folds = (SEEN, Weeks(), Members('month'), Members('year'))

    def setup(self, eng):
        for name, f in (('daily', daily_called), ('weekly', weekly_called), ('monthly', monthly_called),
                        ('yearly', yearly_called)):
            real = getattr(exporter.MySQLExporter, '_recalculate_%s_summary' % name, None)
            if real is not None:
                eng.contracts[real] = called(f)

    def run(self, x):
        w = Calls(x)
        world.put(w)
        kept(exporter.MySQLExporter, 'u', 'p', 'd').recalculate_summaries_for_dates(x.dates)
        return w

    def post(self, w, x):
        n = len(x.dates)

        def once(count, name, key):
            return count == (1 if member(SEEN, x, name, key, n) else 0)
        return [('days', once(w.days, 'day', day_of(x.day))), ('weeks', once(w.weeks, 'week', x.week)),
                ('months', once(w.months, 'month', x.month)), ('years', once(w.years, 'year', x.year)),
                ('the-week-of-the-date', w.right_week), ('days-then-weeks-and-months-then-years', w.in_order)]


def called(f):
    return lambda e, a, k: e.call(f, a, k)


CASES = [EachOnce(), Recalculated()]
