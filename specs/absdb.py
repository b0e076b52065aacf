"""The database of the weather records, abstractly: statements are parsed, what they select is compared with the periods,
and the answers are unknown values named by what was asked for.

Only for the verifier.  A statement it cannot place is out of reach (no verdict); the in-memory database of specs.sql is
used natively."""
import datetime

from weatherlink import utils

from specs.base import *  # noqa
from specs import sql, summaries

RECORDS, SUMMARIES = 'weather_archive_record', 'weather_calculated_summary'
ROWS = ('DAILY', 'WEEKLY', 'MONTHLY', 'YEARLY')
KEYS = ('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day')
KNOWN = KEYS + ('timestamp_station',)


def parsed(statement):
    """(statement, number of placeholders)."""
    return sql.parse(statement)


def which(conditions):
    """The index of the first condition that is certainly true."""
    for i, c in enumerate(conditions):
        if c:
            return i
    return -1


def calendar(a, b):
    """Facts about two dates; nothing to do natively."""


def statistic(period, rows, function, column):
    """The statistic of a column over the rows of a period: unknown, but always the same; None if there is none."""
    raise OutOfReach()


def first_time(period, column, value):
    """The time of the first record of a period with that value."""
    raise OutOfReach()


def mode(period, column, other, value):
    """A most frequent value of a column over the records of a period (where another column has that value); None if there
    is none."""
    raise OutOfReach()


def best_ten(period, rows):
    """The ten-minute columns of the row that has the highest average, or None."""
    raise OutOfReach()


def records_of(period):
    """The records of a day, in order."""
    raise OutOfReach()


def ten_minutes(records):
    """What calculate_10_minute_wind_average makes of the records."""
    raise OutOfReach()


def conjuncts(c):
    if c is None:
        return []
    if c[0] == 'and':
        return conjuncts(c[1]) + conjuncts(c[2])
    return [c]


def term(e, row, args):
    if e[0] == 'arg':
        return args[e[1]]
    if e[0] == 'lit':
        return e[1]
    if e[0] != 'col' or e[1] not in row:
        raise OutOfReach()
    return row[e[1]]


def holds(c, row, args):
    if c[0] == 'and':
        return all([holds(c[1], row, args), holds(c[2], row, args)])
    if c[0] == 'or':
        return any([holds(c[1], row, args), holds(c[2], row, args)])
    if c[0] == 'not':
        return not holds(c[1], row, args)
    if c[0] == 'notnull' and c[1][0] == 'col' and c[1][1] in row:
        return True
    if c[0] != 'cmp':
        raise OutOfReach()
    a, b = term(c[2], row, args), term(c[3], row, args)
    if a is None or b is None:
        raise OutOfReach()
    if c[1] == '=' or c[1] == '<=>':
        return a == b
    if c[1] == '<>':
        return a != b
    if c[1] == '<':
        return a < b
    if c[1] == '<=':
        return a <= b
    if c[1] == '>':
        return a > b
    return a >= b


def every(cs, row, args):
    return all([holds(c, row, args) for c in cs])


def record_row(t):
    return {'timestamp_station': t, 'summary_year': t.year, 'summary_month': t.month, 'summary_day': t.day}


def summary_row(kind, d):
    """The key of the summary of one kind of a date."""
    if kind == 'DAILY':
        return {'summary_type': kind, 'summary_year': d.year, 'summary_month': d.month, 'summary_week': 0, 'summary_day': d.day}
    if kind == 'WEEKLY':
        iso = d.isocalendar()
        return {'summary_type': kind, 'summary_year': iso[0], 'summary_month': 0, 'summary_week': iso[1], 'summary_day': 0}
    return {'summary_type': kind, 'summary_year': d.year, 'summary_month': d.month if kind == 'MONTHLY' else 0,
            'summary_week': 0, 'summary_day': 0}


def monday(d):
    return d.toordinal() - d.weekday()


def in_period(kind, date, t):
    """Whether a time is in the period of a date."""
    if kind == 'DAILY':
        return all([t.year == date.year, t.month == date.month, t.day == date.day])
    if kind == 'WEEKLY':
        return all([monday(date) <= t.toordinal(), t.toordinal() <= monday(date) + 6])
    if kind == 'MONTHLY':
        return all([t.year == date.year, t.month == date.month])
    return t.year == date.year


def belongs(rows, kind, date, d):
    """Whether the summary of kind `rows` of the date d is one of those of the period of `date`."""
    if rows == 'WEEKLY' and kind == 'YEARLY':
        return d.isocalendar()[0] == date.year
    if rows == 'DAILY' or (rows == 'MONTHLY' and kind == 'YEARLY'):
        return in_period(kind, date, d)
    return False


class AbstractDB(object):
    """Knows the date, any record and any summary of each kind; which of the summaries there are."""

    def __init__(self, date, record, day, key, existing):
        self.date = date
        self.record = record_row(record)
        self.time = record
        self.day = day
        self.rows = [summary_row(k, day) for k in ROWS]
        self.key = key
        self.existing = existing
        self.columns = [{}, {}, {}, {}]      # set by the updates
        self.inserted = [False, False, False, False]
        self.fine = True                     # inserts, updates
        self.weeks = [(None, None)] * 4
        self.uncommitted = False
        self.open = 0
        start = date - datetime.timedelta(days=date.weekday())
        end = start + datetime.timedelta(days=6)
        for other in (record, day, end):
            calendar(start, other)
        for other in (record, day):
            calendar(end, other)

    def cursor(self, *args, **kwargs):
        return Cursor(self)

    def commit(self):
        self.uncommitted = False

    def close(self):
        pass

    def period_of_records(self, cs, args):
        k = which([every(cs, self.record, args) == in_period(kind, self.date, self.time) for kind in ROWS])
        if k < 0:
            raise OutOfReach()
        return ROWS[k]

    def period_of_summaries(self, cs, args):
        """(period, kind of the rows selected)."""
        chosen = [every(cs, row, args) for row in self.rows]
        options = [(kind, rows) for rows in ROWS for kind in ROWS if (rows == 'DAILY' and kind != 'DAILY') or
                   (kind == 'YEARLY' and rows in ('WEEKLY', 'MONTHLY'))]
        k = which([all([chosen[i] == (belongs(rows, kind, self.date, self.day) if ROWS[i] == rows else False)
                        for i in range(4)]) for kind, rows in options])
        if k < 0:
            raise OutOfReach()
        return options[k]

    def select(self, s, args):
        cols, table, where, group, order, limit = s[1:]
        cs = [c for c in conjuncts(where)]
        period = [c for c in cs if not special(c)]
        extra = [c for c in cs if special(c)]
        nulls = [c[1][1] for c in extra if c[0] == 'notnull']
        equals = [(c[2][1], args[c[3][1]]) for c in extra if c[0] == 'cmp']
        names = [c[1] for c in cols if c[0] == 'col']
        if cols[0][0] == 'fn':
            if extra or group is not None or any([c[0] != 'fn' or c[2][0] != 'col' for c in cols]):
                raise OutOfReach()
            if table == RECORDS:
                kind, rows = self.period_of_records(period, args), 'RECORDS'
            else:
                kind, rows = self.period_of_summaries(period, args)
            return [tuple([statistic(kind, rows, c[1], c[2][1]) for c in cols])]
        if len(names) != len(cols):
            raise OutOfReach()
        if group is not None:
            if names != [group[1]] or nulls != names or order != ((('fn', 'count', ('lit', 1)), True),) or limit != 1 or \
                    len(equals) > 1 or table != RECORDS:
                raise OutOfReach()
            kind = self.period_of_records(period, args)
            v = mode(kind, names[0], equals[0][0] if equals else None, equals[0][1] if equals else None)
            return [] if v is None else [(v,)]
        if names == ['summary_id'] and table == SUMMARIES and not extra:
            k = which([every(period, self.key, args) == all([self.key[c] == summary_row(kind, self.date)[c] for c in KEYS])
                       for kind in ROWS])
            if k < 0:
                raise OutOfReach()
            return [(k + 101,)] if self.existing[k] else []
        if table == RECORDS and not extra and limit is None and order == ((('col', 'timestamp_station'), False),) and \
                names == ['wind_speed', 'wind_speed_direction', 'timestamp_station', 'minutes_covered']:
            return records_of(self.period_of_records(period, args))
        if limit != 1 or len(order) != 1:
            raise OutOfReach()
        if names == summaries.TEN and table == SUMMARIES and nulls == [names[0]] and not equals and \
                order == ((('col', names[0]), True),):
            kind, rows = self.period_of_summaries(period, args)
            r = best_ten(kind, rows)
            return [] if r is None else [r]
        if len(names) != 1 or len(equals) != 1 or any([n != equals[0][0] for n in nulls]) or order != ((('col', names[0]), False),):
            raise OutOfReach()
        column, value = equals[0]
        if table == RECORDS and names == ['timestamp_station']:
            return [(first_time(self.period_of_records(period, args), column, value),)]
        if table == SUMMARIES and names == [column + '_timestamp'] and column in summaries.RULES:
            # the days of the period, each with the time of the first record of its extreme: the first of them all
            kind, rows = self.period_of_summaries(period, args)
            if rows != 'DAILY':
                raise OutOfReach()
            return [(first_time(kind, summaries.RULES[column][1], value),)]
        raise OutOfReach()

    def insert(self, s, args):
        table, cols, vals, dup = s[1:]
        if table != SUMMARIES or dup is not None or len(cols) != len(vals):
            raise OutOfReach()
        row = {}
        for c, v in zip(cols, vals):
            row[c] = term(v, {}, args)
        k = which([all([c in row and row[c] == summary_row(kind, self.date)[c] for c in KEYS]) for kind in ROWS])
        if k < 0:
            raise OutOfReach()
        self.fine = all([self.fine, not self.existing[k], not self.inserted[k]])
        self.inserted[k] = True
        self.weeks[k] = (row['week_start'] if 'week_start' in row else None, row['week_end'] if 'week_end' in row else None)
        for c in row:
            if c not in KEYS + ('week_start', 'week_end'):
                self.columns[k][c] = row[c]
        self.uncommitted = True
        return k + 101

    def update(self, s, args):
        table, sets, where = s[1:]
        if table != SUMMARIES or where is None or where[0] != 'cmp' or where[1] != '=' or where[2] != ('col', 'summary_id'):
            raise OutOfReach()
        number = term(where[3], {}, args)
        k = which([number == i + 101 for i in range(4)])
        if k < 0:
            raise OutOfReach()
        self.fine = all([self.fine, any([self.existing[k], self.inserted[k]])])
        for c, v in sets:
            self.columns[k][c] = term(v, {}, args)
        self.uncommitted = True

    def run(self, cursor, s, args):
        if s[0] == 'select':
            return self.select(s, args)
        if s[0] == 'insert':
            cursor.lastrowid = self.insert(s, args)
            return None
        if s[0] != 'update':
            raise OutOfReach()
        self.update(s, args)
        return None


def special(c):
    """Not about the period: a column with a value, or with a certain one."""
    if c[0] == 'notnull':
        return c[1][0] == 'col' and c[1][1] not in KNOWN
    return c[0] == 'cmp' and c[1] == '=' and c[2][0] == 'col' and c[2][1] not in KNOWN and c[3][0] == 'arg'


class Cursor(object):
    def __init__(self, db):
        self.db = db
        self.rows = None
        self.lastrowid = None
        self.closed = False
        db.open = db.open + 1

    def execute(self, statement, arguments=None):
        s, n = parsed(statement)
        args = list(arguments) if arguments else []
        if len(args) != n:
            raise sql.SQLError('%d placeholders' % n)
        self.rows = self.db.run(self, s, args)

    def fetchone(self):
        if not self.rows:
            return None
        r = self.rows[0]
        self.rows = self.rows[1:]
        return r

    def fetchall(self):
        r = self.rows
        self.rows = None
        return r

    def __iter__(self):
        r = self.rows
        self.rows = None
        return iter(r)

    def close(self):
        if not self.closed:
            self.closed = True
            self.db.open = self.db.open - 1


def install(eng):
    import z3
    from pyver import models
    from pyver.values import SDec, SOpaque, SSeq, SDateTime, Union, Unsupported
    from pyver.ops import zbool, real_t, z_not, is_num
    R, B = z3.RealSort(), z3.BoolSort()
    known = {}

    def real_or_none(name):
        has = z3.Bool('has!' + name)
        return Union([(has, SDec(z3.Real(name))), (z3.Not(has), None)])

    def opaque(name, sort):
        return SOpaque(z3.Const(name, z3.DeclareSort(sort)), None)

    def texts(e, a):
        out = [e.resolve(v) for v in a]
        if not all(v is None or isinstance(v, str) for v in out):
            raise Unsupported('not a text')
        return out

    def c_parsed(e, a, k):
        v = e.resolve(a[0])
        if not isinstance(v, str):
            raise Unsupported('statement %r' % (v,))
        return sql.parse(v)

    def c_which(e, a, k):
        conds = e.iter_values(a[0])
        key = []
        for c in conds:
            t = e.truth(c)
            e.keep.append(zbool(t))
            key.append(zbool(t).get_id())
        key = tuple(key)
        here = set(c.get_id() for c in e.st.pc)
        for pc, i in known.get(key, ()):
            if pc <= here:
                return i
        for i, c in enumerate(conds):
            t = e.truth(c)
            if t is True or (t is not False and e.valid(t)):
                e.keep.extend(e.st.pc)
                known.setdefault(key, []).append((here, i))
                return i
        return -1

    def c_statistic(e, a, k):
        return real_or_none('%s(%s of %s of %s)' % tuple(texts(e, (a[2], a[3], a[1], a[0]))))

    def number(e, v):
        v = e.resolve(v)
        if not is_num(v):
            raise Unsupported('not a number')
        return real_t(v)

    def c_first(e, a, k):
        p, c = texts(e, a[:2])
        S = z3.DeclareSort('Stamp')
        return SOpaque(z3.Function('first(%s of %s)' % (c, p), R, S)(number(e, a[2])), None)

    def c_mode(e, a, k):
        p, c, o = texts(e, a[:3])
        S = z3.DeclareSort('Direction')
        n = 'mode(%s of %s%s)' % (c, p, ' by ' + o if o else '')
        if o is None:
            has, t = z3.Bool('has!' + n), z3.Const(n, S)
        else:
            v = number(e, a[3])
            has, t = z3.Function('has!' + n, R, B)(v), z3.Function(n, R, S)(v)
        return Union([(has, SOpaque(t, None)), (z3.Not(has), None)])

    def c_ten(e, a, k):
        n = 'ten(%s of %s)' % tuple(texts(e, (a[1], a[0])))
        has = z3.Bool('has!' + n)
        return Union([(has, tuple(opaque('%s.%d' % (n, i), 'Ten') for i in range(4))), (z3.Not(has), None)])

    def c_records(e, a, k):
        p, = texts(e, a)
        return SSeq('records of %s' % p, z3.Int('number of records'), lambda e2, i: opaque('a record', 'Record'),
                    {'pytype': list})

    def c_average(e, a, k):
        v = e.resolve(a[0])
        v = models.seq_of(e, v) if hasattr(models, 'seq_of') else v
        if not isinstance(v, SSeq) or not v.name.startswith('records of '):
            raise Unsupported('other records: %r' % (v,))
        n = 'ten minutes'

        def opt(i, x):
            has = z3.Bool('has!%s.%d' % (n, i))
            return Union([(has, x), (z3.Not(has), None)])

        def stamp(i):
            o, s = z3.Int('%s.%d.day' % (n, i)), z3.Int('%s.%d.sod' % (n, i))
            e.axiom(('ten', i), lambda: [o >= 700000, o <= 800000, s >= 0, s < 86400])
            return SDateTime(o, s)
        e.contract_uses['calculate_10_minute_wind_average'] = e.contract_uses.get('calculate_10_minute_wind_average', 0) + 1
        return (opt(0, SDec(z3.Real(n))), opt(1, opaque(n + '.direction', 'Direction')), opt(2, stamp(2)), opt(3, stamp(3)))

    def c_calendar(e, a, k):
        models.calendar_facts(e, e.resolve(a[0]), e.resolve(a[1]))
        return None
    eng.contracts.update({parsed: c_parsed, which: c_which, statistic: c_statistic, first_time: c_first, mode: c_mode,
                          best_ten: c_ten, records_of: c_records, calendar: c_calendar, ten_minutes: c_average,
                          utils.calculate_10_minute_wind_average: c_average})
