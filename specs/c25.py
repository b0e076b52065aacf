"""C25: the summaries, column by column.

Natively (bounded): the exporter runs on a small database with records in it, and every summary is compared with an oracle
that does not use SQL."""
import datetime

import mysql.connector

from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import absdb, sql, summaries, world

FILES = ['weatherlink/exporter/mysql.py']
DIRECTIONS = ['N', 'NE', 'E', 'SSW', 'W']


def archive_row(rng, stamp, minutes):
    row = {'timestamp_station': stamp, 'timestamp_weatherlink': None, 'minutes_covered': minutes, 'summary_year': stamp.year,
           'summary_month': stamp.month, 'summary_day': stamp.day, 'timestamp_utc': stamp}
    for c in summaries.ARCHIVE:
        if c in row or c == 'record_id':
            continue
        r = rng.random()
        if r < 0.2:
            row[c] = None
        elif c.endswith('direction'):
            row[c] = rng.choice(DIRECTIONS)
        elif r < 0.35:
            row[c] = 0
        elif c.startswith('wind_speed') or c.startswith('humidity') or c.startswith('solar'):
            row[c] = rng.randint(0, 3)
        elif c.startswith('temperature') or c[:3] in ('dew', 'thw', 'ths', 'hea') or c.startswith('wind_chill'):
            row[c] = D(rng.randint(-30, 30)) / 10 + (65 if rng.random() < 0.3 else 0)
        else:
            row[c] = D(rng.randint(0, 30)) / 10
    return row


class Records(Domain):
    """Archive records on a few days around the borders of weeks, months and years."""

    def sample(self, rng, hints):
        base = rng.choice([datetime.datetime(2015, 12, 27), datetime.datetime(2016, 2, 25), datetime.datetime(2016, 10, 29),
                           datetime.datetime(2021, 1, 1), datetime.datetime(2018, 12, 30)])
        base += datetime.timedelta(days=rng.randint(-1, 2))
        minutes = rng.choice([1, 5, 10, 30])
        n = max(1, size(rng, rng.randint(1, 8), 60))
        out, seen = [], set()
        for _ in range(n):
            t = base + datetime.timedelta(days=rng.choice([0, 0, 0, 1, 2, 6, 31]), hours=rng.choice([0, 0, 5, 23]),
                                          minutes=rng.choice([0, 5, 30, 55]))
            k = min(size(rng, rng.choice([1, 1, 2, 12 if minutes == 1 else 2]), 60), 300 // n)
            for i in range(k):
                s = t + datetime.timedelta(minutes=minutes * i)
                if s not in seen:
                    seen.add(s)
                    out.append(archive_row(rng, s, minutes))
        rng.shuffle(out)
        return out


def connect(db):
    db.connected = 0

    def make(*args, **kwargs):
        db.connected += 1
        return sql.Connection(db)
    return make


class Summaries(Case):
    """All four kinds of summaries of a set of records."""
    name = 'summaries'
    bounded = True
    inputs = {'records': Records(), 'again': Bool_(), 'times': Bool_()}

    def run(self, x):
        db = sql.Database()
        rows = [dict(r) for r in x.records]
        for i, r in enumerate(rows):
            r['timestamp_weatherlink'] = i
        db.tables['weather_archive_record'] = rows
        saved = mysql.connector.connect
        mysql.connector.connect = connect(db)
        try:
            e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
            e.connect()
            dates = [r['timestamp_station'] for r in rows]
            e.recalculate_summaries_for_dates(dates)
            if x.again:
                # more records for the same days: the summaries there are are updated
                for r in rows[:1]:
                    r['temperature_outside_low'] = D('-60.5')
                    r['rain_rate_high'] = D('0')
                e.recalculate_summaries_for_dates(dates)
            e.disconnect()
        finally:
            mysql.connector.connect = saved
        return db

    def post(self, db, x):
        rows = db.rows('weather_archive_record')
        sums = db.rows('weather_calculated_summary')
        by_key = {}
        for s in sums:
            by_key.setdefault(summaries.key_of(s), []).append(s)
        out = []
        wanted = {}
        for r in rows:
            for kind in summaries.KINDS:
                wanted[summaries.key(kind, r['timestamp_station'])] = (kind, r['timestamp_station'])
        out.append(('one-summary-per-period', sorted(by_key) == sorted(wanted) and all(len(v) == 1 for v in by_key.values())))
        for k in sorted(wanted):
            if k in by_key:
                bad = summaries.wrong(by_key[k][0], wanted[k][0], wanted[k][1], rows, sums)
                for c in sorted(bad):
                    out.append(('%s-%s' % (wanted[k][0].lower(), c), False))
        out.append(('committed', not db.uncommitted))
        out.append(('cursors-closed', db.open == 0))
        return out


def abstract_connect(*args, **kwargs):
    return world.get()


DATES = DateTime_(datetime.datetime(2000, 1, 1), datetime.datetime(2099, 12, 31))
ANY_KEY = Rec({'summary_type': Choice(*absdb.ROWS), 'summary_year': Int(0, 9999), 'summary_month': Int(0, 12),
               'summary_week': Int(0, 53), 'summary_day': Int(0, 31)})


class OneDate(Case):
    """The four summaries of any date, with any records: which rows each statement reads, and what is stored where."""
    name = 'one-date'
    abstract = True
    search = False
    budget = 300
    inputs = {'date': DATES, 'record': DATES, 'day': Date_(), 'key': ANY_KEY, 'existing': Tup(Bool_(), Bool_(), Bool_(), Bool_())}

    def patches(self):
        return [(mysql.connector, 'connect', abstract_connect)]

    def setup(self, eng):
        absdb.install(eng)

    def run(self, x):
        w = absdb.AbstractDB(x.date, x.record, x.day, x.key, x.existing)
        world.put(w)
        e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
        e.connect()
        e.recalculate_summaries_for_dates([x.date])
        return w

    def post(self, w, x):
        out = [('statements', w.fine), ('committed', not w.uncommitted), ('cursors-closed', w.open == 0)]
        monday = (x.date - datetime.timedelta(days=x.date.weekday())).date()
        for k in range(4):
            kind = absdb.ROWS[k]
            low = kind.lower() + '-'
            row = w.columns[k]
            stat = absdb.statistic
            out.append((low + 'there', x.existing[k] or w.inserted[k]))
            week = (monday, monday + datetime.timedelta(days=6)) if kind == 'WEEKLY' else (None, None)
            out.append((low + 'week', x.existing[k] or w.weeks[k] == week))
            want = {}
            for c in summaries.RULES:
                want[c] = stat(kind, 'RECORDS', summaries.RULES[c][0], summaries.RULES[c][1])
            for c in summaries.TIMESTAMPS:
                v = want[c[:-10]]
                want[c] = None if v is None else absdb.first_time(kind, summaries.RULES[c[:-10]][1], v)
            high = want['wind_speed_high']
            want['wind_direction_prevailing'] = absdb.mode(kind, 'wind_speed_direction', None, None) if high else None
            want['wind_speed_high_direction'] = \
                absdb.mode(kind, 'wind_speed_high_direction', 'wind_speed_high', high) if high else None
            for c in sorted(want):
                out.append((low + c, c in row and row[c] == want[c]))
            if kind == 'DAILY':
                want = self.daily(want['temperature_outside_average'])
                alternatives = [want]
            elif kind == 'YEARLY':
                alternatives = [self.longer(kind, 'MONTHLY'), self.longer(kind, 'DAILY')]
            else:
                alternatives = [self.longer(kind, 'DAILY')]
            for c in sorted(alternatives[0]):
                out.append((low + c, c in row and any([row[c] == a[c] for a in alternatives])))
            runs = {'WEEKLY': ('DAILY',), 'MONTHLY': ('DAILY',), 'YEARLY': ('DAILY', 'WEEKLY', 'MONTHLY')}
            for rows in runs.get(kind, ()):
                c = 'wind_run_distance_%s_average' % rows.lower()
                out.append((low + c, c in row and row[c] == stat(kind, rows, 'avg', 'wind_run_distance_total')))
        return out

    def daily(self, t):
        ten = absdb.ten_minutes(absdb.records_of('DAILY'))
        return {'integrated_heating_degree_days': None if t is None or t >= 65 else 65 - t,
                'integrated_cooling_degree_days': None if t is None or t <= 65 else t - 65,
                summaries.TEN[0]: ten[0], summaries.TEN[1]: ten[1],
                summaries.TEN[2]: None if ten[2] is None else ten[2] - datetime.timedelta(minutes=1),
                summaries.TEN[3]: None if ten[3] is None else ten[3].time()}

    def longer(self, kind, rows):
        best = absdb.best_ten(kind, rows)
        out = {}
        for i in range(4):
            out[summaries.TEN[i]] = None if best is None else best[i]
        for c in ('integrated_heating_degree_days', 'integrated_cooling_degree_days'):
            out[c] = absdb.statistic(kind, rows, 'sum', c)
        return out


CASES = [OneDate(), Summaries()]
