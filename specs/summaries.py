"""What the summaries of a set of archive records are: the oracle of C24 and C25, independent of the exporter's SQL."""
import datetime
import decimal
import io
import os
import re

from weatherlink import utils
from weatherlink.exporter import mysql as exporter

D = decimal.Decimal


def schema():
    """{table: [columns]} of mysql.sql."""
    path = os.path.join(os.path.dirname(exporter.__file__), 'mysql.sql')
    with io.open(path, encoding='utf-8') as f:
        text = f.read()
    out = {}
    for m in re.finditer(r'CREATE TABLE `(\w+)` \((.*?)\n\) ', text, re.S):
        out[m.group(1)] = re.findall(r'^\s+`(\w+)` ', m.group(2), re.M)
    return out


SCHEMA = schema()
ARCHIVE = SCHEMA['weather_archive_record']
SUMMARY = SCHEMA['weather_calculated_summary']


def rule(column):
    """(statistic, archive column) of a summary column, or None if it is not a plain statistic."""
    if column in ('rain_total', 'evapotranspiration', 'wind_run_distance_total'):
        return 'sum', column
    for suffix, stat in (('_low', 'min'), ('_high', 'max')):
        if column.endswith(suffix):
            base = column[:-len(suffix)]
            return stat, column if column in ARCHIVE else base
    if column.endswith('_average') and column[:-8] in ARCHIVE:
        return 'avg', column[:-8]
    return None


RULES = dict((c, rule(c)) for c in SUMMARY if rule(c))
TIMESTAMPS = [c for c in SUMMARY if c.endswith('_timestamp')]


def statistic(stat, values):
    vs = [v for v in values if v is not None]
    if not vs:
        return None
    if stat == 'min':
        return min(vs)
    if stat == 'max':
        return max(vs)
    s = sum([D(v) for v in vs])
    return s if stat == 'sum' else s / len(vs)


def modes(values):
    """The most frequent values."""
    count = {}
    for v in values:
        if v is not None:
            count[v] = count.get(v, 0) + 1
    return [v for v in count if count[v] == max(count.values())]


def period(kind, date):
    """(first, last) day of the period of a date."""
    day = datetime.date(date.year, date.month, date.day)
    one = datetime.timedelta(days=1)
    if kind == 'DAILY':
        return day, day
    if kind == 'WEEKLY':
        a = day - one * day.weekday()
        return a, a + one * 6
    if kind == 'MONTHLY':
        b = (day.replace(day=28) + one * 4).replace(day=1) - one
        return day.replace(day=1), b
    return day.replace(month=1, day=1), day.replace(month=12, day=31)


def key(kind, date):
    """(type, year, month, week, day) of the summary."""
    if kind == 'DAILY':
        return kind, date.year, date.month, 0, date.day
    if kind == 'WEEKLY':
        iso = tuple(datetime.date(date.year, date.month, date.day).isocalendar())
        return kind, iso[0], 0, iso[1], 0
    if kind == 'MONTHLY':
        return kind, date.year, date.month, 0, 0
    return kind, date.year, 0, 0, 0


KINDS = ('DAILY', 'WEEKLY', 'MONTHLY', 'YEARLY')


def key_of(row):
    return tuple(row[c] for c in ('summary_type', 'summary_year', 'summary_month', 'summary_week', 'summary_day'))


def within(rows, first, last):
    return [r for r in rows if first <= r['timestamp_station'].date() <= last]


def plain(rows):
    """The plain statistics, and the time of the extremes."""
    out = {}
    for c, (stat, source) in RULES.items():
        out[c] = statistic(stat, [r[source] for r in rows])
    for c in TIMESTAMPS:
        v = out[c[:-10]]
        stamps = [r['timestamp_station'] for r in rows if r[RULES[c[:-10]][1]] == v]
        out[c] = None if v is None else min(stamps)
    return out


def directions(rows):
    """The prevailing direction and that of the highest speed: the values allowed."""
    high = statistic('max', [r['wind_speed_high'] for r in rows])
    if not high:
        return [None], [None]
    a = modes([r['wind_speed_direction'] for r in rows]) or [None]
    b = modes([r['wind_speed_high_direction'] for r in rows if r['wind_speed_high'] == high]) or [None]
    return a, b


TEN = ['wind_speed_high_10_minute_average' + s for s in ('', '_direction', '_start', '_end')]


def daily_extras(rows):
    rows = sorted(rows, key=lambda r: r['timestamp_station'])
    ten = utils.calculate_10_minute_wind_average(
        [(r['wind_speed'], r['wind_speed_direction'], r['timestamp_station'], r['minutes_covered']) for r in rows])
    start = ten[2] and ten[2] - datetime.timedelta(minutes=1)
    end = ten[3] and ten[3].time()
    t = statistic('avg', [r['temperature_outside'] for r in rows])
    hdd = t is not None and t < 65 and 65 - t or None
    cdd = t is not None and t > 65 and t - 65 or None
    return {'integrated_heating_degree_days': hdd, 'integrated_cooling_degree_days': cdd,
            TEN[0]: ten[0], TEN[1]: ten[1], TEN[2]: start, TEN[3]: end}


def aggregated(parts):
    """Degree days and the highest ten minutes of the summaries of the days (months) of a period: (exact, best)."""
    out = {c: statistic('sum', [p.get(c) for p in parts])
           for c in ('integrated_heating_degree_days', 'integrated_cooling_degree_days')}
    v = statistic('max', [p.get(TEN[0]) for p in parts])
    best = [tuple(p.get(c) for c in TEN) for p in parts if v is not None and p.get(TEN[0]) == v] or [(None,) * 4]
    return out, best


def equal(a, b):
    if a is None or b is None or isinstance(a, (datetime.date, datetime.time, str)):
        return a == b
    return abs(D(a) - D(b)) < D('0.000000001')


def wrong(row, kind, date, rows, summaries):
    """What is wrong with the summary `row` of the period of `date`: names of columns."""
    first, last = period(kind, date)
    mine = within(rows, first, last)
    bad = []
    want = plain(mine)
    for c in want:
        if not equal(row.get(c), want[c]):
            bad.append(c)
    a, b = directions(mine)
    if row.get('wind_direction_prevailing') not in a:
        bad.append('wind_direction_prevailing')
    if row.get('wind_speed_high_direction') not in b:
        bad.append('wind_speed_high_direction')
    if kind == 'DAILY':
        want = daily_extras(mine)
        bad.extend(c for c in want if not equal(row.get(c), want[c]))
        return bad
    days = [s for s in summaries if s['summary_type'] == 'DAILY' and
            first <= datetime.date(s['summary_year'], s['summary_month'], s['summary_day']) <= last]
    months = [s for s in summaries if s['summary_type'] == 'MONTHLY' and s['summary_year'] == date.year]
    weeks = [s for s in summaries if s['summary_type'] == 'WEEKLY' and s['summary_year'] == date.year]
    exact, best = aggregated(days)
    for c in exact:
        if not equal(row.get(c), exact[c]):
            bad.append(c)
    if tuple(row.get(c) for c in TEN) not in best:
        bad.append(TEN[0])

    def run(parts):
        return statistic('avg', [p.get('wind_run_distance_total') for p in parts])
    runs = {'wind_run_distance_daily_average': run(days)}
    if kind == 'YEARLY':
        runs['wind_run_distance_weekly_average'] = run(weeks)
        runs['wind_run_distance_monthly_average'] = run(months)
    bad.extend(c for c in runs if not equal(row.get(c), runs[c]))
    if kind == 'WEEKLY' and (row.get('week_start'), row.get('week_end')) != (first, last):
        bad.append('week_start')
    return bad
