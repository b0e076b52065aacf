"""C26: rain events."""
import datetime

import mysql.connector

from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import absdb, rain, sql, world
from specs.c25 import connect

FILES = ['weatherlink/exporter/mysql.py']
HOURS = datetime.timedelta(hours=3)


class Rain(Domain):
    """Archive records in order of time, with rain now and then."""

    def __init__(self, maxlen=14):
        self.maxlen = maxlen

    def sample(self, rng, hints):
        t = datetime.datetime(2016, 2, 28, 20, 30)
        out = []
        minutes = rng.choice([1, 5, 30, 60])
        wet = rng.choice([0.2, 0.5, 0.9])
        n = rng.randint(0, self.maxlen)
        many = size(rng, n, 500)
        if many > self.maxlen:
            # many records, or many events, or many records of rain
            n = many * rng.choice([1, 1, 2])
            wet = rng.choice([0.2, 0.9, 1])
            gaps = rng.choice([[minutes], [minutes, 60], [181, 600, 1500], [minutes, minutes, 60, 181]])
            for _ in range(n):
                t += datetime.timedelta(minutes=rng.choice(gaps))
                out.append((t, D(rng.choice([1, 2, 5])) / 100 if rng.random() < wet else D(0),
                            D(rng.choice([0, 0, 10, 24, 24, 50])) / 100))
            return out
        for _ in range(n):
            t += datetime.timedelta(minutes=rng.choice([minutes, minutes, minutes, 60, 179, 180, 181, 600,
                                                               rng.choice([1439, 1440, 1441, 1500, 1620, 1621, 4400, 44640])]))
            out.append((t, D(rng.choice([1, 2, 5])) / 100 if rng.random() < wet else rng.choice([D(0), D('0.000')]),
                        D(rng.choice([0, 0, 10, 24, 24, 50])) / 100))
        return out


class LongRain(Domain):
    """It rains for longer than anybody expects."""

    def sample(self, rng, hints):
        t = datetime.datetime(2016, 2, 28, 20, 30)
        n = rng.choice([1438, 1439, 1440, 1441, 1442, 2881, 3000])
        rates = [D(rng.randint(0, 50)) / 100 for _ in range(7)]
        out = [(t + datetime.timedelta(minutes=i), D('0.01') if i % 3 == 0 else D(0), rates[i % 7]) for i in range(n)]
        last = out[-1][0]
        tail = rng.choice([[], [(last + datetime.timedelta(hours=5), D(0), D(0))],
                           [(last + datetime.timedelta(hours=5), D('0.02'), D('0.3'))]])
        return out + tail


def events(records):
    """The rain events of records in order of time: dictionaries of the columns."""
    out = []
    cur = None
    for t, rain, rate in records:
        if cur is not None and t - cur[-1][0] > HOURS:
            out.append((cur, True))
            cur = None
        if rain > 0:
            cur = (cur or []) + [(t, rain, rate)]
    if cur is not None:
        out.append((cur, records[-1][0] - cur[-1][0] >= HOURS))
    rows = []
    for rs, closed in out:
        best = max(r[2] for r in rs)
        rows.append({'timestamp_start': rs[0][0], 'timestamp_end': rs[-1][0] if closed else None,
                     'timestamp_rain_rate_high': [r[0] for r in rs if r[2] == best][0], 'rain_total': sum(r[1] for r in rs),
                     'rain_rate_average': (sum(r[2] for r in rs) / len(rs)).quantize(D('0.01')), 'rain_rate_high': best})
    return rows


class Events(Case):
    """Natively (bounded): the events found in one go, or as the records come in."""
    name = 'events'
    bounded = True
    inputs = {'records': Rain(), 'split': Int(0, 14), 'steps': Choice(1, 2, 3), 'shuffle': Bool_()}

    def run(self, x):
        db = sql.Database()
        saved = mysql.connector.connect
        mysql.connector.connect = connect(db)
        out = []
        try:
            e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
            e.connect()
            cuts = [len(x.records)] if x.steps == 1 else [x.split, len(x.records)] if x.steps == 2 else \
                list(range(len(x.records) + 1))
            rows = db.rows('weather_archive_record')
            have = 0
            for n in cuts:
                for t, rain, rate in x.records[have:max(n, have)]:
                    row = {'timestamp_station': t, 'rain_total': rain, 'rain_rate_high': rate}
                    rows.insert(0 if x.shuffle else len(rows), row)
                have = max(n, have)
                out.append((have, e.find_new_rain_events(), [dict(r) for r in db.rows('weather_rain_event')], db.uncommitted,
                            db.open))
        finally:
            mysql.connector.connect = saved
        return out

    def post(self, r, x):
        out = []
        before = 0
        for n, result, rows, uncommitted, is_open in r:
            want = events(x.records[:n])
            got = dict((e['timestamp_start'], e) for e in rows)
            out.append(('one-row-per-event', len(got) == len(rows)))
            out.append(('starts', sorted(got) == [e['timestamp_start'] for e in want]))
            for e in want:
                g = got.get(e['timestamp_start'])
                if g is not None:
                    for c in e:
                        if g.get(c) != e[c]:
                            out.append((c, False))
            closed = len([e for e in want if e['timestamp_end'] is not None])
            out.append(('counts', tuple(result) == (closed - before, len(want) - closed)))
            before = closed
            out.append(('committed', not uncommitted and is_open == 0))
        return out


class Long(Events):
    name = 'long-events'
    inputs = {'records': LongRain(), 'split': Choice(0, 1000, 1440, 1441), 'steps': Choice(1, 2), 'shuffle': Choice(False)}


class Stamp(Domain):
    """A date and time that is only compared with others."""

    def symbolic(self, lf):
        import z3
        from pyver.values import SDateTime
        o, sod = lf.sub('ord').const(z3.IntSort()), lf.sub('sod').const(z3.IntSort())
        lf.fact(z3.And(o >= 1, o <= 3652059, sod >= 0, sod < 86400))
        return SDateTime(o, sod)


class Search(Case):
    """Any number of records, the events before any of them recorded by earlier searches."""
    name = 'search'
    abstract = True
    search = False
    budget = 240
    timeout = 300
    afresh = 4000
    inputs = {'records': Seq(Tup(Stamp(), Dec('0', '1000', places=3), Dec('0', '1000', places=3)), name='records'),
              'any': Int(0, 10 ** 9), 'q': Int(0, 10 ** 9), 'p': Int(0, 10 ** 9), 'latest': Opt(Stamp()), 'there': Bool_(),
              'end': Opt(Stamp()), 'high_at': Stamp(), 'total': Number(), 'average': Number(), 'high': Number(),
              'nothing_left': Bool_()}
    folds = (rain.RAIN, rain.DURING, rain.FOUND)

    def setup(self, eng):
        absdb.install(eng)
        rain.install(eng)
        real = getattr(exporter.MySQLExporter, '_iterate_rain_after', None)
        if real is not None:
            eng.contracts[real] = records_after

    def patches(self):
        return ((mysql.connector, 'connect', connection_of),)

    def pre(self, x):
        n = len(x.records)
        r = rain.at(x, x.p)
        return all([x.p <= n, x.any < n, x.q < n,
                    any([all([x.latest is None, not r.on, x.p == 0]),
                         all([x.latest is not None and x.latest == rain.when(x, r.last), r.on, rain.dry(x, x.p)])]),
                    rain.row_fits(x, x, x.p)])

    def run(self, x):
        w = rain.RainDB(x)
        world.put(w)
        e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
        e.connect()
        return e.find_new_rain_events(), w

    def post(self, r, x):
        (found, ongoing), w = r
        n = len(x.records)
        v = rain.at(x, rain.gap_after(x, x.q + 1))
        last = rain.when(x, v.last)
        closed = any([rain.gap_after(x, x.q + 1) < n, rain.when(x, n - 1) - last >= HOURS])
        first = rain.starts(x, x.q)
        rain.about(x, x.q, rain.gap_after(x, x.q + 1))
        rain.close_until(x, x.q + 1, w.p)
        end = rain.at(x, n)
        going_on = 1 if all([end.on, rain.when(x, n - 1) - rain.when(x, end.last) < HOURS]) else 0
        b = rain.next_wet(x, rain.at(x, w.p).last + 1)
        rain.known(x, w.p, n)
        rain.later(x, w.p, n - 1)
        rain.known(x, w.p, b)
        rain.event_known(x, w.p, b)
        return [('a-row-for-each-start', w.there == first), ('the-event-of-the-start', not first or v.start == x.q),
                ('total', not first or w.total == v.total), ('high', not first or w.high == v.high),
                ('time-of-the-highest-rate', not first or w.high_at == rain.when(x, v.high_at)),
                ('average', not first or w.average == rain.mean(v)),
                ('end', not first or (w.end is not None and w.end == last if closed else w.end is None)),
                ('going-on', ongoing == going_on), ('closed-now', found == end.events - going_on - rain.at(x, x.p).events),
                ('committed', w.committed), ('closed-cursors', w.open == 0), ('in-order', w.fine)]


def connection_of(*args, **kwargs):
    return world.get()


def records_after(e, a, k):
    """Contract of _iterate_rain_after(cursor, timestamp); its own case is below."""
    args = [e.resolve(v) for v in a]
    return e.call(after, tuple(args[-1:]), {})


def after(ts):
    w = world.get()
    return rain.tail(w.x, w.number_of(ts))


class Batches(Search):
    """_iterate_rain_after on its own: the records after a time, each once and in order, however many there are."""
    name = 'records-after'
    inputs = {'records': Search.inputs['records'], 'any': Int(0, 10 ** 9), 'start': Int(0, 10 ** 9)}
    folds = (rain.PLAIN, rain.ONE_BATCH, rain.BATCHES)

    def setup(self, eng):
        absdb.install(eng)
        rain.install(eng)

    def pre(self, x):
        return all([x.any < len(x.records), x.start < len(x.records)])

    def run(self, x):
        w = rain.Handed(x)
        world.put(w)
        for r in exporter.MySQLExporter._iterate_rain_after(rain.Cursor(w), rain.when(x, x.start)):
            w.see(r)
        return w

    def post(self, w, x):
        return [('each-in-order', w.fine), ('all', w.next == len(x.records))]


CASES = [Search(), Batches(), Events(), Long()]
