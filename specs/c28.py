"""C28: gust and average wind direction of rapid updates, over the records sent so far."""
import pytz

from weatherlink import models
from weatherlink.exporter import wunderground

from specs.base import *  # noqa
from specs import c27, web, world, zones

FILES = ['weatherlink/exporter/wunderground.py']
GUST, AVERAGE = 25, 49
OTHERS = [k for k in sorted(set(c27.RAPID.values())) if k not in ('wind_speed', 'wind_direction_degrees')]
STAMP = datetime.datetime(2016, 4, 1, 12, 0, 0)
SPEED = Opt(Int(0, 255, special=(0, 1)))
DEGREES = Opt(Int(1, 360))


def record(wind):
    r = models.LoopRecord()
    r['date'] = STAMP
    for k in OTHERS:
        r[k] = None
    r['wind_speed'], r['wind_direction_degrees'] = wind
    return r


def near(v, want):
    """As far as a float can tell."""
    if v is None or want is None:
        return v is None and want is None
    d = abs(want) * D('1E-12')
    return -d <= v - want and v - want <= d


def send_all(e, records):
    """Contract for the verifier: sending a record puts it in front of the queue and changes nothing else, whether the
    upload succeeds or not (case `queue`)."""
    for r in records:
        e.send_rapid_update(r)


def send_all_contract(eng, args, kwargs):
    from pyver import models as m
    e, records = args[:2]
    queue = eng.get_attr(eng.resolve(e), 'record_queue')
    put = eng.get_attr(eng.resolve(queue), 'appendleft')
    for r in m.iter_values(eng, eng.resolve(records)):
        eng.call(put, (r,), {})
    return None


class Queue(Case):
    """What sending a record does to the queue."""
    name = 'queue'
    search = False
    abstract = True
    inputs = {'wind': Tup(SPEED, DEGREES), 'status': Int(100, 599, special=(200, 500))}

    def setup(self, eng):
        web.install(eng)
        zones.install(eng)

    def patches(self):
        return web.patches(wunderground)

    def run(self, x):
        out = []
        for n in (0, 1, 49, 50):
            world.put(web.WebWorld(web.Answer(x.status, 'success')))
            e = wunderground.WundergroundExporter('K', 'p')
            if not hasattr(e, 'record_queue') or not hasattr(e.record_queue, 'appendleft'):
                raise OutOfReach()
            old = [record((None, None)) for i in range(n)]
            for r in old:
                e.record_queue.appendleft(r)
            new = record(x.wind)
            try:
                e.send_rapid_update(new)
            except AssertionError:
                pass
            out.append((old, new, [r for r in e.record_queue]))
        return out

    def post(self, r, x):
        out = []
        for old, new, queue in r:
            n = len(old)
            want = [new] + [old[n - 1 - i] for i in range(n)]
            out.append(('in-front-%d' % n, all([queue[i] is want[i] for i in range(min(n + 1, AVERAGE))])))
        return out


class Wind(Case):
    budget = 200
    abstract = True

    def setup(self, eng):
        web.install(eng)
        zones.install(eng)
        eng.contracts[send_all] = send_all_contract

    def patches(self):
        return web.patches(wunderground)

    def run(self, x):
        """The records are sent one by one; what does the last request say?"""
        w = web.WebWorld(web.Answer(200, 'success'))
        world.put(w)
        e = wunderground.WundergroundExporter('K', 'p')
        records = [record(wind) for wind in x.winds]
        send_all(e, records[:-1])
        e.send_rapid_update(records[len(records) - 1])
        return w.requests[len(w.requests) - 1][1]

    def post(self, r, x):
        q = web.query(r)
        n = len(x.winds)
        newest = [x.winds[n - 1 - i] for i in range(n)]
        speeds = [s for s, d in newest[:GUST] if s is not None]
        gust = web.number(q.get('windgustmph'))
        direction = web.number(q.get('windgustdir'))
        out = [('gust-if-any', (gust is None) == (len(speeds) == 0)),
               ('greatest', gust is None or all([s <= gust for s in speeds]))]
        # the newest record with that speed
        earlier = True
        found = gust is None and direction is None
        for s, d in newest[:GUST]:
            if s is not None and gust is not None and s == gust:
                if earlier and (direction == d):
                    found = True
                earlier = False
        out.append(('direction-of-gust', found))
        degrees = [d for s, d in newest[:AVERAGE] if d is not None]
        mean = D(sum(degrees)) / D(len(degrees)) if len(degrees) > 0 else None
        out.append(('average-direction', near(web.number(q.get('winddir_avg2m')), mean)))
        return out


class Any(Wind):
    """Histories of any length."""
    name = 'any-history'
    bounded = True
    inputs = {'winds': Choice(*[ListOf(n, Tup(SPEED, DEGREES)) for n in list(range(1, 62)) + [90, 120]])}

    def tweak(self, rng, kw):
        if rng.random() < 0.6:   # equal speeds, few of them
            kw['winds'] = [(None if s is None or rng.random() < 0.2 else s % 4, d) for s, d in kw['winds']]
        if rng.random() < 0.3:
            k = rng.randint(0, len(kw['winds']))
            kw['winds'] = kw['winds'][:k] + [(None if rng.random() < 0.9 else s, None if rng.random() < 0.9 else d)
                                             for s, d in kw['winds'][k:]]
        return kw


class Retried(Wind):
    """Uploads fail at times, and records are sent again, with what was found for them the first time."""
    name = 'uploads-fail'
    bounded = True
    samples = 2000
    inputs = {'winds': Choice(*[ListOf(n, Tup(SPEED, DEGREES)) for n in list(range(1, 62)) + [90, 120]]), 'seed': Int(0, 10 ** 6)}

    def run(self, x):
        import random
        rng = random.Random(x.seed)
        e = wunderground.WundergroundExporter('K', 'p')
        records = []
        sent = []
        for i, wind in enumerate(x.winds):
            again = rng.random() < 0.15 and records
            if again:
                r = records[rng.choice([-1, 0])]
            else:
                r = record(wind)
                records.append(r)
            sent.append((r['wind_speed'], r['wind_direction_degrees']))
            fail = i < len(x.winds) - 1 and rng.random() < 0.3
            w = web.WebWorld(web.Answer(rng.choice([500, 302, 200]), 'no') if fail else web.Answer(200, 'success'))
            world.put(w)
            try:
                e.send_rapid_update(r)
            except AssertionError:
                if not fail:
                    raise
        return w.requests[len(w.requests) - 1][1], sent

    def post(self, r, x):
        x.winds = r[1]
        return Wind.post(self, r[0], x)


QUICK = (1, 2, 10, 24, 25, 26, 49, 50, 51)


def of(n):
    return type('Wind', (Wind,), {'name': 'history-of-%d' % n, 'inputs': {'winds': ListOf(n, Tup(SPEED, DEGREES))},
                                  'search': False, 'thorough': n not in QUICK})()


CASES = [Queue(), Any(), Retried()] + [of(n) for n in range(1, 52)]
