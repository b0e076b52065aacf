"""C27: what an upload to Weather Underground says, and when it succeeds.

The dew point formula is a contract here (C13); that the time said is the right instant is C29."""
import pytz

from weatherlink import models, utils
from weatherlink.exporter import wunderground

from specs.base import *  # noqa
from specs import web, world, zones

FILES = ['weatherlink/exporter/wunderground.py', 'weatherlink/utils.py']
STATION = Str_('ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789', samples=('KTNNASHV51',))
PASSWORD = Str_('abcXYZ019-_.~!$*', samples=('a&b=c', '100%', 'a+b c', 'p#1?x', 'a/b', 'pässwörd', '%20', '&ID=X', 'x;y'))
DATES = DateTime_(datetime.datetime(2000, 1, 2), datetime.datetime(2099, 12, 30))

SIMPLE = {'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_prevailing_degrees', 'windgustmph': 'wind_speed_high',
          'windgustdir': 'wind_direction_speed_high_degrees', 'humidity': 'humidity_outside',
          'tempf': 'temperature_outside', 'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation',
          'UV': 'uv_index', 'indoortempf': 'temperature_inside', 'indoorhumidity': 'humidity_inside'}
RAPID = {'windspeedmph': 'wind_speed', 'winddir': 'wind_direction_degrees',
         'windspdmph_avg2m': 'wind_speed_2_minute_average', 'windgustmph_10m': 'wind_speed_10_minute_gust',
         'windgustdir_10m': 'wind_speed_10_minute_gust_direction_degrees', 'humidity': 'humidity_outside',
         'dewptf': 'dew_point', 'tempf': 'temperature_outside', 'rainin': 'rain_amount_1_hour',
         'dailyrainin': 'rain_amount_today', 'baromin': 'barometric_pressure', 'solarradiation': 'solar_radiation',
         'UV': 'uv_index', 'indoortempf': 'temperature_inside', 'indoorhumidity': 'humidity_inside'}
# said for the only record so far; over more records these are C28
RAPID_WIND = ('windgustmph', 'windgustdir', 'winddir_avg2m')
ABOUT = ('action', 'softwaretype', 'ID', 'PASSWORD', 'dateutc')
ADDRESS = {'simple': 'http://weatherstation.wunderground.com/weatherstation/updateweatherstation.php',
           'rapid': 'http://rtupdate.wunderground.com/weatherstation/updateweatherstation.php'}

CHICAGO = pytz.timezone('America/Chicago')   # where a station is by default
DEGREES = Opt(Int(0, 360, special=(0,)))
TEMP = Opt(Dec('-60', '150', places=1, special=('0',)))
HUMIDITY = Opt(Int(0, 100, special=(0, 1)))
SPEED = Opt(Int(0, 200, special=(0,)))
READINGS = {
    'wind_speed': SPEED, 'wind_direction_prevailing_degrees': Opt(Dec('0', '360', places=1, special=('0', '22.5'))),
    'wind_speed_high': SPEED, 'wind_direction_speed_high_degrees': Opt(Dec('0', '360', places=1, special=('0', '22.5'))),
    'humidity_outside': HUMIDITY, 'humidity_inside': HUMIDITY, 'temperature_outside': TEMP, 'temperature_inside': TEMP,
    'barometric_pressure': Opt(Dec('0', '40', places=3)), 'solar_radiation': Opt(Int(0, 1800, special=(0,))),
    'uv_index': Opt(Dec('0', '16', places=1, special=('0',))), 'wind_direction_degrees': DEGREES,
    'wind_speed_2_minute_average': Opt(Dec('0', '200', places=1)), 'wind_speed_10_minute_gust': Opt(Dec('0', '200', places=1)),
    'wind_speed_10_minute_gust_direction_degrees': DEGREES, 'dew_point': Opt(Int(-60, 150, special=(0,))),
    'rain_amount_1_hour': Opt(Dec('0', '20', places=2)), 'rain_amount_today': Opt(Dec('0', '99', places=2))}


def fields(names, dated=True):
    out = {k: READINGS[k] for k in sorted(set(names))}
    out['date'] = DATES
    return out


def near(v, want):
    if v is None or want is None:
        return v is None and want is None
    return -D('0.000001') <= v - want and v - want <= D('0.000001')


class Upload(Case):
    kind = 'simple'
    budget = 200

    def setup(self, eng):
        from specs.contracts import formula
        web.install(eng)
        zones.install(eng)
        eng.contracts[utils.calculate_dew_point] = formula('calculate_dew_point', 2, False)

    def patches(self):
        return web.patches(wunderground)

    def pre(self, x):
        return zones.exists(CHICAGO, x.record['date'])

    def send(self, x, answer):
        w = web.WebWorld(answer)
        world.put(w)
        if self.kind == 'simple':
            kept(wunderground.WundergroundExporter, x.station, x.password).send_simple_update(x.record)
        else:
            wunderground.WundergroundExporter(x.station, x.password).send_rapid_update(x.record)
        return w


class Carries(Upload):
    """The parameters of a request."""
    inputs = {'station': STATION, 'password': PASSWORD, 'record': Rec(fields(SIMPLE.values()), models.ArchiveIntervalRecord)}

    def run(self, x):
        return self.send(x, web.Answer(200, 'success'))

    def post(self, r, x):
        method, url, headers = r.requests[0]
        q = web.query(url)
        record = x.record
        readings = SIMPLE if self.kind == 'simple' else RAPID
        out = [('one-request', len(r.requests) == 1), ('method', method == 'GET'),
               ('address', web.address(url) == ADDRESS[self.kind]), ('action', q.get('action') == 'updateraw'),
               ('station', q.get('ID') == x.station), ('password', q.get('PASSWORD') == x.password),
               ('time', zones.shows(CHICAGO, web.time_said(q['dateutc'])) == record['date'])]
        for p in readings:
            out.append((p, web.number(q.get(p)) == record[readings[p]]))
        names = list(ABOUT) + list(readings)
        if self.kind == 'simple':
            t, h = record['temperature_outside'], record['humidity_outside']
            dew = None
            if t is not None and h is not None and h != 0:
                dew = utils.calculate_dew_point(t, h)
            out.append(('dewptf', web.number(q.get('dewptf')) == dew))
            names.append('dewptf')
        else:
            speed, degrees = record['wind_speed'], record['wind_direction_degrees']
            out.append(('windgustmph', web.number(q.get('windgustmph')) == speed))
            out.append(('windgustdir', web.number(q.get('windgustdir')) == (None if speed is None else degrees)))
            out.append(('winddir_avg2m', near(web.number(q.get('winddir_avg2m')), degrees)))
            names.extend(RAPID_WIND)
        out.append(('nothing-else', all([n in names for n in q])))
        return out


class CarriesRapid(Carries):
    kind = 'rapid'
    inputs = {'station': STATION, 'password': PASSWORD, 'record': Rec(fields(RAPID.values()), models.LoopRecord)}


TEXTS = ('success', '', 'failure', 'unsuccessful', 'success? no', 'INVALIDPASSWORDID|Password or key and/or id are incorrect')


class Succeeds(Upload):
    """When the upload succeeds."""
    inputs = {'station': STATION, 'password': PASSWORD, 'status': Int(100, 599, special=(200, 204, 299, 300, 199, 302)),
              'text': Choice(*TEXTS), 'date': DATES}

    def pre(self, x):
        return zones.exists(CHICAGO, x.date)

    def run(self, x):
        names = SIMPLE if self.kind == 'simple' else RAPID
        x.record = (models.ArchiveIntervalRecord if self.kind == 'simple' else models.LoopRecord)()
        x.record['date'] = x.date
        for p in names:
            x.record[names[p]] = None
        try:
            self.send(x, web.Answer(x.status, x.text))
        except Exception:
            return False
        return True

    def post(self, r, x):
        return [('succeeds', r == (200 <= x.status and x.status <= 299 and x.text == 'success'))]


class Configured(Upload):
    """The time said after the zone has been configured anew, for the same station time."""
    inputs = {'station': STATION, 'password': PASSWORD, 'before': zones.Zone_('pytz'), 'zone': zones.Zone_('pytz'), 'date': DATES}

    def pre(self, x):
        return zones.exists(x.zone, x.date) and zones.exists(x.before, x.date)

    def run(self, x):
        names = SIMPLE if self.kind == 'simple' else RAPID
        e = wunderground.WundergroundExporter(x.station, x.password)
        record = (models.ArchiveIntervalRecord if self.kind == 'simple' else models.LoopRecord)()
        record['date'] = x.date
        for p in names:
            record[names[p]] = None
        e.station_time_zone = x.before
        world.put(web.WebWorld(web.Answer(200, 'success')))
        if self.kind == 'simple':
            e.send_simple_update(record)
        else:
            e.send_rapid_update(record)
        e.station_time_zone = x.zone
        w = web.WebWorld(web.Answer(200, 'success'))
        world.put(w)
        if self.kind == 'simple':
            e.send_simple_update(record)
        else:
            e.send_rapid_update(record)
        return w

    def post(self, r, x):
        return [('one-request', len(r.requests) == 1),
                ('time', zones.shows(x.zone, web.time_said(web.query(r.requests[0][1])['dateutc'])) == x.date)]


class Long(Carries):
    """Readings of many digits, in records of any origin."""
    bounded = True
    samples = 500


class LongRapid(CarriesRapid):
    bounded = True
    samples = 500


class Decoded(Carries):
    """Records as decoded from a station, dated."""
    bounded = True
    samples = 200

    def pre(self, x):
        try:
            x.record = self.decode(x)
        except Exception:
            return False
        x.record['date'] = x.date
        return zones.exists(CHICAGO, x.date)


class DecodedArchive(Decoded):
    inputs = {'station': STATION, 'password': PASSWORD, 'raw': Bytes(52, {42: 0}), 'date': DATES}

    def tweak(self, rng, kw):
        b = bytearray(kw['raw'])
        for o in (26, 27):
            b[o] = rng.choice([255] + list(range(16)))
        b[0], b[1] = 0x21, 0x20
        for o in (4, 20):
            if rng.random() < 0.2:
                b[o], b[o + 1] = 0xff, 0x7f
            else:
                v = rng.choice([0, rng.randint(-500, 1200)])
                b[o:o + 2] = v.to_bytes(2, 'little', signed=True)
        for o in (22, 23):
            b[o] = rng.choice([255, 0, 1, rng.randint(1, 100)])
        b[2:4] = (0).to_bytes(2, 'little')
        kw['raw'] = bytes(b)
        return kw

    def decode(self, x):
        import io
        return models.ArchiveIntervalRecord.load_from_download(io.BytesIO(x.raw), 5)


class DecodedLoop(Decoded):
    kind = 'rapid'

    def tweak(self, rng, kw):
        b = bytearray(kw['raw'])
        for o in (16, 24):
            d = rng.choice([0, 1, 360, rng.randint(1, 360)])
            b[o], b[o + 1] = d % 256, d // 256
        kw['raw'] = bytes(b)
        return kw

    def decode(self, x):
        import io
        return models.LoopRecord.load_loop_2_from_connection(io.BytesIO(x.raw))


def make(cls, label, **attrs):
    attrs['name'] = label
    return type(cls.__name__, (cls,), attrs)()


from specs import c06  # noqa
LONG = {k: Opt(Dec('-60', '2000', places=12, special=('0', '123456.5'))) for k in READINGS if not k.startswith('humidity')}


def long(cls, label, names, record):
    """Humidity is a count, whatever its digits."""
    f = {k: LONG.get(k, HUMIDITY) for k in sorted(set(names))}
    f['date'] = DATES
    f['temperature_outside'] = TEMP
    return make(cls, label, inputs={'station': STATION, 'password': PASSWORD, 'record': Rec(f, record)})


CASES = [make(Carries, 'simple'), make(CarriesRapid, 'rapid'), make(Succeeds, 'answers-simple'),
         make(Succeeds, 'answers-rapid', kind='rapid'), make(DecodedArchive, 'decoded-archive'),
         make(DecodedLoop, 'decoded-loop', inputs={'station': STATION, 'password': PASSWORD, 'date': DATES,
                                                   'raw': Bytes(99, c06.FIXED, words=c06.words(c06.TABLE))}),
         make(Configured, 'zone-simple'), make(Configured, 'zone-rapid', kind='rapid'),
         long(Long, 'digits-simple', SIMPLE.values(), models.ArchiveIntervalRecord),
         long(LongRapid, 'digits-rapid', RAPID.values(), models.LoopRecord)]
