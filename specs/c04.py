"""C04: archive records of WeatherLink database files (88-byte records)."""
import datetime

from weatherlink import models

from specs.base import *  # noqa
from specs.wire import *  # noqa

FILES = ['weatherlink/models.py']

TABLE = (
    ('minutes_covered', 1, 'b', None, None),
    ('minutes_past_midnight', 4, 'h', None, None),
    ('temperature_outside', 6, 'h', TENTH, 32767),
    ('temperature_outside_high', 8, 'h', TENTH, -32768),
    ('temperature_outside_low', 10, 'h', TENTH, 32767),
    ('temperature_inside', 12, 'h', TENTH, 32767),
    ('barometric_pressure', 14, 'h', THOUSANDTH, 0),
    ('humidity_outside', 16, 'h', TENTH, 255),
    ('humidity_inside', 18, 'h', TENTH, 255),
    ('rain_rate_clicks', 22, 'h', None, None),
    ('wind_speed', 24, 'h', TENTH, 255),
    ('wind_speed_high', 26, 'h', TENTH, 0),
    ('number_of_wind_samples', 30, 'h', None, 0),
    ('solar_radiation', 32, 'h', None, -32768),
    ('solar_radiation_high', 34, 'h', None, -32768),
    ('uv_index', 36, 'B', TENTH, 255),
    ('uv_index_high', 37, 'B', TENTH, 255),
)
DIRECTIONS = (('wind_direction_prevailing', 28), ('wind_direction_speed_high', 29))

# rain collector code (upper four bits of the rain word) -> inches per click
COLLECTORS = {0: TENTH, 1: HUNDREDTH, 2: HUNDREDTH * 2 * D('0.393701'), 3: TENTH * D('0.393701'),
              6: HUNDREDTH * D('0.393701')}


class Record(Case):
    name = 'record'
    inputs = {'raw': Bytes(88, {0: 1}, words=words(TABLE)),
              'day': Date_(datetime.date(2000, 1, 1), datetime.date(2099, 12, 30))}

    def pre(self, x):
        b = x.raw
        return ((b[28] <= 15 or b[28] == 255) and (b[29] <= 15 or b[29] == 255) and b[21] // 16 in (0, 1, 2, 3, 6) and
                0 <= s16(b, 4) and s16(b, 4) <= 1440)

    def tweak(self, rng, kw):
        b = bytearray(kw['raw'])
        for i in (28, 29):
            b[i] = rng.choice(list(range(16)) + [255])
        b[21] = rng.choice([0, 1, 2, 3, 6]) * 16 + rng.randrange(16)
        m = rng.choice([0, 1440, 59, 60, rng.randint(0, 1440)])
        b[4], b[5] = m % 256, m // 256
        kw['raw'] = bytes(b)
        return kw

    def run(self, x):
        s = Stream(x.raw + b'\x01\x02\x03')
        return models.ArchiveIntervalRecord.load_from_wlk(s, x.day.year, x.day.month, x.day.day), s

    def post(self, r, x):
        rec, s = r
        raw = x.raw
        out = [('one-record-consumed', s.pos == 88)]
        out += field_obligations(rec, raw, TABLE)
        for name, off in DIRECTIONS:
            if raw[off] == 255:
                out += [(name, rec[name] is None and rec[name + '_degrees'] is None)]
            else:
                out += [(name, rec[name] == models.WindDirection(raw[off]) and
                         rec[name + '_degrees'] == (360 if raw[off] == 0 else raw[off] * 22.5))]
        clicks = u16(raw, 20) % 4096
        per_click = COLLECTORS[raw[21] // 16]
        out += [('collector-type', rec['rain_collector_type'].value == (raw[21] // 16) * 4096),
                ('rain-clicks', rec['rain_amount_clicks'] == clicks),
                ('rain-amount', rec['rain_amount'] == clicks * per_click),
                ('rain-rate', rec['rain_rate'] == s16(raw, 22) * per_click)]
        m = s16(raw, 4)
        midnight = datetime.datetime(x.day.year, x.day.month, x.day.day)
        when = midnight + datetime.timedelta(minutes=m)
        out += [('date', rec['date'] == when),
                ('timestamp', rec['timestamp'] == models.convert_datetime_to_timestamp(when))]
        return out


class Foreign(Case):
    """A block that is not an archive record is refused."""
    name = 'foreign'
    inputs = {'raw': Bytes(88)}

    def pre(self, x):
        return x.raw[0] != 1

    def run(self, x):
        try:
            models.ArchiveIntervalRecord.load_from_wlk(Stream(x.raw), 2016, 4, 1)
        except AssertionError:
            return True
        return False

    def post(self, r, x):
        return [('refused', r)]


class Incomplete(Case):
    """A record that is not complete is an error."""
    name = 'incomplete'
    inputs = {'raw': Bytes(88, {0: 1}), 'length': Choice(*range(88))}

    def run(self, x):
        try:
            models.ArchiveIntervalRecord.load_from_wlk(Stream(x.raw[:x.length]), 2016, 4, 1)
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('an-error', r == 'refused')]


CASES = [Record(), Foreign(), Incomplete()]
