"""C03: archive records of the WeatherLink.com download (52-byte revision B records)."""
import datetime
import struct

from weatherlink import models

from specs.base import *  # noqa
from specs.wire import *  # noqa

FILES = ['weatherlink/models.py']

# field, offset in the record, format, scale, dash value
TABLE = (
    ('temperature_outside', 4, 'h', TENTH, 32767),
    ('temperature_outside_high', 6, 'h', TENTH, -32768),
    ('temperature_outside_low', 8, 'h', TENTH, 32767),
    ('rain_amount_clicks', 10, 'H', None, None),
    ('rain_rate_clicks', 12, 'H', None, None),
    ('rain_amount', 10, 'H', HUNDREDTH, None),
    ('rain_rate', 12, 'H', HUNDREDTH, None),
    ('barometric_pressure', 14, 'H', THOUSANDTH, 0),
    ('solar_radiation', 16, 'h', None, 32767),
    ('number_of_wind_samples', 18, 'H', None, 0),
    ('temperature_inside', 20, 'h', TENTH, 32767),
    ('humidity_inside', 22, 'B', None, 255),
    ('humidity_outside', 23, 'B', None, 255),
    ('wind_speed', 24, 'B', None, 255),
    ('wind_speed_high', 25, 'B', None, 0),
    ('uv_index', 28, 'B', TENTH, 255),
    ('evapotranspiration', 29, 'B', THOUSANDTH, 0),
    ('solar_radiation_high', 30, 'h', None, 32767),
    ('uv_index_high', 32, 'B', TENTH, 255),
)
DIRECTIONS = (('wind_direction_speed_high', 26), ('wind_direction_prevailing', 27))


class Record(Case):
    name = 'record'
    inputs = {'date': DateTime_(datetime.datetime(2000, 1, 1), datetime.datetime(2063, 12, 31, 23, 59), step=60),
              'body': Bytes(48, {38: 0}, words=[(o - 4, n, s) for o, n, s in words(TABLE)]),
              'minutes': Choice(1, 5, 10, 15, 30, 60, 120)}

    def pre(self, x):
        return (x.body[22] <= 15 or x.body[22] == 255) and (x.body[23] <= 15 or x.body[23] == 255)

    def tweak(self, rng, kw):
        b = bytearray(kw['body'])
        for i in (22, 23):
            b[i] = rng.choice(list(range(16)) + [255])
        kw['body'] = bytes(b)
        return kw

    def run(self, x):
        d = x.date
        raw = struct.pack('<HH', d.day + 32 * d.month + 512 * (d.year - 2000), d.hour * 100 + d.minute) + x.body
        s = Stream(raw + b'\x01\x02\x03')
        return models.ArchiveIntervalRecord.load_from_download(s, x.minutes), s, raw

    def post(self, r, x):
        rec, s, raw = r
        out = [('one-record-consumed', s.pos == 52), ('date', rec.date == x.date), ('minutes', rec.minutes_covered == x.minutes),
               ('timestamp', rec.timestamp == u16(raw, 0) * 65536 + u16(raw, 2))]
        out += field_obligations(rec, raw, TABLE)
        for name, off in DIRECTIONS:
            if raw[off] == 255:
                out += [(name, rec[name] is None and rec[name + '_degrees'] is None)]
            else:
                out += [(name, rec[name] == models.WindDirection(raw[off]) and
                         rec[name + '_degrees'] == (360 if raw[off] == 0 else raw[off] * 22.5))]
        return out


class Blank(Case):
    """A record whose date stamp is not positive is skipped, and still consumed."""
    name = 'blank'
    inputs = {'raw': Bytes(52)}

    def pre(self, x):
        return x.raw[1] >= 128 or (x.raw[0] == 0 and x.raw[1] == 0)

    def tweak(self, rng, kw):
        b = bytearray(kw['raw'])
        if rng.random() < 0.7:
            b[0] = b[1] = 0
        else:
            b[1] |= 0x80
        kw['raw'] = bytes(b)
        return kw

    def run(self, x):
        s = Stream(x.raw + b'\x01\x02\x03')
        return models.ArchiveIntervalRecord.load_from_download(s, 5), s

    def post(self, r, x):
        return [('skipped', r[0] is None), ('consumed', r[1].pos == 52)]


class Foreign(Case):
    """A record that does not carry the revision B mark is refused."""
    name = 'foreign-revision'
    inputs = {'raw': Bytes(52, {1: (0, 127)})}

    def pre(self, x):
        return x.raw[42] != 0 and x.raw[0] + 256 * x.raw[1] >= 1

    def run(self, x):
        try:
            models.ArchiveIntervalRecord.load_from_download(Stream(x.raw), 5)
        except AssertionError:
            return True
        return False

    def post(self, r, x):
        return [('refused', r)]


CASES = [Record(), Blank(), Foreign()]
