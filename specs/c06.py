"""C06: LOOP2 packets."""
from weatherlink import models

from specs.base import *  # noqa
from specs.wire import *  # noqa
from specs import contracts

FILES = ['weatherlink/models.py']

TABLE = (
    ('barometric_pressure', 7, 'H', THOUSANDTH, 0),
    ('temperature_inside', 9, 'h', TENTH, 32767),
    ('humidity_inside', 11, 'B', None, 255),
    ('temperature_outside', 12, 'h', TENTH, 32767),
    ('wind_speed', 14, 'B', None, 255),
    ('wind_direction_degrees', 16, 'H', None, 0),
    ('wind_speed_10_minute_average', 18, 'H', TENTH, 0),
    ('wind_speed_2_minute_average', 20, 'H', TENTH, 0),
    ('wind_speed_10_minute_gust', 22, 'H', TENTH, 0),
    ('wind_speed_10_minute_gust_direction_degrees', 24, 'H', None, 0),
    ('dew_point', 30, 'h', None, 255),
    ('humidity_outside', 33, 'B', None, 255),
    ('heat_index', 35, 'h', None, 255),
    ('wind_chill', 37, 'h', None, 255),
    ('thsw_index', 39, 'h', None, 255),
    ('rain_rate_clicks', 41, 'H', None, None),
    ('uv_index', 43, 'B', TENTH, 255),
    ('solar_radiation', 44, 'H', None, 32767),
    ('rain_clicks_this_storm', 46, 'H', None, None),
    ('rain_clicks_today', 50, 'H', None, None),
    ('rain_clicks_15_minutes', 52, 'H', None, None),
    ('rain_clicks_1_hour', 54, 'H', None, None),
    ('evapotranspiration', 56, 'H', THOUSANDTH, 0),
    ('rain_clicks_24_hours', 58, 'H', None, None),
    ('minute_in_hour', 79, 'B', None, 60),
    # amounts in inches at 0.01 in per click; a count of zero has no amount
    ('rain_rate', 41, 'H', HUNDREDTH, 0),
    ('rain_amount_this_storm', 46, 'H', HUNDREDTH, 0),
    ('rain_amount_today', 50, 'H', HUNDREDTH, 0),
    ('rain_amount_15_minutes', 52, 'H', HUNDREDTH, 0),
    ('rain_amount_1_hour', 54, 'H', HUNDREDTH, 0),
    ('rain_amount_24_hours', 58, 'H', HUNDREDTH, 0),
)
DIRECTIONS = (('wind_direction', 16), ('wind_speed_10_minute_gust_direction', 24))
# bytes every LOOP2 packet carries: 'LOO', packet type, unused fields, line end
FIXED = {0: 76, 1: 79, 2: 79, 4: 1, 5: 255, 6: 127, 15: 255, 26: 255, 27: 127, 28: 255, 29: 127, 32: 255, 34: 255, 71: 255,
         95: 10, 96: 13}
for _o in (83, 85, 87, 89, 91, 93):
    FIXED[_o], FIXED[_o + 1] = 255, 127


class Packet(Case):
    name = 'packet'
    inputs = {'raw': Bytes(99, FIXED, words=words(TABLE))}

    def setup(self, eng):
        eng.contracts[models.calculate_weatherlink_crc] = contracts.crc_contract

    def tweak(self, rng, kw):
        b = bytearray(kw['raw'])
        if rng.random() < 0.5:
            b[3] = rng.choice([196, 236, 0, 20, 60, 80, 61])
        for o in (16, 24):
            if rng.random() < 0.7:
                d = rng.choice([0, 1, 360, 361, rng.randint(1, 360)])
                b[o], b[o + 1] = d % 256, d // 256
        if rng.random() < 0.5:
            c = models.calculate_weatherlink_crc(bytes(b[:97]))
            b[97], b[98] = c >> 8, c & 255
        kw['raw'] = bytes(b)
        return kw

    def run(self, x):
        s = Stream(x.raw + b'\x01\x02\x03')
        return models.LoopRecord.load_loop_2_from_connection(s), s

    def post(self, r, x):
        rec, s = r
        raw = x.raw
        out = [('one-packet-consumed', s.pos == 99), ('type', rec['record_type'] == 2)]
        out += field_obligations(rec, raw, TABLE)
        trend = s8(raw, 3)
        if trend in (-60, -20, 0, 20, 60):
            out += [('trend', rec['barometric_trend'] is not None and rec['barometric_trend'].value == trend)]
        else:
            out += [('trend', rec['barometric_trend'] is None)]
        for name, off in DIRECTIONS:
            d = u16(raw, off)
            if d == 0 or d > 360:
                out += [(name, rec[name] is None)]
            else:
                # the point at most 12 degrees away (which of two nearly equidistant points: C07)
                p = rec[name]
                diff = abs(2 * d - p.value * 45) if p is not None else 999
                out += [(name, p is not None and (diff <= 24 or diff >= 696))]
        out += [('crc-flag', rec['crc_match'] == (models.calculate_weatherlink_crc(raw) == 0))]
        return out


class Foreign(Case):
    """A packet that differs from LOOP2 in any byte of the fixed part is refused."""
    name = 'foreign'
    inputs = {'raw': Bytes(99, FIXED), 'where': Choice(*sorted(FIXED)), 'value': Int(0, 255)}

    def setup(self, eng):
        eng.contracts[models.calculate_weatherlink_crc] = contracts.crc_contract

    def pre(self, x):
        return x.value != FIXED[x.where]

    def run(self, x):
        data = x.raw[:x.where] + bytes([x.value]) + x.raw[x.where + 1:]
        try:
            models.LoopRecord.load_loop_2_from_connection(Stream(data))
        except AssertionError:
            return True
        return False

    def post(self, r, x):
        return [('refused', r)]


class Incomplete(Case):
    """A packet that is not complete is an error."""
    name = 'incomplete'
    inputs = {'raw': Bytes(99, FIXED), 'length': Choice(*range(99))}

    def run(self, x):
        try:
            models.LoopRecord.load_loop_2_from_connection(Stream(x.raw[:x.length]))
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('an-error', r == 'refused')]


CASES = [Packet(), Foreign(), Incomplete()]
