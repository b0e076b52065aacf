"""C05: daily summaries of WeatherLink database files (two 88-byte blocks)."""
import datetime

from weatherlink import models

from specs.base import *  # noqa
from specs.wire import *  # noqa

FILES = ['weatherlink/models.py']

HI, LO = -32768, 32767
TABLE = (
    ('minutes', 2, 'h', None, None),
    ('temperature_outside_high', 4, 'h', TENTH, HI), ('temperature_outside_low', 6, 'h', TENTH, LO),
    ('temperature_inside_high', 8, 'h', TENTH, HI), ('temperature_inside_low', 10, 'h', TENTH, LO),
    ('temperature_outside_average', 12, 'h', TENTH, LO), ('temperature_inside_average', 14, 'h', TENTH, LO),
    ('wind_chill_high', 16, 'h', TENTH, HI), ('wind_chill_low', 18, 'h', TENTH, LO),
    ('dew_point_high', 20, 'h', TENTH, HI), ('dew_point_low', 22, 'h', TENTH, LO),
    ('wind_chill_average', 24, 'h', TENTH, LO), ('dew_point_average', 26, 'h', TENTH, LO),
    ('humidity_outside_high', 28, 'h', TENTH, 255), ('humidity_outside_low', 30, 'h', TENTH, 255),
    ('humidity_inside_high', 32, 'h', TENTH, 255), ('humidity_inside_low', 34, 'h', TENTH, 255),
    ('humidity_outside_average', 36, 'h', TENTH, 255),
    ('barometric_pressure_high', 38, 'h', THOUSANDTH, 0), ('barometric_pressure_low', 40, 'h', THOUSANDTH, 0),
    ('barometric_pressure_average', 42, 'h', THOUSANDTH, 0),
    ('wind_speed_high', 44, 'h', TENTH, 0), ('wind_speed_average', 46, 'h', TENTH, 0), ('wind_daily_run', 48, 'h', TENTH, 0),
    ('wind_speed_high_10_minute_average', 50, 'h', TENTH, HI),
    ('rain_total', 54, 'h', THOUSANDTH, None), ('rain_rate_high', 56, 'h', HUNDREDTH, None),
    ('total_wind_packets', 92, 'h', None, HI),
    ('heat_index_high', 102, 'h', TENTH, HI), ('heat_index_low', 104, 'h', TENTH, LO),
    ('heat_index_average', 106, 'h', TENTH, LO),
    ('thw_index_high', 112, 'h', TENTH, HI), ('thw_index_low', 114, 'h', TENTH, LO),
    ('integrated_heating_degree_days', 116, 'h', TENTH, 0),
    ('temperature_wet_bulb_high', 118, 'h', TENTH, HI), ('temperature_wet_bulb_low', 120, 'h', TENTH, LO),
    ('temperature_wet_bulb_average', 122, 'h', TENTH, LO),
    ('integrated_cooling_degree_days', 163, 'h', TENTH, 0),
)
DIRECTIONS = (('wind_speed_high_direction', 52), ('wind_speed_high_10_minute_average_direction', 53))


class Summary(Case):
    name = 'summary'
    inputs = {'raw': Bytes(176, {0: 2, 88: 3}, words=words(TABLE)),
              'day': Date_(datetime.date(2000, 1, 1), datetime.date(2099, 12, 31))}

    def pre(self, x):
        b = x.raw
        return (b[52] <= 15 or b[52] == 255) and (b[53] <= 15 or b[53] == 255)

    def tweak(self, rng, kw):
        b = bytearray(kw['raw'])
        for i in (52, 53):
            b[i] = rng.choice(list(range(16)) + [255])
        kw['raw'] = bytes(b)
        return kw

    def run(self, x):
        s = Stream(x.raw + b'\x01\x02\x03')
        return models.DailySummary.load_from_wlk(s, x.day.year, x.day.month, x.day.day), s

    def post(self, r, x):
        rec, s = r
        raw = x.raw
        out = [('one-summary-consumed', s.pos == 176), ('date', rec['date'] == x.day)]
        out += field_obligations(rec, raw, TABLE)
        for name, off in DIRECTIONS:
            if raw[off] == 255:
                out += [(name, rec[name] is None)]
            else:
                out += [(name, rec[name] == models.WindDirection(raw[off]))]
        return out


class Foreign(Case):
    """A pair of blocks that is not a daily summary is refused."""
    name = 'foreign'
    inputs = {'raw': Bytes(176)}

    def pre(self, x):
        return x.raw[0] != 2 or x.raw[88] != 3

    def run(self, x):
        try:
            models.DailySummary.load_from_wlk(Stream(x.raw), 2016, 4, 1)
        except AssertionError:
            return True
        return False

    def post(self, r, x):
        return [('refused', r)]


class Incomplete(Case):
    """A summary that is not complete is an error."""
    name = 'incomplete'
    inputs = {'raw': Bytes(176, {0: 2, 88: 3}), 'length': Choice(*range(176))}

    def run(self, x):
        try:
            models.DailySummary.load_from_wlk(Stream(x.raw[:x.length]), 2016, 4, 1)
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('an-error', r == 'refused')]


CASES = [Summary(), Foreign(), Incomplete()]
