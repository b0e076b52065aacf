"""C15: the derived values of an archive record.

The formulas themselves are contracts here: functions of their arguments that give a number, or (heat index, wind chill,
THW index) a number or nothing.  What they compute is C11 to C14."""
from weatherlink import models, utils

from specs.base import *  # noqa

FILES = ['weatherlink/utils.py']
FORMULAS = (('calculate_wet_bulb_temperature', 3, False), ('calculate_dew_point', 2, False), ('calculate_heat_index', 2, True),
            ('calculate_wind_chill', 2, True), ('calculate_thw_index', 3, True), ('calculate_thsw_index', 4, False))


def field(record, k):
    return record[k] if k in record else None


def positive(v):
    """A measurement, or nothing if it is missing or zero."""
    if v is None:
        return None
    return None if v == 0 else v


def outcomes(calls):
    return [v for v in calls if v is not None]


def same(record_values, k, want):
    """The value k is that of `want` (None: not there)."""
    if want is None:
        return k not in record_values
    return k in record_values and record_values[k] is not None and record_values[k] == want


def spread(values, k, found):
    """The value, low and high of an index are those of the combinations found."""
    if len(found) == 0:
        return k not in values and k + '_low' not in values and k + '_high' not in values
    lo, hi = values[k + '_low'], values[k + '_high']
    return (values[k] == found[0] and all([lo <= v for v in found]) and any([lo == v for v in found])
            and all([v <= hi for v in found]) and any([hi == v for v in found]) and lo <= values[k] and values[k] <= hi)


def measurement(d):
    return Maybe(Opt(d))


TEMP = Dec('-50', '150', places=1, special=('0', '40', '70', '69.9', '40.1'))
HUMIDITY = Int(1, 100)
WIND = Int(0, 200, special=(0, 1))
SUN = Int(0, 1800, special=(0,))
FIELDS = {
    'minutes_covered': Int(1, 120), 'wind_speed': measurement(WIND), 'wind_speed_high': measurement(WIND),
    'humidity_outside': measurement(HUMIDITY), 'humidity_inside': measurement(HUMIDITY),
    'barometric_pressure': measurement(Dec('20', '33', places=3)), 'temperature_outside': measurement(TEMP),
    'temperature_outside_low': measurement(TEMP), 'temperature_outside_high': measurement(TEMP),
    'temperature_inside': measurement(TEMP), 'solar_radiation': measurement(SUN), 'solar_radiation_high': measurement(SUN)}


class Derived(Case):
    """Every derived value at once; subclasses look at some of them."""
    inputs = {'record': Rec(FIELDS, models.ArchiveIntervalRecord)}
    budget = 200
    only = ()

    def setup(self, eng):
        from specs.contracts import formula
        for name, n, optional in FORMULAS:
            eng.contracts[getattr(utils, name)] = formula(name, n, optional)

    def run(self, x):
        return utils.calculate_all_record_values(x.record)

    def parts(self, x):
        r = x.record
        p = NS(**{k: field(r, k) for k in FIELDS})
        p.temps = [p.temperature_outside, p.temperature_outside_high, p.temperature_outside_low]
        p.ws = positive(p.wind_speed)
        p.wsh = positive(p.wind_speed_high)
        return p


class WindRun(Derived):
    name = 'wind-run'

    def post(self, r, x):
        p = self.parts(x)
        if p.ws is None:
            return [('no-wind-run-without-wind', 'wind_run_distance_total' not in r)]
        w = r['wind_run_distance_total']
        d = w * 60 - p.ws * p.minutes_covered
        return [('wind-run', -D('0.000001') <= d and d <= D('0.000001'))]


class WetBulb(Derived):
    name = 'wet-bulb'

    def post(self, r, x):
        p = self.parts(x)
        out = []
        for k in ('', '_low', '_high'):
            t = field(x.record, 'temperature_outside' + k)
            h = p.humidity_outside
            b = p.barometric_pressure
            out.append(('wet-bulb' + k, same(r, 'temperature_wet_bulb' + k,
                                             None if t is None or h is None or b is None else
                                             utils.calculate_wet_bulb_temperature(t, h, b))))
        return out


class DewPoint(Derived):
    name = 'dew-point-and-heat-index'

    def post(self, r, x):
        p = self.parts(x)
        h = p.humidity_outside
        temps = [p.temperature_outside, p.temperature_outside_low, p.temperature_outside_high]
        a = [utils.calculate_dew_point(t, h) for t in temps if t is not None and h is not None]
        b = outcomes([utils.calculate_heat_index(t, h) for t in temps if t is not None and h is not None])
        return [('dew-point', spread(r, 'dew_point_outside', a)), ('heat-index', spread(r, 'heat_index_outside', b))]


class Inside(Derived):
    name = 'inside'

    def post(self, r, x):
        p = self.parts(x)
        t, h = p.temperature_inside, p.humidity_inside
        none = t is None or h is None
        return [('dew-point', same(r, 'dew_point_inside', None if none else utils.calculate_dew_point(t, h))),
                ('heat-index', same(r, 'heat_index_inside', None if none else utils.calculate_heat_index(t, h)))]


class WindChill(Derived):
    name = 'wind-chill'

    def post(self, r, x):
        p = self.parts(x)
        a = []
        for w in (p.ws, p.wsh):
            for t in p.temps:
                if w is not None and t is not None:
                    a.append(utils.calculate_wind_chill(t, w))
        return [('wind-chill', spread(r, 'wind_chill', outcomes(a)))]


class THW(Derived):
    name = 'thw'

    def post(self, r, x):
        p = self.parts(x)
        a = []
        for t in p.temps:
            for w in (p.ws, p.wsh):
                if t is not None and p.humidity_outside is not None:
                    a.append(utils.calculate_thw_index(t, p.humidity_outside, 0 if w is None else w))
        return [('thw', spread(r, 'thw_index', outcomes(a)))]


class THSW(Derived):
    name = 'thsw'

    def post(self, r, x):
        p = self.parts(x)
        a = []
        for s in (positive(p.solar_radiation), positive(p.solar_radiation_high)):
            for t in p.temps:
                for w in (p.ws, p.wsh):
                    if t is not None and s is not None and p.humidity_outside is not None:
                        a.append(utils.calculate_thsw_index(t, p.humidity_outside, s, 0 if w is None else w))
        return [('thsw', spread(r, 'thsw_index', a))]


class Names(Derived):
    name = 'nothing-else'
    KEYS = ['wind_run_distance_total', 'dew_point_inside', 'heat_index_inside'] + [
        a + b for a in ('temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index',
                        'thsw_index') for b in ('', '_low', '_high')]

    def run(self, x):
        before = [field(x.record, k) for k in FIELDS]
        r = utils.calculate_all_record_values(x.record)
        return [k for k in r], before == [field(x.record, k) for k in FIELDS]

    def post(self, r, x):
        return [('only-derived-values', all([k in self.KEYS for k in r[0]])), ('record-unchanged', r[1])]


CASES = [WindRun(), WetBulb(), DewPoint(), Inside(), WindChill(), THW(), THSW(), Names()]
