"""C13: dew point and wet bulb."""
from weatherlink import utils

from specs.base import *  # noqa
from specs.formulas import *  # noqa

FILES = ['weatherlink/utils.py']
T = {'tenths': Dec(-60, 150, special=('32', '0', '-40')), 'int': Int(-60, 150)}
RH = {'int': Int(1, 100, special=(1, 100)), 'tenths': Dec(1, 100, special=('1', '100'))}


class DewPoint(Case):
    name = 'dew-point'

    def run(self, x):
        return utils.calculate_dew_point(x.t, x.rh)

    def post(self, r, x):
        return [('formula-to-a-tenth', rounded_near(r, dew_point_formula(x.t * D(1), x.rh * D(1))))]


class WetBulb(Case):
    name = 'wet-bulb'
    inputs = {'p': Dec(20, 33, places=3)}

    def run(self, x):
        return utils.calculate_wet_bulb_temperature(x.t, x.rh, x.p)

    def post(self, r, x):
        return [('formula-to-a-tenth', rounded_near(r, wet_bulb_formula(x.t * D(1), x.rh * D(1), x.p)))]


CASES = variants(DewPoint, t=T, rh=RH) + variants(WetBulb, t=T, rh=RH)
