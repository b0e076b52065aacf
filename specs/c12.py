"""C12: wind chill."""
from weatherlink import utils

from specs.base import *  # noqa
from specs.formulas import *  # noqa

FILES = ['weatherlink/utils.py']


class WindChill(Case):
    name = 'wind-chill'

    def run(self, x):
        return utils.calculate_wind_chill(x.t, x.ws)

    def post(self, r, x):
        if x.t > 40:
            return [('none-above-40', r is None)]
        if r is None:
            return [('some-to-40', False)]
        if x.ws == 0:
            return [('calm', r == x.t)]
        out = [('not-above-air', r <= x.t)]
        v = wind_chill_formula(x.t * D(1), x.ws * D(1))
        if r != x.t:
            out += [('nws-rounded-down', rounded_down(r, v))]
        else:
            out += [('air-only-if-lower', x.t < v + TENTH)]
        return out


CASES = variants(WindChill,
                 t={'tenths': Dec(-100, 150, special=('40', '40.1', '39.9', '0')),
                    'int': Int(-100, 150, special=(40, 41))},
                 ws={'int': Int(0, 300, special=(0, 1, 2, 3)), 'tenths': Dec(0, 300, special=('0.1', '0', '3'))})
