"""C11: heat index."""
from weatherlink import utils

from specs.base import *  # noqa
from specs.formulas import *  # noqa

FILES = ['weatherlink/utils.py']


class HeatIndex(Case):
    name = 'heat-index'

    def run(self, x):
        return utils.calculate_heat_index(x.t, x.rh)

    def post(self, r, x):
        if x.t < 70:
            return [('none-below-70', r is None)]
        if r is None:
            return [('some-from-70', False)]
        return [('nws-rounded-up', rounded_up(r, heat_index_formula(x.t * D(1), x.rh * D(1))))]


CASES = variants(HeatIndex,
                 t={'tenths': Dec(-60, 150, special=('70', '69.9', '80', '87', '112', '95', '79.9', '112.1', '87.1')),
                    'int': Int(-60, 150, special=(70, 80, 87, 112))},
                 rh={'int': Int(0, 100, special=(12, 13, 85, 86)),
                     'tenths': Dec(0, 100, special=('13', '12.9', '85', '85.1'))})
