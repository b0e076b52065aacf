"""C14: THW and THSW indexes."""
from weatherlink import utils

from specs.base import *  # noqa
from specs.formulas import *  # noqa

FILES = ['weatherlink/utils.py']
T = {'tenths': Dec(-60, 150, special=('70', '69.9', '80', '0')), 'int': Int(-60, 150)}
RH = {'int': Int(0, 100), 'tenths': Dec(0, 100)}
WS = {'int': Int(0, 200), 'tenths': Dec(0, 200)}


class Thw(Case):
    name = 'thw'

    def run(self, x):
        return utils.calculate_thw_index(x.t, x.rh, x.ws), utils.calculate_heat_index(x.t, x.rh)

    def post(self, r, x):
        thw, hi = r
        if hi is None:
            return [('none-without-heat-index', thw is None)]
        if thw is None:
            return [('some-with-heat-index', False)]
        return [('heat-index-minus-wind', rounded_up(hi - thw, D('1.072') * x.ws))]


class Thsw(Case):
    name = 'thsw'

    def run(self, x):
        return utils.calculate_thsw_index(x.t, x.rh, x.sun, x.ws)

    def post(self, r, x):
        return [('formula-to-a-tenth',
                 r is not None and rounded_near(r, thsw_formula(x.t * D(1), x.rh * D(1), x.sun * D(1), x.ws * D(1))))]


CASES = (variants(Thw, t=T, rh=RH, ws=WS) +
         variants(Thsw, t=T, rh=RH, sun={'int': Int(0, 1800), 'tenths': Dec(0, 1800)}, ws=WS))
