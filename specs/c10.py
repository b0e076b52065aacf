"""C10: degree days."""
from weatherlink import utils

from specs.base import *  # noqa

FILES = ['weatherlink/utils.py']


class Days(Case):
    name = 'days'
    inputs = {'t': Choice(Dec(-200, 300, places=6, special=('65', '65.000001', '64.999999', '0')), Int(-200, 300))}

    def run(self, x):
        return utils.calculate_cooling_degree_days(x.t), utils.calculate_heating_degree_days(x.t)

    def post(self, r, x):
        cdd, hdd = r
        if x.t > 65:
            return [('cooling-above', cdd is not None and cdd == x.t - 65), ('no-heating-above', hdd is None)]
        if x.t < 65:
            return [('no-cooling-below', cdd is None), ('heating-below', hdd is not None and hdd == 65 - x.t)]
        return [('neither-at-65', cdd is None and hdd is None)]


CASES = [Days()]
