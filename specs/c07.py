"""C07: compass points."""
from weatherlink import models

from specs.base import *  # noqa

FILES = ['weatherlink/models.py']


class Nearest(Case):
    """Every bearing from 1 to 360 degrees has a compass point: the nearest on the 22.5 degree rose, and of two that are 11
    and 11.5 degrees away the one anticlockwise of the bearing (so a point owns what lies -10.5 to 11.5 degrees off)."""
    name = 'nearest'
    inputs = {'d': Int(1, 360)}

    def run(self, x):
        return models.WindDirection.from_degrees(x.d)

    def post(self, r, x):
        if r is None:
            return [('has-a-point', False)]
        off = 2 * x.d - r.value * 45
        if off > 360:
            off = off - 720
        return [('has-a-point', True), ('within-half-a-sector', -23 <= off and off <= 23),
                ('nearest', -21 <= off and off <= 23)]


class Outside(Case):
    name = 'outside'
    inputs = {'d': Int(-100000, 100000)}

    def pre(self, x):
        return x.d < 1 or x.d > 360

    def run(self, x):
        return models.WindDirection.from_degrees(x.d)

    def post(self, r, x):
        return [('no-point', r is None)]


class Monotone(Case):
    """Going clockwise by one degree stays at the point or moves to the next one."""
    name = 'clockwise'
    inputs = {'d': Int(1, 360)}

    def run(self, x):
        return models.WindDirection.from_degrees(x.d), models.WindDirection.from_degrees(1 if x.d == 360 else x.d + 1)

    def post(self, r, x):
        a, b = r
        if a is None or b is None:
            return [('has-a-point', False)]
        return [('neighbour', b.value == a.value or b.value == (0 if a.value == 15 else a.value + 1))]


class RoundTrip(Case):
    """A point's own bearing (to the whole degree either side) names the point, and bearings are multiples of 22.5 with
    north at 360."""
    name = 'own-bearing'
    inputs = {'p': EnumOf(models.WindDirection)}

    def run(self, x):
        deg = x.p.degrees
        return deg, models.WindDirection.from_degrees(int(deg)), models.WindDirection.from_degrees(int(deg + 0.5))

    def post(self, r, x):
        want = 360.0 if x.p.value == 0 else x.p.value * 22.5
        return [('bearing', r[0] == want), ('floor', r[1] == x.p), ('ceiling', r[2] == x.p)]


CASES = [Nearest(), Outside(), Monotone(), RoundTrip()]
