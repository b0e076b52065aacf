"""C09: unit conversions."""
from weatherlink import utils

from specs.base import *  # noqa

FILES = ['weatherlink/utils.py']
SLACK = D('1E-12')   # constants and intermediate results carry 28 digits

TEMP = Choice(Dec(-500, 1000, places=3, special=('32', '212', '-40', '273.15', '-459.67', '0')), Int(-500, 1000))
PRESSURE = Choice(Dec(0, 100, places=3, special=('29.921', '0')), Int(0, 100))
SPEED = Choice(Dec(0, 400, places=2, special=('0', '1')), Int(0, 400))


def rounded(r, num, den, places, name):
    """r is num/den (num, den exact decimals, den > 0) to `places` decimal places."""
    unit = D(1).scaleb(-places)
    return [(name + '-value', abs(r * den - num) <= den * (unit / 2 + SLACK)),
            (name + '-places', r == r.quantize(unit))]


class Conversion(Case):
    """The value, its precision, and order."""
    dom = TEMP
    places = 3
    call = None

    @property
    def inputs(self):
        return {'a': self.dom, 'b': self.dom}

    def run(self, x):
        return self.call(x.a), self.call(x.b)

    def exact(self, v):
        """Numerator and denominator of the exact result."""

    def post(self, r, x):
        num, den = self.exact(x.a)
        out = rounded(r[0], num, den, self.places, self.name)
        if x.a <= x.b:
            out += [('order-preserved', r[0] <= r[1])]
        return out


class FToC(Conversion):
    name = 'fahrenheit-celsius'

    def call(self, v):
        return utils.convert_fahrenheit_to_celsius(v)

    def exact(self, v):
        return (v - 32) * D(5), D(9)


class CToF(Conversion):
    name = 'celsius-fahrenheit'

    def call(self, v):
        return utils.convert_celsius_to_fahrenheit(v)

    def exact(self, v):
        return v * D(9) + D(160), D(5)


class FToK(Conversion):
    name = 'fahrenheit-kelvin'

    def call(self, v):
        return utils.convert_fahrenheit_to_kelvin(v)

    def exact(self, v):
        return (v + D('459.67')) * 5, D(9)


class KToF(Conversion):
    name = 'kelvin-fahrenheit'

    def call(self, v):
        return utils.convert_kelvin_to_fahrenheit(v)

    def exact(self, v):
        return v * D(9) - D('2298.35'), D(5)


class InToKpa(Conversion):
    name = 'inhg-kilopascal'
    dom = PRESSURE
    places = 2

    def call(self, v):
        return utils.convert_inches_of_mercury_to_kilopascals(v)

    def exact(self, v):
        return v * D(1), D('0.295299830714')


class InToMb(Conversion):
    name = 'inhg-millibar'
    dom = PRESSURE
    places = 2

    def call(self, v):
        return utils.convert_inches_of_mercury_to_millibars(v)

    def exact(self, v):
        return v * D(1), D('0.0295299830714')


class Speed(Conversion):
    name = 'mph-mps'
    dom = SPEED
    places = 5

    def call(self, v):
        return utils.convert_miles_per_hour_to_meters_per_second(v)

    def exact(self, v):
        return v * D('0.44704'), D(1)


class RoundTrip(Case):
    inputs = {'t': TEMP}

    def __init__(self, name, there, back):
        self.name, self.there, self.back = name, there, back

    def run(self, x):
        return getattr(utils, self.back)(getattr(utils, self.there)(x.t))

    def post(self, r, x):
        return [('within-0.002', abs(r - x.t) <= D('0.002'))]


CASES = [FToC(), CToF(), FToK(), KToF(), InToKpa(), InToMb(), Speed(),
         RoundTrip('f-c-f', 'convert_fahrenheit_to_celsius', 'convert_celsius_to_fahrenheit'),
         RoundTrip('c-f-c', 'convert_celsius_to_fahrenheit', 'convert_fahrenheit_to_celsius'),
         RoundTrip('f-k-f', 'convert_fahrenheit_to_kelvin', 'convert_kelvin_to_fahrenheit'),
         RoundTrip('k-f-k', 'convert_kelvin_to_fahrenheit', 'convert_fahrenheit_to_kelvin')]
