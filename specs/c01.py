"""C01: the packed timestamp codec."""
import datetime

from weatherlink import models

from specs.base import *  # noqa

FILES = ['weatherlink/models.py']


def packed(d):
    """The documented packing: day + month*32 + (year-2000)*512 in the upper half, hour*100 + minute in the lower."""
    return ((d.year - 2000) * 512 + d.month * 32 + d.day) * 65536 + d.hour * 100 + d.minute


class Encode(Case):
    name = 'encode'
    inputs = {'d': DateTime_(datetime.datetime(2000, 1, 1), datetime.datetime(2127, 12, 31, 23, 59, 59))}

    def run(self, x):
        t = models.convert_datetime_to_timestamp(x.d)
        return t, models.convert_timestamp_to_datetime(t)

    def post(self, r, x):
        t, back = r
        return [('packing-formula', t == packed(x.d)),
                ('round-trip', back == x.d.replace(second=0))]


class Order(Case):
    name = 'order'
    inputs = {'a': DateTime_(step=60), 'b': DateTime_(step=60)}

    def run(self, x):
        return models.convert_datetime_to_timestamp(x.a), models.convert_datetime_to_timestamp(x.b)

    def post(self, r, x):
        return [('order-preserved', (r[0] < r[1]) == (x.a < x.b)), ('injective', (r[0] == r[1]) == (x.a == x.b))]


CASES = [Encode(), Order()]
