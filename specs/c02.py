"""C02: the CRC."""
import struct

from weatherlink import models

from specs.base import *  # noqa

FILES = ['weatherlink/models.py']


def crc_byte(crc, byte):
    """One byte of CRC-16/CCITT (polynomial 0x1021, initial value 0, most significant bit first), bit by bit."""
    crc = crc ^ (byte << 8)
    for _ in range(8):
        if crc & 0x8000:
            crc = ((crc << 1) ^ 0x1021) & 0xFFFF
        else:
            crc = (crc << 1) & 0xFFFF
    return crc


class CrcFold(Fold):
    name = 'crc'
    seq = 'data'
    state = {'crc': Int(0, 65535, bv=16)}

    def init(self, x):
        return {'crc': 0}

    def step(self, x, s, e, i):
        return {'crc': crc_byte(s.crc, e)}


class Matches(Case):
    """The CRC of every byte string is the CRC-16/CCITT register after it."""
    name = 'definition'
    inputs = {'data': Seq(Int(0, 255, bv=8), 'data', maxlen=40, kind='bytes', longlen=300)}
    folds = (CrcFold(),)

    def run(self, x):
        return models.calculate_weatherlink_crc(x.data)

    def post(self, r, x):
        return [('crc-ccitt', r == fold_result(self.folds[0], x).crc)]


class SelfCheck(Case):
    """A message followed by its own CRC, most significant byte first, has CRC zero; with any other two bytes it has not."""
    name = 'append'
    inputs = {'data': Seq(Int(0, 255, bv=8), 'data', maxlen=40, kind='bytes', longlen=300), 'hi': Int(0, 255, bv=8),
              'lo': Int(0, 255, bv=8)}
    folds = (CrcFold(),)

    def tweak(self, rng, kw):
        if rng.random() < 0.5:
            c = 0
            for b in kw['data']:
                c = crc_byte(c, b)
            kw['hi'], kw['lo'] = c >> 8, c & 255
        return kw

    def run(self, x):
        crc = models.calculate_weatherlink_crc(x.data)
        return crc, models.calculate_weatherlink_crc(x.data + struct.pack('BB', x.hi, x.lo))

    def post(self, r, x):
        return [('accepts-only-own-crc', (r[1] == 0) == ((r[0] >> 8) == x.hi and (r[0] & 0xFF) == x.lo))]


class Detects(Case):
    """Changing one byte of a message (any other bytes before, one arbitrary byte after it) changes its CRC."""
    name = 'detects-change'
    inputs = {'data': Seq(Int(0, 255, bv=8), 'data', maxlen=40, kind='bytes', longlen=300), 'a': Int(0, 255, bv=8),
              'b': Int(0, 255, bv=8), 'c': Int(0, 255, bv=8)}
    folds = (CrcFold(),)

    def pre(self, x):
        return x.a != x.b

    def run(self, x):
        one = struct.pack('BB', x.a, x.c)
        two = struct.pack('BB', x.b, x.c)
        return models.calculate_weatherlink_crc(x.data + one), models.calculate_weatherlink_crc(x.data + two)

    def post(self, r, x):
        return [('different', r[0] != r[1])]


CASES = [Matches(), SelfCheck(), Detects()]
