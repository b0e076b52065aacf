"""C08: rain collectors."""
import decimal

from weatherlink import models

from specs.base import *  # noqa

FILES = ['weatherlink/models.py']
D = decimal.Decimal
IN_PER_CM = D('0.393701')

# inches per click, centimetres per click
INCH = {'inches_0_1': D('0.1'), 'inches_0_01': D('0.01')}
CM = {'millimeters_0_1': D('0.01'), 'millimeters_0_2': D('0.02'), 'millimeters_1_0': D('0.1')}


def obligations(r, x):
    inches, cm = r
    name = x.kind.name
    if name in INCH:
        # exact in inches; centimetres by the defined factor, to the precision of decimal division
        return [('inches-exact', inches == x.clicks * INCH[name]),
                ('centimetres', abs(cm * IN_PER_CM - inches) <= (x.clicks + 1) * D('1E-20'))]
    return [('centimetres-exact', cm == x.clicks * CM[name]), ('inches', inches == cm * IN_PER_CM)]


class Serial(Case):
    name = 'serial'
    inputs = {'kind': EnumOf(models.RainCollectorTypeSerial), 'clicks': Int(0, 65535)}

    def run(self, x):
        return x.kind.clicks_to_inches(x.clicks), x.kind.clicks_to_centimeters(x.clicks)

    def post(self, r, x):
        return obligations(r, x)


class Database(Serial):
    name = 'database'
    inputs = {'kind': EnumOf(models.RainCollectorTypeDatabase), 'clicks': Int(0, 65535)}


class Codes(Case):
    """The setup-bit codes and the database codes name the same collectors."""
    name = 'codes'
    inputs = {'word': Int(0, 65535)}

    def pre(self, x):
        return (x.word // 4096) in (0, 1, 2, 3, 6)

    def run(self, x):
        return models.RainCollectorTypeDatabase(x.word & 0xF000)

    def post(self, r, x):
        k = x.word // 4096
        want = ('inches_0_1', 'inches_0_01', 'millimeters_0_2', 'millimeters_1_0', '', '', 'millimeters_0_1')
        return [('named', r == models.RainCollectorTypeDatabase[want[k]])]


class SerialCodes(Case):
    name = 'serial-codes'
    inputs = {'bits': Int(0, 255)}

    def pre(self, x):
        return x.bits & 0x30 != 0x30

    def run(self, x):
        return models.RainCollectorTypeSerial(x.bits & 0x30)

    def post(self, r, x):
        k = x.bits // 16 % 4
        want = ('inches_0_01', 'millimeters_0_2', 'millimeters_0_1')
        return [('named', r == models.RainCollectorTypeSerial[want[k]])]


CASES = [Serial(), Database(), Codes(), SerialCodes()]
