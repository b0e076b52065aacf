"""Reading fields out of raw bytes, for the decoding specifications (written without struct)."""
import decimal

from specs.base import *  # noqa

D = decimal.Decimal


class Stream(object):
    """A readable source holding exactly `data`."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        end = len(self.data) if n < 0 else self.pos + n
        chunk = self.data[self.pos:end]
        self.pos = self.pos + len(chunk)
        return chunk

    def close(self):
        self.closed = True


def u8(b, o):
    return b[o]


def s8(b, o):
    return b[o] - 256 if b[o] >= 128 else b[o]


def u16(b, o):
    return b[o] + 256 * b[o + 1]


def s16(b, o):
    v = b[o] + 256 * b[o + 1]
    return v - 65536 if v >= 32768 else v


def s32(b, o):
    v = b[o] + 256 * (b[o + 1] + 256 * (b[o + 2] + 256 * b[o + 3]))
    return v - 4294967296 if v >= 2147483648 else v


READ = {'B': u8, 'b': s8, 'H': u16, 'h': s16, 'l': s32}
SIZE = {'B': 1, 'b': 1, 'H': 2, 'h': 2, 'l': 4}


def decode(b, table):
    """[(field, expected value)] for rows (field, offset, format, scale, dash): the value, times the scale, or None for
    the dash value."""
    out = []
    for name, off, fmt, scale, dash in table:
        v = READ[fmt](b, off)
        if dash is not None and v == dash:
            out.append((name, None))
        elif scale is None:
            out.append((name, v))
        else:
            out.append((name, v * scale))
    return out


def field_obligations(record, b, table):
    return [('field-' + name, same(record[name], want)) for name, want in decode(b, table)]


def same(got, want):
    if want is None or got is None:
        return got is None and want is None
    return got == want


def words(table):
    return [(off, SIZE[fmt], fmt in 'bh') for _, off, fmt, _, _ in table]


TENTH, HUNDREDTH, THOUSANDTH = D('0.1'), D('0.01'), D('0.001')
