"""C30: records behave as dictionaries and objects alike."""
import copy
import pickle

from weatherlink import models

from specs.base import *  # noqa

FILES = ['weatherlink/models.py']
NAMES = ('date', 'wind_speed', '_private', 'x', 'temperature_outside', 'version_code', 'Δ', '__custom__', 'values', 'items', 'keys', 'copy', 'update', 'get', '__class__')
VALUE = Choice(None, Dec(-100, 100), Int(-1000, 1000), Str_())


class ReadField(Case):
    name = 'read-field'
    inputs = {'name': Str_(samples=NAMES), 'value': VALUE, 'other': VALUE}

    def run(self, x):
        r = models.RecordDict()
        r['before'] = x.other
        r[x.name] = x.value
        return models.RecordDict.__getattr__(r, x.name)

    def post(self, r, x):
        return [('value-of-key', r == x.value)]


class MissingField(Case):
    name = 'missing-field'
    inputs = {'name': Str_(samples=NAMES), 'value': VALUE}

    def run(self, x):
        r = models.RecordDict()
        try:
            models.RecordDict.__getattr__(r, x.name)
        except AttributeError:
            a = 'AttributeError'
        else:
            a = None
        try:
            r[x.name]
        except KeyError:
            b = 'KeyError'
        else:
            b = None
        return a, b

    def post(self, r, x):
        return [('attribute-error', r[0] == 'AttributeError'), ('key-error', r[1] == 'KeyError')]


class WriteField(Case):
    name = 'write-field'
    inputs = {'name': Str_(samples=NAMES), 'value': VALUE}

    def run(self, x):
        r = models.RecordDict()
        models.RecordDict.__setattr__(r, x.name, x.value)
        return r

    def post(self, r, x):
        return [('sets-the-key', r[x.name] == x.value), ('and-nothing-else', len(r) == 1),
                ('no-instance-attribute', len(r.__dict__) == 0)]


class Protocol(Case):
    """Through the language itself, on every record class."""
    name = 'attributes'
    inputs = {'a': VALUE, 'b': VALUE, 'c': VALUE}
    cls_ = models.RecordDict

    def run(self, x):
        r = self.cls_(date=x.a, wind_speed=x.b)
        r.wind_speed_high = x.c
        s = self.cls_(date=x.a)
        s.date = x.b
        return r, s, r.date, r.wind_speed, r.wind_speed_high, getattr(r, 'rain', 7), hasattr(r, 'rain'), hasattr(r, 'date')

    def post(self, q, x):
        r, s, date, ws, wsh, rain, has, has_date = q
        return [('reads', date == x.a and ws == x.b and wsh == x.c),
                ('keys', r['date'] == x.a and r['wind_speed'] == x.b and r['wind_speed_high'] == x.c and len(r) == 3),
                ('overwrites', s['date'] == x.b and len(s) == 1),
                ('default', rain == 7 and not has and has_date and 'rain' not in r and r.get('rain') is None)]


class ProtocolArchive(Protocol):
    name = 'attributes(archive)'
    cls_ = models.ArchiveIntervalRecord


class ProtocolLoop(Protocol):
    name = 'attributes(loop)'
    cls_ = models.LoopRecord


class ProtocolDaily(Protocol):
    name = 'attributes(daily)'
    cls_ = models.DailySummary


class CopyRecord(Case):
    """copy and pickle, which probe for special attributes."""
    name = 'copies'
    bounded = True
    inputs = {'a': VALUE, 'b': VALUE, 'name': Str_(samples=NAMES)}
    CLASSES = [models.RecordDict, models.ArchiveIntervalRecord, models.LoopRecord, models.DailySummary]

    def run(self, x):
        out = []
        for cls in self.CLASSES:
            r = cls(date=x.a)
            r[x.name] = x.b
            out.append((cls, r, [copy.copy(r), copy.deepcopy(r), pickle.loads(pickle.dumps(r, 2))]))
        return out

    def post(self, q, x):
        return [('equal-copy-of-the-class', all(type(c) is cls and c == r and c is not r for cls, r, cs in q for c in cs)),
                ('unchanged', all(r[x.name] == x.b for cls, r, cs in q))]


CASES = [ReadField(), MissingField(), WriteField(), Protocol(), ProtocolArchive(), ProtocolLoop(), ProtocolDaily(), CopyRecord()]
