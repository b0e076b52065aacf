"""Inputs as JSON, for replay files and for passing counterexamples to the native runner."""
import datetime
import decimal
import enum
import importlib


def enc(v):
    if v is None or isinstance(v, bool) or isinstance(v, str):
        return v
    if isinstance(v, enum.Enum):
        return {'__enum': '%s:%s' % (type(v).__module__, type(v).__name__), 'v': v.name}
    if isinstance(v, int):
        return v
    if isinstance(v, float):
        return {'__float': repr(v)}
    if isinstance(v, decimal.Decimal):
        return {'__dec': str(v)}
    if isinstance(v, (bytes, bytearray)):
        return {'__bytes': bytes(v).hex()}
    if isinstance(v, datetime.tzinfo):
        from specs import zones
        return {'__zone': zones.key_of(v)}
    if isinstance(v, datetime.datetime):
        return {'__dt': [v.year, v.month, v.day, v.hour, v.minute, v.second]}
    if isinstance(v, datetime.date):
        return {'__date': [v.year, v.month, v.day]}
    if isinstance(v, tuple):
        return {'__tuple': [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        if type(v) is dict:
            return {'__dict': [[enc(k), enc(x)] for k, x in v.items()]}
        return {'__rec': '%s:%s' % (type(v).__module__, type(v).__name__),
                'v': [[enc(k), enc(x)] for k, x in v.items()]}
    raise ValueError('cannot encode %r' % (v,))


def _cls(s):
    m, n = s.split(':')
    return getattr(importlib.import_module(m), n)


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        if '__enum' in v:
            return _cls(v['__enum'])[v['v']]
        if '__float' in v:
            return float(v['__float'])
        if '__dec' in v:
            return decimal.Decimal(v['__dec'])
        if '__bytes' in v:
            return bytes.fromhex(v['__bytes'])
        if '__zone' in v:
            from specs import zones
            return zones.by_key(v['__zone'])
        if '__dt' in v:
            return datetime.datetime(*v['__dt'])
        if '__date' in v:
            return datetime.date(*v['__date'])
        if '__tuple' in v:
            return tuple(dec(x) for x in v['__tuple'])
        if '__dict' in v:
            return {dec(k): dec(x) for k, x in v['__dict']}
        if '__rec' in v:
            return _cls(v['__rec'])(**{dec(k): dec(x) for k, x in v['v']})
    return v
