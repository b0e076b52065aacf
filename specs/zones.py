"""Time zones: the domain of zones, what a clock in a zone shows, and the contract of the zone library for the verifier.

A zone of pytz has `localize`; any other zone works with `replace(tzinfo=...)` and `astimezone`.  Contract assumed: localizing a
time that exists in the zone (or, without `localize`, attaching the zone) and converting to UTC gives an instant at which a
clock in that zone shows that time.  Attaching a pytz zone without localizing gives some other instant."""
import datetime

import pytz

from specs.base import *  # noqa


class Summer(datetime.tzinfo):
    """A zone that is not of pytz: two hours ahead from April to September, else one."""

    def summer(self, dt):
        return 4 <= dt.month <= 9

    def utcoffset(self, dt):
        return datetime.timedelta(hours=2 if self.summer(dt) else 1)

    def dst(self, dt):
        return datetime.timedelta(hours=1 if self.summer(dt) else 0)

    def tzname(self, dt):
        return 'S' if self.summer(dt) else 'W'

    def fromutc(self, dt):
        naive = dt.replace(tzinfo=None) + datetime.timedelta(hours=1)
        if self.summer(naive):
            naive = naive + datetime.timedelta(hours=1)
        return naive.replace(tzinfo=self)


NAMES = ['America/Chicago', 'US/Eastern', 'Europe/London', 'UTC', 'Asia/Kolkata', 'Australia/Lord_Howe', 'Asia/Kathmandu',
         'America/St_Johns', 'Pacific/Apia', 'America/Sao_Paulo']
PLAIN = {'plain:utc': datetime.timezone.utc, 'plain:-06:00': datetime.timezone(datetime.timedelta(hours=-6)),
         'plain:+05:45': datetime.timezone(datetime.timedelta(hours=5, minutes=45)), 'plain:summer': Summer()}


def by_key(key):
    return PLAIN[key] if key in PLAIN else pytz.timezone(key)


def key_of(zone):
    for k in PLAIN:
        if PLAIN[k] is zone:
            return k
    return str(zone)


class Zone_(Domain):
    """A time zone; of pytz (kind 'pytz'), any other ('plain'), or both."""

    def __init__(self, kind=None):
        self.kind = kind
        self.keys = (NAMES if kind != 'plain' else []) + (sorted(PLAIN) if kind != 'pytz' else [])

    def sample(self, rng, hints):
        if self.kind != 'plain' and rng.random() < 0.2:
            return by_key(rng.choice(pytz.common_timezones if rng.random() < 0.7 else pytz.all_timezones))
        return by_key(rng.choice(self.keys))

    def symbolic(self, lf):
        from pyver.values import SOpaque
        import z3
        z = lf.const(sort())
        if self.kind is not None:
            lf.fact(localizes(z) if self.kind == 'pytz' else z3.Not(localizes(z)))
        return SOpaque(z, datetime.tzinfo, self)

    def concrete(self, ev, v):
        import z3
        loc = z3.is_true(ev(localizes(v.t)))
        keys = [k for k in self.keys if (k not in PLAIN) == loc] or self.keys
        name = str(ev(v.t))
        return by_key(keys[int(name.rsplit('!', 1)[-1]) % len(keys) if '!' in name else 0])


def sort():
    import z3
    return z3.DeclareSort('Zone')


def localizes(z):
    import z3
    return z3.Function('localizes', sort(), z3.BoolSort())(z)


class Name_(Str_):
    """The name of a zone."""

    def __init__(self):
        super(Name_, self).__init__(samples=NAMES)

    def sample(self, rng, hints):
        return rng.choice(NAMES if rng.random() < 0.8 else pytz.all_timezones)


def shows(zone, instant):
    """What a clock in the zone shows at an instant (naive, UTC)."""
    return pytz.UTC.localize(instant).astimezone(zone).replace(tzinfo=None)


def exists(zone, local):
    """A clock in the zone shows this time at some instant."""
    guess = [local - datetime.timedelta(minutes=15 * k) for k in range(-60, 61)]
    return any(shows(zone, g) == local for g in guess)


def install(eng):
    """The contract of the zones."""
    import z3
    from pyver.interp import Method, Closure
    from pyver.models import NO
    from pyver.ops import mk_bool
    from pyver.values import SOpaque, SDateTime, SStr, SBool, PyRaise, Unsupported
    Z = sort()
    I = z3.IntSort()
    eng.assumptions.add('pytz and datetime.tzinfo: the instant of a station time that exists is one at which a clock in the '
                        'zone shows it')

    def term(zone):
        if isinstance(zone, SOpaque) and zone.t.sort() == Z:
            return zone.t
        if isinstance(zone, datetime.tzinfo):
            z = z3.Const('zone:' + key_of(zone), Z)
            eng.keep.append(z)
            eng.axiom(('zone', z.get_id()), lambda: [localizes(z) == hasattr(zone, 'localize')])
            return z
        raise Unsupported('the zone %r' % (zone,))

    def fun(name):
        return z3.Function(name, Z, I, I, I)

    def clock(z, o, s):
        return fun('shows_day')(z, o, s), fun('shows_second')(z, o, s)

    def bounded(o, s):
        return [z3.And(o >= 1, o <= 3652059, s >= 0, s <= 86399)]

    def instant(z, dt, loc):
        """(day, second) in UTC of a local time."""
        o, s = dt.day_ord, dt.sod
        no, ns = fun('utc_day')(z, o, s), fun('utc_second')(z, o, s)
        eng.keep.extend([no, ns])
        co, cs = clock(z, no, ns)
        there = z3.Function('exists', Z, I, I, z3.BoolSort())(z, o, s)
        eng.axiom(('utc', no.get_id()), lambda: bounded(no, ns) + [z3.Implies(there, z3.And(co == o, cs == s))])
        if loc:
            return no, ns
        ro, rs = fun('raw_day')(z, o, s), fun('raw_second')(z, o, s)
        eng.keep.extend([ro, rs])
        eng.axiom(('raw', ro.get_id()), lambda: bounded(ro, rs))
        lz = localizes(z)
        return z3.If(lz, ro, no), z3.If(lz, rs, ns)

    def utc(zone):
        return zone is pytz.UTC or zone is datetime.timezone.utc

    def tz_hook(e, v, name, args, kwargs):
        if name != 'astimezone' or not isinstance(v, SDateTime):
            return NO
        to = e.resolve(args[0] if args else kwargs.get('tz'))
        if not utc(to):
            raise Unsupported('astimezone(%r)' % (to,))
        if v.aware is None:
            raise Unsupported('the local time zone of the process')
        if isinstance(v.aware, tuple):
            o, s = instant(term(v.aware[1]), v, True)
        elif utc(v.aware):
            o, s = v.day_ord, v.sod
        else:
            o, s = instant(term(v.aware), v, False)
        return SDateTime(o, s, None, to)

    def localize(e, zone, args, kwargs):
        dt = e.as_sdt(e.resolve(args[0] if args else kwargs['dt']))
        if dt is None:
            raise Unsupported('localize')
        if dt.aware is not None:
            raise PyRaise(ValueError('Not naive datetime (tzinfo is already set)'))
        if len(args) > 1 or kwargs.get('is_dst', False) not in (False, True):
            raise Unsupported('is_dst')
        return SDateTime(dt.day_ord, dt.sod, dt.fields, ('loc', zone))

    def opaque_attr(e, v, name):
        if v.t.sort() != Z:
            return NO
        if name in ('localize', 'normalize'):
            if not e.branch(localizes(v.t)):
                raise PyRaise(AttributeError(name))
            return Method(name, v)
        raise Unsupported('zone.%s' % name)

    def opaque_method(e, v, name, args, kwargs):
        if v.t.sort() != Z:
            return NO
        if name == 'localize':
            return localize(e, v, args, kwargs)
        raise Unsupported('zone.%s' % name)

    def native_hook(e, f, args, kwargs):
        owner = getattr(f, '__self__', None)
        if isinstance(owner, datetime.tzinfo) and getattr(f, '__name__', '') == 'localize':
            return localize(e, owner, args, kwargs)
        return NO

    def timezone(e, args, kwargs):
        name = e.resolve(args[0] if args else kwargs['zone'])
        if isinstance(name, str):
            return pytz.timezone(name)
        if isinstance(name, SStr) and len(name.parts) == 1 and name.parts[0][0] == 'in':
            t = name.parts[0][1].t
            z = z3.Function('zone_named', t.sort(), Z)(t)
            e.keep.append(z)
            e.axiom(('named', z.get_id()), lambda: [localizes(z)])
            return SOpaque(z, datetime.tzinfo, None)
        raise Unsupported('timezone(%r)' % (name,))

    def shows_(e, args, kwargs):
        zone, u = e.resolve(args[0]), e.as_sdt(e.resolve(args[1]))
        if u is None or u.aware is not None:
            return None
        o, s = clock(term(zone), u.day_ord, u.sod)
        e.keep.extend([o, s])
        e.axiom(('clock', o.get_id()), lambda: bounded(o, s))
        return SDateTime(o, s)

    def exists_(e, args, kwargs):
        zone, dt = e.resolve(args[0]), e.as_sdt(e.resolve(args[1]))
        return mk_bool(z3.Function('exists', Z, I, I, z3.BoolSort())(term(zone), dt.day_ord, dt.sod))

    eng.tz_hook, eng.opaque_attr, eng.opaque_method, eng.native_hook = tz_hook, opaque_attr, opaque_method, native_hook
    eng.contracts[pytz.timezone] = timezone
    eng.contracts[shows] = shows_
    eng.contracts[exists] = exists_
