"""C29: station time to UTC, in both exporters."""
import datetime

import mysql.connector
import pytz

from weatherlink import models
from weatherlink.exporter import mysql as exporter
from weatherlink.exporter import wunderground

from specs.base import *  # noqa
from specs import web, world, zones

FILES = ['weatherlink/exporter/mysql.py', 'weatherlink/exporter/wunderground.py', 'weatherlink/utils.py']
DATES = DateTime_(datetime.datetime(2000, 1, 2), datetime.datetime(2099, 12, 30))
CHICAGO = 'America/Chicago'


class Executed(object):
    """Stands in for the connection and the cursor: keeps what is executed."""

    def __init__(self):
        self.log = []
        self.closed = False

    def cursor(self, *args, **kwargs):
        return self

    def execute(self, statement, arguments=None):
        self.log.append((statement, arguments))

    def commit(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def connect(*args, **kwargs):
    return world.get()


def record(stamp):
    r = models.ArchiveIntervalRecord()
    r['date'] = stamp
    for field in ('wind_speed', 'wind_direction_prevailing_degrees', 'wind_speed_high', 'wind_direction_speed_high_degrees',
                  'humidity_outside', 'temperature_outside', 'barometric_pressure', 'solar_radiation', 'uv_index',
                  'temperature_inside', 'humidity_inside', 'wind_direction_degrees'):
        r[field] = None
    return r


def bare_record(stamp):
    r = models.ArchiveIntervalRecord()
    r['date'] = stamp
    return r


def stored(statement, arguments, column):
    """The argument for a column of an INSERT statement."""
    names = [n.strip().strip('`') for n in statement[statement.index('(') + 1:statement.index(')')].split(',')]
    return arguments[names.index(column)]


class Zones(Case):
    """The zone as configured: by name, as a zone, or not at all."""
    inputs = {'date': DATES, 'zone': zones.Zone_('pytz')}
    how = 'zone'

    def setup(self, eng):
        zones.install(eng)
        web.install(eng)

    def patches(self):
        return web.patches(wunderground) + [(mysql.connector, 'connect', connect)]

    def zone(self, x):
        if self.how == 'zone':
            return x.zone
        if self.how == 'name':
            return pytz.timezone(x.zone)
        return pytz.timezone(CHICAGO)

    def pre(self, x):
        return zones.exists(self.zone(x), x.date)

    def tweak(self, rng, kw):
        zone = self.zone(NS(**kw))
        times = [t for t in getattr(zone, '_utc_transition_times', ()) if 2001 <= t.year <= 2036]
        if times and rng.random() < 0.5:
            kw['date'] = rng.choice(times) + datetime.timedelta(minutes=15 * rng.randint(-60, 60))
        return kw

    def configure(self, e, x):
        if self.how in ('zone', 'name'):
            e.station_time_zone = x.zone
        elif self.how == 'reset':
            e.station_time_zone = 'Europe/London'
            e.station_time_zone = None

    def post(self, r, x):
        return [('utc', zones.shows(self.zone(x), r) == x.date), ('naive', r.tzinfo is None)]


class Stored(Zones):
    """The UTC time stored with a record."""

    def run(self, x):
        w = Executed()
        world.put(w)
        e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
        self.configure(e, x)
        e.connect()
        e.export_record(bare_record(x.date))
        statement, arguments = w.log[0]
        return stored(statement, arguments, 'timestamp_utc')


class Uploaded(Zones):
    """The UTC time uploaded."""

    def run(self, x):
        w = web.WebWorld(web.Answer(200, 'success'))
        world.put(w)
        e = kept(wunderground.WundergroundExporter, 'K', 'p')
        self.configure(e, x)
        e.send_simple_update(record(x.date))
        return web.time_said(web.query(w.requests[0][1])['dateutc'])


def make(cls, label, how_, **ins):
    inputs = {'date': DATES}
    inputs.update(ins)
    return type(cls.__name__, (cls,), {'name': label + '-' + how_, 'how': how_.split(',')[0], 'inputs': inputs})()


CASES = []
for _cls, _label in ((Stored, 'stored'), (Uploaded, 'uploaded')):
    for _how, _ins in (('zone,pytz', {'zone': zones.Zone_('pytz')}), ('zone,plain', {'zone': zones.Zone_('plain')}),
                       ('name', {'zone': zones.Name_()}), ('default', {}), ('reset', {})):
        CASES.append(make(_cls, _label, _how, **_ins))
