"""C23: what exporting a record stores.  The derived values are those of utils.calculate_all_record_values, a contract here
(C15); that the UTC time is the right instant is C29."""
import re

import mysql.connector
import pytz

from weatherlink import models, utils
from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import world, zones

FILES = ['weatherlink/exporter/mysql.py', 'weatherlink/utils.py']
DATES = DateTime_(datetime.datetime(2000, 1, 2), datetime.datetime(2099, 12, 30))
CHICAGO = pytz.timezone('America/Chicago')

# attribute -> column of the default schema
MEASURED = {
    'timestamp': 'timestamp_weatherlink', 'date': 'timestamp_station', 'minutes_covered': 'minutes_covered',
    'temperature_outside': 'temperature_outside', 'temperature_outside_low': 'temperature_outside_low',
    'temperature_outside_high': 'temperature_outside_high', 'temperature_inside': 'temperature_inside',
    'humidity_outside': 'humidity_outside', 'humidity_inside': 'humidity_inside',
    'barometric_pressure': 'barometric_pressure', 'wind_speed': 'wind_speed', 'wind_speed_high': 'wind_speed_high',
    'rain_amount': 'rain_total', 'rain_rate': 'rain_rate_high', 'rain_amount_clicks': 'rain_clicks',
    'rain_rate_clicks': 'rain_click_rate_high', 'solar_radiation': 'solar_radiation',
    'solar_radiation_high': 'solar_radiation_high', 'uv_index': 'uv_index', 'uv_index_high': 'uv_index_high',
    'evapotranspiration': 'evapotranspiration'}
NAMED = {'wind_direction_prevailing': 'wind_speed_direction', 'wind_direction_speed_high': 'wind_speed_high_direction'}
DATED = {'timestamp_utc': 'timestamp_utc', 'summary_year': 'summary_year', 'summary_month': 'summary_month',
         'summary_day': 'summary_day'}
DERIVED = {'wind_run_distance_total': 'wind_run_distance_total', 'dew_point_inside': 'dew_point_inside',
           'heat_index_inside': 'heat_index_inside'}
for _k in ('temperature_wet_bulb', 'dew_point_outside', 'heat_index_outside', 'wind_chill', 'thw_index', 'thsw_index'):
    for _s in ('', '_low', '_high'):
        DERIVED[_k + _s] = _k + _s
ALL = {}
for _m in (MEASURED, NAMED, DATED, DERIVED):
    ALL.update(_m)


def optional(d):
    return Maybe(Opt(d))


TEMP = Dec('-60', '150', places=1, special=('0',))
HUMIDITY = Int(1, 100)
SPEED = Int(0, 200, special=(0,))
CLICKS = Int(0, 4095, special=(0,))
FIELDS = {
    'timestamp': Int(0, 2 ** 32 - 1), 'minutes_covered': Int(1, 120), 'temperature_outside': optional(TEMP),
    'temperature_outside_low': optional(TEMP), 'temperature_outside_high': optional(TEMP),
    'temperature_inside': optional(TEMP), 'humidity_outside': optional(HUMIDITY), 'humidity_inside': optional(HUMIDITY),
    'barometric_pressure': optional(Dec('20', '33', places=3)), 'wind_speed': optional(SPEED),
    'wind_speed_high': optional(SPEED), 'rain_amount': optional(Dec('0', '40', places=2)),
    'rain_rate': optional(Dec('0', '40', places=2)), 'rain_amount_clicks': optional(CLICKS),
    'rain_rate_clicks': optional(CLICKS), 'solar_radiation': optional(Int(0, 1800)),
    'solar_radiation_high': optional(Int(0, 1800)), 'uv_index': optional(Dec('0', '16', places=1)),
    'uv_index_high': optional(Dec('0', '16', places=1)), 'evapotranspiration': optional(Dec('0', '1', places=3)),
    'wind_direction_prevailing': optional(EnumOf(models.WindDirection)),
    'wind_direction_speed_high': optional(EnumOf(models.WindDirection)),
    'forecast': optional(Int(0, 255)), 'record_version': Maybe(Int(0, 255))}


class Executed(object):
    """Stands in for the connection and the cursor: keeps what is executed and committed, in order."""

    def __init__(self):
        self.log = []

    def cursor(self, *args, **kwargs):
        return self

    def execute(self, statement, arguments=None):
        self.log.append((statement, arguments))

    def commit(self):
        self.log.append(('COMMIT', None))

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def connect(*args, **kwargs):
    return world.get()


def insert_of(statement):
    """(table, columns, number of placeholders) of an INSERT statement."""
    m = re.match(r'^\s*INSERT\s+INTO\s+([^\s(]+)\s*\(([^()]*)\)\s*VALUES\s*\(([^()]*)\)\s*;?\s*$', statement, re.I)
    if m is None:
        raise OutOfReach()
    marks = [p.strip() for p in m.group(3).split(',')] if m.group(3).strip() else []
    if any(p != '%s' for p in marks):
        raise OutOfReach()
    columns = [c.strip().strip('`') for c in m.group(2).split(',')] if m.group(2).strip() else []
    return m.group(1).strip('`'), columns, len(marks)


def insert_contract(eng, args, kwargs):
    from pyver import models as m
    from pyver.values import ListObj, Unsupported
    v = eng.resolve(args[0])
    if isinstance(v, str):
        return eng.from_native(insert_of(v))
    p = v.parts
    if len(p) != 5 or any(isinstance(x, str) != (i % 2 == 0) for i, x in enumerate(p)) or p[1][0] != 'join' or \
            p[3][0] != 'join' or p[1][1].strip() != ',' or p[3][1].strip() != ',':
        raise Unsupported('statement %r' % (v,))
    head = re.match(r'^\s*INSERT\s+INTO\s+([^\s(]+)\s*\($', p[0], re.I)
    if not head or not re.match(r'^\)\s*VALUES\s*\($', p[2], re.I) or not re.match(r'^\)\s*;?\s*$', p[4]):
        raise Unsupported('statement %r' % (v,))
    if any(x != '%s' for g, x in p[3][2]) or not all(isinstance(x, str) for g, x in p[1][2]):
        raise Unsupported('statement %r' % (v,))
    columns = eng.alloc(ListObj([(g, x.strip().strip('`')) for g, x in p[1][2]]), 'list')
    marks = eng.alloc(ListObj(list(p[3][2])), 'list')
    return (head.group(1).strip('`'), columns, m.m_len(eng, (marks,), {}))


def derived_contract(eng, args, kwargs):
    """Some of the derived values, each a number: the same for the same record."""
    import z3
    from pyver.values import DictObj, SDec
    done = eng.__dict__.setdefault('derived_values', {})
    eng.contract_uses['calculate_all_record_values'] = eng.contract_uses.get('calculate_all_record_values', 0) + 1
    return eng.alloc(DictObj({k: (z3.Bool('has!' + k), SDec(z3.Real('derived!' + k))) for k in sorted(DERIVED)}), 'dict')


def same(d):
    return d


def value(d, k):
    return d[k] if k in d else None


OTHER_NAMES = dict((k, 'c_' + k) for k in ALL)
PARTLY = dict(OTHER_NAMES)
for _k in ('timestamp', 'temperature_inside', 'humidity_inside', 'wind_direction_speed_high', 'dew_point_inside', 'wind_chill_low',
           'rain_rate', 'summary_day'):
    PARTLY[_k] = exporter.COLUMN_MAP_DO_NOT_INSERT
for _k in ('heat_index_inside', 'thsw_index', 'temperature_wet_bulb_high'):
    del PARTLY[_k]


class Stored(Case):
    inputs = {'date': DATES, 'record': Rec(FIELDS, models.ArchiveIntervalRecord)}
    table = None
    columns = None
    again = False
    budget = 200

    def setup(self, eng):
        zones.install(eng)
        eng.contracts[utils.calculate_all_record_values] = derived_contract
        eng.contracts[insert_of] = insert_contract

    def patches(self):
        return [(mysql.connector, 'connect', connect)]

    def pre(self, x):
        return zones.exists(CHICAGO, x.date)

    def map_of(self, x):
        return self.columns

    def run(self, x):
        w = Executed()
        world.put(w)
        e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
        if self.table is not None:
            e.archive_table_name = self.table
        if self.map_of(x) is not None:
            e.archive_table_column_map = self.map_of(x)
        if self.again:
            # what was configured is taken back
            e.archive_table_name = 'my_table'
            e.archive_table_name = None
            e.archive_table_column_map = OTHER_NAMES
            e.archive_table_column_map = None
        x.record['date'] = x.date
        e.connect()
        e.export_record(x.record)
        return w.log

    def post(self, log, x):
        record = x.record
        inserts = [entry for entry in log if entry[0] != 'COMMIT']
        table, names, marks = insert_of(inserts[0][0])
        arguments = [] if inserts[0][1] is None else inserts[0][1]
        stored = dict(zip(names, arguments))
        out = [('one-statement', len(inserts) == 1),
               ('committed', log[0][0] != 'COMMIT' and len(log) > 1 and log[len(log) - 1][0] == 'COMMIT'),
               ('table', table == ('weather_archive_record' if self.table is None else self.table)),
               ('as-many-arguments', len(arguments) == len(names)), ('as-many-placeholders', marks == len(names)),
               ('each-column-once', len(stored) == len(names))]
        derived = utils.calculate_all_record_values(record)
        known = []
        for k in ALL:
            column, configured = self.column(x, k)
            if column is None:
                continue
            known.append(column)
            got = value(stored, column)
            if k in MEASURED:
                ok = got == value(record, k)
            elif k in NAMED:
                d = value(record, k)
                ok = got == (None if d is None else d.name)
            elif k == 'timestamp_utc':
                ok = (not configured) or zones.shows(CHICAGO, got) == x.date
            elif k in DATED:
                ok = got == {'summary_year': x.date.year, 'summary_month': x.date.month, 'summary_day': x.date.day}[k]
            else:
                ok = got == value(derived, k)
            out.append((k, ok if configured else column not in stored))
        out.append(('no-other-columns', all([n in known for n in names])))
        return out

    def column(self, x, k):
        """(the column an attribute goes to, whether it does)"""
        to = ALL if self.map_of(x) is None else self.map_of(x)
        if k not in to or to[k] == exporter.COLUMN_MAP_DO_NOT_INSERT:
            return None, False
        return to[k], True


class AnyMap(Stored):
    """Any column map: every attribute is stored or not, and a derived one may be left out of the map."""
    name = 'any-column-map'
    inputs = dict(Stored.inputs, columns=Rec(dict(
        (k, (Maybe if k in DERIVED else same)(Choice('c_' + k, exporter.COLUMN_MAP_DO_NOT_INSERT))) for k in ALL)))

    def map_of(self, x):
        return x.columns

    def column(self, x, k):
        return 'c_' + k, k in x.columns and x.columns[k] == 'c_' + k


def make(label, **attrs):
    attrs['name'] = label
    return type('Stored', (Stored,), attrs)()


CASES = [make('default'), make('table', table='my_table'), make('names', columns=OTHER_NAMES), make('partly', columns=PARTLY),
         make('reset', again=True), AnyMap()]
