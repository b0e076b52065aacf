"""C32: the newest record stored."""
import mysql.connector

from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import sql, world
from specs.c25 import connect

FILES = ['weatherlink/exporter/mysql.py']
TABLE, STAMP = 'weather_archive_record', 'timestamp_weatherlink'


def greatest(x):
    """The greatest of the stamps stored; None if there are none."""
    return max(x.stamps) if x.stamps else None


class Table(object):
    """A database that only knows what the greatest stamp of its archive records is."""

    def __init__(self, newest, table, column):
        self.newest = newest
        self.table = table
        self.column = column
        self.open = 0
        self.fine = True

    def cursor(self, *args, **kwargs):
        self.open = self.open + 1
        return Cursor(self)

    def close(self):
        pass

    def commit(self):
        pass


class Cursor(object):
    def __init__(self, db):
        self.db = db
        self.rows = None

    def execute(self, statement, arguments=None):
        s, n = parsed(statement)
        if n != (len(arguments) if arguments else 0):
            raise sql.SQLError('%d placeholders' % n)
        if s[0] != 'select':
            raise OutOfReach()
        cols, table, where, group, order, limit = s[1:]
        if table != self.db.table or group is not None:
            raise OutOfReach()
        if cols == (('fn', 'max', ('col', self.db.column)),) and where is None and limit != 0:
            self.rows = [(self.db.newest,)]
        elif cols == (('col', self.db.column),) and where is None and limit == 1 and order == ((('col', self.db.column), True),):
            self.rows = [] if self.db.newest is None else [(self.db.newest,)]
        else:
            raise OutOfReach()

    def fetchone(self):
        r = self.rows[0] if self.rows else None
        self.rows = self.rows[1:]
        return r

    def fetchall(self):
        r = self.rows
        self.rows = []
        return r

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        self.db.open = self.db.open - 1


def parsed(statement):
    return sql.parse(statement)


def abstract_connect(*args, **kwargs):
    return world.get()


class Newest(Case):
    """For any table: the greatest stamp there is."""
    abstract = True
    search = False
    table = None
    columns = None
    inputs = {'newest': Opt(Int(0, 2 ** 32 - 1))}

    def setup(self, eng):
        from specs import absdb
        absdb.install(eng)
        eng.contracts[parsed] = eng.contracts[absdb.parsed]

    def patches(self):
        return ((mysql.connector, 'connect', abstract_connect),)

    def run(self, x):
        w = Table(x.newest, TABLE if self.table is None else self.table, STAMP if self.columns is None else self.columns['timestamp'])
        world.put(w)
        e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
        if self.table is not None:
            e.archive_table_name = self.table
        if self.columns is not None:
            e.archive_table_column_map = self.columns
        e.connect()
        return e.get_newest_timestamp(), w

    def post(self, r, x):
        got, w = r
        return [('newest', got is None if x.newest is None else (got is not None and got == x.newest)), ('closed', w.open == 0)]


class Again(Newest):
    """Asked again after the table changed: what was answered before does not matter."""
    name = 'again'
    inputs = {'newest': Opt(Int(0, 2 ** 32 - 1)), 'earlier': Opt(Int(0, 2 ** 32 - 1))}

    def run(self, x):
        w = Table(x.earlier, TABLE, STAMP)
        world.put(w)
        e = exporter.MySQLExporter('u', 'p', 'd')
        e.connect()
        e.get_newest_timestamp()
        w.newest = x.newest
        return e.get_newest_timestamp(), w


class Stored(Case):
    """Natively (bounded): tables with rows in any order."""
    name = 'stored'
    bounded = True
    inputs = {'stamps': Choice(*[ListOf(n, Int(0, 2 ** 32 - 1)) for n in range(6)])}

    def run(self, x):
        db = sql.Database()
        saved = mysql.connector.connect
        mysql.connector.connect = connect(db)
        try:
            e = kept(exporter.MySQLExporter, 'u', 'p', 'd')
            e.connect()
            for i, s in enumerate(x.stamps):
                db.rows(TABLE).append({'record_id': i, STAMP: s, 'timestamp_station': datetime.datetime(2016, 1, 1)})
            return e.get_newest_timestamp(), db.open
        finally:
            mysql.connector.connect = saved

    def post(self, r, x):
        return [('newest', r[0] == greatest(x)), ('closed', r[1] == 0)]


def newest(label, **attrs):
    return type('Newest', (Newest,), dict(attrs, name='newest' + label))()


CASES = [newest(''), newest('-table', table='my_table'), newest('-column', columns=dict(
    exporter.MySQLExporter.DEFAULT_ARCHIVE_TABLE_COLUMN_MAP, timestamp='c_timestamp')), Again(), Stored()]
