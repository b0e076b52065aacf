"""C31: the database session of the exporter, and its cursors, with anything failing.

The cases `step-*` run one operation from each of the two states an exporter can be in (connected or not).  Their lemmas say that
the object is afterwards in one of the same two states, attribute by attribute, which extends the result to every history."""
import mysql.connector

from weatherlink.exporter import mysql as exporter

from specs.base import *  # noqa
from specs import world
from specs.c19 import Mistake, alike

FILES = ['weatherlink/exporter/mysql.py']


class Failure(Exception):
    """An error of the database."""


class Session(object):
    """A server that counts sessions and cursors, and fails where it is told to."""

    def __init__(self, connect=False, close=False, cursor=False, execute=False, fetch=False, cursor_close=False, newest=None):
        self.fail_connect, self.fail_close, self.fail_cursor = connect, close, cursor
        self.fail_execute, self.fail_fetch, self.fail_cursor_close = execute, fetch, cursor_close
        self.newest = newest
        self.opened = []
        self.closed = []
        self.cursors = []
        self.asked = []


class Connection(object):
    def __init__(self, w, how):
        self.w = w
        self.how = how

    def close(self):
        self.w.closed.append(self)
        if self.w.fail_close:
            raise Failure('close')

    def commit(self):
        raise Failure('nothing to commit')

    def cursor(self, *args, **kwargs):
        if self.w.fail_cursor:
            raise Failure('cursor')
        c = Cursor(self.w)
        self.w.cursors.append(c)
        return c


class Cursor(object):
    def __init__(self, w):
        self.w = w
        self.closings = 0

    def execute(self, statement, arguments=None):
        self.w.asked.append((statement, list(arguments) if arguments else []))
        if self.w.fail_execute:
            raise Failure('execute')

    def fetchone(self):
        if self.w.fail_fetch:
            raise Failure('fetch')
        return (self.w.newest,)

    def close(self):
        self.closings = self.closings + 1
        if self.w.fail_cursor_close:
            raise Failure('cursor close')


def connect(*args, **kwargs):
    w = world.get()
    if w.fail_connect:
        raise Failure('connect')
    c = Connection(w, kwargs)
    w.opened.append(c)
    return c


def attempt(f):
    """(how it ends, what it returns)"""
    try:
        r = f()
    except Failure as e:
        return str(e), None
    except Mistake:
        return 'mistake', None
    return 'ok', r


def with_block(e, fail, leave):
    def block():
        with e:
            if leave:
                e.disconnect()
            if fail:
                raise Mistake()
    return block


def operate(e, op, fail, leave):
    if op == 'connect':
        return attempt(e.connect)[0]
    if op == 'disconnect':
        return attempt(e.disconnect)[0]
    return attempt(with_block(e, fail, leave))[0]


def expected(op, connected, w, fail, leave):
    """(how the operation ends, whether the exporter is connected afterwards, sessions opened, sessions closed)"""
    if op == 'disconnect':
        if not connected:
            return 'ok', False, 0, 0
        return ('close' if w.fail_close else 'ok'), False, 0, 1
    if w.fail_connect:
        return 'connect', False, 0, 0
    if op == 'connect':
        return 'ok', True, 1, 0
    if leave and w.fail_close:
        return 'close', False, 1, 1
    if fail:
        return 'mistake', False, 1, 1
    return ('close' if w.fail_close else 'ok'), False, 1, 1


def fresh(x):
    return exporter.MySQLExporter(x.user, x.password, x.database, x.host, x.port)


WHO = {'user': Str_(), 'password': Str_(), 'database': Str_(), 'host': Str_(), 'port': Int(1, 65535)}


class SessionCase(Case):
    def patches(self):
        return ((mysql.connector, 'connect', connect),)


class Step(SessionCase):
    op = None
    connected = False
    inputs = dict(WHO, fail_connect=Bool_(), fail_close=Bool_(), fail=Bool_(), leave=Bool_())

    def run(self, x):
        w = Session()
        world.put(w)
        e = fresh(x)
        if self.connected:
            e.connect()
        had = len(w.opened)
        w.fail_connect, w.fail_close = x.fail_connect, x.fail_close
        how = operate(e, self.op, x.fail, x.leave)
        return how, w, had, dict(vars(e)), e

    def post(self, r, x):
        how, w, had, after, e = r
        want, connected, opened, closed = expected(self.op, self.connected, w, x.fail, x.leave)
        out = [('ends-as-it-should', how == want), ('opens', len(w.opened) == had + opened),
               ('closes-once', len(w.closed) == closed)]
        for c in w.opened:
            k = c.how
            out.append(('as-configured', all([k.get('host') == x.host, k.get('port') == x.port, k.get('database') == x.database,
                                              k.get('user') == x.user, k.get('password') == x.password])))
        for c in w.closed:
            out.append(('closes-its-own', any([c is o for o in w.opened])))
        w2 = Session()
        world.put(w2)
        d = fresh(x)
        if connected:
            d.connect()
            out.append(('lemma: the state is that of a new connection', alike(after, w.opened[-1], vars(d), w2.opened[0])))
        else:
            out.append(('lemma: the state is that of a new exporter', after == vars(d)))
        # what the next operation finds
        world.put(w)
        w.fail_connect = w.fail_close = False
        n, k = len(w.opened), len(w.closed)
        if not connected:
            out.append(('then-connects', attempt(e.connect)[0] == 'ok' and len(w.opened) == n + 1))
            k -= 1
        out.append(('then-disconnects', attempt(e.disconnect)[0] == 'ok' and len(w.closed) == (k + 1 if connected else k + 2)
                    and w.closed[-1] is w.opened[-1]))
        return out


class Statement(SessionCase):
    """The cursor of a statement is closed once, whatever fails, and closing it hides no other error."""
    name = 'cursor'
    inputs = {'cursor': Bool_(), 'execute': Bool_(), 'fetch': Bool_(), 'cursor_close': Bool_(),
              'newest': Opt(Int(0, 2 ** 32 - 1))}

    def run(self, x):
        w = Session(cursor=x.cursor, execute=x.execute, fetch=x.fetch, cursor_close=x.cursor_close, newest=x.newest)
        world.put(w)
        e = exporter.MySQLExporter('u', 'p', 'd')
        e.connect()
        how, got = attempt(e.get_newest_timestamp)
        return how, got, w

    def post(self, r, x):
        how, got, w = r
        want = ('cursor' if x.cursor else 'execute' if x.execute else 'fetch' if x.fetch else
                'cursor close' if x.cursor_close else 'ok')
        return [('ends-as-it-should', how == want), ('one-cursor', len(w.cursors) == (0 if x.cursor else 1)),
                ('closed-once', all([c.closings == 1 for c in w.cursors])), ('session-stays-open', len(w.closed) == 0)]


def step(op, connected):
    return type('Step', (Step,), {'op': op, 'connected': connected,
                                  'name': 'step-%s-%s' % (op, 'connected' if connected else 'disconnected')})()


CASES = [step('connect', False), step('disconnect', False), step('disconnect', True), step('with', False), Statement()]
