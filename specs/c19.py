"""C19: a connection is opened once, closed once, and never left half open.

The cases `step-*` run one operation from each of the two states a communicator can be in (never or no longer connected;
connected) with any of the socket operations failing.  Their lemmas say that the object is afterwards in one of the same
two states, attribute by attribute, which extends the result to every history.  `history` runs three arbitrary operations
in a row."""
import socket

from weatherlink import poller, serial

from specs.base import *  # noqa
from specs import world

FILES = ['weatherlink/serial.py', 'weatherlink/poller.py']


class Mistake(Exception):
    """An error of the code inside a with block."""


def attempt(f):
    try:
        f()
    except world.SocketFailure as e:
        return str(e)
    except world.Trouble as e:
        return 'trouble'
    except ValueError:
        return 'refused'
    except Mistake:
        return 'mistake'
    return 'ok'


def with_block(c, fail, leave):
    """with c: ..., whose body may disconnect by itself and may fail."""
    def block():
        with c:
            if leave:
                c.disconnect()
            if fail:
                raise Mistake()
    return block


def operate(c, op, fail, leave):
    if op == 'connect':
        return attempt(c.connect)
    if op == 'disconnect':
        return attempt(c.disconnect)
    return attempt(with_block(c, fail, leave))


OPS = ('connect', 'disconnect', 'with')
FLAGS = {'fail_create': Bool_(), 'fail_connect': Bool_(), 'trouble': Bool_(), 'fail_close': Bool_(), 'fail': Bool_(), 'leave': Bool_()}


def expected(op, connected, w, fail, leave):
    """(how the operation ends, whether the communicator is connected afterwards, sockets opened, sockets closed)"""
    if op == 'disconnect':
        if not connected:
            return 'refused', False, 0, 0
        return ('close' if w.fail_close else 'ok'), False, 0, 1
    if connected:
        return 'refused', True, 0, 0
    if w.fail_create:
        return 'socket', False, 0, 0
    if w.fail_connect:
        return ('trouble' if w.trouble else 'connect'), False, 1, 1
    if op == 'connect':
        return 'ok', True, 1, 0
    if leave:
        if w.fail_close:
            # the body fails with the error of its own disconnect
            return 'close', False, 1, 1
        return ('mistake' if fail else 'refused'), False, 1, 1
    if fail:
        return 'mistake', False, 1, 1
    return ('close' if w.fail_close else 'ok'), False, 1, 1


def fresh():
    return serial.SerialIPCommunicator('localhost', 22222)


class SocketCase(Case):
    def patches(self):
        return ((socket, 'socket', world.FakeSocket),)

    def script(self, w, x):
        w.fail_create, w.fail_connect, w.fail_close = x.fail_create, x.fail_connect, x.fail_close
        w.trouble = x.trouble


class Step(SocketCase):
    op = None
    connected = False
    inputs = dict(FLAGS)

    def run(self, x):
        w = world.World()
        world.put(w)
        c = fresh()
        if self.connected:
            c.connect()
        had = list(w.sockets)
        before = dict(vars(c))
        self.script(w, x)
        how = operate(c, self.op, x.fail, x.leave)
        return how, w, had, before, dict(vars(c)), c

    def post(self, r, x):
        how, w, had, before, after, c = r
        want, connected, opened, closed = expected(self.op, self.connected, w, x.fail, x.leave)
        out = [('ends-as-it-should', how == want),
               ('opens', len(w.sockets) == len(had) + opened),
               ('closes', len([s for s in w.sockets if s.closed]) == closed),
               ('closes-once', len([e for e in w.log if e == 'close']) == closed),
               ('nothing-left-open', len(w.opened()) == (1 if connected else 0)),
               ('connects-to-the-console', not connected or w.opened()[0].address == ('localhost', 22222))]
        if connected and opened == 0:
            out.append(('lemma: the state is unchanged', after == before))
        if connected and opened == 1:
            w2 = world.World()
            world.put(w2)
            d = fresh()
            d.connect()
            out.append(('lemma: the state is that of a new connection', alike(after, w.opened()[0], vars(d), w2.opened()[0])))
        if not connected:
            out.append(('lemma: the state is that of a new communicator', after == vars(fresh())))
        # what the next operation finds
        w.fail_create = w.fail_connect = w.fail_close = False
        n = len(w.sockets)
        if connected:
            out.append(('then-refuses-to-connect', attempt(c.connect) == 'refused' and len(w.sockets) == n and
                        len(w.opened()) == 1))
            out.append(('then-disconnects', attempt(c.disconnect) == 'ok' and len(w.opened()) == 0))
        else:
            out.append(('then-refuses-to-disconnect', attempt(c.disconnect) == 'refused' and len(w.opened()) == 0))
            out.append(('then-connects', attempt(c.connect) == 'ok' and len(w.opened()) == 1))
        return out


def alike(a, sa, b, sb):
    """The same attributes, up to the socket."""
    if len(a) != len(b):
        return False
    for k in a:
        if k not in b:
            return False
        if not (a[k] is sa and b[k] is sb) and not a[k] == b[k]:
            return False
    return True


class History(SocketCase):
    """Three operations in a row; each may find any socket operation failing."""
    name = 'history'
    n = 3
    inputs = {}
    for _i in range(3):
        inputs['op%d' % _i] = Choice(*OPS)
        for _k in FLAGS:
            inputs['%s%d' % (_k, _i)] = FLAGS[_k]
    budget = 100
    samples = 4000

    def ops(self, x):
        return [(x.op0, x.fail_create0, x.fail_connect0, x.trouble0, x.fail_close0, x.fail0, x.leave0),
                (x.op1, x.fail_create1, x.fail_connect1, x.trouble1, x.fail_close1, x.fail1, x.leave1),
                (x.op2, x.fail_create2, x.fail_connect2, x.trouble2, x.fail_close2, x.fail2, x.leave2)]

    def run(self, x):
        w = world.World()
        world.put(w)
        c = fresh()
        got = []
        connected = False
        for op, a, b, t, d, fail, leave in self.ops(x):
            w.fail_create, w.fail_connect, w.trouble, w.fail_close = a, b, t, d
            want, now, opened, closed = expected(op, connected, w, fail, leave)
            n, k = len(w.sockets), len([e for e in w.log if e == 'close'])
            how = operate(c, op, fail, leave)
            got.append((how == want, len(w.sockets) == n + opened and len([e for e in w.log if e == 'close']) == k + closed,
                        len(w.opened()) == (1 if now else 0)))
            connected = now
        return got

    def post(self, r, x):
        return [('every-operation-ends-as-it-should', all(a for a, b, c in r)),
                ('opens-and-closes-once', all(b for a, b, c in r)), ('nothing-left-open', all(c for a, b, c in r))]


class Handle(SocketCase):
    """The file over the socket is closed on every exit, and an error inside the block is not masked by closing it."""
    name = 'file-handle'
    inputs = {'fail': Bool_(), 'fail_makefile': Bool_(), 'fail_handle_close': Bool_()}

    def run(self, x):
        w = world.World(fail_makefile=x.fail_makefile, fail_handle_close=x.fail_handle_close)
        world.put(w)
        c = fresh()
        c.connect()

        def block():
            with c._get_file_handle():
                if x.fail:
                    raise Mistake()
        return attempt(block), w

    def post(self, r, x):
        how, w = r
        want = ('makefile' if x.fail_makefile else 'mistake' if x.fail else 'handle close' if x.fail_handle_close else 'ok')
        return [('ends-as-it-should', how == want), ('handle-closed', all(h.closed for h in w.handles)),
                ('one-handle', len(w.handles) == (0 if x.fail_makefile else 1)),
                ('connection-stays-open', len(w.opened()) == 1)]


class Address(SocketCase):
    """A stream socket is connected to the host and port given, or to the port of the console."""
    name = 'address'
    inputs = {'host': Str_(), 'port': Int(1, 65535), 'kind': Choice('communicator', 'poller', 'default-port')}

    def run(self, x):
        w = world.World()
        world.put(w)
        if x.kind == 'communicator':
            c = serial.SerialIPCommunicator(x.host, x.port)
        elif x.kind == 'poller':
            c = poller.IPPoller(x.host, x.port)
        else:
            c = poller.IPPoller(x.host)
        c.connect()
        return w

    def post(self, w, x):
        s = w.opened()[0]
        family = s.kwargs.get('family', s.args[0] if len(s.args) > 0 else socket.AF_INET)
        kind = s.kwargs.get('type', s.args[1] if len(s.args) > 1 else socket.SOCK_STREAM)
        return [('host', s.address[0] == x.host), ('port', s.address[1] == (22222 if x.kind == 'default-port' else x.port)),
                ('stream', family == socket.AF_INET and kind == socket.SOCK_STREAM)]


def step(op, connected):
    return type('Step', (Step,), {'op': op, 'connected': connected,
                                  'name': 'step-%s-%s' % (op, 'connected' if connected else 'disconnected')})()


CASES = [step(o, c) for o in OPS for c in (False, True)] + [History(), Handle(), Address()]
