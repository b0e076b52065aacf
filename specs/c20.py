"""C20: polling requests, delivers and stops exactly as asked.

The background thread is a stand-in that is run by the case (either before or after the call that starts it returns): the stop request arrives either before the thread does
anything, while packet `stop` is being received, or in the callback for packet `stop`.  The poller only looks at the request
at one place per packet and shares nothing else, so these are all the schedules that differ."""
import hashlib
import threading

from weatherlink import models, poller, serial

from specs.base import *  # noqa
from specs import world
from specs.c06 import FIXED

FILES = ['weatherlink/poller.py', 'weatherlink/serial.py']
socket = serial.socket


class Mistake(Exception):
    """An error in the callback of the user."""


class PollWorld(world.World):
    """A console that acknowledges and then sends LOOP2 packets without end."""

    def __init__(self, seed, ack=b'\x06'):
        super(PollWorld, self).__init__()
        self.seed = seed
        self.ack = ack
        self.pending = 0
        self.offset = 0
        self.threads = []
        self.eager = False
        self.reading = None

    def begin(self):
        """A packet begins to arrive."""
        if self.reading is not None:
            self.reading(self.offset)

    def take(self, n):
        if self.pending > 0:
            self.pending -= 1
            return self.ack
        if n <= 0:
            return b''
        if self.offset % 99 == 0:
            self.begin()
        first = self.offset
        self.offset = first + n
        return stream(self.seed, first, n)


def packet(seed, i):
    """The packet number i of a console; natively only.  At times the console has nothing new to tell."""
    if seed % 5 == 1:
        i //= 2
    elif seed % 5 == 2:
        i -= i % 4 // 3
    b = bytearray()
    k = 0
    while len(b) < 99:
        b += hashlib.sha256(('%s/%s/%s' % (seed, i, k)).encode('ascii')).digest()
        k += 1
    b = b[:99]
    for o in FIXED:
        b[o] = FIXED[o]
    for o in (16, 24):
        d = (b[o] + 256 * b[o + 1]) % 361
        b[o], b[o + 1] = d % 256, d // 256
    b[3] = (196, 236, 0, 20, 60, 80)[b[3] % 6]
    return bytes(b)


def stream(seed, first, n):
    out = b''
    i = first // 99
    while len(out) < first % 99 + n:
        out += packet(seed, i)
        i += 1
    return out[first % 99:first % 99 + n]


def decoded_at(seed, offset):
    """The record that the LOOP2 packet at this offset of the stream decodes to (how: C06)."""
    class OnePacket(object):
        def __init__(self, data):
            self.data = data

        def read(self, n):
            chunk, self.data = self.data[:n], self.data[n:]
            return chunk
    return models.LoopRecord.load_loop_2_from_connection(OnePacket(stream(seed, offset, 99)))


def receive(handle):
    """What loading a packet from a connection does to it."""
    w = handle.world
    w.begin()
    first = w.offset
    w.offset = first + 99
    return decoded_at(w.seed, first)


class FakeEvent(object):
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag

    isSet = is_set

    def wait(self, timeout=None):
        return self.flag


class FakeThread(object):
    """A thread that does not run until the case runs it, or (eager) runs to its end before start() returns."""

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs = target, args, kwargs
        self.daemon = daemon

    def setDaemon(self, daemon):
        self.daemon = daemon

    def start(self):
        if world.get().eager:
            self.run()
        else:
            world.get().threads.append(self)

    def is_alive(self):
        return False

    def run(self):
        if self.kwargs is None:
            self.target(*self.args)
        else:
            self.target(*self.args, **self.kwargs)


def settle(w):
    """Let the background work run; how it ended."""
    if len(w.threads) == 0:
        # natively, threads made in another way
        for t in threading.enumerate():
            if t is not threading.current_thread():
                t.join(3)
        return 'ok'
    t = w.threads.pop()
    try:
        t.run()
    except Mistake:
        return 'mistake'
    return 'ok'


def attempt(f, *args):
    try:
        f(*args)
    except ValueError:
        return 'refused'
    except serial.AcknowledgmentError:
        return 'not-acknowledged'
    return 'ok'


class Watcher(object):
    """The user: collects the packets, asks to stop."""

    def __init__(self, poller_, stop, where, fail=None):
        self.poller, self.stop, self.where, self.fail = poller_, stop, where, fail
        self.got = []
        self.count = 0

    def reading(self, offset):
        if self.where == 'read' and offset == 99 * self.stop:
            self.poller.stop_background_polling()

    def on_packet(self, p):
        k = self.count
        self.count = k + 1
        self.got.append(p)
        if self.where == 'callback' and k == self.stop:
            self.poller.stop_background_polling()
        if self.where == 'fail' and k == self.stop:
            raise Mistake()


class Packets(Fold):
    """The packets delivered: those up to the one during which the stop was requested."""
    name = 'packets'
    state = {'stopped': Bool_()}
    lists = {'packets': lambda x, s, e, i: () if s.stopped else (decoded_at(x.seed, 99 * i),)}
    stops = True
    late = True

    def matches(self, name):
        return name == 'range'

    def count(self, x):
        return x.n

    def elem(self, x, i):
        return i

    def init(self, x):
        return {'stopped': x.stop == -1}

    def step(self, x, s, e, i):
        return {'stopped': s.stopped or i == x.stop}

    def stable(self, x, s, i):
        return s.stopped

    def closed(self, x, s, i):
        return s.stopped == (x.stop < i)

    def size(self, x, name, i):
        return min(i, x.stop + 1)


class AllPackets(Fold):
    name = 'all'
    state = {}
    lists = {'packets': lambda x, s, e, i: (decoded_at(x.seed, 99 * i),)}

    def size(self, x, name, i):
        return i

    def matches(self, name):
        return name == 'range'

    def count(self, x):
        return x.n

    def elem(self, x, i):
        return i


class UpTo(Packets):
    """The packets delivered until the callback fails: this one ends in the middle of an iteration."""
    name = 'upto'
    late = False


PACKETS, ALL, UPTO = Packets(), AllPackets(), UpTo()


class PollCase(Case):
    def patches(self):
        out = [(socket, 'socket', world.FakeSocket), (threading, 'Thread', FakeThread), (threading, 'Event', FakeEvent)]
        for n, r in (('Thread', FakeThread), ('Event', FakeEvent)):
            if hasattr(poller, n):
                out.append((poller, n, r))
        return out

    def setup(self, eng):
        from pyver.values import SOpaque
        from pyver.ops import int_t
        import z3

        def load(e, args, kwargs):
            e.contract_uses['LoopRecord.load_loop_2_from_connection'] = e.contract_uses.get(
                'LoopRecord.load_loop_2_from_connection', 0) + 1
            return e.call(receive, (args[1],))
        eng.contracts[models.LoopRecord.load_loop_2_from_connection.__func__] = load
        d = z3.Function('packet', z3.IntSort(), z3.DeclareSort('Packet'))
        eng.contracts[decoded_at] = lambda e, a, k: SOpaque(d(z3.simplify(int_t(e.resolve(a[1])))), models.LoopRecord)

    def tweak(self, rng, kw):
        if 'n' in kw:
            kw['n'] = size(rng, rng.randint(0, 8))
        if 'stop' in kw:
            kw['stop'] = rng.choice([-1, 0, kw['n'] - 1, kw['n'] - 2, rng.randint(-1, 9), 10])
            kw['stop'] = max(-1, kw['stop'])
        return kw


def connected(w):
    world.put(w)
    c = poller.IPPoller('localhost')
    c.connect()
    return c


def request(n, kind=2):
    return ('LPS %d %d\n' % (kind, n)).encode('ascii')


class Poll(PollCase):
    """Polling in the foreground."""
    name = 'poll'
    inputs = {'n': Int(0, 2 ** 31), 'seed': Int(0, 2 ** 31)}
    folds = (ALL,)

    def run(self, x):
        w = PollWorld(x.seed)
        c = connected(w)
        w.pending = 1
        return c.poll(x.n), w

    def post(self, r, x):
        got, w = r
        return [('requests-once', w.sent == [request(x.n)]),
                ('returns-the-packets-in-order', got == fold_result(ALL, x).packets),
                ('reads-no-further', w.offset == 99 * x.n),
                ('closes-the-handle', len(w.handles) == 1 and w.handles[0].closed), ('stays-connected', len(w.opened()) == 1)]


class Background(PollCase):
    """Polling in the background, with a stop request at any point (or none: stop >= n)."""
    folds = (PACKETS,)
    inputs = {'n': Int(0, 2 ** 31), 'stop': Int(-1, 2 ** 31), 'seed': Int(0, 2 ** 31)}
    where = None

    def run(self, x):
        w = PollWorld(x.seed)
        c = connected(w)
        u = Watcher(c, x.stop, self.where)
        w.reading = u.reading
        out = [attempt(c.stop_background_polling)]
        w.pending = 1
        out.append(attempt(c.start_background_polling, x.n, u.on_packet))
        out.append(len(w.threads))
        out.append(w.pending)
        out.append(attempt(c.start_background_polling, x.n, u.on_packet))
        w.first = len(w.sent)
        if x.stop == -1:
            out.append(attempt(c.stop_background_polling))
        else:
            out.append('ok')
        out.append(settle(w))
        w.second = len(w.sent)
        w.last = b''.join(w.sent)
        w.read = w.offset
        # afterwards
        out.append(attempt(c.stop_background_polling))
        w.pending = 1
        out.append(attempt(c.start_background_polling, x.n, u.on_packet))
        return out, w, u

    def post(self, r, x):
        out, w, u = r
        told = x.stop < x.n - 1
        return [('refuses-to-stop-when-not-running', out[0] == 'refused'),
                ('starts', out[1] == 'ok' and out[3] == 0),
                ('refuses-to-start-twice', out[4] == 'refused' and w.first == 1),
                ('stop-is-accepted', out[5] == 'ok' and out[6] == 'ok'),
                ('delivers-in-order-once', u.got == fold_result(PACKETS, x).packets),
                ('reads-no-further', w.read == 99 * (x.n if x.stop >= x.n else x.stop + 1)),
                ('requests-once-then-stops-the-console', w.last == (request(x.n) + b'\r' if told else request(x.n))),
                ('closes-the-handle', len(w.handles) == 1 and w.handles[0].closed),
                ('refuses-to-stop-afterwards', out[7] == 'refused'),
                ('can-start-again', out[8] == 'ok' and w.sent[-1] == request(x.n))]


class Eager(PollCase):
    """The thread is quick: it is done before the call that starts it returns."""
    name = 'background-quick'
    folds = (PACKETS,)
    inputs = {'n': Int(0, 2 ** 31), 'stop': Int(0, 2 ** 31), 'seed': Int(0, 2 ** 31)}

    def tweak(self, rng, kw):
        kw['n'] = size(rng, rng.randint(0, 8))
        kw['stop'] = rng.choice([rng.randint(0, 9), kw['n'], max(0, kw['n'] - 1)])
        return kw

    def run(self, x):
        w = PollWorld(x.seed)
        c = connected(w)
        u = Watcher(c, x.stop, 'callback')
        w.eager = True
        w.pending = 1
        out = [attempt(c.start_background_polling, x.n, u.on_packet)]
        w.last = b''.join(w.sent)
        w.read = w.offset
        out.append(attempt(c.stop_background_polling))
        w.eager = False
        w.pending = 1
        out.append(attempt(c.start_background_polling, x.n, u.on_packet))
        return out, w, u

    def post(self, r, x):
        out, w, u = r
        told = x.stop < x.n - 1
        return [('starts', out[0] == 'ok'),
                ('delivers-in-order-once', u.got == fold_result(PACKETS, x).packets),
                ('reads-no-further', w.read == 99 * (x.n if x.stop >= x.n else x.stop + 1)),
                ('requests-once-then-stops-the-console', w.last == (request(x.n) + b'\r' if told else request(x.n))),
                ('refuses-to-stop-afterwards', out[1] == 'refused'), ('can-start-again', out[2] == 'ok')]


class Failing(PollCase):
    """The callback fails: polling ends, and can be started again."""
    name = 'callback-fails'
    folds = (UPTO,)
    inputs = {'n': Int(1, 2 ** 31), 'stop': Int(0, 2 ** 31), 'seed': Int(0, 2 ** 31)}

    def pre(self, x):
        return x.stop < x.n

    def tweak(self, rng, kw):
        kw['n'] = size(rng, rng.randint(0, 7)) + 1
        kw['stop'] = rng.randint(0, kw['n'] - 1)
        return kw

    def run(self, x):
        w = PollWorld(x.seed)
        c = connected(w)
        u = Watcher(c, x.stop, 'fail')
        w.pending = 1
        out = [attempt(c.start_background_polling, x.n, u.on_packet)]
        out.append(settle(w))
        w.read = w.offset
        w.pending = 1
        out.append(attempt(c.stop_background_polling))
        out.append(attempt(c.start_background_polling, x.n, u.on_packet))
        return out, w, u

    def post(self, r, x):
        out, w, u = r
        return [('starts', out[0] == 'ok'), ('the-callback-failed', u.count > x.stop),
                ('delivers-up-to-there', u.count == x.stop + 1), ('reads-no-further', w.read == 99 * (x.stop + 1)),
                ('closes-the-handle', len(w.handles) == 1 and w.handles[0].closed),
                ('refuses-to-stop-afterwards', out[2] == 'refused'), ('can-start-again', out[3] == 'ok')]


class NotAcknowledged(PollCase):
    """The console does not acknowledge: an error, nothing runs, and it can be tried again."""
    name = 'not-acknowledged'
    inputs = {'n': Int(0, 2 ** 31), 'reply': Bytes(1), 'background': Bool_()}

    def pre(self, x):
        return x.reply[0] != 6

    def run(self, x):
        w = PollWorld(1, x.reply)
        c = connected(w)
        u = Watcher(c, -2, 'none')
        w.pending = 1
        if x.background:
            out = [attempt(c.start_background_polling, x.n, u.on_packet)]
        else:
            out = [attempt(c.poll, x.n)]
        out.append(len(w.threads))
        out.append(w.offset)
        out.append(attempt(c.stop_background_polling))
        w.ack = b'\x06'
        w.pending = 1
        out.append(attempt(c.start_background_polling, x.n, u.on_packet))
        out.append(u.count)
        return out

    def post(self, r, x):
        return [('an-error', r[0] == 'not-acknowledged'), ('nothing-runs', r[1] == 0 and r[2] == 0 and r[5] == 0),
                ('refuses-to-stop', r[3] == 'refused'), ('can-start-again', r[4] == 'ok')]


class Types(PollCase):
    """The request names the packet type selected."""
    name = 'types'
    inputs = {'n': Int(0, 2 ** 31), 'kind': Choice(1, 2, 3)}

    def run(self, x):
        w = PollWorld(1)
        c = connected(w)
        w.pending = 1
        c.packet_type = x.kind
        how = attempt(c.start_background_polling, x.n, Watcher(c, -2, 'none').on_packet)
        return how, w.sent, c.PACKET_TYPE_LOOP1, c.PACKET_TYPE_LOOP2

    def post(self, r, x):
        return [('requests-the-type', r[0] == 'ok' and r[1] == [request(x.n, x.kind)]), ('types', r[2:] == (1, 2))]


def loader(kind):
    def load(handle):
        w = handle.world
        first = w.offset
        w.offset = first + 1
        return (kind, first)
    return load


class OfAKind(Fold):
    """The packets, each loaded as one of the kind asked for."""
    name = 'of-a-kind'
    state = {}
    lists = {'packets': lambda x, s, e, i: ((x.kind, i),)}

    def size(self, x, name, i):
        return i

    def matches(self, name):
        return name == 'range'

    def count(self, x):
        return x.n

    def elem(self, x, i):
        return i


OF_A_KIND = OfAKind()


class Kinds(PollCase):
    """Packets are decoded as the type selected (what each loader decodes is not looked at here)."""
    name = 'kinds'
    inputs = {'n': Int(0, 2 ** 31), 'kind': Choice(1, 2, 3)}
    folds = (OF_A_KIND,)

    def setup(self, eng):
        pass

    def patches(self):
        return PollCase.patches(self) + [(models.LoopRecord, 'load_loop_1_from_connection', loader(1)),
                                         (models.LoopRecord, 'load_loop_2_from_connection', loader(2)),
                                         (models.LoopRecord, 'load_loop_1_2_from_connection', loader(3))]

    def run(self, x):
        w = PollWorld(1)
        c = connected(w)
        c.packet_type = x.kind
        w.pending = 1
        return c.poll(x.n), w

    def post(self, r, x):
        got, w = r
        return [('of-the-kind-selected', got == fold_result(OF_A_KIND, x).packets), ('requests-the-kind', w.sent == [request(x.n, x.kind)])]


def background(where):
    return type('Background', (Background,), {'where': where, 'name': 'background-' + where})()


CASES = [Poll(), background('callback'), background('read'), Eager(), Failing(), NotAcknowledged(), Types(), Kinds()]
