"""C17: only an ACK byte counts as acknowledgment."""
import socket

from weatherlink import serial

from specs.base import *  # noqa
from specs import world

FILES = ['weatherlink/serial.py']
ACK, NAK, BANG = 0x06, 0x15, 0x21


class Console(serial.SerialCommunicator):
    """A console implementing the abstract operations: records what is sent and answers with `reply`."""

    def __init__(self, reply):
        super(Console, self).__init__()
        self.reply = reply
        self.events = []

    def connect(self):
        pass

    def disconnect(self):
        pass

    def _send_data(self, data):
        self.events.append(('send', data))

    def _read_data(self, length):
        self.events.append(('read', length))
        r = self.reply[:1]
        self.reply = self.reply[1:]
        return r

    def _get_file_handle(self):
        raise NotImplementedError()


def outcome(f, *args, **kwargs):
    """How a call ends."""
    try:
        f(*args, **kwargs)
    except serial.NotAcknowledgedError:
        return 'not-acknowledged'
    except serial.InvalidAcknowledgementError:
        return 'invalid'
    except serial.AcknowledgmentError:
        return 'acknowledgment-error'
    return 'acknowledged'


def expected(reply):
    if len(reply) == 0:
        return 'acknowledgment-error'
    if reply[0] == ACK:
        return 'acknowledged'
    if reply[0] == NAK or reply[0] == BANG:
        return 'not-acknowledged'
    return 'invalid'


class Confirm(Case):
    """confirm_ack of the abstract communicator."""
    name = 'confirm'
    inputs = {'reply': Bytes(1, fixed={}), 'rest': Bytes(3)}

    def run(self, x):
        c = Console(x.reply + x.rest)
        return outcome(c.confirm_ack), c.events, c.reply

    def post(self, r, x):
        return [('decides-by-the-byte', r[0] == expected(x.reply)), ('reads-one-byte', r[1] == [('read', 1)]),
                ('leaves-the-rest', r[2] == x.rest)]


class Closed(Case):
    name = 'closed'
    inputs = {'cmd': Choice('LOOP 2\n', 'TEST\n')}

    def run(self, x):
        c, d = Console(b''), Console(b'')
        return outcome(c.confirm_ack), outcome(d._send_instruction, x.cmd), d.events

    def post(self, r, x):
        return [('acknowledgment-error', r[0] == 'acknowledgment-error' and r[1] == 'acknowledgment-error'),
                ('sent-once', r[2][0] == ('send', x.cmd) and len([e for e in r[2] if e[0] == 'send']) == 1)]


class Instruction(Case):
    """_send_instruction: sent once, before the reply is read; without confirmation nothing is read."""
    name = 'instruction'
    inputs = {'reply': Bytes(1), 'cmd': Str_()}

    def run(self, x):
        c, d, e = Console(x.reply), Console(x.reply), Console(x.reply)
        return (outcome(c._send_instruction, x.cmd), c.events, outcome(d._send_instruction, x.cmd, confirm_ack=False),
                d.events, outcome(e._send_instruction, x.cmd, True), e.events)

    def post(self, r, x):
        a, ea, b, eb, c, ec = r
        return [('decides-by-the-byte', a == expected(x.reply) and c == expected(x.reply)),
                ('sent-once-then-read', ea == [('send', x.cmd), ('read', 1)] and ec == [('send', x.cmd), ('read', 1)]),
                ('without-confirmation', b == 'acknowledged' and eb == [('send', x.cmd)])]


class Twice(Case):
    """Two instructions, one after the other: each is decided by its own byte."""
    name = 'twice'
    inputs = {'first': Bytes(1), 'second': Bytes(1), 'cmd': Str_(), 'other': Str_()}

    def run(self, x):
        c = Console(x.first + x.second)
        return outcome(c._send_instruction, x.cmd), outcome(c._send_instruction, x.other), c.events

    def post(self, r, x):
        return [('decides-by-the-byte', r[0] == expected(x.first) and r[1] == expected(x.second)),
                ('sent-once-each', r[2] == [('send', x.cmd), ('read', 1), ('send', x.other), ('read', 1)])]


class OverSocket(Case):
    """The same over a socket."""
    name = 'socket'
    inputs = {'reply': Bytes(1), 'rest': Bytes(2), 'cmd': Choice('LOOP 2\n', 'TEST\n', b'LPS 2 5\n'), 'confirm': Bool_()}

    def patches(self):
        return ((socket, 'socket', world.FakeSocket),)

    def run(self, x):
        w = world.World(x.reply + x.rest)
        world.put(w)
        c = serial.SerialIPCommunicator('localhost', 22222)
        c.connect()
        return outcome(c._send_instruction, x.cmd, confirm_ack=x.confirm), w

    def post(self, r, x):
        o, w = r
        text = x.cmd if isinstance(x.cmd, bytes) else x.cmd.encode('ascii')
        return [('decides-by-the-byte', o == (expected(x.reply) if x.confirm else 'acknowledged')),
                ('sent-once-as-bytes', b''.join(w.sent) == text and all(isinstance(s, bytes) for s in w.sent)),
                ('sent-before-read', w.log[0] == 'send' and (not x.confirm or w.log[-1] == 'receive')),
                ('one-byte-read', w.pos == (1 if x.confirm else 0))]


class ClosedSocket(OverSocket):
    name = 'closed-socket'
    inputs = {'cmd': Choice('LOOP 2\n', 'TEST\n')}

    def run(self, x):
        w = world.World(b'')
        world.put(w)
        c = serial.SerialIPCommunicator('localhost', 22222)
        c.connect()
        return outcome(c._send_instruction, x.cmd), w

    def post(self, r, x):
        return [('acknowledgment-error', r[0] == 'acknowledgment-error'),
                ('sent-once', b''.join(r[1].sent) == x.cmd.encode('ascii'))]


CASES = [Confirm(), Closed(), Instruction(), Twice(), OverSocket(), ClosedSocket()]
