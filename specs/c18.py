"""C18: console settings are read and written intact, or an error is raised."""
import contextlib
import socket

from weatherlink import models, serial

from specs.base import *  # noqa
from specs import world
from specs.c17 import Console, expected
from specs.contracts import crc_contract

FILES = ['weatherlink/serial.py']


class SettingConsole(serial.ConfigurationSettingMixin, Console):
    """Answers instructions with `reply` and then supplies `data`."""

    def __init__(self, reply, data=b''):
        super(SettingConsole, self).__init__(reply)
        self.data = data
        self.requested = []

    @contextlib.contextmanager
    def _get_file_handle(self):
        yield SettingHandle(self)


class SettingHandle(object):
    def __init__(self, console):
        self.console = console

    def read(self, n=-1):
        self.console.events.append(('data', None))
        c = self.console
        if n is None or n < 0:
            chunk, c.data = c.data, b''
        else:
            chunk, c.data = c.data[:n], c.data[n:]
        return chunk


def outcome(f, *args, **kwargs):
    """(how a call ended, its result)"""
    try:
        r = f(*args, **kwargs)
    except serial.AcknowledgmentError:
        return 'not-acknowledged', None
    except serial.CRCValidationError:
        return 'invalid-response', None
    except ValueError:
        return 'refused', None
    return 'ok', r


def crc_of(data):
    return models.calculate_weatherlink_crc(data)


def fix_crc(rng, data):
    """Half of the sampled messages get their own checksum."""
    if len(data) >= 2 and rng.random() < 0.6:
        c = crc_of(data[:-2])
        return data[:-2] + bytes([c >> 8, c & 255])
    return data


class SettingCase(Case):
    def setup(self, eng):
        eng.contracts[models.calculate_weatherlink_crc] = crc_contract

    def text(self, x):
        return '%02X' % x.n


class Read(SettingCase):
    """Any reply whatever to a request for n bytes, for every n."""
    name = 'read'
    inputs = {'n': Int(1, 4096), 'address': Str_(samples=('2B', '0C')), 'data': Seq(Int(0, 255), 'data', kind='bytes', maxlen=9),
              'confirm': Bool_(), 'with_crc': Bool_()}

    def tweak(self, rng, kw):
        kw['n'] = max(1, len(kw['data']) - 2 + size(rng, rng.choice([0, 0, 0, 0, 1, -1, 5]), 20))
        kw['data'] = fix_crc(rng, kw['data'])
        return kw

    def run(self, x):
        c = SettingConsole(b'\x06', x.data)
        return outcome(c.read_config_setting, x.address, self.text(x), confirm_crc=x.confirm, return_crc=x.with_crc), c.events

    def post(self, r, x):
        (how, value), events = r
        complete = len(x.data) >= x.n + 2
        out = [('instruction', events[0] == ('send', 'EEBRD ' + x.address + ' ' + self.text(x) + '\n') and
                len([e for e in events if e[0] == 'send']) == 1)]
        if not complete:
            return out + [('incomplete-is-an-error', how == 'invalid-response')]
        message = x.data[:x.n + 2]
        if x.confirm and crc_of(message) != 0:
            return out + [('wrong-checksum-is-an-error', how == 'invalid-response')]
        return out + [('accepted', how == 'ok'), ('returns-the-bytes', value == (message if x.with_crc else x.data[:x.n]))]


class ReadDefaults(SettingCase):
    """Without options the checksum is confirmed and not returned."""
    name = 'read-defaults'
    inputs = {'n': Int(1, 4096), 'data': Seq(Int(0, 255), 'data', kind='bytes', maxlen=9)}
    tweak = Read.tweak

    def run(self, x):
        c = SettingConsole(b'\x06', x.data)
        return outcome(c.read_config_setting, '2B', self.text(x))

    def post(self, r, x):
        how, value = r
        good = len(x.data) >= x.n + 2 and crc_of(x.data[:x.n + 2]) == 0
        return [('only-intact', (how == 'ok') == good), ('or-an-error', how == 'ok' or how == 'invalid-response'),
                ('returns-the-bytes', how != 'ok' or value == x.data[:x.n])]


class ReadAgain(SettingCase):
    """The second reply is what is returned the second time, whatever the first was and whatever was written between."""
    name = 'read-again'
    inputs = {'n': Int(1, 4096), 'earlier': Seq(Int(0, 255), 'data', kind='bytes', maxlen=9),
              'data': Seq(Int(0, 255), 'data', kind='bytes', maxlen=9), 'write': Bool_(), 'value': Bytes(1)}

    def tweak(self, rng, kw):
        kw['earlier'] = fix_crc(rng, kw['earlier'])
        return Read.tweak(self, rng, kw)

    def run(self, x):
        c = SettingConsole(b'\x06\x06\x06', x.earlier)
        outcome(c.read_config_setting, '2B', self.text(x))
        if x.write:
            outcome(c.write_config_setting, '2B', '01', x.value)
        c.data = x.data
        return outcome(c.read_config_setting, '2B', self.text(x))

    post = ReadDefaults.post


class ReadRefused(SettingCase):
    """Without acknowledgment nothing is read."""
    name = 'read-refused'
    inputs = {'reply': Choice(b'', Bytes(1)), 'n': Int(1, 4096), 'data': Seq(Int(0, 255), 'data', kind='bytes', maxlen=9)}

    def pre(self, x):
        return expected(x.reply) != 'acknowledged'

    def run(self, x):
        c = SettingConsole(x.reply, x.data)
        return outcome(c.read_config_setting, '2B', self.text(x)), c.events

    def post(self, r, x):
        (how, value), events = r
        return [('error', how == 'not-acknowledged'), ('nothing-read', len([e for e in events if e[0] == 'data']) == 0)]


class Write(SettingCase):
    name = 'write'
    inputs = {'value': Seq(Int(0, 255), 'value', kind='bytes', maxlen=9), 'n': Int(1, 4096), 'address': Str_(samples=('2B',)),
              'reply': Choice(b'', Bytes(1))}

    def tweak(self, rng, kw):
        r = rng.random()
        if r < 0.7:
            kw['n'] = max(1, len(kw['value']))
        elif r < 0.9:
            # the length read in another base, or one byte more or less
            t = '%X' % min(kw['n'], 600)
            other = [int(t, b) for b in (8, 10, 11, 12, 17) if all(int(c, 16) < b for c in t)] + [kw['n'] - 1, kw['n'] + 1]
            other = [k for k in other if 0 <= k <= 1200]
            kw['value'] = bytes(rng.randrange(256) for _ in range(rng.choice(other) if other else 1))
        if rng.random() < 0.6:
            kw['reply'] = b'\x06'
        return kw

    def run(self, x):
        c = SettingConsole(x.reply)
        return outcome(c.write_config_setting, x.address, self.text(x), x.value), c.events

    def post(self, r, x):
        (how, value), events = r
        if len(x.value) != x.n:
            return [('wrong-length-refused', how == 'refused'), ('nothing-sent', len(events) == 0)]
        out = [('instruction', events[0] == ('send', 'EEBWR ' + x.address + ' ' + self.text(x) + '\n'))]
        if expected(x.reply) != 'acknowledged':
            return out + [('not-acknowledged', how == 'not-acknowledged'),
                          ('nothing-more-sent', len([e for e in events if e[0] == 'send']) == 1)]
        crc = crc_of(x.value)
        data = [e[1] for e in events[2:] if e[0] == 'send']
        payload = data[0] if len(data) == 1 else b''.join(data)
        return out + [('written', how == 'ok'), ('after-acknowledgment', events[1][0] == 'read'),
                      ('value-and-checksum', payload == x.value + bytes([crc // 256, crc % 256]))]


class SetupBits(SettingCase):
    """The setup byte is masked; the rain collector is bits 4 and 5."""
    name = 'setup-bits'
    inputs = {'data': Bytes(3, bv=True), 'mask': Int(0, 255, bv=8)}

    def tweak(self, rng, kw):
        kw['data'] = fix_crc(rng, kw['data'])
        return kw

    def run(self, x):
        c, d = SettingConsole(b'\x06', x.data), SettingConsole(b'\x06', x.data)
        return outcome(c.read_setup_bit, x.mask), outcome(d.read_rain_collector_type), c.events, d.events

    def post(self, r, x):
        (how, value), (how2, value2), ev, ev2 = r
        good = crc_of(x.data) == 0
        return [('only-intact', (how == 'ok') == good and (how2 == 'ok') == good),
                ('masked', not good or value == x.data[0] & x.mask),
                ('rain-collector', not good or value2 == x.data[0] & 0x30),
                ('asks-for-the-setup-bits', ev[0] == ('send', 'EEBRD 2B 01\n') and ev2[0] == ('send', 'EEBRD 2B 01\n'))]


class OverSocket(SettingCase):
    """The same through a socket: the reply follows the acknowledgment on the same connection."""
    name = 'socket'
    inputs = {'reply': Bytes(1), 'data': Bytes(5), 'value': Bytes(3), 'short': Int(0, 5)}

    def tweak(self, rng, kw):
        kw['data'] = fix_crc(rng, kw['data'])
        if rng.random() < 0.7:
            kw['reply'] = b'\x06'
        if rng.random() < 0.7:
            kw['short'] = 0
        return kw

    def patches(self):
        return ((socket, 'socket', world.FakeSocket),)

    def connected(self, w):
        world.put(w)
        c = IPSettingConsole('localhost', 22222)
        c.connect()
        return c

    def run(self, x):
        w = world.World(x.reply + x.data[:len(x.data) - x.short])
        r = outcome(self.connected(w).read_config_setting, '1A', '03')
        w2 = world.World(x.reply)
        return r, w, outcome(self.connected(w2).write_config_setting, '1A', '03', x.value), w2

    def post(self, r, x):
        (how, value), w, (how2, _), w2 = r
        ack = expected(x.reply) == 'acknowledged'
        good = ack and x.short == 0 and crc_of(x.data) == 0
        crc = crc_of(x.value)
        sent2 = b''.join(w2.sent)
        want2 = b'EEBWR 1A 03\n' + (x.value + bytes([crc // 256, crc % 256]) if ack else b'')
        return [('only-intact', (how == 'ok') == good), ('error-otherwise', good or how == ('invalid-response' if ack else
                                                                                           'not-acknowledged')),
                ('returns-the-bytes', not good or value == x.data[:3]), ('request', b''.join(w.sent) == b'EEBRD 1A 03\n'),
                ('written', sent2 == want2 and how2 == ('ok' if ack else 'not-acknowledged')),
                ('handles-closed', all(h.closed for h in w.handles))]


class IPSettingConsole(serial.ConfigurationSettingMixin, serial.SerialIPCommunicator):
    pass


CASES = [Read(), ReadDefaults(), ReadAgain(), ReadRefused(), Write(), SetupBits(), OverSocket()]
