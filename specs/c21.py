"""C21: downloading.  What one record decodes to is C03; here the records of a reply are a function of their number."""
import hashlib
import struct

from weatherlink import downloader, models

from specs.base import *  # noqa
from specs import web, world
from specs.wire import Stream

FILES = ['weatherlink/downloader.py', 'weatherlink/models.py']
DATES = DateTime_(datetime.datetime(2000, 1, 1), datetime.datetime(2099, 12, 31), step=60)
CREDENTIALS = ('a&b=c', '100%', 'a+b c', 'p#1?x', 'a/b', 'pässwörd', '%20', '&action=data', 'x;y')
TEXT = Str_('abcXYZ019-_.~!$*', samples=CREDENTIALS)
WORD = Str_('ABCDEFabcdef0123456789', samples=('Dec', 'v1.90'))
BIG = 2 ** 31


def raw_record(seed, k):
    """The record number k of a reply; natively only."""
    b = bytearray()
    i = 0
    while len(b) < 52:
        b += hashlib.sha256(('%s/%s/%s' % (seed, k, i)).encode('ascii')).digest()
        i += 1
    b = b[:52]
    b[0], b[1] = 0x21, 0x20 + b[1] % 8
    t = (b[2] % 24) * 100 + b[3] % 60
    b[2], b[3] = t % 256, t // 256
    b[26], b[27] = b[26] % 16, (b[27] % 16, 255)[b[27] % 3 == 0]
    b[42] = 0
    return bytes(b)


def decoded_record(seed, k, span):
    """The record that the record number k of a reply decodes to (how: C03)."""
    class One(object):
        def read(self, n):
            return raw_record(seed, k)
    return models.ArchiveIntervalRecord.load_from_download(One(), span)


class Body(object):
    """The body of the second answer: records without end, number `blank` without a date, all missing from number `cut`."""

    def __init__(self, seed, blank=-1, cut=-1, rest=0):
        self.seed, self.blank, self.cut, self.rest = seed, blank, cut, rest
        self.index = 0
        self.left = b''
        self.ended = False

    def next_raw(self):
        k = self.index
        self.index = k + 1
        if k == self.cut:
            self.ended = True
            return raw_record(self.seed, k)[:self.rest]
        if self.ended:
            return b''
        return b'\x00' * 52 if k == self.blank else raw_record(self.seed, k)

    def read(self, n=None, decode_content=False):
        if n is None:
            raise OutOfReach()
        while len(self.left) < n and not self.ended:
            self.left += self.next_raw()
        out, self.left = self.left[:n], self.left[n:]
        return out


def load_next(body, span):
    """What loading a record from the body does."""
    k = body.index
    body.index = k + 1
    if k == body.cut:
        raise struct.error('ends early')
    if k == body.blank:
        return None
    return decoded_record(body.seed, k, span)


class Records(Fold):
    """The records returned: all announced, up to the first without a date."""
    name = 'records'
    state = {'stopped': Bool_()}
    lists = {'records': lambda x, s, e, i: () if s.stopped or i == x.blank else (decoded_record(x.seed, i, x.span),)}
    stops = True

    def matches(self, name):
        return name == 'range'

    def count(self, x):
        return x.n

    def elem(self, x, i):
        return i

    def init(self, x):
        return {'stopped': False}

    def step(self, x, s, e, i):
        return {'stopped': s.stopped or i == x.blank}

    def stable(self, x, s, i):
        return s.stopped

    def closed(self, x, s, i):
        return s.stopped == (0 <= x.blank and x.blank < i)

    def size(self, x, name, i):
        return x.blank if 0 <= x.blank and x.blank < i else i


RECORDS = Records()


class Partial(Records):
    """Up to the record that is not complete."""
    name = 'partial'
    lists = {'records': lambda x, s, e, i: () if s.stopped or i == x.cut else (decoded_record(x.seed, i, 5),)}

    def step(self, x, s, e, i):
        return {'stopped': s.stopped or i == x.cut}

    def closed(self, x, s, i):
        return s.stopped == (x.cut < i)


PARTIAL = Partial()


def header_text(model, n, most, span, version):
    return 'Model=%s\r\nRecords=%d\r\nMaxRecords=%d\r\nArchiveInt=%d\r\nConsoleVer=%s\r\nVantageTX=0\r\n' % (
        model, n, most, span, version)


def packed(d):
    return ((d.year - 2000) * 512 + d.month * 32 + d.day) * 65536 + d.hour * 100 + d.minute


class Base(Case):
    def patches(self):
        return web.patches(downloader)

    def setup(self, eng):
        from pyver.values import SOpaque
        from pyver.ops import int_t
        import z3
        web.install(eng)
        I = z3.IntSort()
        d = z3.Function('record', I, I, z3.DeclareSort('Record'))
        eng.truthy_sorts = {'Record'}

        def decoded(e, a, k):
            return SOpaque(d(z3.simplify(int_t(e.resolve(a[1]))), z3.simplify(int_t(e.resolve(a[2])))),
                           models.ArchiveIntervalRecord)

        def load(e, a, k):
            e.contract_uses['ArchiveIntervalRecord.load_from_download'] = 1
            return e.call(load_next, (a[1], a[2] if len(a) > 2 else k['minutes_covered']))
        eng.contracts[decoded_record] = decoded
        eng.contracts[models.ArchiveIntervalRecord.load_from_download.__func__] = load


class Download(Base):
    """A download that goes well."""
    name = 'download'
    inputs = {'user': TEXT, 'password': TEXT, 'token': TEXT, 'date': DATES, 'n': Int(0, BIG), 'span': Int(1, 120),
              'most': Int(0, 20000), 'word': WORD, 'year': Int(0, 9999), 'blank': Int(-1, BIG), 'seed': Int(0, BIG),
              'kind': Choice('text/html', 'text/plain')}
    folds = (RECORDS,)

    def tweak(self, rng, kw):
        kw['n'] = size(rng, rng.choice([0, 1, 2, rng.randint(0, 12)]), 20000 if rng.random() < 0.05 else 600)
        kw['blank'] = rng.choice([-1, 0, kw['n'] - 1, kw['n'], rng.randint(-1, 12)])
        return kw

    def version(self, x):
        return '%s 11 %d' % (x.word, x.year)

    def text(self, x):
        return header_text('16', x.n, x.most, x.span, self.version(x))

    def run(self, x):
        w = web.WebWorld(web.Answer(200, self.text(x), {'Content-Type': x.kind}),
                         web.Answer(200, '', {'Content-Type': 'application/octet-stream',
                                              'Content-Transfer-Encoding': 'binary'}, Body(x.seed, x.blank)))
        world.put(w)
        d = downloader.Downloader(x.user, x.password, x.token)
        d.download(x.date)
        return d, w

    def post(self, r, x):
        d, w = r
        out = [('two-requests', len(w.requests) == 2)]
        for k, action in ((0, 'headers'), (1, 'data')):
            method, url, headers = w.requests[k]
            q = web.query(url)
            out += [('method-' + action, method == 'GET'),
                    ('address-' + action, web.address(url) == 'https://api.weatherlink.com/webdl.php'),
                    ('action-' + action, q.get('action') == action), ('user-' + action, q.get('user') == x.user),
                    ('password-' + action, q.get('pass') == x.password), ('token-' + action, q.get('apiToken') == x.token),
                    ('timestamp-' + action, web.number(q.get('timestamp')) == packed(x.date)),
                    ('nothing-else-' + action, len(q) == 5)]
        out += [('records', d.records == fold_result(RECORDS, x).records), ('span', d.record_minute_span == x.span),
                ('count', d.record_count == x.n), ('most', d.max_account_records == x.most),
                ('version', d.console_version == self.version(x))]
        return out


class Again(Download):
    """A second download with the same downloader."""
    name = 'again'
    inputs = dict(Download.inputs, first=Int(0, BIG), before=Int(1, 120), held=Int(0, 20000), named=WORD)

    def tweak(self, rng, kw):
        kw = super(Again, self).tweak(rng, kw)
        kw['first'] = rng.randint(0, 6)
        return kw

    def run(self, x):
        first = web.WebWorld(web.Answer(200, header_text('16', 2, x.held, x.before, x.named + ' 1'), {'Content-Type': x.kind}),
                             web.Answer(200, '', {'Content-Type': 'application/octet-stream',
                                                  'Content-Transfer-Encoding': 'binary'}, Body(x.seed, 1)))
        world.put(first)
        d = downloader.Downloader(x.user, x.password, x.token)
        d.download(x.date)
        w = web.WebWorld(web.Answer(200, self.text(x), {'Content-Type': x.kind}),
                         web.Answer(200, '', {'Content-Type': 'application/octet-stream',
                                              'Content-Transfer-Encoding': 'binary'}, Body(x.seed, x.blank)))
        world.put(w)
        d.download(x.date)
        return d, w


class Orders(Download):
    """Header lines in any order, with blanks and other line ends."""
    name = 'header-lines'
    bounded = True
    inputs = dict(Download.inputs, order=Int(0, 10 ** 6), end=Choice('\r\n', '\n'), pad=Choice('', ' ', '\t'),
                  said=Str_('ABCDEFabcdef 0123456789', samples=('Dec 11 2012', 'a=b')), more=Bool_())

    def version(self, x):
        return x.said

    def pre(self, x):
        return x.said == x.said.strip()

    def text(self, x):
        import random
        lines = ['Model=16', 'Records=%d' % x.n, 'MaxRecords=%d' % x.most, 'ArchiveInt=%d' % x.span,
                 'ConsoleVer=%s' % x.said, 'VantageTX=0']
        if x.more:
            lines.append('Other=x=y')
        random.Random(x.order).shuffle(lines)
        return x.end.join(l.replace('=', x.pad + '=' + x.pad, 1) for l in lines) + (x.end if x.order % 2 else '')


class Spelled(Download):
    """The header lines in some other order, with other line ends and blanks."""
    search = False
    order = ()
    end = '\n'
    pad = ''

    def text(self, x):
        s = self.pad + '=' + self.pad
        lines = {'M': 'Model' + s + '16', 'R': 'Records' + s + '%d' % x.n, 'X': 'MaxRecords' + s + '%d' % x.most,
                 'A': 'ArchiveInt' + s + '%d' % x.span, 'C': 'ConsoleVer' + s + self.version(x), 'V': 'VantageTX' + s + '0',
                 'O': 'Other' + s + 'x=y'}
        return self.end.join([lines[k] for k in self.order])


def spelled(order, end, pad):
    return type('Spelled', (Spelled,), {'name': 'lines-%s' % order, 'order': order, 'end': end, 'pad': pad})()


class Refuses(Base):
    """Replies of the wrong type, or from another console."""
    name = 'refuses'
    inputs = {'model': Choice('16', '15', '160', '6', '0', '116'),
              'first': Choice('text/html', 'text/plain', 'application/octet-stream', 'text/xml', ''),
              'second': Choice('application/octet-stream', 'text/html', 'text/plain', 'application/json'),
              'transfer': Choice('binary', 'base64', '7bit'), 'content': Choice(None, 'gzip', 'deflate', 'br', 'compress'),
              'seed': Int(0, BIG)}

    def run(self, x):
        w = web.WebWorld(web.Answer(200, header_text(x.model, 2, 100, 5, 'v'), {'Content-Type': x.first}),
                         web.Answer(200, '', {'Content-Type': x.second, 'Content-Transfer-Encoding': x.transfer,
                                              'Content-Encoding': x.content}, Body(x.seed)))
        world.put(w)
        d = downloader.Downloader('u', 'p', 't')
        try:
            d.download(datetime.datetime(2016, 4, 1))
        except Exception:
            return 'refused', len(w.requests), d.records
        return 'ok', len(w.requests), d.records

    def post(self, r, x):
        how, asked, records = r
        first = x.model == '16' and x.first in ('text/html', 'text/plain')
        second = x.second == 'application/octet-stream' and x.transfer == 'binary' and x.content is None
        return [('refuses', (how == 'ok') == (first and second)), ('asks-no-further', first or asked == 1),
                ('no-records', how == 'ok' or records is None), ('all-records', how == 'refused' or len(records) == 2)]


class Cut(Base):
    """A reply that ends before the announced number of records is an error."""
    name = 'cut-short'
    inputs = {'n': Int(1, BIG), 'cut': Int(0, BIG), 'rest': Int(0, 51, special=(0,)), 'seed': Int(0, BIG)}
    folds = (PARTIAL,)

    def tweak(self, rng, kw):
        kw['n'] = size(rng, rng.randint(0, 7)) + 1
        kw['cut'] = rng.randint(0, kw['n'] - 1)
        return kw

    def pre(self, x):
        return x.cut < x.n

    def run(self, x):
        w = web.WebWorld(web.Answer(200, header_text('16', x.n, 100, 5, 'v'), {'Content-Type': 'text/html'}),
                         web.Answer(200, '', {'Content-Type': 'application/octet-stream',
                                              'Content-Transfer-Encoding': 'binary'}, Body(x.seed, -1, x.cut, x.rest)))
        world.put(w)
        d = downloader.Downloader('u', 'p', 't')
        try:
            d.download(datetime.datetime(2016, 4, 1))
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('an-error', r == 'refused')]


class Incomplete(Case):
    """A record that is not complete is an error."""
    name = 'incomplete-record'
    inputs = {'raw': Bytes(51), 'length': Choice(*range(52)), 'span': Int(1, 120)}

    def run(self, x):
        try:
            models.ArchiveIntervalRecord.load_from_download(Stream(x.raw[:x.length]), x.span)
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('an-error', r == 'refused')]


class Missing(Base):
    """Credentials are required."""
    name = 'credentials'
    inputs = {'user': Choice(None, '', 'u'), 'password': Choice(None, '', 'p'), 'token': Choice(None, '', 't')}

    def run(self, x):
        try:
            downloader.Downloader(x.user, x.password, x.token)
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('required', (r == 'ok') == (x.user == 'u' and x.password == 'p' and x.token == 't'))]


CASES = [Download(), Again(), Orders(), spelled('VCAXRM', '\n', ''), spelled('CMOARX', '\r\n', ''), spelled('XRVMCA', '\r\n', ' '),
         spelled('RCXOMA', '\n', '\t'), Refuses(), Cut(), Incomplete(), Missing()]
