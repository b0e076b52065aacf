"""C22: importing a database file.  What one record or summary decodes to is C04 and C05; here they are functions of where
they lie in the file and of the day they are attributed to."""
import calendar
import hashlib
import os
import tempfile

from weatherlink import importer, models

from specs.base import *  # noqa
from specs.wire import *  # noqa
from specs import world

FILES = ['weatherlink/importer.py', 'weatherlink/models.py']
BIG = 2 ** 31
START = 20 + 32 * 6


def noise(n, *what):
    b = bytearray()
    i = 0
    while len(b) < n:
        b += hashlib.sha256(('%s/%s' % (what, i)).encode('ascii')).digest()
        i += 1
    return b[:n]


def raw_summary(seed, pos):
    """The summary at this position of a file; natively only."""
    b = noise(176, seed, pos)
    b[0], b[88] = 2, 3
    b[52], b[53] = b[52] % 16, b[53] % 16
    return bytes(b)


def raw_record(seed, pos):
    """The record at this position of a file; natively only."""
    b = noise(88, seed, pos)
    b[0] = 1
    b[28], b[29] = b[28] % 16, (b[29] % 16, 255)[b[29] % 5 == 0]
    b[21] = (0, 16, 32, 48, 96)[b[21] % 5] + b[21] % 16
    m = (b[4] * 256 + b[5]) % 1800
    m = m if m <= 1440 else (0, 1440)[m % 2]
    b[4], b[5] = m % 256, m // 256
    return bytes(b)


def summary_at(seed, pos, year, month, day):
    """What the summary at this position decodes to (how: C05)."""
    return models.DailySummary.load_from_wlk(Stream(raw_summary(seed, pos)), year, month, day)


def record_at(seed, pos, year, month, day):
    """What the record at this position decodes to (how: C04)."""
    return models.ArchiveIntervalRecord.load_from_wlk(Stream(raw_record(seed, pos)), year, month, day)


def raw_file(seed, counts, unused, total):
    """A file whose index announces these counts of blocks for the days 1 to 31, and which ends with its last record.  The
    entry 0 of the index belongs to no day; what the header says of the total is not what decides."""
    head = bytearray(noise(16, seed))
    head += total.to_bytes(4, 'little') + unused.to_bytes(2, 'little') + b'\0' * 4
    body = b''
    first = 0
    for n in counts:
        head += n.to_bytes(2, 'little') + (first if n else 0).to_bytes(4, 'little')
        first += n
        if n:
            body += raw_summary(seed, START + len(body))
            for i in range(n - 2):
                body += raw_record(seed, START + len(body))
    return bytes(head) + body


class Disk(object):
    """A file of the given content."""

    def __init__(self, name, seed, counts, unused, total):
        self.name, self.seed, self.counts, self.unused, self.total = name, seed, counts, unused, total
        self.folder = None
        self.opened = []

    def create(self):
        """Natively, a real file; else the verifier's open() looks here."""
        self.folder = tempfile.mkdtemp(prefix='c22')
        path = os.path.join(self.folder, self.name)
        with open(path, 'wb') as f:
            f.write(raw_file(self.seed, self.counts, self.unused, self.total))
        return path

    def remove(self):
        os.unlink(os.path.join(self.folder, self.name))
        os.rmdir(self.folder)


class Opened(object):
    """The file while it is open; only in the verifier."""

    def __init__(self, disk):
        self.disk = disk
        self.pos = 0
        self.closed = False

    def seek(self, pos):
        self.pos = pos

    def tell(self):
        return self.pos

    def __getattr__(self, name):
        raise OutOfReach()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.closed = True

    def close(self):
        self.closed = True


def opening(disk, name, mode):
    if name != '/stored/' + disk.name or mode != 'rb':
        raise IOError(name)
    handle = Opened(disk)
    disk.opened.append(handle)
    return handle


def header_of(handle):
    """What Header.load_from_wlk does at the start of the file (case `header`)."""
    if handle.pos != 0:
        raise OutOfReach()
    handle.pos = START
    indexes = [models.DayIndex(handle.disk.unused, 0)]
    first = 0
    for n in handle.disk.counts:
        indexes.append(models.DayIndex(n, first))
        first = first + n
    return models.Header('', handle.disk.total, indexes)


def summary_of(handle, year, month, day):
    p = handle.pos
    handle.pos = p + 176
    return summary_at(handle.disk.seed, p, year, month, day)


def archived_of(handle, year, month, day):
    p = handle.pos
    handle.pos = p + 88
    return record_at(handle.disk.seed, p, year, month, day)


def expected(x, counts):
    """(summaries by day, records by day) a file with these counts holds."""
    summaries, daily = {}, {}
    pos = START
    for d in range(1, 32):
        n = counts[d - 1]
        if n > 0:
            summaries[d] = summary_at(x.seed, pos, x.year, x.month, d)
            pos += 176
            daily[d] = []
            for i in range(n - 2):
                daily[d].append(record_at(x.seed, pos, x.year, x.month, d))
                pos += 88
    return summaries, daily


class Month(Case):
    """All days of a month."""
    name = 'month'
    bounded = True
    inputs = {'year': Int(2000, 2099), 'month': Int(1, 12), 'seed': Int(0, BIG), 'pattern': Int(0, BIG), 'long': Choice(None, Int(2, 1500)),
              'unused': Int(0, 32767, special=(0, 2, 3)), 'total': Int(0, 50000, special=(0, 1, 2)),
              'again': Bool_()}

    def tweak(self, rng, kw):
        if rng.random() < 0.96:
            kw['long'] = None
        elif rng.random() < 0.5:
            kw['long'] = 1442
        return kw

    def counts(self, x):
        days = calendar.monthrange(x.year, x.month)[1]
        b = noise(32, x.pattern)
        few = b[31] % 4
        counts = [0 if d >= days or (few and b[d] % 4 >= few) else 2 + (b[d] // 4) % 5 for d in range(31)]
        if x.long is not None:
            counts[x.pattern % days] = x.long
        return counts

    def run(self, x):
        disk = Disk('%04d-%02d.wlk' % (x.year, x.month), x.seed, self.counts(x), x.unused, x.total)
        world.put(disk)
        path = disk.create()
        try:
            i = importer.Importer(path)
            if x.again:
                # whatever an earlier import left
                i.daily_summaries = {1: 'summary', 31: 'summary'}
                i.records = ['record']
                i.daily_records = {2: ['record'], 30: ['record']}
            i.import_data()
        finally:
            disk.remove()
        return i

    def post(self, r, x):
        counts = self.counts(x)
        summaries, daily = expected(x, counts)
        everything = []
        out = [('days-summarised', sorted(r.daily_summaries) == sorted(summaries))]
        for d in range(1, 32):
            n = counts[d - 1]
            if n > 0:
                out += [('summary', r.daily_summaries[d] == summaries[d]),
                        ('daily-records', r.daily_records.get(d, []) == daily[d])]
                everything += daily[d]
            else:
                out += [('no-records', not r.daily_records.get(d))]
            out += [('index', r.header.day_indexes[d].record_count == n)]
        return out + [('records', r.records == everything), ('year-month', (r.year, r.month) == (x.year, x.month))]


class Later(Fold):
    """The records of day x.day after the first."""
    name = 'later'
    peel = (2, 1)
    shared = True

    def __init__(self, day, before):
        self.first = START + 88 * before + 176 + 88
        f = lambda x, s, e, i: (record_at(x.seed, self.first + 88 * i, x.year, x.month, day),)
        self.lists = {'records': f}

    def matches(self, name):
        return name == 'range'

    def count(self, x):
        return x.n - 3

    def elem(self, x, i):
        return i


class OneDay(Month):
    """One day with any number of records, the others with few."""
    bounded = False
    search = False
    inputs = {'year': Choice(2000, 2016, 2063), 'month': Choice(1, 7, 12), 'seed': Int(0, BIG), 'n': Int(0, 32767), 'unused': Int(0, 32767),
              'total': Int(0, 50000), 'again': Bool_()}

    def __init__(self, day):
        self.day = day
        self.name = 'day-%02d' % day
        others = [(0, 2, 3, 4)[(d * 7 + day) % 4] for d in range(31)]
        self.before, self.after = others[:day - 1], others[day:]
        self.later = Later(day, sum(self.before))
        self.folds = (self.later,)

    def pre(self, x):
        return x.n != 1

    def tweak(self, rng, kw):
        kw['n'] = rng.choice([0, 2, 3, 4, rng.randint(2, 12)])
        return kw

    def counts(self, x):
        return self.before + [x.n] + self.after

    def post(self, r, x):
        pos = START
        everything = []
        out = []
        counts = self.counts(x)
        for d in range(1, 32):
            n = counts[d - 1]
            daily = []
            if n > 0:
                out += [('summary', r.daily_summaries[d] == summary_at(x.seed, pos, x.year, x.month, d))]
                if d != self.day:
                    daily = [record_at(x.seed, pos + 176 + 88 * i, x.year, x.month, d) for i in range(n - 2)]
                elif n >= 3:
                    daily = [record_at(x.seed, pos + 176, x.year, x.month, d)] + fold_result(self.later, x).records
                pos = pos + 88 * n
            else:
                out += [('no-summary', d not in r.daily_summaries)]
            if n > 2:
                out += [('daily-records', r.daily_records[d] == daily)]
            else:
                out += [('no-records', not r.daily_records.get(d))]
            everything = everything + daily
        return out + [('records', r.records == everything)]

    def setup(self, eng):
        import z3
        from pyver.values import SOpaque
        from pyver.ops import int_t
        I = z3.IntSort()
        eng.truthy_sorts = {'Record', 'Summary'}

        def at(sort, cls):
            f = z3.Function(sort.lower() + '_at', I, I, I, I, I, z3.DeclareSort(sort))
            return lambda e, a, k: SOpaque(f(*[z3.simplify(int_t(e.resolve(v))) for v in a]), cls)
        c = eng.contracts
        c[summary_at] = at('Summary', models.DailySummary)
        c[record_at] = at('Record', models.ArchiveIntervalRecord)

        def loads(f):
            def load(e, a, k):
                kw = dict(zip(('file_handle', 'year', 'month', 'day'), a[1:]))
                kw.update(k)
                return e.call(f, tuple(kw[n] for n in ('file_handle', 'year', 'month', 'day') if n in kw))
            return load
        c[models.Header.load_from_wlk.__func__] = loads(header_of)
        c[models.DailySummary.load_from_wlk.__func__] = loads(summary_of)
        c[models.ArchiveIntervalRecord.load_from_wlk.__func__] = loads(archived_of)
        c[open] = lambda e, a, k: e.call(opening, (e.call(world.get),) + tuple(a)) if not k else NotImplemented
        c[Disk.create] = lambda e, a, k: e.binop('+', '/stored/', e.get_attr(a[0], 'name'))
        c[Disk.remove] = lambda e, a, k: None


class Header(Case):
    """The header and the day index."""
    name = 'header'
    inputs = {'raw': Bytes(START)}

    def run(self, x):
        s = Stream(x.raw + b'\x01\x02\x03')
        return models.Header.load_from_wlk(s), s

    def post(self, r, x):
        h, s = r
        out = [('consumed', s.pos == START), ('version', h.version_code == x.raw[:16]), ('count', h.record_count == s32(x.raw, 16)),
               ('days', len(h.day_indexes) == 32)]
        for i in range(32):
            o = 20 + 6 * i
            out += [('day-count', h.day_indexes[i].record_count == s16(x.raw, o)),
                    ('day-start', h.day_indexes[i].start_index == s32(x.raw, o + 2))]
        return out


class Named(Case):
    """The year and the month are those in the file name."""
    name = 'file-name'
    inputs = {'folder': Choice('', '/a/b/', './', '../x-y/', 'my station/2015-02/', '2015-02.wlk/'),
              'year': Choice(1999, 2000, 2016, 2063, 2100), 'month': Choice(*range(1, 13))}

    def run(self, x):
        i = importer.Importer('%s%04d-%02d.wlk' % (x.folder, x.year, x.month))
        return i.year, i.month

    def post(self, r, x):
        return [('year', r[0] == x.year), ('month', r[1] == x.month)]


class Refused(Case):
    """Other file names are refused."""
    name = 'refused-name'
    inputs = {'file': Choice(None, '', '.wlk', 'april.wlk', '2016-04', '2016-04.txt', '2016-04.wlk.bak', '2016_04.wlk', '201604.wlk',
                             'x/2016.wlk', '2016-ab.wlk', 'abcd-04.wlk', '2016-04wlk', '2016-04.csv', '04-2016.wlx')}

    def run(self, x):
        try:
            importer.Importer(x.file)
        except Exception:
            return 'refused'
        return 'ok'

    def post(self, r, x):
        return [('refused', r == 'refused')]


CASES = [Month(), Header(), Named(), Refused()] + [OneDay(d) for d in range(1, 32)]
