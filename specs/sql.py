"""A small database: the SQL that the exporter uses, over rows held as dictionaries.

Stands in for the MySQL server and its connector.  Statements outside of this subset are out of reach (no verdict)."""
import datetime
import decimal
import os
import re

from specs.base import OutOfReach

TOKEN = re.compile(r"\s*(?:(%s|%\(\w+\)s)|(`[^`]*`|[A-Za-z_][A-Za-z_0-9$.]*)|(\d+(?:\.\d+)?)|('(?:[^'\\]|\\.)*'|\"[^\"]*\")"
                   r"|(<=>|<=|>=|<>|!=|[-+*/=<>(),;.]))")
AGGREGATES = ('min', 'max', 'avg', 'sum', 'count')
UNITS = {'SECOND': 1, 'MINUTE': 60, 'HOUR': 3600, 'DAY': 86400, 'WEEK': 7 * 86400}
RESERVED = set(('SELECT FROM WHERE AND OR NOT IS NULL IN BETWEEN GROUP BY ORDER ASC DESC LIMIT OFFSET HAVING INSERT INTO VALUES ON '
                'DUPLICATE KEY UPDATE SET AS LIKE CASE WHEN THEN ELSE END DISTINCT INTERVAL JOIN INNER LEFT RIGHT CROSS UNION '
                'EXISTS DIV MOD USING FOR').split())


class Parser(object):
    def __init__(self, text):
        self.toks = []
        pos = 0
        text = text.strip()
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise OutOfReach('SQL: %r' % text[pos:pos + 30])
            pos = m.end()
            if m.group(1):
                if m.group(1) != '%s':
                    raise OutOfReach('SQL: named placeholders')
                self.toks.append(('arg', None))
            elif m.group(2):
                self.toks.append(('name', m.group(2).replace('`', '')))
            elif m.group(3):
                self.toks.append(('lit', decimal.Decimal(m.group(3)) if '.' in m.group(3) else int(m.group(3))))
            elif m.group(4):
                self.toks.append(('lit', m.group(4)[1:-1]))
            else:
                self.toks.append(('op', m.group(5)))
        self.i = 0
        self.args = 0
        self.depth = 0

    def ahead(self, *ws):
        """Whether one of the keywords is next."""
        return self.i < len(self.toks) and self.toks[self.i][0] == 'name' and self.toks[self.i][1].upper() in ws

    def word(self, *ws):
        """Accept a keyword sequence."""
        j = self.i
        for w in ws:
            if j >= len(self.toks) or self.toks[j][0] != 'name' or self.toks[j][1].upper() != w:
                return False
            j += 1
        self.i = j
        return True

    def op(self, o):
        if self.i < len(self.toks) and self.toks[self.i] == ('op', o):
            self.i += 1
            return True
        return False

    def need(self, ok, what='?'):
        if not ok:
            raise OutOfReach('SQL: expected %s at %r' % (what, self.toks[self.i:self.i + 4]))

    def name(self):
        self.need(self.i < len(self.toks) and self.toks[self.i][0] == 'name', 'a name')
        self.i += 1
        return self.toks[self.i - 1][1].split('.')[-1]

    def value(self):
        """An expression."""
        a = self.product()
        while True:
            o = '+' if self.op('+') else '-' if self.op('-') else None
            if o is None:
                return a
            if self.word('INTERVAL'):
                a = self.interval(o, a)
            else:
                a = ('op', o, a, self.product())

    def interval(self, o, a):
        n = self.product()
        self.need(self.ahead(*UNITS), 'a unit')
        return ('shift', o, a, n, self.name().upper())

    def product(self):
        a = self.primary()
        while True:
            o = '*' if self.op('*') else '/' if self.op('/') else None
            if o is None:
                return a
            a = ('op', o, a, self.primary())

    def query(self):
        """A query in parentheses, the first of which is read."""
        self.depth += 1
        s = self.select()
        self.depth -= 1
        self.need(self.op(')'), ')')
        return s

    def primary(self):
        self.need(self.i < len(self.toks), 'a value')
        k, v = self.toks[self.i]
        if k == 'arg':
            self.i += 1
            self.args += 1
            return ('arg', self.args - 1)
        if k == 'lit':
            self.i += 1
            return ('lit', v)
        if k == 'op' and v == '-':
            self.i += 1
            x = self.primary()
            return ('lit', -x[1]) if x[0] == 'lit' and x[1] is not None else ('op', '-', ('lit', 0), x)
        if k == 'op' and v == '(':
            self.i += 1
            if self.word('SELECT'):
                return ('sub', self.query())
            a = self.value()
            self.need(self.op(')'), ')')
            return a
        if k == 'name':
            if self.word('NULL'):
                return ('lit', None)
            if self.word('CASE'):
                return self.case()
            if v.upper() in RESERVED and not (v.upper() in ('VALUES', 'MOD') and
                                              self.i + 1 < len(self.toks) and self.toks[self.i + 1] == ('op', '(')):
                raise OutOfReach('SQL: %s' % v)
            if '.' in v and self.depth:
                raise OutOfReach('SQL: %s in a query inside of another' % v)
            n = self.name()
            if self.op('('):
                return self.function(n.lower())
            return ('col', n)
        raise OutOfReach('SQL: %r' % (v,))

    def case(self):
        whens = []
        if not self.ahead('WHEN'):
            raise OutOfReach('SQL: CASE of a value')
        while self.word('WHEN'):
            c = self.cond()
            self.need(self.word('THEN'), 'THEN')
            whens.append((c, self.value()))
        other = self.value() if self.word('ELSE') else ('lit', None)
        self.need(self.word('END'), 'END')
        for c, v in reversed(whens):
            other = ('if', c, v, other)
        return other

    def function(self, f):
        if f == 'values':
            c = self.name()
            self.need(self.op(')'))
            return ('new', c)
        if f in AGGREGATES:
            if self.op('*'):
                self.need(f == 'count')
                a, kind = ('lit', 1), 'fn'
            else:
                kind = 'fnd' if self.word('DISTINCT') else 'fn'
                a = self.value()
            self.need(self.op(')'))
            return (kind, f, a)
        if f == 'if':
            c = self.cond()
            self.need(self.op(','))
            a = self.value()
            self.need(self.op(','))
            out = ('if', c, a, self.value())
        elif f in ('date_add', 'date_sub', 'adddate', 'subdate'):
            a = self.value()
            self.need(self.op(','))
            self.need(self.word('INTERVAL'), 'INTERVAL')
            out = self.interval('+' if 'add' in f else '-', a)
        elif f == 'timestampdiff':
            self.need(self.ahead(*UNITS), 'a unit')
            u = self.name().upper()
            self.need(self.op(','))
            a = self.value()
            self.need(self.op(','))
            out = ('call', f, (('lit', u), a, self.value()))
        elif f in FUNCTIONS:
            args = [self.value()]
            while self.op(','):
                args.append(self.value())
            out = ('call', f, tuple(args))
        else:
            raise OutOfReach('SQL: function %s' % f)
        self.need(self.op(')'))
        return out

    def cond(self):
        a = self.conj()
        while self.word('OR'):
            a = ('or', a, self.conj())
        return a

    def conj(self):
        a = self.unit()
        while self.word('AND'):
            a = ('and', a, self.unit())
        return a

    def unit(self):
        if self.word('NOT'):
            return ('not', self.unit())
        if self.word('EXISTS'):
            raise OutOfReach('SQL: EXISTS')
        at = self.i, self.args
        if self.op('('):
            try:
                a = self.cond()
                if a[0] != 'truth' and self.op(')'):
                    return a
            except OutOfReach:
                pass
            self.i, self.args = at
        a = self.value()
        if self.word('IS'):
            n = self.word('NOT')
            self.need(self.word('NULL'))
            return ('notnull', a) if n else ('null', a)
        if self.word('BETWEEN'):
            lo = self.value()
            self.need(self.word('AND'))
            return ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, self.value()))
        n = self.word('NOT')
        if self.word('LIKE'):
            a = ('like', a, self.value())
            return ('not', a) if n else a
        if n and self.word('BETWEEN'):
            lo = self.value()
            self.need(self.word('AND'))
            return ('not', ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, self.value())))
        if self.word('IN'):
            self.need(self.op('('))
            if self.word('SELECT'):
                out = ('insub', a, self.query())
                return ('not', out) if n else out
            out = None
            while True:
                c = ('cmp', '=', a, self.value())
                out = c if out is None else ('or', out, c)
                if not self.op(','):
                    break
            self.need(self.op(')'))
            return ('not', out) if n else out
        for o in ('<=>', '<=', '>=', '<>', '!=', '=', '<', '>'):
            if self.op(o):
                return ('cmp', '<>' if o == '!=' else o, a, self.value())
        if n:
            raise OutOfReach('SQL: condition')
        return ('truth', a)

    def end(self):
        self.op(';')
        self.need(self.i == len(self.toks), 'the end')

    def assigns(self):
        out = []
        while True:
            c = self.name()
            self.need(self.op('='))
            out.append((c, self.value()))
            if not self.op(','):
                return out

    def select(self):
        """A query, the first word of which is read."""
        distinct = self.word('DISTINCT')
        cols, aliases = [], {}
        while True:
            v = self.value()
            cols.append(v)
            if self.word('AS') or (self.i < len(self.toks) and self.toks[self.i][0] == 'name' and
                                   self.toks[self.i][1].upper() not in RESERVED):
                aliases[self.name()] = v
            if not self.op(','):
                break
        self.need(self.word('FROM'), 'FROM')
        self.need(not self.ahead(*RESERVED), 'a table')
        table = self.name()
        if self.word('AS') or (self.i < len(self.toks) and self.toks[self.i][0] == 'name' and
                               self.toks[self.i][1].upper() not in RESERVED):
            self.name()
        where = self.cond() if self.word('WHERE') else None
        groups, having = [], None
        if self.word('GROUP', 'BY'):
            while True:
                v = self.value()
                groups.append(aliases.get(v[1], v) if v[0] == 'col' else v)
                if not self.op(','):
                    break
        if self.word('HAVING'):
            having = self.cond()
        order = []
        if self.word('ORDER', 'BY'):
            while True:
                v = self.value()
                if v[0] == 'lit':
                    self.need(isinstance(v[1], int) and 1 <= v[1] <= len(cols), 'a column')
                    v = cols[v[1] - 1]
                desc = self.word('DESC')
                if not desc:
                    self.word('ASC')
                order.append((aliases.get(v[1], v) if v[0] == 'col' else v, desc))
                if not self.op(','):
                    break
        limit = offset = None
        if self.word('LIMIT'):
            limit = self.primary()
            if self.op(','):
                limit, offset = self.primary(), limit
            elif self.word('OFFSET'):
                offset = self.primary()
        if distinct or having or offset or len(groups) > 1 or (limit and limit[0] != 'lit'):
            if having and (aliases or names(having)):
                raise OutOfReach('SQL: HAVING')
            return ('query', tuple(cols), table, where, tuple(groups), having, tuple(order), limit, offset, distinct)
        return ('select', tuple(cols), table, where, groups[0] if groups else None, tuple(order), limit and limit[1])

    def statement(self):
        if self.word('SELECT'):
            s = self.select()
            self.end()
            return s
        if self.word('DELETE', 'FROM'):
            table = self.name()
            where = self.cond() if self.word('WHERE') else None
            self.end()
            return ('delete', table, where)
        if self.word('INSERT', 'IGNORE', 'INTO') or self.word('INSERT', 'IGNORE'):
            return self.insert('ignore')
        if self.word('REPLACE', 'INTO') or self.word('REPLACE'):
            return self.insert('replace')
        if self.word('INSERT', 'INTO'):
            return self.insert(None)
        if self.word('UPDATE'):
            table = self.name()
            self.need(self.word('SET'))
            sets = self.assigns()
            where = self.cond() if self.word('WHERE') else None
            self.end()
            return ('update', table, tuple(sets), where)
        raise OutOfReach('SQL: statement')

    def insert(self, mode):
        table = self.name()
        cols, rows = [], []
        if self.word('SET'):
            sets = self.assigns()
            cols, rows = [c for c, v in sets], [tuple(v for c, v in sets)]
        else:
            self.need(self.op('('))
            while True:
                cols.append(self.name())
                if not self.op(','):
                    break
            self.need(self.op(')'))
            self.need(self.word('VALUES') or self.word('VALUE'))
            while True:
                self.need(self.op('('))
                vals = []
                while True:
                    vals.append(self.value())
                    if not self.op(','):
                        break
                self.need(self.op(')'))
                rows.append(tuple(vals))
                if not self.op(','):
                    break
        dup = tuple(self.assigns()) if self.word('ON', 'DUPLICATE', 'KEY', 'UPDATE') else None
        self.end()
        if mode or len(rows) > 1:
            return ('inserts', table, tuple(cols), tuple(rows), dup, mode)
        return ('insert', table, tuple(cols), rows[0], dup)


CACHE = {}


def parse(text):
    """(statement, number of placeholders)"""
    if text not in CACHE:
        try:
            p = Parser(text)
            s = p.statement()
        except OutOfReach:
            if not malformed(text):
                raise
            raise SQLError('syntax error in %r' % (text,))
        CACHE[text] = (s, p.args)
    return CACHE[text]


def known(*vs):
    return all(v is not None for v in vs)


def arithmetic(o, a, b):
    if not known(a, b):
        return None
    for v in (a, b):
        if isinstance(v, bool) or not isinstance(v, (int, decimal.Decimal)):
            raise OutOfReach('SQL: %s of %r' % (o, v))
    if o == '/':
        return None if b == 0 else decimal.Decimal(a) / decimal.Decimal(b)
    return a + b if o == '+' else a - b if o == '-' else a * b


def seconds_between(unit, a, b):
    if not known(a, b):
        return None
    a, b = comparable(a, b)
    if not isinstance(a, datetime.date) or not isinstance(b, datetime.date):
        raise OutOfReach('SQL: timestampdiff')
    return int((b - a).total_seconds() / UNITS[unit])


def strict(f):
    """NULL if an argument is."""
    return lambda *vs: f(*vs) if known(*vs) else None


def rounded(v, n=0):
    q = decimal.Decimal(v).quantize(decimal.Decimal(1).scaleb(-n), rounding=decimal.ROUND_HALF_UP)
    return int(q) if isinstance(v, int) and n >= 0 else q


def part(n):
    def get(v):
        if not isinstance(v, datetime.date):
            raise OutOfReach('SQL: %s of %r' % (n, v))
        return getattr(v, n) if hasattr(v, n) else 0
    return strict(get)


FUNCTIONS = {
    'greatest': strict(max), 'least': strict(min), 'coalesce': lambda *vs: next((v for v in vs if v is not None), None),
    'ifnull': lambda a, b: b if a is None else a, 'nullif': lambda a, b: None if known(a, b) and a == b else a,
    'round': strict(rounded), 'abs': strict(abs), 'year': part('year'), 'month': part('month'), 'day': part('day'),
    'dayofmonth': part('day'), 'hour': part('hour'), 'minute': part('minute'), 'second': part('second'),
    'date': strict(lambda v: v.date() if isinstance(v, datetime.datetime) else v), 'timestampdiff': seconds_between}


class SQLError(Exception):
    """What the server or the connector would refuse."""


WORDS = set(('SELECT FROM WHERE AND OR NOT IS NULL IN BETWEEN GROUP BY ORDER ASC DESC LIMIT INSERT INTO VALUES ON DUPLICATE KEY '
             'UPDATE SET AS MIN MAX AVG SUM COUNT').split())  # what `malformed` may judge
_SCHEMA = []


def schema():
    """{table: names of its columns}, from the script in the repository; empty if there is none."""
    if not _SCHEMA:
        tables = {}
        try:
            from weatherlink.exporter import mysql
            with open(os.path.join(os.path.dirname(os.path.abspath(mysql.__file__)), 'mysql.sql')) as f:
                for name, body in re.findall(r'CREATE TABLE `(\w+)` \((.*?)\n\)', f.read(), re.S):
                    tables[name] = set(re.findall(r'^\s*`(\w+)`', body, re.M))
        except (IOError, ImportError):
            pass
        _SCHEMA.append(tables)
    return _SCHEMA[0]


def malformed(text):
    """Whether no database accepts a statement: it has only words of the subset and names of the schema, and SQLite finds it
    ill-formed too."""
    known = set(schema()).union(*schema().values()) if schema() else set()
    bare = re.sub(r"'(?:[^'\\]|\\.)*'", "''", text)
    for w in re.findall(r'[A-Za-z_]\w*', bare.replace('%s', '?')):
        if w.upper() not in WORDS and w not in known:
            return False
    try:
        import sqlite3
    except ImportError:
        return False
    parts = re.split(r'(?i)\bON DUPLICATE KEY UPDATE\b', text)
    if len(parts) > 1:
        parts = [parts[0], 'UPDATE t SET ' + ' '.join(parts[1:])]
    c = sqlite3.connect(':memory:')
    try:
        for part in parts:
            part = part.replace('%s', '?')
            try:
                c.execute('EXPLAIN ' + part, (1,) * part.count('?'))
            except sqlite3.Error as e:
                if re.search('syntax error|incomplete input|unrecognized token', str(e)):
                    return True
    finally:
        c.close()
    return False


def names(e):
    """The columns a part of a statement names."""
    if not isinstance(e, tuple) or not e:
        return set()
    if e[0] == 'col' and len(e) == 2:
        return set([e[1]])
    if e[0] in ('sub', 'insub'):
        return names(e[1]) if e[0] == 'insub' else set()
    out = set()
    for x in e:
        out |= names(x)
    return out


def aggregated(e):
    if not isinstance(e, tuple) or not e or e[0] in ('sub', 'lit'):
        return False
    return e[0] in ('fn', 'fnd') or any(aggregated(x) for x in e)


def comparable(a, b):
    if isinstance(a, datetime.date) and isinstance(b, datetime.date) and type(a) is not type(b):
        if not isinstance(a, datetime.datetime):
            a = datetime.datetime(a.year, a.month, a.day)
        if not isinstance(b, datetime.datetime):
            b = datetime.datetime(b.year, b.month, b.day)
    return a, b


class Database(object):
    UNIQUE = {'weather_archive_record': ('timestamp_weatherlink',), 'weather_rain_event': ('timestamp_start',),
              'weather_calculated_summary': ('summary_type', 'summary_year', 'summary_month', 'summary_day', 'summary_week')}
    KEY = {'weather_archive_record': 'record_id', 'weather_rain_event': 'event_id',
           'weather_calculated_summary': 'summary_id'}

    def __init__(self):
        self.tables = {}
        self.log = []        # (statement, arguments)
        self.updates = []    # (table, row, columns set)
        self.last = 0
        self.commits = 0
        self.open = 0
        self.uncommitted = False

    def rows(self, table):
        return self.tables.setdefault(table, [])

    def term(self, e, row, args):
        if e[0] == 'arg':
            return args[e[1]]
        if e[0] == 'lit':
            return e[1]
        if e[0] == 'col':
            if e[1] not in row and not row.get('__any'):
                return None
            return row.get(e[1])
        if e[0] == 'new' and '__new' in row:
            return row['__new'].get(e[1])
        return self.computed(e, lambda x: self.term(x, row, args), lambda c: self.test(c, row, args), args)

    def computed(self, e, value, test, args):
        k = e[0]
        if k == 'op':
            return arithmetic(e[1], value(e[2]), value(e[3]))
        if k == 'if':
            return value(e[2] if test(e[1]) is True else e[3])
        if k == 'call':
            try:
                return FUNCTIONS[e[1]](*[value(x) if not (e[1] == 'timestampdiff' and x is e[2][0]) else x[1] for x in e[2]])
            except TypeError:
                raise OutOfReach('SQL: %s' % e[1])
        if k == 'shift':
            a, n = value(e[2]), value(e[3])
            if not known(a, n):
                return None
            if not isinstance(a, datetime.datetime) or not isinstance(n, int):
                raise OutOfReach('SQL: INTERVAL')
            d = datetime.timedelta(seconds=n * UNITS[e[4]])
            return a + d if e[1] == '+' else a - d
        if k == 'sub':
            rows = self.answer(e[1], args)
            if len(rows) > 1 or (rows and len(rows[0]) != 1):
                raise SQLError('the query inside has %d rows' % len(rows))
            return rows[0][0] if rows else None
        raise OutOfReach('SQL: term')

    def test(self, c, row, args):
        """True, False or None (unknown)."""
        if c is None:
            return True
        k = c[0]
        if k == 'and':
            a, b = self.test(c[1], row, args), self.test(c[2], row, args)
            return False if a is False or b is False else None if a is None or b is None else True
        if k == 'or':
            a, b = self.test(c[1], row, args), self.test(c[2], row, args)
            return True if a is True or b is True else None if a is None or b is None else False
        if k == 'not':
            a = self.test(c[1], row, args)
            return None if a is None else not a
        if k == 'null':
            return self.term(c[1], row, args) is None
        if k == 'notnull':
            return self.term(c[1], row, args) is not None
        if k == 'truth':
            a = self.term(c[1], row, args)
            if isinstance(a, (str, datetime.date)):
                raise OutOfReach('SQL: truth of %r' % (a,))
            return None if a is None else a != 0
        if k == 'like':
            a, b = self.term(c[1], row, args), self.term(c[2], row, args)
            if not known(a, b):
                return None
            return re.match('(?is)' + re.escape(b).replace('%', '.*').replace('_', '.') + '$', a) is not None
        if k == 'insub':
            a = self.term(c[1], row, args)
            vs = [v for v, in self.answer(c[2], args)]
            if not vs:
                return False
            return None if a is None else True if a in vs else None if None in vs else False
        a, b = comparable(self.term(c[2], row, args), self.term(c[3], row, args))
        if c[1] == '<=>':
            return a == b
        if a is None or b is None:
            return None
        return {'=': a == b, '<>': a != b}[c[1]] if c[1] in ('=', '<>') else \
            {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[c[1]]()

    def value(self, e, group, args):
        if e[0] in ('op', 'if', 'call', 'shift'):
            if e[0] == 'if' and aggregated(e[1]):
                raise OutOfReach('SQL: IF')
            return self.computed(e, lambda x: self.value(x, group, args),
                                 lambda c: self.test(c, group[0] if group else {}, args), args)
        if e[0] == 'col' and not group:
            return None
        if e[0] in ('fn', 'fnd'):
            vs = [v for v in (self.term(e[2], r, args) for r in group) if v is not None]
            if e[0] == 'fnd':
                vs = list(set(vs))
            if e[1] == 'count':
                return len(vs)
            if not vs:
                return None
            if e[1] == 'min':
                return min(vs)
            if e[1] == 'max':
                return max(vs)
            s = sum([decimal.Decimal(v) for v in vs])
            return s if e[1] == 'sum' else s / len(vs)
        return self.term(e, group[0] if group else {}, args)

    def check(self, s):
        """The columns exist."""
        if s[0] == 'select':
            table, used = s[2], names(s[1]) | names(s[3]) | names(s[4]) | names(s[5])
        elif s[0] == 'query':
            table, used = s[2], names(s[1]) | names(s[3]) | names(s[4]) | names(s[6])
        elif s[0] == 'delete':
            table, used = s[1], names(s[2])
        elif s[0] == 'inserts':
            table, used = s[1], set(s[2]) | set(c for c, v in s[4] or ())
        elif s[0] == 'insert':
            table, used = s[1], set(s[2]) | set(c for c, v in s[4] or ()) | names(s[3])
        else:
            table, used = s[1], set(c for c, v in s[2]) | names(s[3])
        there = schema().get(table)
        if there is None or (table == 'weather_archive_record' and s[0] != 'select'):
            return       # somebody's own table
        if not used <= there:
            raise SQLError('unknown columns %s' % sorted(used - there))

    def answer(self, s, args, checked=False):
        """The rows of a query."""
        if not checked:
            there = schema().get(s[2])
            if there is None or not (names(s[1]) | names(s[3]) | names(s[4])) <= there:
                raise OutOfReach('SQL: a query inside of another')
        if s[0] == 'select':
            _, cols, table, where, group, order, limit = s
            by, having, offset, distinct = () if group is None else (group,), None, None, False
        else:
            _, cols, table, where, by, having, order, limit, offset, distinct = s
            limit, offset = [None if v is None else self.term(v, {}, args) for v in (limit, offset)]
        rows = [r for r in self.rows(table) if self.test(where, r, args) is True]
        if by:
            keys = {}
            for r in rows:
                keys.setdefault(tuple(self.term(e, r, args) for e in by), []).append(r)
            groups = list(keys.values())
        elif any(aggregated(c) for c in cols):
            groups = [rows]
        else:
            groups = [[r] for r in rows]
        if having is not None:
            groups = [g for g in groups if self.having(having, g, args) is True]
        for e, desc in reversed(order):
            def key(g):
                v = self.value(e, g, args)
                return (v is not None, v) if v is not None else (False, 0)
            groups.sort(key=key, reverse=desc)
        out = [tuple(self.value(c, g, args) for c in cols) for g in groups]
        if distinct:
            out = [r for i, r in enumerate(out) if r not in out[:i]]
        if offset:
            out = out[offset:]
        return out if limit is None else out[:limit]

    def having(self, c, group, args):
        if c[0] in ('and', 'or', 'not'):
            raise OutOfReach('SQL: HAVING')
        if c[0] in ('null', 'notnull'):
            v = self.value(c[1], group, args)
            return (v is None) == (c[0] == 'null')
        if c[0] != 'cmp':
            raise OutOfReach('SQL: HAVING')
        return self.test(('cmp', c[1], ('lit', self.value(c[2], group, args)), ('lit', self.value(c[3], group, args))), {}, args)

    def insert(self, table, cols, vals, dup, mode, args):
        if len(cols) != len(vals) or len(set(cols)) != len(cols):
            raise SQLError('columns and values differ')
        row = {}
        for c, v in zip(cols, vals):
            row[c] = self.term(v, row, args)
        u = self.UNIQUE.get(table)
        old = [r for r in self.rows(table) if u and all(r.get(c) == row.get(c) for c in u)]
        if old and mode == 'ignore':
            return
        if old and mode == 'replace':
            self.tables[table] = [r for r in self.rows(table) if r not in old]
        elif old:
            if dup is None:
                raise SQLError('duplicate entry')
            for c, v in dup:
                old[0]['__new'] = row
                try:
                    old[0][c] = self.term(v, old[0], args)
                finally:
                    del old[0]['__new']
            return
        self.last += 1
        row[self.KEY.get(table, 'id')] = self.last
        self.rows(table).append(row)

    def run(self, text, args):
        """Execute; the rows of the result, or None if there is no result set."""
        args = list(args or [])
        s, n = parse(text)
        self.log.append((text, args))
        if n != len(args):
            raise SQLError('%d placeholders, %d arguments' % (n, len(args)))
        self.check(s)
        if s[0] in ('select', 'query'):
            return self.answer(s, args, checked=True)
        self.uncommitted = True
        if s[0] == 'delete':
            self.tables[s[1]] = [r for r in self.rows(s[1]) if self.test(s[2], r, args) is not True]
            return None
        if s[0] in ('insert', 'inserts'):
            table, cols, rows, dup, mode = (s[1], s[2], (s[3],), s[4], None) if s[0] == 'insert' else s[1:]
            for vals in rows:
                self.insert(table, cols, vals, dup, mode, args)
            return None
        _, table, sets, where = s
        for r in self.rows(table):
            if self.test(where, r, args) is True:
                for c, v in sets:       # from left to right, as MySQL does
                    r[c] = self.term(v, r, args)
                self.updates.append((table, r, [c for c, _ in sets]))
        return None


class Cursor(object):
    """A cursor of the connector."""

    def __init__(self, db, buffered=False):
        self.db = db
        self.buffered = buffered
        self.rows = None
        self.pos = 0
        self.closed = False
        self.lastrowid = None
        db.open += 1

    def unread(self):
        if self.rows is not None and self.pos < len(self.rows) and not self.buffered:
            raise SQLError('Unread result found')

    def execute(self, statement, arguments=None):
        self.unread()
        before = self.db.last
        self.rows = None
        self.rows = self.db.run(statement, arguments)
        self.pos = 0
        self.lastrowid = self.db.last if self.db.last != before else None

    @property
    def rowcount(self):
        raise OutOfReach('rowcount')

    @property
    def statement(self):
        raise OutOfReach('statement')

    def fetchone(self):
        if self.rows is None:
            raise mysql_error('No result set to fetch from')
        if self.pos >= len(self.rows):
            return None
        self.pos += 1
        return self.rows[self.pos - 1]

    def fetchmany(self, size=1):
        out = []
        while len(out) < size:
            r = self.fetchone()
            if r is None:
                break
            out.append(r)
        return out

    def executemany(self, statement, many):
        for arguments in many:
            self.execute(statement, arguments)

    def fetchall(self):
        if self.rows is None:
            return []
        out = self.rows[self.pos:]
        self.pos = len(self.rows)
        return out

    def __iter__(self):
        return self

    def __next__(self):
        r = self.fetchone() if self.rows is not None else None
        if r is None:
            raise StopIteration()
        return r

    next = __next__

    def close(self):
        self.unread()
        if not self.closed:
            self.closed = True
            self.db.open -= 1


def mysql_error(text):
    import mysql.connector.errors
    return mysql.connector.errors.InterfaceError(text)


class Connection(object):
    def __init__(self, db):
        self.db = db

    def cursor(self, buffered=None, **kwargs):
        if any(kwargs.values()):
            raise OutOfReach('cursor of the kind %s' % sorted(kwargs))
        return Cursor(self.db, buffered)

    def commit(self):
        self.db.commits += 1
        self.db.uncommitted = False

    def rollback(self):
        self.db.uncommitted = False

    def close(self):
        pass
