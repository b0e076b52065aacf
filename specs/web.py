"""A web server behind `requests`: records the requests, answers from a script; and what a request says to the server."""
import datetime

import requests

from six.moves.urllib.parse import quote, quote_plus, urlencode

from specs.base import *  # noqa
from specs import world

RealSession = requests.sessions.Session


class WebWorld(object):
    """The server: `answers` are the responses, in order (the last one is repeated)."""

    def __init__(self, *answers):
        self.answers = answers
        self.requests = []

    def request(self, method, url, params=None, headers=None, stream=False):
        k = len(self.requests)
        if params is not None:
            url = with_params(url, params)
        self.requests.append((method, url, headers))
        return self.answers[k if k < len(self.answers) else len(self.answers) - 1]


def with_params(url, params):
    return requests.Request('GET', url, params=params).prepare().url


class Headers(object):
    """The header lines of an answer; names regardless of case."""

    def __init__(self, values):
        self.values = {}
        for k in values:
            if values[k] is not None:
                self.values[k.lower()] = values[k]

    def __getitem__(self, name):
        return self.values[name.lower()]

    def __contains__(self, name):
        return name.lower() in self.values

    def get(self, name, default=None):
        return self.values.get(name.lower(), default)


class Answer(object):
    def __init__(self, status=200, text='', headers=None, raw=None):
        self.status_code = status
        self.text = text
        self.headers = Headers({} if headers is None else headers)
        self.raw = raw
        self.reason = ''
        self.encoding = 'utf-8'

    @property
    def ok(self):
        return self.status_code < 400

    @property
    def content(self):
        return self.text.encode('utf-8') if self.raw is None else self.raw.read()

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.exceptions.HTTPError('status')

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *args):
        pass


def session_get(self, url, params=None, headers=None, stream=False, timeout=None, **more):
    return world.get().request('GET', url, params, headers, stream)


def session_request(self, method, url, params=None, headers=None, stream=False, timeout=None, **more):
    return world.get().request(method.upper(), url, params, headers, stream)


def plain_get(url, params=None, headers=None, stream=False, timeout=None, **more):
    return world.get().request('GET', url, params, headers, stream)


class FakeSession(object):
    def __init__(self):
        self.headers = {}

    get = session_get
    request = session_request

    def close(self):
        pass


def patches(*modules):
    out = [(RealSession, 'get', session_get), (RealSession, 'request', session_request), (requests, 'get', plain_get),
           (requests, 'Session', FakeSession), (requests, 'session', FakeSession)]
    for m in modules:
        if hasattr(m, 'Session'):
            out.append((m, 'Session', FakeSession))
    return out


class Odd(object):
    """A parameter that was not encoded as it should be."""

    def __init__(self, text):
        self.text = text


def query(url):
    """The parameters of a request as the server reads them; a repeated one as name#2, ..."""
    from six.moves.urllib.parse import urlsplit, unquote_plus
    out = {}
    q = urlsplit(url).query
    for item in q.split('&'):
        name, _, value = item.partition('=')
        n, k = unquote_plus(name), 1
        while n in out:
            k += 1
            n = '%s#%d' % (unquote_plus(name), k)
        out[n] = unquote_plus(value)
    return out


def address(url):
    """What comes before the parameters."""
    return url.split('?')[0]


def number(text):
    """The number that a parameter says; None if it is missing."""
    return None if text is None else D(text)


def time_said(text):
    return datetime.datetime.strptime(text, '%Y-%m-%d %H:%M:%S')


def install(eng):
    """Contracts of these functions, and of the encoding functions, for the verifier."""
    import z3
    from pyver import models as m
    from pyver.ops import zbool, z_and
    from pyver.values import SStr, SBStr, SInt, SDec, SBool, SDateTime, Sym, DictObj, PyRaise, Unsupported

    def quoted(plus):
        def contract(e, args, kwargs):
            v = e.resolve(args[0] if args else kwargs['string'])
            safe = args[1] if len(args) > 1 else kwargs.get('safe', '' if plus else '/')
            if not isinstance(v, Sym):
                return m.call_pure(e, quote_plus if plus else quote, (v,), {'safe': safe})
            if not isinstance(safe, (str, bytes)) or any(c in (safe if isinstance(safe, str) else safe.decode('latin-1'))
                                                         for c in '&=%#+? '):
                raise Unsupported('quote(safe=%r)' % (safe,))
            if isinstance(v, SStr):   # text, or its UTF-8 encoding
                return e.mk_str([('quote', SStr(v.parts))])
            raise PyRaise(TypeError('quote_from_bytes() expected bytes'))
        return contract

    def encode(e, args, kwargs):
        out = []
        v = e.resolve(args[0])
        pairs = m.iter_values(e, e.call(m.Method('items', v) if hasattr(m, 'Method') else e.get_attr(v, 'items'))
                              if not isinstance(v, tuple) and 'dict' in str(e.type_of(v)) else v)
        for i, p in enumerate(pairs):
            k, x = m.iter_values(e, e.resolve(p))[:2]
            x = e.resolve(x)
            x = x if isinstance(x, (str, SStr, bytes)) else m.str_(e, x)
            if i:
                out.append('&')
            out.extend(e.as_parts(quoted(True)(e, (e.resolve(k) if isinstance(e.resolve(k), str) else m.str_(e, k),), {})))
            out.append('=')
            out.extend(e.as_parts(quoted(True)(e, (x,), {})))
        return e.mk_str(out)

    SAFE = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~')

    def decoded(e, parts):
        from six.moves.urllib.parse import unquote_plus
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(unquote_plus(p))
            elif p[0] == 'quote':
                out.extend(p[1].parts)
            elif p[0] == 'str' and isinstance(p[1], (SInt, SBool)):
                out.append(p)
            elif p[0] == 'in' and set(p[1].tag.alphabet) <= SAFE and all(set(s) <= SAFE for s in p[1].tag.samples):
                out.append(p)
            elif p[0] == 'in':
                out.append(('unquoted', p[1]))   # not what was meant
            else:
                raise Unsupported('text in a URL without encoding: %r' % (p,))
        return e.mk_str(out)

    def query_(e, args, kwargs):
        v = e.resolve(args[0])
        if isinstance(v, str):
            return e.from_native(query(v))
        found = []    # (guard, name, value)
        started = [False]

        def finish(cur, guard):
            if not cur:
                return
            head = cur[0]
            if not isinstance(head, str) or '=' not in head:
                raise Unsupported('parameter %r' % (cur,))
            name, _, rest = head.partition('=')
            found.append((guard, name, decoded(e, [rest] + cur[1:])))

        def walk(parts, guard, inside):
            cur = []
            closed = inside    # the next piece has to begin a parameter
            for p in parts:
                if isinstance(p, str):
                    if not started[0]:
                        if '?' not in p:
                            raise Unsupported('where do the parameters start')
                        started[0] = True
                        p = p.split('?', 1)[1]
                    if closed and not p.startswith('&'):
                        raise Unsupported('a piece of a parameter')
                    closed = False
                    pieces = p.split('&')
                    if pieces[0]:
                        cur.append(pieces[0])
                    for q in pieces[1:]:
                        finish(cur, guard)
                        cur = [q] if q else []
                elif not started[0]:
                    raise Unsupported('symbolic address')
                elif p[0] == 'opt':
                    finish(cur, guard)
                    cur = []
                    walk(p[2].parts, z_and(guard, p[1].t), True)
                    closed = True
                else:
                    if closed:
                        raise Unsupported('a piece of a parameter')
                    cur.append(p)
            finish(cur, guard)
        walk(v.parts, True, False)
        entries = {}
        for g, n, x in found:
            k, name = 1, n
            while name in entries:
                k += 1
                name = '%s#%d' % (n, k)
            entries[name] = (g if g is True else zbool(g), x)
        return e.alloc(DictObj(entries), 'dict')

    def address_(e, args, kwargs):
        v = e.resolve(args[0])
        if isinstance(v, str):
            return address(v)
        p = v.parts[0]
        if isinstance(p, str) and '?' in p:
            return p.split('?')[0]
        raise Unsupported('symbolic address')

    def number_(e, args, kwargs):
        v = e.resolve(args[0])
        return None if v is None else m.m_decimal(e, (v,), {})

    def time_said_(e, args, kwargs):
        v = e.resolve(args[0])
        if isinstance(v, SStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str):
            p = v.parts[0]
            if p[0] == 'fmt' and p[1] in ('%Y-%m-%d %H:%M:%S', '%Y-%m-%d %X', '%F %T', 'iso ') and isinstance(p[2], SDateTime):
                d = p[2]
                return SDateTime(d.day_ord, d.sod, d.fields)
            if p[0] == 'str' and isinstance(p[1], SDateTime) and p[1].aware is None:
                return p[1]
        raise Unsupported('the time %r' % (v,))

    def with_params_(e, args, kwargs):
        url, params = e.resolve(args[0]), e.resolve(args[1])
        text = params if isinstance(params, (str, SStr)) else encode(e, (params,), {})
        head = e.as_parts(url)
        if head is None or not isinstance(head[0], str):
            raise Unsupported('params of a request')
        if e.as_parts(text) == ():
            return url
        return e.mk_str(list(head) + ['&' if '?' in head[0] else '?'] + list(e.as_parts(text)))
    c = eng.contracts
    c[query], c[address], c[number], c[time_said], c[with_params] = query_, address_, number_, time_said_, with_params_
    c[quote], c[quote_plus], c[urlencode] = quoted(False), quoted(True), encode
    eng.assumptions.add('urllib quote: percent-encoding that the server decodes to the same text')
