"""Runs cases natively on the real code: replay of counterexamples and bounded search.

usage: native.py PROPERTY --repo DIR [--seed N] [--seconds S] [--replay FILE]...
Prints one JSON document.
"""
from __future__ import print_function

import argparse
import ast
import contextlib
import copy
import decimal
import importlib
import io
import json
import os
import random
import signal
import sys
import time
import traceback

sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


@contextlib.contextmanager
def patched(patches):
    saved = []
    try:
        for obj, name, repl in patches:
            saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, repl)
        yield
    finally:
        for obj, name, old in reversed(saved):
            setattr(obj, name, old)


KNOWN = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'constants.json')


def hints(repo, files):
    """(integers, decimals) to draw samples from: the constants in the files.  Constants the files did not have when the
    specifications were written (constants.json) come as often as all others together."""
    from specs import base
    now = constants(repo, files)
    try:
        with open(KNOWN) as fh:
            doc = json.load(fh)
    except (IOError, ValueError):
        doc = {}
    out = []
    for k in range(3):
        old = set(v for f in files for v in doc.get(f, [[], [], []])[k])
        new = sorted(now[k] - old)
        both = sorted(now[k])
        if new and k < 2:
            both = both + new * max(1, len(both) // len(new))
        out.append(both if k < 2 else new)
    base.HINTS = {'ints': out[0], 'texts': out[2], 'new': sorted(now[0] - set(v for f in files for v in doc.get(f, [[]])[0]))}
    return out[0], out[1]


def constants(repo, files):
    ints, decs, texts = set(), set(), set()
    for f in files:
        try:
            with io.open(os.path.join(repo, f), encoding='utf-8') as fh:
                tree = ast.parse(fh.read())
        except (IOError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int) and abs(v) < 2 ** 40:
                    ints.add(v)
                elif isinstance(v, float) and abs(v) < 1e9:
                    decs.add(v)
                elif isinstance(v, str) and len(v) < 12:
                    texts.add(v)
                    try:
                        d = decimal.Decimal(v)
                        if d.is_finite() and abs(d) < 10 ** 6:
                            decs.add(float(d))
                            if d == int(d):
                                ints.add(int(d))
                    except Exception:
                        pass
    return ints, decs | set(float(i) for i in ints if abs(i) < 10 ** 6), texts


def draw(case, rng, h, last=None):
    """One input; at times a variation of an earlier one (`last` keeps it), for what the code may remember between calls."""
    from specs import base
    kw = {}
    for k, d in case.inputs.items():
        hh = h[1] if isinstance(d, base.Dec) else h[0]
        kw[k] = d.sample(rng, hh) if isinstance(d, base.Domain) else d
    if last is not None:
        r = rng.random()
        if r < 0.2 and last:
            old = copy.deepcopy(last)
            kw = {k: base.vary(case.inputs[k], old[k], v, rng) for k, v in kw.items()}
        elif r < 0.4:
            last.clear()
            last.update(copy.deepcopy(kw))
    return case.tweak(rng, kw)


def values(d):
    """(number, k -> value) of a small domain, or None."""
    from specs import base
    if not isinstance(d, base.Domain):
        return 1, lambda k: d
    if type(d) is base.Int:
        return d.hi - d.lo + 1, lambda k: d.lo + k
    if type(d) is base.Dec:
        return d.hi - d.lo + 1, lambda k: d.make(d.lo + k)
    if type(d) is base.EnumOf:
        return len(list(d.cls)), lambda k: list(d.cls)[k]
    return None


def grid(case, part, parts):
    """The inputs of a case whose domain is small, spread over the processes; every one of them, in a scattered order."""
    vs = [(k, values(d)) for k, d in sorted(case.inputs.items())]
    n = 1
    for k, v in vs:
        n *= v[0] if v else 10 ** 9
    if n > 2500000:
        return
    step = 1000003
    while n % step == 0:
        step += 2
    for i in range(part, n, parts):
        j = i * step % n
        kw = {}
        for k, (m, f) in vs:
            kw[k] = f(j % m)
            j //= m
        yield kw


class Keep(object):
    """Hands out the object an earlier sample of the same case worked on, at times; never one of a failed sample."""

    def __init__(self):
        self.objects = {}
        self.taken = []
        self.rng = random.Random(7)

    def begin(self, case):
        self.case = case
        self.taken = []

    def __call__(self, cls, args):
        k = (self.case, cls) + args
        try:
            o = self.objects.pop(k, None)
        except TypeError:
            return cls(*args)
        if o is None or self.rng.random() < 0.3:
            o = cls(*args)
        self.taken.append((k, o))
        return o

    def end(self, good):
        if good:
            for k, o in self.taken:
                if len(self.objects) < 100:
                    self.objects[k] = o


def execute(case, kw, limit=5, keep=None):
    """[(obligation, message)] for one input; None when the precondition does not hold."""
    from specs import base
    base.KEPT = keep
    if keep is not None:
        keep.begin(case.name)
    bad = _execute(case, kw, limit)
    if keep is not None:
        keep.end(bad == [])
    return bad


def _execute(case, kw, limit=5):
    from specs import base
    x = base.NS(**kw)
    bad = []
    stage = 'pre'
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    out = sys.stdout
    sys.stdout = io.StringIO()
    try:
        with patched(case.patches() if callable(case.patches) else case.patches):
            if not case.pre(x):
                return None
            stage = 'run'
            r = case.run(x)
            stage = 'post'
            for name, cond in case.post(r, x):
                if not cond and not name.startswith('lemma'):
                    bad.append((name, 'false'))
    except base.OutOfReach:
        return None
    except Timeout:
        bad.append(('terminates', 'no answer after %d s in %s' % (limit, stage)))
    except Exception as e:
        tb = traceback.extract_tb(sys.exc_info()[2])
        where = tb[-1]
        bad.append(('no-exception', '%s: %s: %s (%s:%s)' % (stage, type(e).__name__, e, os.path.basename(where[0]),
                                                          where[1])))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        sys.stdout = out
    return bad


def main():
    p = argparse.ArgumentParser()
    p.add_argument('prop')
    p.add_argument('--repo', default='/repo')
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--seconds', type=float, default=5)
    p.add_argument('--replay', action='append', default=[])
    p.add_argument('--stdin', action='store_true')
    p.add_argument('--only', action='append', default=[])
    p.add_argument('--show', action='store_true')
    p.add_argument('--grid', help='i/n: first this share of all inputs of the cases with few of them')
    a = p.parse_args()
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    sys.path.insert(0, a.repo)
    from specs import codec
    res = {'failures': [], 'cases': {}, 'samples': 0}
    mod = importlib.import_module('specs.' + a.prop.lower())
    cases = {c.name: c for c in mod.CASES}
    todo = []
    for f in a.replay:
        with open(f) as fh:
            d = json.load(fh)
        if 'inputs' in d and 'case' in d:
            todo.append((d['case'], d['inputs']))
    if a.stdin:
        for d in json.load(sys.stdin):
            todo.append((d['case'], d['inputs']))
    if a.replay or a.stdin:
        res['replays'] = []
        for cn, inp in todo:
            if cn not in cases:
                res['replays'].append(None)
                continue
            try:
                kw = {k: codec.dec(v) for k, v in inp.items()}
            except Exception as e:
                res['replays'].append(None)
                continue
            bad = execute(cases[cn], kw, 20)
            res['replays'].append(bad)
            if bad:
                res['failures'].append({'case': cn, 'inputs': inp, 'failed': bad})
        print(json.dumps(res))
        return
    h = hints(a.repo, mod.FILES)
    t_end = time.time() + a.seconds
    live = [c for c in mod.CASES if c.name in a.only or (not a.only and c.search)]
    weights = {c.name: 0 for c in live}
    failed = {}
    order = random.Random(a.seed)
    n = 0
    # round robin with a growing number of samples per case
    rngs = {c.name: random.Random('%d/%s' % (a.seed, c.name)) for c in live}
    lasts = {c.name: {} for c in live}
    keep = Keep()
    batch = 4
    if a.grid:
        part, parts = [int(v) for v in a.grid.split('/')]
        todo = [(c, grid(c, part, parts)) for c in live]
        g_end = time.time() + a.seconds * 2
        res['grid'] = {}
        while todo and time.time() < g_end:
            rest = []
            for c, it in todo:
                m = 0
                for kw in it:
                    m += 1
                    bad = execute(c, kw)
                    weights[c.name] += bad is not None
                    n += 1
                    if bad:
                        failed[(c.name, tuple(sorted(b[0] for b in bad)))] = 1
                        res['failures'].append({'case': c.name, 'inputs': {k: codec.enc(v) for k, v in kw.items()},
                                                'failed': bad})
                        m = 0
                        break
                    if m == 500:
                        break
                if m == 500:
                    rest.append((c, it))
            todo = rest
        res['grid'] = {'complete': not todo}
        t_end = time.time() + a.seconds
    while time.time() < t_end and live:
        for c in live:
            for _ in range(batch):
                if time.time() >= t_end:
                    break
                if weights[c.name] >= c.samples * 50:
                    break
                try:
                    kw = draw(c, rngs[c.name], h, lasts[c.name])
                    inputs = copy.deepcopy(kw)
                except Exception as e:
                    if a.show:
                        raise
                    res.setdefault('sampling_errors', {}).setdefault(c.name, '%s: %s' % (type(e).__name__, e))
                    break
                bad = execute(c, kw, keep=keep)
                weights[c.name] += bad is not None
                n += 1
                if bad:
                    if not execute(c, copy.deepcopy(inputs)):
                        bad = [(ob, msg + ' (after earlier calls)') for ob, msg in bad]
                    k = (c.name, tuple(sorted(b[0] for b in bad)))
                    failed[k] = failed.get(k, 0) + 1
                    if failed[k] <= 3:
                        try:
                            inp = {kk: codec.enc(v) for kk, v in inputs.items()}
                        except ValueError as e:
                            inp = {'__unencodable': repr(kw)}
                        res['failures'].append({'case': c.name, 'inputs': inp, 'failed': bad})
            if time.time() >= t_end:
                break
        live = [c for c in live if sum(v for k, v in failed.items() if k[0] == c.name) < 40 and
                weights[c.name] < c.samples * 50]
        batch = min(batch * 2, 64)
    res['samples'] = n
    res['cases'] = weights
    print(json.dumps(res))


if __name__ == '__main__':
    main()
