"""usage: mutate.py OUT [--file PATH] [--function NAME] [--seed N] [--max N] [--jobs N] [--full] [--alive OLD_OUT]: mechanical mutants of the real code.

Each mutant that the repository's tests do not notice is searched natively by the properties whose functions it touches (from the
evidence), then given to their full checks.  Prints the ones that nothing catches: they are equivalent, outside of the
properties, or missed."""
import argparse
import ast
import concurrent.futures
import glob
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
CMP = {ast.Lt: ('<', '<='), ast.LtE: ('<=', '<'), ast.Gt: ('>', '>='), ast.GtE: ('>=', '>'), ast.Eq: ('==', '!='),
       ast.NotEq: ('!=', '=='), ast.Is: ('is', 'is not'), ast.IsNot: ('is not', 'is'), ast.In: ('in', 'not in'),
       ast.NotIn: ('not in', 'in')}
BIN = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '+'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '*'),
       ast.Mod: ('%', '//'), ast.BitAnd: ('&', '|'), ast.BitOr: ('|', '&'), ast.LShift: ('<<', '>>'), ast.RShift: ('>>', '<<')}
TEXT = (('max(', 'min('), ('min(', 'max('), ('avg(', 'max('), ('sum(', 'avg('), (' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '),
        (' >= ', ' > '), (' AND ', ' OR '), ('ASC', 'DESC'), ('DESC', 'ASC'), ('_high', '_low'), ('_low', '_high'),
        (' = %s', ' <> %s'), ('_outside', '_inside'), ('LIMIT 1', 'LIMIT 2'), (' IS NULL', ' IS NOT NULL'),
        (' IS NOT NULL', ' IS NULL'), ('_year', '_month'), ('_month', '_year'), ('_start', '_end'), ('_end', '_start'))


def mutants(path, text):
    """(function, line, what, new text)."""
    tree = ast.parse(text)
    lines = text.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)
    out = []
    module = path[:-3].replace('/', '.').replace('.__init__', '')

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def put(fn, n, a, b, new, what):
        out.append((fn, n.lineno, what, text[:a] + new + text[b:]))

    def between(left, right, old, new, fn, n, what):
        a, b = pos(left, True), pos(right)
        seg = text[a:b]
        if seg.count(old) == 1:
            k = seg.index(old)
            put(fn, n, a + k, a + k + len(old), new, what)

    def visit(n, fn, doc):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + '.' + n.name
        for field, value in ast.iter_fields(n):
            for c in value if isinstance(value, list) else [value]:
                if isinstance(c, ast.AST):
                    visit(c, fn, doc)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o, w = CMP[type(n.ops[0])]
            between(n.left, n.comparators[0], o, w, fn, n, '%s -> %s' % (o, w))
            if o in '<>':
                r = {'<': '>', '>': '<'}[o]
                between(n.left, n.comparators[0], o, r, fn, n, '%s -> %s' % (o, r))
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            o, w = BIN[type(n.op)]
            between(n.left, n.right, o, w, fn, n, '%s -> %s' % (o, w))
        if isinstance(n, ast.BoolOp):
            o, w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            for l, r in zip(n.values, n.values[1:]):
                between(l, r, o, w, fn, n, '%s -> %s' % (o, w))
                a, b = pos(l), pos(r)
            put(fn, n, pos(n), pos(n, True), text[pos(n.values[0]):pos(n.values[0], True)], 'first operand only')
            put(fn, n, pos(n), pos(n, True), text[pos(n.values[1]):pos(n.values[1], True)], 'second operand only')
        if isinstance(n, ast.Constant) and type(n.value) is int:
            for d in (1, -1):
                put(fn, n, pos(n), pos(n, True), '(%d)' % (n.value + d), '%d -> %d' % (n.value, n.value + d))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.lineno == n.end_lineno and id(n) not in doc:
            src = text[pos(n):pos(n, True)]
            if re.match(r"^'-?\d+(\.\d+)?'$", src):
                d = src[-2]
                put(fn, n, pos(n), pos(n, True), src[:-2] + str((int(d) + 1) % 10) + "'", 'last digit of %s' % src)
                if src[1] == '-':
                    put(fn, n, pos(n), pos(n, True), "'" + src[2:], 'sign of %s' % src)
            else:
                for o, w in TEXT:
                    if o in src:
                        k = src.index(o)
                        put(fn, n, pos(n) + k, pos(n) + k + len(o), w, '%r -> %r in %s' % (o, w, src[:60]))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(fn, n, pos(n), pos(n.operand), '', 'no not')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            put(fn, n, pos(n), pos(n.operand), '', 'no minus')
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            a, b = pos(n.test), pos(n.test, True)
            put(fn, n, a, b, 'not (%s)' % text[a:b], 'negated condition')
            put(fn, n, a, b, 'True' if not isinstance(n, ast.While) else 'False', 'condition true')
            put(fn, n, a, b, 'False', 'condition false')
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Expr)) and not (
                isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))) and fn:
            put(fn, n, pos(n), pos(n, True), 'pass', 'deleted: ' + lines[n.lineno - 1].strip()[:60])
        if isinstance(n, ast.Return) and n.value is not None:
            put(fn, n, pos(n), pos(n, True), 'return None', 'returns None')
        if isinstance(n, (ast.Continue, ast.Break)):
            new = 'break' if isinstance(n, ast.Continue) else 'continue'
            put(fn, n, pos(n), pos(n, True), new, new)
            put(fn, n, pos(n), pos(n, True), 'pass', 'pass')
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred):
            for x, y in zip(n.args, n.args[1:]):
                sx, sy = text[pos(x):pos(x, True)], text[pos(y):pos(y, True)]
                if sx != sy:
                    put(fn, n, pos(x), pos(y, True), sy + text[pos(x, True):pos(y)] + sx, 'swapped %s, %s' % (sx[:30], sy[:30]))
        if isinstance(n, (ast.List, ast.Tuple)) and fn and len(n.elts) >= 2:
            for x, y in zip(n.elts, n.elts[1:]):
                sx, sy = text[pos(x):pos(x, True)], text[pos(y):pos(y, True)]
                if sx != sy:
                    put(fn, n, pos(x), pos(y, True), sy + text[pos(x, True):pos(y)] + sx, 'swapped %s, %s' % (sx[:30], sy[:30]))
    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and \
                isinstance(n.body[0].value, ast.Constant):
            doc.add(id(n.body[0].value))
    visit(tree, '', doc)
    return [(module + f, line, what, new) for f, line, what, new in out]


def owners():
    m = {}
    for p in glob.glob(os.path.join(HERE, 'evidence', 'C*.json')):
        d = json.load(open(p))
        for f in d['coverage'].get('functions_under_contract', {}):
            m.setdefault(f, set()).add(d['property'])
    return m


def of_file(path):
    out = set()
    for p in glob.glob(os.path.join(HERE, 'specs', 'c[0-9][0-9].py')):
        if path in open(p).read().split('FILES = ', 1)[1].split('\n', 1)[0]:
            out.add(os.path.basename(p)[:3].upper())
    return out


def judge(job):
    k, path, fn, line, what, new, props, full = job
    d = tempfile.mkdtemp(prefix='mutant')
    try:
        wt = os.path.join(d, 'r')
        shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git'))
        with open(os.path.join(wt, path), 'w') as f:
            f.write(new)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        try:
            r = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '-o', 'addopts=', 'tests'],
                               cwd=wt, capture_output=True, text=True, timeout=120, env=env)
        except subprocess.TimeoutExpired:
            return k, 'tests', None
        if r.returncode != 0:
            return k, 'tests', None
        for p in sorted(props):
            try:
                r = subprocess.run([PY, os.path.join(HERE, 'specs', 'native.py'), p, '--seconds', '4', '--seed', '1001',
                                    '--repo', wt], cwd=HERE, capture_output=True, text=True, timeout=200, env=env)
                if r.returncode == 0 and json.loads(r.stdout)['failures']:
                    return k, 'native ' + p, None
            except (subprocess.TimeoutExpired, ValueError) as e:
                return k, 'stuck ' + p, str(e)[:200]
        said = []
        if full:
            for p in sorted(props):
                r = subprocess.run(['python3-vt', 'checks/run.py', p, '--repo', wt], cwd=HERE, capture_output=True, text=True)
                tail = [l for l in r.stdout.split('\n') if l.strip()][-1:]
                if r.returncode == 1:
                    return k, 'full ' + p, tail
                said.append('%s %d %s' % (p, r.returncode, ''.join(tail)[:160]))
        return k, 'ALIVE', said
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--file', action='append')
    ap.add_argument('--function')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--max', type=int, default=10 ** 6)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--full', action='store_true')
    ap.add_argument('--alive', help='only the ones alive in this output')
    a = ap.parse_args()
    own = owners()
    alive = {tuple(l.split('\t')[1:3]) for l in open(a.alive) if l.startswith(('ALIVE', 'stuck'))} if a.alive else None
    jobs = []
    for path in a.file or sorted(glob.glob('/repo/weatherlink/**/*.py', recursive=True)):
        path = path.replace('/repo/', '')
        text = open(os.path.join('/repo', path)).read()
        for fn, line, what, new in mutants(path, text):
            if a.function and a.function not in fn:
                continue
            if alive is not None and ('%s:%d' % (fn, line), what.replace('\n', ' ')) not in alive:
                continue
            props = own.get(fn) or of_file(path)
            jobs.append((path, fn, line, what, new, props, a.full))
    rng = random.Random(a.seed)
    rng.shuffle(jobs)
    jobs = [(k,) + j for k, j in enumerate(jobs[:a.max])]
    print(len(jobs), 'mutants')
    counts = {}
    with concurrent.futures.ThreadPoolExecutor(a.jobs) as ex, open(a.out, 'a') as out:
        for k, how, said in ex.map(judge, jobs):
            j = jobs[k]
            key = how.split()[0]
            counts[key] = counts.get(key, 0) + 1
            if key != 'tests':
                out.write('%s\t%s:%d\t%s\t%s\t%s\n' % (how, j[2], j[3], j[4].replace('\n', ' '), ','.join(sorted(j[6])), said or ''))
                out.flush()
    print(counts)


if __name__ == '__main__':
    main()
