"""usage: refactor.py [NAME ...]: applies each behaviour-preserving edit of refactorings.txt to a scratch copy, runs the
repository's tests and the checks of the properties it names there, and reports every check that does not stay quiet."""
import concurrent.futures
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'


def load():
    text = open(os.path.join(HERE, 'tools', 'refactorings.txt')).read()
    out = []
    for part in re.split(r'^## ', text, flags=re.M)[1:]:
        head, body = part.split('\n', 1)
        name, props = head.split(None, 1)
        edits = re.findall(r'^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n?>>>', body, re.S | re.M)
        out.append((name, props.split(), edits))
    return out


def prepare(edits, d):
    wt = os.path.join(d, 'r')
    shutil.copytree('/repo', wt, ignore=shutil.ignore_patterns('.git'))
    for path, old, new in edits:
        p = os.path.join(wt, path)
        t = open(p).read()
        if t.count(old) != 1:
            return wt, 'BAD: %d matches of %r' % (t.count(old), old[:60])
        open(p, 'w').write(t.replace(old, new))
    r = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], cwd=wt,
                       capture_output=True, text=True)
    tail = r.stdout.strip().splitlines()[-1]
    return wt, '' if '59 passed' in tail else 'BAD: tests: ' + tail


def one(job):
    name, prop, wt = job
    t = time.time()
    r = subprocess.run(['python3-vt', 'checks/run.py', prop, '--repo', wt], capture_output=True, text=True, cwd=HERE)
    out = [l for l in r.stdout.split('\n') if l.strip()]
    bad = r.returncode != 0 or any('VIOLATION' in l for l in out)
    return name, prop, bad, time.time() - t, ' / '.join(out[-3:])[:600] + r.stderr[-300:]


def main():
    only = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix='refac')
    jobs = []
    try:
        todo = [x for x in load() if not only or any(x[0].startswith(o) for o in only)]
        for name, props, edits in todo:
            os.mkdir(os.path.join(tmp, name))
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            ready = ex.map(lambda x: prepare(x[2], os.path.join(tmp, x[0])), todo)
            for (name, props, edits), (wt, err) in zip(todo, ready):
                if err or not edits:
                    print(name, err or 'BAD: no edits', flush=True)
                    continue
                jobs += [(name, p, wt) for p in props]
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            for name, prop, bad, t, text in ex.map(one, jobs):
                print('%-5s %-28s %s %4.0fs %s' % ('ALARM' if bad else 'quiet', name, prop, t, text), flush=True)
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    main()
