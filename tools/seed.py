"""Makes and validates planted changes.

usage: seed.py new ID PROPERTY FILE  < json {"edits": [[old, new], ...], "demo": python text, "needs":..., "breaks":...}
       seed.py check [ID ...]        run the property's check against each planted change, in a scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv-pypy/bin/python'
DEMO = '''#!/bin/sh
# cwd: the repository
exec %s -B - <<'EOF'
import sys
sys.path.insert(0, '.')
%s
EOF
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, **kw)


def new(spec):
    sid = spec['id']
    tmp = tempfile.mkdtemp(prefix='seed-')
    wt = os.path.join(tmp, 'repo')
    shutil.copytree('/repo', wt, symlinks=True)
    d = os.path.join(HERE, 'seeded', sid)
    try:
        for path, old, newt in spec['edits']:
            p = os.path.join(wt, path)
            s = open(p).read()
            if s.count(old) != 1:
                print(sid, 'edit matches %d times: %r' % (s.count(old), old))
                return False
            open(p, 'w').write(s.replace(old, newt))
        diff = sh(['git', 'diff'], wt).stdout
        demo = DEMO % (PY, spec['demo'])
        dp = os.path.join(tmp, 'demo.sh')
        open(dp, 'w').write(demo)
        r = sh(['sh', dp], wt, timeout=300)
        if r.returncode == 0:
            print(sid, 'demo passes with the change')
            return False
        print(sid, 'demo with change:', r.stdout.strip().splitlines()[-1:])
        r = sh(['sh', dp], '/repo', timeout=300)
        if r.returncode != 0:
            print(sid, 'demo fails on clean tree', r.stdout[-600:])
            return False
        r = sh([PY, '-B', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'tests'], wt, timeout=300)
        tail = r.stdout.strip().splitlines()[-1]
        if '59 passed' not in tail:
            print(sid, 'tests:', tail)
            return False
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(demo)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print(sid, 'kept')
        return True
    finally:
        shutil.rmtree(tmp)


def check(ids):
    bad = 0
    for sid in ids or sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        meta = json.load(open(os.path.join(HERE, 'seeded', sid, 'meta.json')))
        tmp = tempfile.mkdtemp(prefix='seedchk-')
        wt = os.path.join(tmp, 'repo')
        ev = os.path.join(tmp, 'verif')
        shutil.copytree('/repo', wt, symlinks=True)
        shutil.copytree(HERE, ev, symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', '__pycache__'))
        try:
            r = sh(['git', 'apply', os.path.join(HERE, 'seeded', sid, 'patch.diff')], wt)
            if r.returncode:
                print(sid, 'does not apply', r.stdout)
                bad += 1
                continue
            r = sh('python3-vt checks/run.py %s --tier quick --repo %s' % (meta['property'], wt), ev)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            print('%-28s %s rc=%d %s' % (sid, meta['property'], r.returncode, '; '.join(
                os.path.basename(l.split('replay=')[1]) for l in v)[:150]))
            if r.returncode != 1:
                bad += 1
                print(r.stdout[-1500:])
        finally:
            shutil.rmtree(tmp)
    return bad


if __name__ == '__main__':
    if sys.argv[1] == 'new':
        ok = True
        g = {}
        exec(open(sys.argv[2]).read(), g)
        for s in g['SEEDS']:
            if len(sys.argv) > 3 and s['id'] not in sys.argv[3:]:
                continue
            ok = new(s) and ok
        sys.exit(0 if ok else 1)
    sys.exit(check(sys.argv[2:]))
