"""usage: nat.py PROP [seconds] [repo]: the bounded native search, summarised."""
import collections, json, subprocess, sys
prop, sec = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '10'
repo = sys.argv[3] if len(sys.argv) > 3 else '/repo'
p = subprocess.run(['/opt/venv-pypy/bin/python', 'specs/native.py', prop, '--seconds', sec, '--repo', repo], capture_output=True, text=True)
try:
    d = json.loads(p.stdout)
except ValueError:
    print(p.stderr[-3000:]); sys.exit(1)
c = collections.Counter()
ex = {}
for f in d['failures']:
    for o, m in f['failed']:
        c[(f['case'], o, m)] += 1
        ex.setdefault((f['case'], o, m), json.dumps(f['inputs'])[:300])
print(d['cases'], d['samples'], d.get('sampling_errors'))
for k, n in c.most_common(30):
    print(n, k, ex[k] if len(c) < 6 else '')
