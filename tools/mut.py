"""usage: mut.py CXX FILE: FILE holds mutants, each 'path', '<<<', old text, '===', new text, '>>>'.  Shows which are caught."""
import os, re, shutil, subprocess, sys, tempfile
prop, f = sys.argv[1:3]
only = set(sys.argv[3:])
muts = re.findall(r'^(\S+)\n<<<\n(.*?)\n===\n(.*?)\n>>>', open(f).read(), re.S | re.M)
for n, (path, old, new) in enumerate(muts):
    if only and str(n) not in only:
        continue
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo', d + '/r', ignore=shutil.ignore_patterns('.git'))
        p = os.path.join(d, 'r', path)
        t = open(p).read()
        if t.count(old) != 1:
            print(n, 'BAD: %d matches' % t.count(old), repr(old))
            continue
        open(p, 'w').write(t.replace(old, new))
        r = subprocess.run(['python3-vt', 'checks/run.py', prop, '--repo', d + '/r'], capture_output=True, text=True,
                           cwd='/verif')
        lines = [l for l in r.stdout.split('\n') if l.strip()]
        print(n, 'exit', r.returncode, repr(new[:60]), '|', ' / '.join(lines[-3:])[:300], r.stderr[-200:])
    finally:
        shutil.rmtree(d)
