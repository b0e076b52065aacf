"""usage: apply_ref.py NAME DIR: a copy of the tree with one refactoring."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactor
name, d = sys.argv[1:3]
shutil.rmtree(d, ignore_errors=True)
shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git'))
for n, props, edits in refactor.load():
    if n == name:
        for path, old, new in edits:
            p = os.path.join(d, path)
            t = open(p).read()
            assert t.count(old) == 1
            open(p, 'w').write(t.replace(old, new))
