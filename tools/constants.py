"""Writes specs/constants.json: the constants of the files of /repo, as they are now (see specs/native.py, hints)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from specs import native
out = {}
for d, _, fs in os.walk('/repo/weatherlink'):
    for f in fs:
        if f.endswith('.py'):
            p = os.path.relpath(os.path.join(d, f), '/repo')
            out[p] = [sorted(s) for s in native.constants('/repo', [p])]
json.dump(out, open(os.path.join(HERE, 'specs', 'constants.json'), 'w'), sort_keys=True)
