import sys
sys.dont_write_bytecode=True
sys.path.append('/opt/venv-pypy/lib/pypy3.9/site-packages'); sys.path.insert(0,__import__('os').environ.get('REPO','/repo')); sys.path.insert(0,'/verif')
import importlib, json
from pyver import verify
m=importlib.import_module('specs.'+sys.argv[1].lower())
for c in m.CASES:
    if len(sys.argv)>2 and c.name not in sys.argv[2:]: continue
    r=verify.to_dict(verify.verify_case(c, budget=float(__import__("os").environ.get("BUDGET", c.budget))))
    fns=r['info'].pop('functions')
    print(c.name, r['error'], {k:v for k,v in r['info'].items()}, sorted(fns))
    for k,v in r['obligations'].items(): print('   ',k,v)
