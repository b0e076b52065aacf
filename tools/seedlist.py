"""Rewrites the list of planted changes in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
t = open('DESIGN.md').read()
a = 'All are caught by the check of their property:\n\n'
b = '\n\nStrengthened on the way'
i = t.index(a) + len(a)
j = t.index(b)
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('* %s (%s): %s; needs %s' % (os.path.basename(os.path.dirname(d)), m['property'], m['what_it_breaks'], m['needs']))
open('DESIGN.md', 'w').write(t[:i] + '\n'.join(rows) + t[j:])
