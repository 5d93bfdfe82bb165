#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(home + '/seeded/*/meta.json')):
    rows.setdefault(json.load(open(f))['property'], []).append(os.path.basename(os.path.dirname(f)))
n = sum(map(len, rows.values()))
table = '| check | catches |\n|---|---|\n' + ''.join('| %s | %s |\n' % (p, ', '.join(v)) for p, v in sorted(rows.items()))
p = home + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| check \| catches \|\n(\|.*\n)+', lambda m: table, s)
s = re.sub(r'`seeded/` holds \d+ changes', '`seeded/` holds %d changes' % n, s)
open(p, 'w').write(s)
print(n, 'planted bugs')
