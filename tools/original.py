#!/usr/bin/env python3
"""original.py: kept bugs that remove or change no line of the original repository."""
import os, re, subprocess, sys
home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()[-1]
if len(sys.argv) > 1: base = sys.argv[1]
blame = {}
def orig(f):
    if f not in blame:
        out = subprocess.check_output(['git', '-C', '/repo', 'blame', '--porcelain', f'{base}..HEAD', '--', f], text=True)
        blame[f] = {}
        for m in re.finditer(r'^([0-9a-f]{40}) \d+ (\d+)', out, re.M):
            blame[f][int(m.group(2))] = m.group(1)
        full = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', base], text=True).strip()
        blame[f] = {k: v == full for k, v in blame[f].items()}
    return blame[f]
for d in sorted(os.listdir(home + '/seeded')):
    n = mine = near = 0
    f = ''
    for l in open(f'{home}/seeded/{d}/patch.diff'):
        if l.startswith('--- a/'): f = l[6:].strip()
        elif l.startswith('@@'): pos = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('-') and not l.startswith('---'):
            if orig(f).get(pos): n += 1
            else: mine += 1
            pos += 1
        elif l.startswith(' '): pos += 1
    if n == 0: print(d, 'removes', n, 'original lines,', mine, 'of ours')
