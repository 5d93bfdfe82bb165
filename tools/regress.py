#!/usr/bin/env python3
"""regress.py [pattern...]: runs the check of each kept bug's property against
a copy of /repo with the bug, and prints whether it is found and when."""
import json, os, re, shutil, subprocess, sys, tempfile, time

home = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sorted(d for d in os.listdir(home + '/seeded') if not sys.argv[1:] or any(re.search(p, d) for p in sys.argv[1:]))
for i in ids:
    prop = json.load(open(f'{home}/seeded/{i}/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='regress')
    try:
        shutil.copytree('/repo', tmp + '/repo', symlinks=True)
        p = subprocess.run(['git', 'apply', f'{home}/seeded/{i}/patch.diff'], cwd=tmp + '/repo', capture_output=True)
        if p.returncode:
            print(i, prop, 'PATCH', p.stderr.decode()[:200], flush=True)
            continue
        t = time.time()
        p = subprocess.run([home + '/check.sh', 'check', prop], env=dict(os.environ, VERIF_REPO=tmp + '/repo'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode(errors='replace')
        m = re.search(r'found \(scenario (\S+)\)', o)
        print(i, prop, {0: 'MISSED', 1: 'CAUGHT'}.get(p.returncode, f'BROKEN rc={p.returncode}'), m.group(1) if m else '', f'{time.time() - t:.0f}s', '' if p.returncode == 1 else o[-300:], flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
