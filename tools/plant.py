#!/usr/bin/env python3
"""plant.py SPEC.py [id...]: turns the planted bugs of a spec file into
/verif/seeded/<id>/ after confirming them in a scratch copy of /repo, and runs
the check of their property against each.

A spec file defines BUGS, a list of dicts: id, property, needs, breaks, edits
[(file, old, new)], pkg (directory of the demo test), test (its Go source),
flags (extra go test flags)."""
import json, os, re, shutil, subprocess, sys, tempfile

DEMO = r'''#!/bin/bash
# Exit 0 if the demonstrated case is as the property says, nonzero if not.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
cd "$repo/@MOD@" || exit 3
cp go.mod "$t/go.mod" && cp go.sum "$t/go.sum" || exit 3
echo "{\"Replace\": {\"$repo/@PKG@/zz_demo_test.go\": \"$here/demo_test.go.txt\"@HIDE@}}" > "$t/overlay.json"
mkdir "$t/dir"
DEMO_DIR="$t/dir" GOFLAGS="-mod=mod -modfile=$t/go.mod" timeout 250 go test -overlay "$t/overlay.json" -count=1 @FLAGS@ -run '^TestDemo' "./@REL@" 
'''

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')

def stable(repo, tmp):
    """the stable tests of BASELINE in the scratch copy, each package by name"""
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = '^(' + '|'.join(sorted(set(re.findall(r'Test\w+', json.dumps(base))))) + ')$'
    env = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOWORK='off')
    out = ''
    for mod, pkgs in (('.', './step ./meshing ./modeler'), ('nurbs', '.')):
        shutil.copy(f'{repo}/{mod}/go.mod', f'{tmp}/m.mod'); shutil.copy(f'{repo}/{mod}/go.sum', f'{tmp}/m.sum')
        env['GOFLAGS'] = f'-mod=mod -modfile={tmp}/m.mod'
        rc, o = sh(f"go build ./... && go test -vet=off -count=1 -v -run '{names}' {pkgs}", f'{repo}/{mod}', env)
        out += o
    return out, names

def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    want = sys.argv[2:]
    results = []
    for b in spec['BUGS']:
        if want and b['id'] not in want:
            continue
        tmp = tempfile.mkdtemp(prefix='plant')
        repo = tmp + '/repo'
        shutil.copytree('/repo', repo, symlinks=True)
        out = f'{HOME}/seeded/{b["id"]}'
        try:
            for f, old, new in b['edits']:
                p = f'{repo}/{f}'
                s = open(p).read()
                if s.count(old) < 1:
                    raise Exception(f'{f}: no {old!r}')
                s = s.replace(old, new, 1)
                open(p, 'w').write(s)
            for f in {e[0] for e in b['edits']}:
                rc, o = sh(f'gofmt -l {repo}/{f}')
            rc, diff = sh('git diff', repo)
            os.makedirs(out, exist_ok=True)
            open(out + '/patch.diff', 'w').write(diff)
            mod = 'nurbs' if b['pkg'].startswith('nurbs') else '.'
            rel = '.' if b['pkg'] == 'nurbs' else b['pkg']
            demo = DEMO.replace('@MOD@', mod).replace('@PKG@', b['pkg']).replace('@REL@', rel).replace('@FLAGS@', b.get('flags', '')).replace('@HIDE@', ''.join(f', \\"$repo/{h}\\": \\"\\"' for h in b.get('hide', [])))
            open(out + '/demo.sh', 'w').write(demo)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo_test.go.txt', 'w').write(b['test'].lstrip())
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            pass
            o, _ = stable(repo, tmp)
            sh('git stash -q -- modeler; git stash drop -q', repo)
            base = json.load(open('/opt/vp/BASELINE.json'))
            tests = re.findall(r'Test\w+', json.dumps(base))
            bad = [t for t in set(tests) if f'--- PASS: {t} ' not in o]
            if bad:
                print(b['id'], 'TESTS FAIL', bad, o[-400:]); continue
            rc0, o0 = sh(f'bash {out}/demo.sh', '/repo')
            rc1, o1 = sh(f'bash {out}/demo.sh', repo)
            if rc0 != 0 or rc1 == 0:
                print(b['id'], 'DEMO', rc0, rc1, o0[-500:], '-----', o1[-300:]); continue
            env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
            rc, o = sh(f'./check.sh check {b["property"]}', HOME, env)
            v = [l for l in o.splitlines() if l.startswith('VIOLATION') or 'violation' in l]
            print(b['id'], b['property'], 'CAUGHT' if rc == 1 else f'MISSED rc={rc}', o.splitlines()[-1][:160] if rc != 1 else '', flush=True)
            if rc == 1:
                for l in o.splitlines()[:3]: print('    ', l[:220])
        except Exception as e:
            print(b['id'], 'ERROR', e)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
