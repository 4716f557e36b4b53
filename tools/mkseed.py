#!/usr/bin/env python3
"""mkseed.py FILE.py...: builds and validates planted bugs described by
tools/seedsrc/FILE.py, which defines ID, PROP, NEEDS, BREAKS, EDITS (list of
(file, old, new)) and DEMO (a Go main program) or TEST=(pkgdir, test source)."""
import sys, os, json, subprocess, shutil, runpy, tempfile
V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO_MAIN = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
exec go run "$D/main.go"
'''
DEMO_TEST = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
J=$(mktemp) || exit 2
trap 'rm -f "$J"' EXIT
echo "{\\"Replace\\": {\\"$PWD/%(pkg)s/zz_seed_test.go\\": \\"$D/demo_test.go.txt\\"}}" > "$J"
go test -vet=off -count=1 -timeout 120s -overlay "$J" -run '^TestZZSeed$' ./%(pkg)s
'''
def main(path):
    g = runpy.run_path(path)
    d = f"{V}/seeded/{g['ID']}"
    os.makedirs(d, exist_ok=True)
    if 'DEMO' in g:
        open(d+'/main.go','w').write(g['DEMO'].lstrip()); open(d+'/demo.sh','w').write(DEMO_MAIN)
    else:
        pkg, src = g['TEST']
        open(d+'/demo_test.go.txt','w').write(src.lstrip()); open(d+'/demo.sh','w').write(DEMO_TEST % {'pkg':pkg})
    json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']}, open(d+'/meta.json','w'), indent=1)
    w = tempfile.mkdtemp(prefix='seed.')
    r = w+'/repo'
    try:
        sh(f'git -C /repo worktree prune; cp -a /repo {r}')
        sh(f'git -C {r} checkout -q -- .')
        x = sh(f'bash {d}/demo.sh', cwd=r)
        if x.returncode != 0: print(g['ID'], 'DEMO FAILS ON CLEAN', x.stdout[-800:], x.stderr[-800:]); return
        for f, old, new in g['EDITS']:
            t = open(f'{r}/{f}').read()
            if t.count(old) != 1: print(g['ID'], 'EDIT MATCHES', t.count(old), f, old); return
            open(f'{r}/{f}','w').write(t.replace(old, new))
        diff = sh(f'git -C {r} diff').stdout
        open(d+'/patch.diff','w').write(diff)
        env = dict(os.environ, HOME='/root', PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
        x = sh('go build ./... ', cwd=r, env=env)
        if x.returncode != 0: print(g['ID'], 'BUILD', x.stderr[-800:]); return
        x = sh(f'go test -json -vet=off -count=1 ./... > {w}/log; python3 /opt/vp/results.py {w}/out.json gojson:{w}/log', cwd=r, env=env)
        o = json.load(open(w+'/out.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        bad = [t for t in stable(base) if t not in set(passed(o))]
        if bad: print(g['ID'], 'TESTS FAIL', bad[:5]); return
        x = sh(f'bash {d}/demo.sh', cwd=r)
        if x.returncode == 0: print(g['ID'], 'DEMO PASSES WITH PATCH'); return
        print(g['ID'], 'ok:', (x.stdout+x.stderr).strip().splitlines()[:2])
    finally:
        shutil.rmtree(w)
def passed(o):
    for k in ('passed','pass'):
        if k in o: return o[k]
    raise SystemExit(list(o))
def stable(b):
    for k in ('passed','stable','tests','pass'):
        if k in b: return b[k]
    raise SystemExit(list(b))
for p in sys.argv[1:]: main(p)
