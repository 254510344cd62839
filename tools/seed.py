#!/usr/bin/env python3
"""seed.py SPEC.py: plants one bug in a scratch copy, confirms it and keeps it.

SPEC defines: id, prop, needs, breaks, module, edits=[(file, old, new)], demo (Go
test source, package of `pkg` dir under module), pkg, and optionally tests (modules to test)."""
import sys, os, subprocess, json, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
S = '/tmp/seedscratch'
env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOWORK='off')
def sh(cmd, cwd=S, check=False):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if check and p.returncode: print(p.stdout); sys.exit('FAILED ' + cmd)
    return p.returncode, p.stdout
if not os.path.isdir(S): subprocess.run(['cp', '-a', '/repo', S], check=True)
sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', check=True)
d = '/verif/seeded/' + spec['id']
os.makedirs(d, exist_ok=True)
mod, pkg = spec['module'], spec['pkg']
open(d + '/demo_test.go', 'w').write(spec['demo'].lstrip())
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# Run in /repo: fails if the property is broken.
d=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=off
o=$(mktemp) || exit 2
trap 'rm -f "$o"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%s/%s/zz_demo_test.go\\":\\"$d/demo_test.go\\"}}" >"$o"
cd %s && go test -vet=off -overlay "$o" -count=1 -timeout %s -run '^TestZZDemo$' ./%s
''' % (mod, pkg, mod, spec.get('timeout', '120s'), pkg))
os.chmod(d + '/demo.sh', 0o755)
rc, out = sh('bash %s/demo.sh' % d)
if rc: print(out); sys.exit('demo fails on the unchanged tree')
for f, a, b in spec['edits']:
    p = S + '/' + f
    t = open(p).read()
    if t.count(a) != 1: sys.exit('%s: %d matches of %r' % (f, t.count(a), a))
    open(p, 'w').write(t.replace(a, b))
open(d + '/patch.diff', 'w').write(sh('git diff', check=True)[1])
json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
for m in spec.get('tests', [mod, 'components', 'tea', '.']):
    rc, out = sh('go build ./... && go test -vet=off -count=1 ./... 2>&1 | grep -v "no test files\\|^ok"', S + '/' + m)
    if 'FAIL' in out: print(out[:3000]); shutil.rmtree(d); sys.exit('tests catch it')
rc, out = sh('bash %s/demo.sh' % d)
print('demo with patch rc=%d: %s' % (rc, [l for l in out.splitlines() if l.strip()][:3]))
if rc == 0 or 'build failed' in out: print(out); shutil.rmtree(d); sys.exit('demo does not show it')
sh('git checkout -q -- .')
if '-n' in sys.argv: sys.exit(0)
# the checks, on the scratch copy
sh('git apply %s/patch.diff' % d, check=True)
for c in spec.get('checks', [spec['prop']]):
    p = subprocess.run(['bash', '/verif/run.sh', c], stdout=subprocess.PIPE, text=True, env=dict(os.environ, GOSYM_REPO=S))
    v = [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
    print(c, 'rc', p.returncode, v[:1], 'CAUGHT' if v else 'MISSED')
sh('git checkout -q -- .')
