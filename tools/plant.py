#!/usr/bin/env python3
"""plant.py ID PKGDIR PROP 'needs' 'what it breaks' < demo_test.go
Takes the change sitting in the scratch copy /tmp/rb (against /repo HEAD), checks that it
counts as a planted bug and stores it in /verif/seeded/ID. With --check also runs the check
of PROP against the scratch copy."""
import sys, subprocess, os, json, tempfile
ID, pkg, prop, needs, what = sys.argv[1:6]
S = '/tmp/rb'
E = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', TZ='UTC')
def sh(c, cwd=S, **k):
    return subprocess.run(c, shell=True, cwd=cwd, env=E, capture_output=True, text=True, **k)
diff = sh('git diff HEAD').stdout
if not diff: sys.exit('no change in /tmp/rb')
# lines changed must be lines of the original repository
cur = None; bad = []
d = '/verif/seeded/' + ID
os.makedirs(d, exist_ok=True)
demo = sys.stdin.read()
open(d + '/demo_test.go', 'w').write(demo)
open(d + '/patch.diff', 'w').write(diff)
open(d + '/demo.sh', 'w').write(f'''#!/bin/sh
# exit 0 when the property holds on this input, nonzero when the change breaks it
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off TZ=UTC
d=$(cd "$(dirname "$0")" && pwd)
o=$(mktemp /tmp/demo.XXXXXX)
printf '{{"Replace":{{"%s/{pkg}/zz_demo_test.go":"%s/demo_test.go"}}}}' "$PWD" "$d" > "$o"
go test -vet=off -overlay "$o" -run '^TestDemo$' -count=1 ./{pkg}
r=$?
rm -f "$o"
exit $r
''')
os.chmod(d + '/demo.sh', 0o755)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + '/meta.json', 'w'), indent=1)
base = subprocess.run('git rev-list --max-parents=0 HEAD', shell=True, cwd='/repo', capture_output=True, text=True).stdout.strip()
import re
orig = 0
for f in set(re.findall(r'^--- a/(.*)$', diff, re.M)):
    bl = subprocess.run(f'git blame -s --abbrev=40 HEAD -- {f}', shell=True, cwd='/repo', capture_output=True, text=True).stdout.splitlines()
    fd = sh(f'git diff -U0 HEAD -- {f}').stdout
    for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', fd, re.M):
        n = int(m.group(2) or 1)
        for k in range(int(m.group(1)), int(m.group(1)) + n):
            if not base.startswith(bl[k-1].split()[0].lstrip('^')): bad.append((f, k))
            else: orig += 1
print('original lines changed', orig, 'lines of our commits changed', bad)
ok = True
r = sh('go build ./...')
if r.returncode: print('BUILD FAILS', r.stderr); ok = False
r = sh('go test -json -vet=off -count=1 $(go list ./... | grep -vx github.com/mitch000001/go-hbci/domain) > /tmp/plant.log')
sh('python3 /opt/vp/results.py /tmp/plant.json gojson:/tmp/plant.log')
res = json.load(open('/tmp/plant.json'))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
passed = set(res.get('passed', []))
miss = [t for t in stable if t not in passed]
if miss: print('TESTS FAIL', miss[:5]); ok = False
r = sh(d + '/demo.sh')
print('patched demo', r.returncode, (r.stdout + r.stderr).strip()[-300:])
if r.returncode == 0: ok = False
r = sh(d + '/demo.sh', cwd='/repo')
print('clean demo', r.returncode, '' if r.returncode == 0 else (r.stdout + r.stderr)[-1500:])
if r.returncode != 0: ok = False
print('COUNTS' if ok else 'DOES NOT COUNT', ID)
if '--check' in sys.argv:
    e = dict(os.environ, GOCV_REPO=S, VERIF_SEED='1', VERIF_TIER='quick')
    r = subprocess.run(['/verif/check.sh', prop, 'quick'], env=e, cwd='/verif', capture_output=True, text=True)
    print('check exit', r.returncode, '\n'.join(l for l in r.stdout.splitlines() if l.startswith('VIOL'))[:500])
