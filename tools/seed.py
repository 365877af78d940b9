#!/usr/bin/env python3
"""seed.py <spec.py>...: makes seeded/<id>/ from a spec (id, prop, edits=[(file, old, new)], demo, needs, breaks) after
confirming in a scratch copy that the change builds, passes the tests and is shown by its demonstration."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SC = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# run in the repository after its build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r -- "$T"' EXIT
R=$(pwd)
clang++-18 -std=c++17 -O1 -w -include array -I"$R/include" -I"$R/_build/libygopen.a.p" -I"$D" "$D/demo.cpp" -o "$T/demo" -Wl,--start-group "$R/_build/libygopen.a" -lprotobuf-lite -lpthread -Wl,--end-group || exit 2
cd "$T" && timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    for f in [x for x in sys.argv[1:] if x != '-m']:
        d = {}
        exec(open(f).read(), d)
        for s in d['SPECS']:
            if '-m' not in sys.argv and os.path.exists(os.path.join(V, 'seeded', s['id'])):
                continue
            make(s)


def make(s):
    out = os.path.join(V, 'seeded', s['id'])
    if not os.path.exists(SC):
        sh('mkdir -p %s && cp -a /repo %s/repo' % (SC, SC))
    r = SC + '/repo'
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (r, r))
    for f, a, b in s['edits']:
        t = open(r + '/' + f).read()
        if t.count(a) != 1:
            print(s['id'], 'FAIL: %d matches in %s for %r' % (t.count(a), f, a[:60]))
            return
        open(r + '/' + f, 'w').write(t.replace(a, b))
    os.makedirs(out, exist_ok=True)
    diff = sh('git -C %s diff' % r).stdout
    open(out + '/patch.diff', 'w').write(diff)
    open(out + '/demo.cpp', 'w').write(s['demo'])
    open(out + '/demo.sh', 'w').write(DEMO)
    os.chmod(out + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    # build and test in the copy
    bs = open('/opt/vp/build.sh').read().replace('/repo', r)
    b = sh(bs, executable='/bin/bash')
    ut = sh('cd %s/_build && ninja -q 2>&1 | tail -3; for t in ygopen_ut; do ./$t 2>&1 | tail -3; done' % r)
    demo = sh(out + '/demo.sh', cwd=r)
    sh('git -C %s reset -q --hard' % r)
    sh(bs, executable='/bin/bash')
    demo0 = sh(out + '/demo.sh', cwd=r)
    ok = b.returncode == 0 and 'PASSED' in ut.stdout and 'FAILED' not in ut.stdout and demo.returncode not in (0, 2) and demo0.returncode == 0
    print(s['id'], 'OK' if ok else 'FAIL build %d\n%s\n demo %d %s clean %d %s' % (b.returncode, (b.stdout[-800:] if b.returncode else '') + ut.stdout[-400:], demo.returncode, (demo.stdout + demo.stderr)[-600:], demo0.returncode, (demo0.stdout + demo0.stderr)[-600:]), flush=True)
    if not ok:
        shutil.rmtree(out)


main()
