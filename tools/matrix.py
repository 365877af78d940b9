#!/usr/bin/env python3
"""matrix.py [ID...]: which obligations of its property's check each seeded change fails, and whether the native run shows it too.
Rewrites tools/matrix.md (with YG_PROOF_ONLY=1, native runs off: tools/matrix_proof.md)."""
import concurrent.futures as cf
import json
import os
import re
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'tools', 'matrix_proof.md' if os.environ.get('YG_PROOF_ONLY') else 'matrix.md')


def one(i):
    p = json.load(open('%s/seeded/%s/meta.json' % (V, i)))['property']
    with tempfile.TemporaryDirectory(prefix='mx') as T:
        subprocess.run('cp -a /repo %s/repo && git -C %s/repo apply %s/seeded/%s/patch.diff' % (T, T, V, i), shell=True, check=True)
        env = dict(os.environ, YG_REPO=T + '/repo', YG_EVIDENCE=T + '/ev')
        r = subprocess.run(['python3-vt', V + '/check.py', p], capture_output=True, text=True, env=env)
    o = r.stdout
    m = re.search(r'(\d+) obligations, \d+ discharged, (\d+) failed, \d+ unknown, (\d+) unit', o)
    f = re.search(r'failed obligation: (.*)', o)
    nat = 'failing input:' in o
    return i, p, r.returncode, m.group(2) if m else '?', (f.group(1) if f else '-' if m and m.group(3) == '0' else '- (units not completed: %s)' % (m.group(3) if m else '?')), 'yes' if nat else 'no'


def main():
    old = {}
    if os.path.exists(OUT):
        for l in open(OUT):
            c = [x.strip() for x in l.split('|')]
            if len(c) > 4 and re.match(r'C\d\d-\w$', c[1]):
                old[c[1]] = l
    ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for i, p, rc, nf, f, nat in ex.map(one, ids):
            f = f.replace('|', '/')
            old[i] = '| %s | %s | %s | %s | %s |\n' % (i, 'caught' if rc == 1 else 'MISSED', nf, f[:110] + ('…' if len(f) > 110 else ''), nat)
            print(old[i], end='', flush=True)
    with open(OUT, 'w') as fo:
        fo.write('| change | verdict | failed obligations | first of them | input found by the bounded native run |\n|---|---|---|---|---|\n')
        for i in sorted(old):
            if os.path.exists('%s/seeded/%s' % (V, i)):
                fo.write(old[i])


main()
