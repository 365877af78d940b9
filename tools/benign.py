#!/usr/bin/env python3
"""benign.py FILE [NAME...]: applies behaviour-preserving edits (EDITS in FILE: name -> (properties, [(file, old, new)]))
each to a scratch copy of /repo and runs the checks of the properties: every one has to be quiet"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile
import time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
W = int(os.environ.get('J', '3'))


def one(n):
    props, edits = ns['EDITS'][n]
    t = tempfile.mkdtemp(prefix='benign', dir='/tmp')
    out = []
    try:
        r = os.path.join(t, 'repo')
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build*'))
        for f, old, new in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            was = s
            if hasattr(old, 'sub'):
                s = old.sub(new, s)
            else:
                s = s.replace(old, new) if ns.get('ALL') else s.replace(old, new, 1)
            if s == was:
                return n, ['EDIT DOES NOT APPLY %s' % (old,)]
            open(p, 'w').write(s)
        for p in props:
            t0 = time.time()
            e = dict(os.environ, YG_REPO=r, YG_EVIDENCE=os.path.join(t, 'ev'))
            q = subprocess.run(['python3-vt', os.path.join(V, 'check.py'), p], capture_output=True, text=True, env=e, timeout=1200)
            L = [l for l in q.stdout.split('\n') if l.startswith(p + ':')]
            X = [l[:260] for l in (q.stdout + q.stderr).split('\n') if l and not l.startswith(p + ':')]
            out.append('%s %s rc %d %.0fs %s' % ('ok ' if q.returncode == 0 else 'BAD', p, q.returncode, time.time() - t0, L[0][len(p) + 1:].split('; prep')[0] if L else ''))
            out += ['      ' + x for x in X[:6]]
    finally:
        shutil.rmtree(t)
    return n, out


names = sys.argv[2:] or list(ns['EDITS'])
with cf.ThreadPoolExecutor(W) as ex:
    for n, out in ex.map(one, names):
        print(n)
        for l in out:
            print('   ', l)
        sys.stdout.flush()
