#!/usr/bin/env python3
"""conform.py [NAME...]: do the contracts say what the libraries do? Every program of tools/conform/conform.cpp is run natively and
through the generator - once for each known argument triple, and once with symbolic arguments (so through merges and loop
summaries), whose result is evaluated at each triple - and the results are compared. For trials; nothing registered uses it."""
import itertools
import os
import re
import subprocess
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import z3
from checks.base import *
from checks.specs import *
from irv.val import *
import os.path
from irv import lists, elems, sets, maps, build

SRC = os.path.join(ROOT, 'tools', 'conform', 'conform.cpp')
TRIPLES = [(0, 0, 0), (1, 0, 2), (2, 1, 0), (3, 2, 1), (4, 4, 4), (0, 3, 2), (2, 2, 3), (4, 1, 0), (1, 4, 3)]


def main():
    ctx = Ctx('C01', 'quick', 1)
    names = re.findall(r'^T\((\w+)\)', open(SRC).read(), re.M)
    w = ctx.work
    src = os.path.join(w.dir, 'main.cpp')
    with open(src, 'w') as f:
        f.write(open(SRC).read() + '\n#include <cstdio>\nint main() {\n')
        for n in names:
            for t in TRIPLES:
                f.write('  std::printf("%s %%llu\\n", (unsigned long long)t_%s(%d, %d, %d));\n' % (n, n, *t))
        f.write('}\n')
    exe = w.exe([src], 'conf', pbs=('duel_data', 'duel_msg', 'duel_answer'), flags=('-O0', '-fsanitize=address,undefined'))
    nat = {}
    p = subprocess.run([exe], capture_output=True, text=True)
    if p.returncode:
        print('NATIVE', p.stderr[:2000])
    for l in p.stdout.split('\n'):
        if l:
            a, b = l.split()
            nat.setdefault(a, []).append(int(b))
    mod = ctx.mod(SRC)
    S = ctx.schema()
    bad = 0
    for n in sys.argv[1:] or names:
        for mode in ('known', 'symbolic'):
            res = []
            try:
                if mode == 'known':
                    for t in TRIPLES:
                        res.append(run(ctx, mod, S, n, list(t)))
                else:
                    A = [z3.BitVec(x, 64) for x in 'abc']
                    res = run(ctx, mod, S, n, A, TRIPLES)
            except ToolLimit as e:
                print('%-14s %-8s limit: %s' % (n, mode, str(e)[:150]), flush=True)
                continue
            except Exception as e:
                print('%-14s %-8s ERROR: %s %s' % (n, mode, type(e).__name__, str(e)[:150]), flush=True)
                bad += 1
                continue
            for t, x, y in zip(TRIPLES, res, nat.get(n, [])):
                if x != y:
                    bad += 1
                    print('%-14s %-8s %s: generator %s, library %s' % (n, mode, t, x, y), flush=True)
                    break
            else:
                print('%-14s %-8s ok' % (n, mode), flush=True)
    print('%d differences' % bad)


def contracts(S):
    return stl.Chain(pbm.PbContracts(S), stl.StlContracts(S))


def run(ctx, mod, S, n, args, triples=None):
    E = ctx.engine(mod, contracts(S))
    st = eng.State()
    if triples:
        for a in args:
            st.assume(z3.ULE(a, bv(4, 64)))
    rets = E.call(st, 't_' + n, args)
    for o in E.obs:
        if o.status != 'discharged' and triples is None:
            return 'obligation ' + o.name
    if triples is None:
        if len(rets) != 1:
            return '%d results' % len(rets)
        v = simp(rets[0][1])
        return v if isc(v) else str(v)[:100]
    out = []
    for t in triples:
        s = z3.Solver()
        for a, x in zip(args, t):
            s.add(a == x)
        vs = set()
        for st2, v in rets:
            s.push()
            s.add(*st2.pc)
            s.add(*E.axioms)
            if s.check() == z3.sat:
                r = z3.BitVec('result', 64)
                s.add(r == v)
                s.check()
                x = s.model()[r].as_long()
                s.add(r != x)
                vs.add(x if s.check() == z3.unsat else 'open')
            s.pop()
        out.append(vs.pop() if len(vs) == 1 else str(vs))
    return out


main()
