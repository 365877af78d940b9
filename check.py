#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [-v]"""
import importlib
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks import base

WHERE = {}
for m, ps in {'bit': ['C29'], 'frame': ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07'], 'place': ['C13'], 'undoable': ['C09'], 'limbo': ['C08'], 'decode': ['C22'], 'encode': ['C14', 'C15', 'C16', 'C17', 'C18', 'C19', 'C20', 'C21'], 'roundtrip': ['C23'], 'query': ['C12'], 'context': ['C24'], 'board': ['C10', 'C11', 'C30'], 'room': ['C25', 'C26', 'C27', 'C28']}.items():
    for p in ps:
        WHERE[p] = m


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    m = importlib.import_module('checks.' + WHERE[prop])
    ctx = base.Ctx(prop, tier, seed)
    try:
        rc = m.CHECKS[prop](ctx).main(verbose='-v' in a)
    finally:
        ctx.work.close()
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
