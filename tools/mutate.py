#!/usr/bin/env python3
"""mutate.py FILE N [SEED] [FIRST LAST]: mutation trial. Makes small changes of one source file of /repo in scratch
copies and runs the checks of the properties it carries until one reports a violation; prints those that none reports.
For finding gaps of the checks; nothing here is registered."""
import concurrent.futures as cf
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'include/ygopen/'
MAP = {D + 'client/frame.hpp': [('card_shuffle', 'C05'), ('card_swap', 'C04 C08'), ('card_move', 'C03'), ('pile_resize', 'C06 C07'), ('pile_splice', 'C06'), ('pile_swap', 'C06'), ('clear', 'C07 C08'),
                                ('construct_card|destruct_card', 'C07 C02'), ('card_add|card_remove|card_insert|card_erase|insert_at_|take_at_', 'C02 C03'), ('', 'C01 C02 C05 C06 C04')],
       D + 'client/frame_limbo.hpp': [('', 'C08')], D + 'client/undoable.hpp': [('', 'C09')],
       D + 'client/parse_event.hpp': [('', 'C10 C30 C11')], D + 'client/undo_parse_event.hpp': [('', 'C11')], D + 'client/board.hpp': [('', 'C10 C30 C11')],
       D + 'client/parse_query.hpp': [('', 'C12')], D + 'client/card.hpp': [('', 'C12')], D + 'client/queries.inl': [('', 'C12 C18')],
       D + 'proto/duel/data.hpp': [('', 'C13 C01 C20')], D + 'duel/constants/location.hpp': [('', 'C13 C01')],
       'src/codec/edo9300_ocgcore_decode.cpp': [('', 'C22 C23')], D + 'server/basic_encode_context.hpp': [('', 'C24')],
       D + 'server/room.hpp': [('', 'C25 C28 C26 C27')], D + 'bit.hpp': [('', 'C29')]}
EN = 'src/codec/edo9300_ocgcore_encode.cpp'
FN = re.compile(r'^\t?(?:\[\[nodiscard\]\] )?(?:constexpr |inline |static )*auto (\w+)\(|^\t?~?(\w+)\(.*noexcept')


def encode_props(lines, i):
    j = i
    while j >= 0:
        m = re.match(r'\tcase (MSG_\w+):', lines[j])
        if m:
            n = m.group(1)
            if n in ('MSG_MOVE',):
                return 'C19 C14'
            if n in ('MSG_DRAW', 'MSG_REVERSE_DECK', 'MSG_SWAP_GRAVE_DECK', 'MSG_DECK_TOP'):
                return 'C20 C14'
            if n.startswith('MSG_UPDATE_'):
                return 'C18 C14'
            if n.startswith(('MSG_SELECT', 'MSG_ANNOUNCE', 'MSG_ROCK', 'MSG_SORT')):
                return 'C17 C14 C21'
            if n in ('MSG_MATCH_KILL', 'MSG_CARD_HINT', 'MSG_HINT', 'MSG_RETRY', 'MSG_BATTLE', 'MSG_EQUIP', 'MSG_MISSED_EFFECT', 'MSG_AI_NAME', 'MSG_DAMAGE_STEP_START', 'MSG_SUMMONED'):
                return 'C15 C14'
            return 'C16 C14 C21'
        if lines[j].startswith('auto encode_one_query'):
            return 'C18 C14'
        if lines[j].startswith('inline auto unpack_zones'):
            return 'C21 C23'
        if lines[j].startswith('inline auto read_counter'):
            return 'C18'
        j -= 1
    return 'C16 C17 C18 C14 C19'


def props(f, lines, i):
    if f == EN:
        return encode_props(lines, i).split()
    name = ''
    for j in range(i, -1, -1):
        m = FN.match(lines[j])
        if m:
            name = m.group(1) or m.group(2)
            break
    for pat, ps in MAP[f]:
        if not pat or re.search(pat, name):
            return ps.split()


def variants(l):
    c = l.split('//')[0]
    out = []
    if not c.strip() or re.match(r'\s*(#|assert|log\(|static_assert|YGOPEN_|using |namespace|template|\* |/\*|case |default:|public:|private:|struct |enum |class )', c) or 'requires' in c:
        return out

    def sub(pat, rep):
        for m in re.finditer(pat, c):
            n = c[:m.start()] + m.expand(rep) + c[m.end():]
            if n != c:
                out.append(n + l[len(c):])
    sub(r'==', '!='); sub(r'!=', '=='); sub(r'(?<=[\w)\]] )<(?= )', '<='); sub(r'<=', '<'); sub(r'(?<=[\w)] )>(?= )', '>='); sub(r'>=', '>'); sub(r'&&', '||'); sub(r'\|\|', '&&')
    sub(r' \+ ', ' - '); sub(r' - ', ' + '); sub(r'\+\+', '--'); sub(r'\+= ', '-= '); sub(r'-= ', '+= '); sub(r'\|= ', '= ')
    sub(r'\b(\d+)(U?)\b(?![\w:])', lambda m: None) if 0 else None
    for m in re.finditer(r'(?<![\w.])(\d+)(U?)\b', c):
        out.append(c[:m.start()] + str(int(m.group(1)) + 1) + m.group(2) + c[m.end():] + l[len(c):])
    sub(r'\btrue\b', 'false'); sub(r'\bfalse\b', 'true')
    m = re.match(r'^(\s*)(else )?if\((.*)\)\s*$', c)
    if m:
        out.append('%s%sif(!(%s))' % (m.group(1), m.group(2) or '', m.group(3)) + l[len(c.rstrip()):])
    if re.match(r'^\s+[\w*(].*;\s*$', c) and c.count('(') == c.count(')') and not re.match(r'\s*(auto|return|break|continue|bool|uint|int|size_t|static|constexpr|const|for|\w+ \w+;|\w+ \w+\{)', c):
        out.append(re.match(r'^\s*', c).group(0) + ';' + l[len(c.rstrip()):])
    if re.match(r'^\s+(break|continue);', c):
        out.append(re.sub(r'(break|continue);', ';', l))
    sub(r'\bCSSeq\b', 'CSeq'); sub(r'\bCSeq\b', 'CSSeq'); sub(r'\bCSCount\b', 'CCount'); sub(r'\bCCount\b', 'CSCount'); sub(r'\bCSLoc\b', 'CLoc'); sub(r'\buint32_t\b', 'uint16_t'); sub(r'\buint64_t\b', 'uint32_t'); sub(r'\buint16_t\b', 'uint8_t'); sub(r'\bint32_t\b', 'int16_t')
    for a, b in (('GRAVEYARD', 'BANISHED'), ('HAND', 'EXTRA_DECK'), ('MAIN_DECK', 'GRAVEYARD'), ('EXTRA_DECK', 'MAIN_DECK'), ('FIELD_ZONE', 'SKILL_ZONE'), ('MONSTER_ZONE', 'SPELL_ZONE'), ('SPELL_ZONE', 'MONSTER_ZONE')):
        sub(r'\bLOCATION_%s\b' % a, 'LOCATION_' + b)
    for a, b in (('is_pile', 'is_zone'), ('place_a', 'place_b'), ('place_b', 'place_a'), ('push_back', 'push_front'), ('old_place', 'new_place'), ('begin', 'end'), ('from', 'to'), ('prev', 'curr'), ('curr', 'prev'), ('front', 'back'), ('first', 'second'), ('second', 'first'), ('mutable_add', 'mutable_remove')):
        sub(r'\b%s\b' % a, b)
    sub(r'!(?=[\w(])', '')
    return [x for x in dict.fromkeys(out) if x != l]


def one(job):
    f, i, old, new, ps = job
    t = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        r = os.path.join(t, 'repo')
        shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build*', 'test*'))
        p = os.path.join(r, f)
        L = open(p).read().split('\n')
        assert L[i] == old
        L[i] = new
        open(p, 'w').write('\n'.join(L))
        out = []
        for pr in ps:
            t0 = time.time()
            try:
                q = subprocess.run(['python3-vt', os.path.join(V, 'check.py'), pr], capture_output=True, text=True, env=dict(os.environ, YG_REPO=r, YG_EVIDENCE=os.path.dirname(r) + '/ev'), timeout=900)
            except subprocess.TimeoutExpired:
                out.append('%s TIMEOUT' % pr)
                continue
            txt = q.stdout + q.stderr
            if 'native harness not built' in txt or 'clang++-18' in txt:
                return job, 'nobuild', out
            m = re.search(r'^' + pr + r': (.*?); prep', txt, re.M)
            out.append('%s rc %d %.0fs %s' % (pr, q.returncode, time.time() - t0, m.group(1) if m else txt[-300:]))
            if q.returncode == 1 and 'VIOLATION' in txt:
                fo = re.search(r'failed obligation: (.*)', txt)
                return job, ('both' if fo and 'no-failing' not in txt else 'proof' if fo else 'native'), out + [fo.group(1)[:200] if fo else '']
        return job, 'SURVIVES', out
    finally:
        shutil.rmtree(t)


def main():
    f, n = sys.argv[1], int(sys.argv[2])
    seed = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    lo, hi = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 10 ** 6)
    L = open(os.path.join('/repo', f)).read().split('\n')
    jobs = []
    for i, l in enumerate(L):
        if lo <= i + 1 <= hi:
            for v in variants(l):
                jobs.append((f, i, l, v, props(f, L, i)))
    print('%d variants' % len(jobs), flush=True)
    random.Random(seed).shuffle(jobs)
    jobs = jobs[:n]
    cnt = {}
    with cf.ThreadPoolExecutor(int(os.environ.get('J', '2'))) as ex:
        for (f, i, old, new, ps), st, out in ex.map(one, jobs):
            cnt[st] = cnt.get(st, 0) + 1
            if st in ('nobuild',):
                continue
            print('%-8s %s:%d  %s  ->  %s' % (st, os.path.basename(f), i + 1, old.strip()[:90], new.strip()[:90]))
            if st in ('SURVIVES', 'native'):
                for o in out:
                    print('           ', o[:230])
            sys.stdout.flush()
    print(cnt)


main()
