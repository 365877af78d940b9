"""Framework of the checks: verification units run in parallel processes, each on the IR made from
the repository's current sources; native differential runs (real code, seeded inputs) next to them;
evidence and verdict."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import multiprocessing.connection
import signal
import os
import random
import subprocess
import sys
import threading
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from irv import build, ll, eng, val, loop  # noqa
from irv import pb as pbm, stl             # noqa

VERIF = build.VERIF
EVID = os.environ.get('YG_EVIDENCE') or os.path.join(VERIF, 'evidence')   # elsewhere only for the trials in tools/


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop = prop; self.tier = tier; self.seed = seed
        self.work = build.Work()
        self.mods = {}
        self.schema_ = None
        self.t0 = time.time()

    def mod(self, src, flags=(), repo_src=False):
        k = (src, tuple(flags), repo_src)
        if k not in self.mods:
            self.mods[k] = ll.Module(self.work.ll(src, flags, repo_src))
        return self.mods[k]

    def schema(self):
        if self.schema_ is None:
            self.schema_ = pbm.Schema(os.path.join(build.REPO, 'include/ygopen/proto'))
        return self.schema_

    def engine(self, mod, contracts, **kw):
        E = eng.Engine(mod, contracts, **kw)
        ENGINES.append(E)
        val.SCHEMA = self.schema_
        if self.schema_ is not None:
            self.schema_.eng = E
        return E


ENGINES = []        # of the unit that runs


class UnitResult:
    def __init__(self, name):
        self.name = name; self.obs = []; self.limit = None; self.inlined = set(); self.contracts = set()
        self.solver = 0.0; self.queries = 0; self.loops = self.novariant = self.iterbound = 0; self.unrolled = 0; self.covered = None; self.wall = 0.0
        self.bounded = None

    def take(self, E, wit=None):
        """collect what engine E did"""
        for o in E.obs:
            d = {'name': o.name, 'kind': o.kind, 'status': o.status, 'dt': round(o.dt, 3), 'exact': bool(o.exact)}
            if o.status == 'failed':
                if o.model is not None:
                    try:
                        d['model'] = str(o.model)[:4000]
                    except Exception:
                        pass
                if wit is not None and o.model is not None:
                    try:
                        d['witness'] = wit(o.model)
                    except Exception as e:
                        d['witness_error'] = repr(e)
                d['cond'] = str(o.cond)[:2000]
            self.obs.append(d)
        E.obs = []
        for g in sorted(E.mutable):
            # the contracts speak of the arguments only: what holds for the first value of a variable need not hold for later ones
            self.obs.append({'name': 'no variable outside of the objects is used: ' + g, 'kind': 'frame', 'status': 'unknown', 'dt': 0, 'exact': False})
        E.mutable = set()
        self.inlined |= E.inlined
        self.contracts |= E.used_contracts
        self.solver += E.solver_time; self.queries += E.queries
        E.solver_time = 0; E.queries = 0
        self.loops += E.stats.get('loops_summarised', 0)
        self.unrolled += E.stats.get('loops_unrolled', 0)
        self.novariant += E.stats.get('novariant', 0)
        self.iterbound += E.stats.get('iterbound', 0)
        E.stats = {'loops_summarised': 0, 'loops_unrolled': 0}

    def need_cover(self, ok, what):
        """vacuity: the executions the proof quantifies over must exist"""
        self.obs.append({'name': 'not vacuous: ' + what, 'kind': 'cover', 'status': 'discharged' if ok else 'unknown', 'dt': 0, 'exact': False})


_UNITS = None


def _run_unit(i):
    name, fn = _UNITS[i]
    r = UnitResult(name)
    t = time.time()
    del ENGINES[:]
    try:
        fn(r)
    except val.ToolLimit as e:
        r.limit = 'tool limit: %s' % e
    except eng.Infeasible:
        r.limit = 'no feasible execution'
    except RecursionError:
        r.limit = 'recursion limit'
    except MemoryError:
        r.limit = 'memory'
    except Exception as e:     # engine trouble is never a verdict about the code
        r.limit = 'engine error: %r at %s' % (e, traceback.format_exc().strip().split('\n')[-3:])
    if r.limit:
        # what failed before the unit had to stop has failed all the same
        for E in ENGINES:
            E.obs = [o for o in E.obs if o.status == 'failed' and o.exact]
            r.take(E)
    r.wall = time.time() - t
    return r


def _worker(c, others):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    for o in others:
        o.close()
    try:
        while True:
            i = c.recv()
            if i is None:
                break
            c.send(_run_unit(i))
    except (EOFError, BrokenPipeError, KeyboardInterrupt):
        pass
    finally:
        os._exit(0)


def run_units(units, jobs=None, budget=600, log=None):
    """the units, each in one of several forked workers. A worker has pipes of its own (no lock is shared), so that one
    that is killed takes nothing but its own unit with it"""
    global _UNITS
    _UNITS = units
    jobs = min(jobs or min(8, os.cpu_count() or 4), len(units))
    ctxm = mp.get_context('fork')
    end = time.time() + budget
    res = {}
    todo = list(range(len(units)))[::-1]
    conns = {}

    def start():
        a, b = ctxm.Pipe()
        p = ctxm.Process(target=_worker, args=(b, [a] + list(conns)), daemon=True)
        p.start()
        b.close()
        conns[a] = [p, None]
        give(a)

    def give(a):
        i = todo.pop() if todo else None
        conns[a][1] = i
        try:
            a.send(i)
        except (BrokenPipeError, OSError):
            pass
        if i is None:
            p = conns.pop(a)[0]
            a.close()
            p.join(5)
            if p.exitcode is None:
                p.kill()
                p.join()

    def lost(i, why):
        r = UnitResult(units[i][0])
        r.limit = why
        res[i] = r

    for _ in range(jobs):
        start()
    shown = 0
    while conns:
        left = end - time.time()
        ready = mp.connection.wait(list(conns), max(0.0, left))
        for a in ready:
            p, i = conns[a]
            try:
                res[i] = a.recv()
                give(a)
            except Exception as e:
                lost(i, 'worker ended: %r' % e)
                conns.pop(a)
                a.close()
                p.kill()
                p.join()
                if todo:
                    start()
        while log and shown in res:
            r = res[shown]
            shown += 1
            bad = [o for o in r.obs if o['status'] != 'discharged']
            log('%-60s %5.1fs obs %4d bad %d %s' % (r.name[:60], r.wall, len(r.obs), len(bad), (r.limit or '')[:300]))
            for o in bad[:6]:
                log('      %s %s: %s' % (o['status'], o['kind'], o['name'][:200]))
        if not ready and left <= 0:
            for a, (p, i) in list(conns.items()):
                p.kill()
                p.join()
                a.close()
                lost(i, 'time budget of the check exhausted')
            conns.clear()
    for i in range(len(units)):
        if i not in res:
            lost(i, 'time budget of the check exhausted')
    return [res[i] for i in range(len(units))]


class Native:
    """native differential run of the real code against the executable specification"""

    def __init__(self, ctx, build_fn):
        self.ctx = ctx
        self.exe = None
        self.err = None
        self.th = threading.Thread(target=self._go, args=(build_fn,), daemon=True)
        self.th.start()

    def _go(self, f):
        try:
            self.exe = f()
        except Exception as e:
            self.err = str(e)

    def ready(self):
        self.th.join()
        return self.exe


def native_run(exe, args, timeout, stdin=None, env=None):
    """(ok, cases, output). Exit 0: agreed; 1: mismatch (output describes it); signals count as mismatch"""
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, input=stdin, env=e, errors='replace')
    except subprocess.TimeoutExpired as ex:
        o = ex.stdout or b''
        return None, 0, 'timeout ' + (o.decode(errors='replace') if isinstance(o, bytes) else o)[-500:]
    n = 0
    for l in p.stdout.split('\n'):
        if l.startswith('CASES '):
            n = int(l.split()[1])
    return p.returncode == 0, n, (p.stdout[-6000:] + ('\n' + p.stderr[-2000:] if p.stderr else '') + ('' if p.returncode == 0 else '\nexit %d' % p.returncode))


def load_findings(prop):
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                key, txt = l.split(' ', 2)[2].split(' ', 1)
                out.append((key, txt))
    return out


class Check:
    """Base of a property check. Override: units(), native(), native_cases."""
    prop = None
    trusted = []
    assumptions = []
    explain = ''

    def __init__(self, ctx):
        self.ctx = ctx

    def units(self):
        return []

    def native_build(self):
        return None

    def native_args(self, seconds, seed):
        return [seed, seconds, 0, self.prop]

    quick_native_s = 4
    search_native_s = 60
    budget = 300

    # ------------------------------------------------------------
    def main(self, verbose=False):
        ctx = self.ctx
        t0 = time.time()
        nat = None
        log = (lambda s: print(s, flush=True)) if verbose else None
        build_err = None
        nat = Native(ctx, self.native_build) if type(self).native_build is not Check.native_build and not os.environ.get('YG_PROOF_ONLY') else None
        try:
            us = self.units()
        except build.BuildError as e:
            us = []
            build_err = str(e)
        except val.ToolLimit as e:
            us = []
            build_err = 'tool limit: %s' % e
        except Exception as e:
            us = []
            build_err = 'engine: ' + traceback.format_exc()[-1500:]
        t1 = time.time()
        if log:
            log('prepared %d units in %.1fs %s' % (len(us), t1 - t0, build_err or ''))
        # native part: a short run first, a longer search when an obligation fails
        nat_cases = 0
        nat_fail = None
        nat_note = None
        nat_runs = []
        findings = load_findings(self.prop)
        tn = 0.0

        def native(secs, salt):
            nonlocal nat_cases, nat_fail, nat_note, tn
            exe = nat.ready()
            if exe is None:
                nat_note = 'native harness not built: ' + (nat.err or '')[-800:]
                return
            t = time.time()
            jobs = 4
            with cf.ThreadPoolExecutor(jobs) as ex:
                fs = [ex.submit(native_run, exe, self.native_args(secs, ctx.seed * 1000 + salt + j), secs + 60) for j in range(jobs)]
                for j, f in enumerate(fs):
                    ok, n, txt = f.result()
                    nat_cases += n
                    nat_runs.append({'seed': ctx.seed * 1000 + salt + j, 'cases': n})
                    if ok is False and nat_fail is None:
                        nat_fail = {'seed': ctx.seed * 1000 + salt + j, 'output': txt}
                    if ok is None:
                        nat_note = 'native run without answer: ' + txt[-300:]
            tn += time.time() - t
        if nat is not None:
            native(self.quick_native_s if ctx.tier == 'quick' else 60, 0)
        budget = self.budget if ctx.tier == 'quick' else 700
        prep = UnitResult('preparation')
        if build_err:
            for E in ENGINES:
                E.obs = [o for o in E.obs if o.status == 'failed' and o.exact]
                prep.take(E)
        res = ([prep] if prep.obs else []) + run_units(us, budget=min(budget, 60) if nat_fail else budget, log=log)
        t2 = time.time()
        obs = [dict(o, unit=r.name) for r in res for o in r.obs]
        failed = [o for o in obs if o['status'] == 'failed']
        unknown = [o for o in obs if o['status'] == 'unknown']
        limits = [(r.name, r.limit) for r in res if r.limit]
        if nat is not None and not nat_fail and (failed or unknown or limits or build_err):
            native(self.search_native_s if failed else self.search_native_s // 3, 100)
        t3 = time.time()
        # verdict
        confirmed = nat_fail is not None
        hard = [o for o in failed if o['exact'] and o['kind'] != 'cover']
        violation = None
        extra = self.judge(failed, unknown, limits)
        if extra is not None:
            hard, confirmed_by = extra
        if confirmed:
            violation = 'confirmed'
        elif hard:
            violation = 'unconfirmed'
        known = []
        if violation:
            keys = set()
            txt = json.dumps(hard) + (nat_fail['output'] if nat_fail else '')
            for k, t in findings:
                pass
        for k, t in findings:
            if self.finding_present(k):
                print('KNOWN-FINDING: property=%s %s' % (self.prop, t))
                known.append(t)
        nobs = len(obs)
        ndis = len([o for o in obs if o['status'] == 'discharged'])
        replay = None
        if violation:
            d = os.path.join(EVID, 'replay')
            os.makedirs(d, exist_ok=True)
            replay = os.path.join(d, '%s.json' % self.prop)
            with open(replay, 'w') as f:
                json.dump({'property': self.prop, 'kind': violation, 'failed_obligations': hard[:20] or failed[:20],
                           'native_failure': nat_fail,
                           'how_to_replay': 'VERIF_SEED=%d python3-vt check.py %s --tier %s (native harness seed %s)' % (
                               ctx.seed, self.prop, ctx.tier, nat_fail['seed'] if nat_fail else '-')}, f, indent=1)
        bykind = {}
        for o in obs:
            k = bykind.setdefault(o['kind'], [0, 0])
            k[0] += 1
            k[1] += o['status'] == 'discharged'
        contracts = sorted(set().union(*[r.contracts for r in res])) if res else []
        inl = sorted(set().union(*[r.inlined for r in res])) if res else []
        ev = {'property': self.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': self.level,
              'coverage': {
                  'obligations': nobs, 'discharged': ndis,
                  'checker_cmd': 'python3-vt check.py %s --tier %s' % (self.prop, ctx.tier),
                  'trusted_base': ['clang 18 front end and opt passes sroa, early-cse, simplifycfg (C++ to LLVM IR)',
                                   'irv VC generator (/verif/irv)', 'z3 4.x solver (python bindings)'] + self.trusted,
                  'backend': 'z3 ' + '.'.join(map(str, __import__('z3').get_version())),
                  'solver_s': round(sum(r.solver for r in res), 2), 'solver_queries': sum(r.queries for r in res),
                  'units': len(res), 'units_complete': len([r for r in res if not r.limit]),
                  'by_kind': {k: {'obligations': a, 'discharged': b} for k, (a, b) in sorted(bykind.items())},
                  'loops_with_inductive_summary': sum(r.loops for r in res),
                  'summarised_loops_not_shown_to_end': sum(r.novariant for r in res),
                  'summarised_loops_whose_2^32_iteration_limit_is_assumed': sum(r.iterbound for r in res),
                  'loops_unrolled_to_their_concrete_bound': sum(r.unrolled for r in res),
                  'functions_verified_from_source_ir': [x for x in inl][:400],
                  'functions_verified_count': len(inl),
                  'contracts_assumed_for_callees': contracts[:400],
                  'not_discharged': [{'unit': o['unit'], 'name': o['name'], 'status': o['status']} for o in failed + unknown][:60],
                  'tool_limits': ['%s: %s' % x for x in limits][:60] + ([build_err] if build_err else []),
                  'bounded_native_differential_cases': nat_cases,
                  'bounded_native_note': nat_note or 'seeded differential run of the real code against the executable specification; bounded, not counted as proved',
                  'explanation': self.explain},
              'assumptions': self.assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations, %d discharged, %d failed, %d unknown, %d unit(s) with tool limits, %d native cases; prep %.1fs native %.1fs total %.1fs' % (
            self.prop, nobs, ndis, len(failed), len(unknown), len(limits), nat_cases, t1 - t0, tn, t3 - t0))
        if build_err:
            print('note: ' + build_err[-1500:])
        if nat_note:
            print('note: ' + nat_note[-1500:])
        if failed and not hard and not confirmed:
            print('note: %d obligations failed only under an inexact summary; not confirmed by %d native cases' % (len(failed), nat_cases))
        if violation:
            o = (hard or failed or [None])[0]
            if o:
                print('failed obligation: [%s] %s' % (o['unit'], o['name']))
            if nat_fail:
                print('failing input: ' + nat_fail['output'][-1500:])
            print('VIOLATION property=%s replay=%s%s' % (self.prop, replay, '' if confirmed else ' no-failing-input-found'))
            return 1
        return 0

    level = 'proof'

    def judge(self, failed, unknown, limits):
        return None

    def finding_present(self, key):
        return True
