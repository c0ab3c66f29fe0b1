"""Runs the tasks of a property in worker processes and reports."""
import json
import multiprocessing
import os
import sys
import time
import traceback
from . import build, smt
from . import term as T

ROOT = build.ROOT
STOP = [None]            # keys of the listed findings, when the first other violation ends the run
EVID = os.path.join(ROOT, 'evidence')
REPLAY = os.path.join(ROOT, 'replay')


class Enough(BaseException):
    """a confirmed violation that is not listed: nothing else to decide"""


class Rec(object):
    """what a task reports."""

    def __init__(self, name):
        self.name = name
        self.functions = set()
        self.violations = []
        self.problems = []
        self.obligations = 0
        self.discharged = 0
        self.asm_insns = 0
        self.paths = 0
        self.validated = 0
        self.samples = []
        self.known = []
        self.notes = []
        self.t0 = time.time()

    def absorb(self, m):
        self.functions |= m.stats['functions']
        self.asm_insns += m.stats['asm_insns']
        self.paths += 1

    def violation(self, what, replay, key=None):
        self.violations.append({'what': what, 'replay': replay, 'key': key})
        if STOP[0] is not None and key not in STOP[0]:
            raise Enough()

    def problem(self, what):
        self.problems.append(what)


def _worker(job):
    name, fn, kw = job
    r = Rec(name)
    try:
        fn(r, **kw)
    except Enough:
        pass
    except MemoryError:
        r.problem('%s: out of memory' % name)
    except build.BuildError as e:
        r.problem('%s: %s' % (name, str(e)[-1500:]))
    except Exception as e:
        r.problem('%s: %s: %s\n%s' % (name, type(e).__name__, e, traceback.format_exc()[-2500:]))
    st = dict(smt.STATS)
    st['terms'] = T._next[0]
    r.stats = st
    r.wall = time.time() - r.t0
    return r


def run(pid, tier, seed, jobs, level, bounds, assumptions, explain=''):
    t0 = time.time()
    build.workdir()
    os.makedirs(EVID, exist_ok=True)
    for n in os.listdir(REPLAY) if os.path.isdir(REPLAY) else ():
        if n.startswith(pid + '-'):
            os.remove(os.path.join(REPLAY, n))
    recs = []
    ctx = multiprocessing.get_context('fork')
    nproc = int(os.environ.get('VP_JOBS', '8'))
    limit = 780 if tier == 'quick' else 6 * 3600
    problems = []
    listed = known_findings(pid)
    stop = tier == 'quick' and not os.environ.get('VP_ALL')
    if stop:
        STOP[0] = {k.get('key') for k in listed}
    if os.environ.get('VP_ONLY'):
        jobs = [j for j in jobs if os.environ['VP_ONLY'] in j[0]]
    if not jobs:
        problems.append('no tasks')
    else:
        pool = ctx.Pool(min(nproc, len(jobs)), maxtasksperchild=1)
        it = pool.imap_unordered(_worker, jobs, 1)
        try:
            for _ in range(len(jobs)):
                recs.append(it.next(max(1, limit - (time.time() - t0))))
                if os.environ.get('VP_VERBOSE'):
                    r = recs[-1]
                    print('  %-40s %6.1fs ob=%d/%d viol=%d prob=%d solver=%.1fs' % (
                        r.name, r.wall, r.discharged, r.obligations, len(r.violations), len(r.problems), r.stats['solver_s']), flush=True)
                if stop and any(not any(k.get('key') == v['key'] for k in listed) for v in recs[-1].violations):
                    break          # one confirmed violation decides
        except multiprocessing.TimeoutError:
            problems.append('time limit reached with %d of %d tasks done' % (len(recs), len(jobs)))
        pool.terminate()
        pool.join()
    viol, known = [], []
    kf = known_findings(pid)
    fn = set()
    tot = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0, 'terms': 0}
    ob = dis = asm = paths = val = 0
    samples, notes = [], []
    for r in sorted(recs, key=lambda x: x.name):
        fn |= r.functions
        for k in tot:
            tot[k] += r.stats.get(k, 0)
        ob += r.obligations
        dis += r.discharged
        asm += r.asm_insns
        paths += r.paths
        val += r.validated
        samples += r.samples[:1]
        notes += r.notes
        problems += r.problems
        for v in r.violations:
            hit = [k for k in kf if k.get('key') and k['key'] == v['key']]
            if hit:
                known.append(hit[0])
            else:
                viol.append(v)
    for k in {k['key']: k for k in known}.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {
              'explanation': explain or 'symbolic execution of the real code, obligations discharged by z3',
              'technique': 'symbolic execution of clang LLVM IR and inline assembly of /repo, z3 bit-vector queries',
              'obligations': ob, 'discharged': dis, 'tasks': len(recs), 'executions_or_paths': paths,
              'functions_encoded': sorted(fn)[:400], 'functions_encoded_count': len(fn),
              'asm_instructions_executed': asm, 'terms': tot['terms'],
              'queries': tot['queries'], 'queries_unsat': tot['unsat'], 'queries_sat': tot['sat'], 'queries_unknown': tot['unknown'],
              'solver_s': round(tot['solver_s'], 2), 'bounds': bounds,
              'encoding_validated_against_native_runs': val,
              'samples': samples[:12], 'notes': sorted(set(notes))[:40], 'problems': problems[:10]},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if viol:
        os.makedirs(REPLAY, exist_ok=True)
        for i, v in enumerate(viol[:5]):
            p = os.path.join(REPLAY, '%s-%d.json' % (pid, i))
            with open(p, 'w') as f:
                json.dump({'property': pid, 'what': v['what'], 'replay': v['replay']}, f, indent=1, default=str)
            print('# %s' % v['what'])
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if problems or ob == 0 or dis != ob:
        for p in problems[:10]:
            print('INCONCLUSIVE %s: %s' % (pid, p))
        if ob == 0 or (dis != ob and not problems):
            print('INCONCLUSIVE %s: %d of %d obligations discharged' % (pid, dis, ob))
        return 2
    print('%s holds: %d obligations, %d tasks, %d queries, solver %.1f s, wall %.1f s' % (
        pid, ob, len(recs), tot['queries'], tot['solver_s'], time.time() - t0))
    return 0


def known_findings(pid):
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get('property') == pid and k.get('status') == 'known']
