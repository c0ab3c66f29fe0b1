"""C12: the worker pool under every interleaving."""
import fcntl
import os
import re
import subprocess
import time
from vp import build, conc, llir, smt
from .common import *

LEVEL = 'model_checking'
ASSUMPTIONS = TRUST + [
    'interleavings are sequentially consistent; weaker orders are covered by the separate query for data races under the C++11 happens-before relation of the orders the code uses',
    'pthread mutexes, condition variables (spurious wake-ups included), create and join behave as POSIX says; allocation never fails',
    'busy-waiting counts as one iteration: two loads of one location with no other event between them see the same value (one difference allowed where the scenario says so)',
    'the tasks are ones that only use their allocator and their own result; C11 decides what the real tasks write']
EXPLAIN = ('The real WorkersPool, Worker, BlockingCounter and WaitForVariableChange are executed symbolically thread by thread, loads of shared '
           'memory being free variables; z3 decides over a clock per event, a reads-from relation and the mutexes whether any execution leaves the '
           'explored event trees, fails an assertion, misses or repeats a task, races, uses freed memory or gets stuck. Counterexample schedules are '
           'replayed on the real code under a controlled scheduler.')
# rounds, then (tasks, 0 array / 1 vector of pointers that the pool deletes / 2 array used in several rounds) per round; distinct busy-wait loads; waits in a row; seconds
QUICK = [((1, 1, 0), 1, 2), ((1, 2, 0), 2, 2), ((1, 2, 1), 1, 2), ((2, 2, 0, 2, 0), 1, 1), ((2, 2, 0, 2, 1), 1, 1), ((1, 3, 0), 1, 1), ((1, 3, 1), 1, 1), ((2, 2, 2, 3, 2), 1, 1)]
MORE = [((2, 2, 0, 2, 0), 1, 2), ((2, 2, 1, 2, 1), 1, 2), ((1, 3, 0), 2, 2), ((2, 3, 0, 2, 0), 1, 2), ((2, 2, 0, 3, 0), 1, 2), ((1, 4, 0), 1, 1),
        ((2, 3, 0, 3, 0), 1, 1), ((3, 2, 0, 2, 0, 2, 0), 1, 1), ((2, 2, 0, 2, 0), 2, 1), ((2, 3, 2, 2, 2), 1, 1)]
WRAP = ('pthread_create pthread_join pthread_mutex_lock pthread_mutex_unlock pthread_cond_wait pthread_cond_broadcast pthread_cond_signal '
        'pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy nanosleep malloc free _Znwm _Znam _ZdlPv _ZdlPvm _ZdaPv _ZdaPvm').split()


def BOUNDS(tier):
    return {'scenarios': [label(*s) for s in (QUICK if tier == 'quick' else QUICK + MORE)],
            'interleavings': 'all, of the events of the scenario', 'spurious wake-ups': 'as many in a row as the scenario says',
            'outside': 'more workers or rounds than the scenarios have; address reuse by the allocator'}


def label(ints, same, waits):
    return 'rounds of %s tasks, %d busy-wait loads, %d waits in a row' % (
        ' then '.join('%d%s' % (ints[1 + 2 * i], ('', ' (deleted by the pool)', ' (tasks used again)')[ints[2 + 2 * i]]) for i in range(ints[0])), same, waits)


def native():
    out = os.path.join(build.workdir(), 'poolsched')
    with open(out + '.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        d = build.workdir()
        for cmd in ([build.CLANG, '-std=c++11', '-O1', '-w', '-fsanitize=thread', '-I' + build.HARN, '-I' + build.REPO, '-DVP_IR', '-c',
                     os.path.join(build.HARN, 'pool.cc'), '-o', d + '/pool.o'],
                    [build.CLANG, '-std=c++17', '-O1', '-w', '-DVP_MAIN=pool', '-c', os.path.join(build.HARN, 'sched.cc'), '-o', d + '/sched.o'],
                    [build.CLANG, d + '/pool.o', d + '/sched.o', '-o', out, '-lpthread'] + ['-Wl,--wrap=' + f for f in WRAP]):
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                raise build.BuildError(p.stdout)
    return out


def replay(ints, script, seed):
    """(what the run under the schedule reports, how) or None"""
    b = native()
    f = os.path.join(build.workdir(), 'sched-%d.txt' % os.getpid())
    with open(f, 'w') as o:
        o.write('\n'.join(script) + '\n')
    for i in range(200):
        p = subprocess.run([b, f if i == 0 else '-', str(seed + i)] + [str(x) for x in ints], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            return '%s (exit %d)' % (p.stderr.strip().splitlines()[-1] if p.stderr.strip() else '', p.returncode), 'the schedule of the model' if i == 0 else 'random schedule %d' % (seed + i)
    return None


def nops(text):
    """functions that only waste time: inline assembly of nops"""
    out = []
    for m in re.finditer(r'^define [^\n]*?(@[\w.$]+|@"[^"]*")\([^\n]*\{\n(.*?)^\}', text, re.M | re.S):
        if re.search(r'asm sideeffect "\s*nop', m.group(2)) and ' call ' not in re.sub(r'call void asm', '', m.group(2)):
            out.append(m.group(1))
    return out


def scenario(rec, ints, same, waits, secs, seed):
    text = open(build.ir('pool.cc', 'x86_default', '-O1', ('-fno-inline',))).read()
    stubs = {n[1:].strip('"'): (lambda: 1 << 30) for n in nops(text)}
    lab = label(ints, same, waits)
    w = conc.World(llir.Module(text), 'pool', list(ints), stubs, max_same=same, max_waits=waits, deadline=time.time() + secs)
    try:
        rec.obligations += 1
        r = w.run()
        if r is None:
            rec.discharged += 1
            for q in (w.deadlock, w.after_free, w.races):
                rec.obligations += 1
                r, n = q()
                if r is not None:
                    break
                rec.discharged += 1
        if r is None:
            rec.obligations += 1
            if w.complete():
                rec.discharged += 1
            else:
                rec.problem('%s: no execution ends' % lab)
    except conc.Unsupported as e:
        rec.problem('%s: %s' % (lab, e))
        return
    finally:
        rec.functions |= w.functions
        rec.paths += len(w.nodes)
    rec.samples.append('%s: %d threads, %d events in their trees, %d path segments, %d queries' % (lab, len(w.threads), len(w.nodes), w.paths, w.queries))
    if r is not None:
        what, d, sched = r
        script = w.script(sched)
        c = replay(ints, script, seed)
        if c is None:
            rec.problem('%s: %s: %s; not reproduced natively' % (lab, what, d))
            return
        rec.violation('%s: %s: %s [%s: %s]' % (lab, what, d, c[1], c[0]),
                      {'scenario': list(ints), 'harness': 'pool.cc', 'what': what, 'detail': d, 'schedule': script,
                       'events': [repr(n) for n in sched], 'confirmed': '%s: %s' % (c[1], c[0])}, key='pool:' + what)


def jobs(tier, seed):
    sc = QUICK if tier == 'quick' else QUICK + MORE
    out = [(label(*s), scenario, dict(ints=s[0], same=s[1], waits=s[2], secs=700 if tier == 'quick' else 4 * 3600, seed=seed)) for s in sc]
    return out[::-1]
