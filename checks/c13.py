"""C13: the allocator gives out aligned, disjoint blocks that are large enough, over every history."""
import functools
from vp import term as T, smt, lia
from vp.term import N
from vp.case import Case, Buf
from vp import oblig
from vp.execu import Unsupported
from .common import *

LEVEL = 'other'
ASSUMPTIONS = TRUST + ['the system allocator is replaced by a stand-in returning aligned addresses and recording its calls']
EXPLAIN = ('Histories of three reserve/commit/get/decommit rounds executed symbolically with symbolic block sizes; for every size z3 decides that blocks are aligned, inside the live '
           'storage, large enough and pairwise disjoint, and that storage is freed exactly once.')
AND = lambda *xs: functools.reduce(lambda a, b: T.bitop('and', a, b, 1), xs)
HIST = {'hist_a': (3, 2, 1), 'hist_b': (1, 5, 2), 'hist_c': (5, 1, 3), 'hist_d': (4, 4, 4)}


def BOUNDS(tier):
    return {'configurations': ALL, 'histories': 'three rounds with %s blocks' % sorted(HIST.values()), 'block elements': '0..2^40 (0..2^26 on 32-bit) per block, uint8/int16/int32',
            'allocation failure': 'at every allocation'}


def u64(res, k):
    return int.from_bytes(res[0][8 * k:8 * k + 8], 'little')


def task(rec, cfg, entry, seed, fail):
    ks = HIST[entry]
    nb = 26 if cfg == 'armhf' else 40
    ns = [smt.rvar('n%d' % i, nb + 1, 0, 1 << nb) for i in range(sum(ks))]
    words = sum(2 + 2 * k for k in ks) + 4
    case = Case('alloc.cc', cfg, entry, [fail] + ns, [Buf('out', [0] * (8 * words), 8)])
    label = '%s %s%s' % (cfg, entry, ' with failing allocation' if fail else '')
    n = 0
    for p in case.explore(None, max_paths=64, solver=lia.PathSolver()):
        n += 1
        rec.absorb(case.m)
        if case.fault:
            if fail and 'abort' in str(case.fault):
                rec.obligations += 1
                rec.discharged += 1
                continue
            rec.obligations += 1
            oblig.report_fault(rec, case, label, seed)
            return
        g = lambda k: case.got(0, 8 * k, 8)
        claims = []
        o = 0
        for gen, k in enumerate(ks):
            base, size = o, o + 1
            blk = [(o + 2 + 2 * i, o + 3 + 2 * i) for i in range(k)]
            o += 2 + 2 * k
            inside = [AND(T.eq(T.uns(g(a), 6), 0, 6), T.le(g(base), g(a)), T.le(T.add(g(a), g(l)), T.add(g(base), g(size)))) for a, l in blk]
            dis = [T.bitop('or', T.le(T.add(g(a), g(l)), g(c)), T.le(T.add(g(c), g(d)), g(a)), 1)
                   for i, (a, l) in enumerate(blk) for c, d in blk[:i]]

            def ok(q, i, base=base, size=size, blk=blk):
                s = [(u64(q, a), u64(q, l)) for a, l in blk]
                if not all(a % 64 == 0 and a >= u64(q, base) and a + l <= u64(q, base) + u64(q, size) for a, l in s):
                    return False
                return all(a + l <= c or c + d <= a for j, (a, l) in enumerate(s) for c, d in s[:j])
            # with a failing system allocator only an empty round may get here
            claims.append(('round %d: blocks aligned, inside the storage, large enough, disjoint' % (gen + 1),
                           AND(*(inside + dis)) if not fail else AND(*[T.eq(g(l), 0, 64) for a, l in blk]), ok if not fail else
                           (lambda q, i, blk=blk: all(u64(q, l) == 0 for a, l in blk))))
        claims.append(('all storage freed exactly once', AND(T.eq(g(o), g(o + 1), 64), T.eq(g(o + 2), 0, 64), T.eq(g(o + 3), 0, 64)),
                       lambda q, i: u64(q, o) == u64(q, o + 1) and u64(q, o + 2) == 0 and u64(q, o + 3) == 0))
        oblig.holds(rec, case, claims, label, timeout=60, seed=seed, arith=True)
    if not n:
        rec.problem(label + ': no feasible path')
    rec.samples.append('%s: %d paths' % (label, n))


def jobs(tier, seed):
    return [('%s/%s/%d' % (c, e, f), task, dict(cfg=c, entry=e, seed=seed, fail=f)) for c in ALL for e in sorted(HIST) for f in (0, 1)]
