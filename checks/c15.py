"""C15: cache-blocking parameters and the thread count, for every matrix size, cache size and thread count in range."""
from vp import term as T, smt, lia
from vp.term import N
from vp.case import Case, Buf
from vp import oblig
from .common import *

LEVEL = 'other'
ASSUMPTIONS = TRUST + ['the float product choosing the number of cached columns is an arbitrary int (over-approximation)']
EXPLAIN = ('BlockParams::Init and HowManyThreads executed symbolically with symbolic sizes, cache sizes and thread counts; '
           'z3 (integer arithmetic) decides the invariants the packing, compute and threading code relies on.')
AND = lambda *xs: __import__('functools').reduce(lambda a, b: T.bitop('and', a, b, 1), xs)


def BOUNDS(tier):
    return {'rows, cols, depth': '1..2^%d' % bits(tier), 'threads': '1..64', 'l1 bytes': '1..2^24', 'l2 bytes': '1..2^26',
            'l2_rhs_factor': [1.0, 0.75, 0.5] if tier == 'quick' else [1.0, 0.75, 0.5, 0.25], 'kernel formats': 'the default 8-bit kernel of each configuration; 6x15x4',
            'HowManyThreads': 'max threads 1..256, all sizes 1..2^20 (rows*cols*depth < 2^60)', 'configurations': ALL}


def bits(tier):
    return 14 if tier == 'quick' else 20


def i32(res, k):
    return int.from_bytes(res[0][4 * k:4 * k + 4], 'little', signed=True)


def sequence(rec, cfg, entry, seed, tier, timeout):
    b = bits(tier)
    r, c, d = [smt.rvar(n, 32, 1, 1 << b) for n in ('rows', 'cols', 'depth')]
    th = smt.rvar('threads', 32, 1, 64)
    l1, l2 = smt.rvar('l1', 32, 1, 1 << 24), smt.rvar('l2', 32, 1, 1 << 26)
    case = Case('params.cc', cfg, entry, [r, c, d, th, l1, l2], [Buf('out', [0] * 40, 8)])
    label = '%s %s' % (cfg, entry)
    for p in case.explore(None, max_paths=300, solver=lia.PathSolver()):
        rec.absorb(case.m)
        if case.fault:
            rec.obligations += 1
            oblig.report_fault(rec, case, label, seed)
            return
        g = lambda k: T.sgn(case.got(0, 4 * k, 4), 32)
        R, C, D, RS = [g(k) for k in (6, 7, 8, 9)]
        claims = []
        for k, v, m, nm in ((0, g(0), R, 'l2_rows is a positive multiple of the kernel rows'),
                            (1, g(1), C, 'l2_cols is a positive multiple of the kernel columns'),
                            (2, g(2), D, 'l2_depth is a positive multiple of the kernel depth'),
                            (3, g(3), R, 'l1_rows is a positive multiple of the kernel rows'),
                            (4, g(4), C, 'l1_cols is a positive multiple of the kernel columns'),
                            (5, g(5), D, 'l1_depth is a positive multiple of the kernel depth'),
                            (5, g(5), RS, 'l1_depth is a positive multiple of the register size')):
            claims.append((nm, AND(T.lt(0, v), T.eq(T.divop('srem', v, m, 32), 0, 32)),
                           lambda q, i, k=k, m=m: i32(q, k) > 0 and i32(q, k) % m == 0))
        claims.append(('l2_depth is the depth rounded up to the register size', AND(T.le(d, g(2)), T.lt(g(2), T.add(d, RS)), T.eq(T.divop('srem', g(2), RS, 32), 0, 32)),
                       lambda q, i: i32(q, 2) == -(-i[2] // RS) * RS))
        claims.append(('l1_cols is l2_cols', T.eq(g(4), g(1), 32), lambda q, i: i32(q, 4) == i32(q, 1)))
        claims.append(('l1_rows does not exceed l2_rows', T.le(g(3), g(0)), lambda q, i: i32(q, 3) <= i32(q, 0)))
        claims.append(('l1_depth does not exceed l2_depth', T.le(g(5), g(2)), lambda q, i: i32(q, 5) <= i32(q, 2)))
        claims.append(('l2_cols does not exceed the rounded-up columns', T.lt(g(1), T.add(c, C)), lambda q, i: i32(q, 1) < i[1] + C))
        claims.append(('l2_rows does not exceed the rounded-up rows', T.lt(g(0), T.add(r, R)), lambda q, i: i32(q, 0) < i[0] + R))
        oblig.holds(rec, case, claims, label, timeout=timeout, seed=seed, arith=True)
    rec.samples.append(label)


def threads(rec, cfg, entry, seed, tier, timeout):
    mx = smt.rvar('max', 32, 1, 256)
    r, c, d = [smt.rvar(n, 32, 1, 1 << 20) for n in ('rows', 'cols', 'depth')]
    case = Case('params.cc', cfg, entry, [mx, r, c, d], [Buf('out', [0] * 4, 4)])
    label = '%s %s' % (cfg, entry)
    for p in case.explore(None, max_paths=100, solver=lia.PathSolver()):
        rec.absorb(case.m)
        if case.fault:
            rec.obligations += 1
            oblig.report_fault(rec, case, label, seed)
            return
        t = T.sgn(case.got(0, 0, 4), 32)
        oblig.holds(rec, case, [
            ('between 1 and the maximum', AND(T.le(1, t), T.le(t, mx)), lambda q, i: 1 <= i32(q, 0) <= i[0]),
            ('no more threads than 16-row slices', T.lt(T.mul(T.sub(t, 1), 16), r), lambda q, i: (i32(q, 0) - 1) * 16 < i[1]),
        ], label, timeout=timeout, seed=seed, arith=True)
    rec.samples.append(label)


def jobs(tier, seed):
    js = []
    t = 100 if tier == 'quick' else 600
    for c in ALL:
        for e in (('block_100', 'block_75', 'gblock_50') if tier == 'quick' else ('block_100', 'block_75', 'block_50', 'block_25', 'gblock_100', 'gblock_50')):
            js.append(('%s/%s' % (c, e), sequence, dict(cfg=c, entry=e, seed=seed, tier=tier, timeout=t)))
        for e in ('threads', 'threads32'):
            js.append(('%s/%s' % (c, e), threads, dict(cfg=c, entry=e, seed=seed, tier=tier, timeout=t)))
    return js
