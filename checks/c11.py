"""C11: multi-threaded GEMM equals single-threaded GEMM."""
from .common import *
from . import mtlib

LEVEL = 'other'
ASSUMPTIONS = TRUST + ['the workers pool runs every task exactly once before Execute returns (C12); tasks that touch disjoint memory commute, so '
                       'the result under every interleaving is the one of the executed order']
EXPLAIN = ('the public GEMM with 2..8 threads through the library\'s extension point for worker pools: the tasks are executed symbolically in several orders; '
           'the memory each task reads and writes outside its own allocations is recorded and no byte written by one may be touched by another; '
           'z3 decides that every result entry is the exact product (hence the single-threaded result) or, with a requantizing pipeline, equals the single-threaded result.')


def BOUNDS(tier):
    return {'configurations': ALL, 'threads': '2,3,4%s' % ('' if tier == 'quick' else ',5,6,8'), 'task orders': 'in order, reversed, rotated, odd first',
            'shapes': 'the listed shapes (checks/c11.py)', 'operands, offsets': 'all values',
            'outside': 'other shapes and thread counts; the pool itself (C12)'}


def shapes(cfg, tier):
    kr, kc, kd = KERN[cfg]
    mr = max(kr, 16)
    out = []

    def add(o, r, d, c, **kw):
        out.append(dict(cfg=cfg, order=o, rows=r, depth=d, cols=c, **kw))
    add('rcr', 2 * mr + 1, 230, 20, threads=2, sched=1, do=1)
    add('rcc', 2 * mr + 7, 200, 25, threads=3, sched=2, l1=2000, l2=9000, l2p=50, pc=1)
    add('crr', 17, 120, 5 * mr - 3, threads=4, sched=3, l2=6000, do=3)
    add('ccc', 5 * mr + 3, 90, 40, threads=4, sched=1, l2=3000, dl=2, dr=1, pc=1)
    add('rrr', 3 * mr + 1, 66, 41, threads=3, sched=0, u8=5)
    if tier != 'quick':
        for n, t in enumerate((2, 3, 4, 5, 6, 8)):
            for o in ('rcr', 'rcc', 'crr', 'ccc', 'rrr', 'crc'):
                add(o, t * mr - (n % 3), 70, (65536 * t) // (70 * (t * mr - 2)) + 2, threads=t, sched=n % 4, pc=n % 2, l2=[0, 5000, 20000][n % 3])
                add(o, 20, 100, t * mr + n, threads=t, sched=(n + 1) % 4, pc=(n + 1) % 2, l1=1500, l2=[7000, 0, 4000][n % 3], l2p=[0, 50][n % 2])
            add('rcr', t * mr + 5, 70, (65536 * t) // (70 * t * mr) + 3, threads=t, sched=n % 4, u8=7)
    return out


def jobs(tier, seed):
    js = []
    for cfg in ALL:
        for i, s in enumerate(shapes(cfg, tier)):
            js.append(('%s/%d' % (cfg, i), mtlib.task, dict(cases=[s], seed=seed + i)))
    return js
