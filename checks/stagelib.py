"""Jobs for the output-stage properties (C05, C06, C07)."""
from . import outlib
from .outlib import Out, sym
from .common import ALL

# (order, rows, cols): together they reach every register block (8x4 4x4 1x4 8x1 4x1 1x1, via the 8x8 row-major
# buffer or not), with and without the transposition of wide results
SHAPES = [('r', 14, 13), ('c', 14, 9), ('r', 9, 14), ('c', 13, 14)]
SMALL = [('r', 5, 5), ('c', 5, 6), ('r', 1, 9), ('c', 9, 1), ('r', 9, 1), ('c', 1, 9), ('c', 6, 1), ('r', 3, 2)]


def params(stage, k):
    s = sym
    return {1: [s('p0'), s('p1'), k, 0, 0, 0], 2: [s('p0'), s('p1'), k, 0, 0, 0], 3: [0, 0, k, 0, 0, 0], 4: [0, 0, k, 0, 0, 0],
            5: [s('p0'), k, s('p2'), 0, 0, 0], 6: [s('p0'), k, s('p2'), 0, 0, 0], 7: [0, 0, s('p2'), 0, 0, 0], 8: [0, 0, s('p2'), 0, 0, 0],
            16: [s('p0'), k, s('p2'), s('p3'), s('p4'), 0], 17: [s('p0'), k, s('p2'), s('p3'), s('p4'), 0]}.get(
                stage, [0, 0, 0, s('p3'), s('p4'), 0])


def expvec(k, n):
    """per-channel exponents: all of -31..30 in turn, starting at k"""
    return [((k + 7 * i) % 62) - 31 for i in range(n)]


def task(rec, cfg, stage, cases, seed, validate):
    cache = set()
    for n, (k, (order, r, c), do) in enumerate(cases):
        vb = expvec(k, max(r, c)) if stage in (7, 8) else None
        o = Out(cfg, stage, order, r, c, params(stage, k), do=do, vecb=vb)
        outlib.check(rec, o, seed + n, validate=n < validate, timeout=60, cache=cache)


def jobs(stages, tier, seed, kof, cfgs=ALL):
    js = []
    for cfg in cfgs:
        for st in stages:
            if st in outlib.UNSUPPORTED.get(cfg, ()):
                continue
            ks = kof(st)
            cs = []
            shp = SHAPES + SMALL
            if tier == 'quick':
                for n, s in enumerate(shp):
                    cs.append((ks[(5 * n + 1) % len(ks)], s, n % 3))
                for n, k in enumerate(ks):
                    cs.append((k, SMALL[n % 2], n % 2))
            else:
                for k in ks:
                    for n, s in enumerate(shp):
                        cs.append((k, s, n % 3))
                for n, k in enumerate(ks):
                    cs.append((k, ('rc'[n % 2], 26, 19), 0))
            m = 1 if tier == 'quick' else 6
            for i in range(m):
                js.append(('%s/stage%d/%d' % (cfg, st, i), task, dict(cfg=cfg, stage=st, cases=cs[i::m], seed=seed, validate=1)))
    return js
