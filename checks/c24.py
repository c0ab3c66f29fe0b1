"""C24: any kernel format packs, multiplies and unpacks correctly."""
import random
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig
from .common import *
from .gemmlib import Gemm, check_gemm, lemma

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('The GEMM with the portable kernel instantiated on eleven kernel formats (depth-major, width-major and diagonal cells, sizes that are not powers of two) executed symbolically; '
           'z3 decides equality of every result entry with the integer product.')
FMT = {0: (1, 1), 1: (4, 8), 2: (16, 20), 3: (6, 15), 4: (6, 15), 5: (15, 8), 6: (15, 8), 7: (16, 3), 8: (1, 4), 9: (8, 12), 10: (16, 4)}


def BOUNDS(tier):
    return {'configurations': ALL, 'formats': 'eleven kernel formats, kernel blocks %s' % sorted(set(FMT.values())),
            'shapes': 'block - 1, block, block + 1 rows/columns, rows >= columns; depths 1..%d, four storage orders per format, cache settings forcing several blocks' % (35 if tier == 'quick' else 70),
            'operands and offsets': 'all values', 'cells': 'offsets of every pair of coefficients in cells %s' % CELLS}


def task(rec, cfg, cases, seed):
    lemma(rec)
    for k, (fmt, kw) in enumerate(cases):
        g = Gemm(cfg, src='gen.cc', **kw)
        g.case.extra = ['-DVP_FMT=%d' % fmt]
        g.label = 'format %d: %s' % (fmt, g.label)
        check_gemm(rec, g, seed + k, validate=k == 0)


CELLS = [(3, 3), (5, 5), (8, 8), (1, 1), (6, 6), (4, 4), (7, 7), (3, 5), (5, 3), (4, 2), (4, 16), (1, 16), (16, 1)]


def cells(rec, cfg, seed):
    """two coefficients of a cell never share a place, and all places lie in the cell"""
    for i, (w, d) in enumerate(CELLS):
        v = [smt.rvar('x%d' % k, 64, 0, n - 1) for k, n in enumerate((w, d, w, d))]
        c = Case('gen.cc', cfg, 'cell_%d' % i, v, [Buf('out', [0] * 8, 8)])
        lab = '%s cell format %d (%dx%d)' % (cfg, i, w, d)
        for p in c.explore(lambda m: None, max_paths=200):
            rec.absorb(c.m)
            if c.fault:
                rec.obligations += 1
                oblig.report_fault(rec, c, lab, seed)
                return
            a, b = T.sgn(c.got(0, 0, 4), 32), T.sgn(c.got(0, 4, 4), 32)
            same = T.eq(a, b, 32)
            one = T.bitop('and', T.eq(v[0], v[2], 64), T.eq(v[1], v[3], 64), 1)
            u = lambda r, o: int.from_bytes(r[0][o:o + 4], 'little')
            oblig.holds(rec, c, [('a place inside the cell', T.bitop('and', T.le(0, a), T.lt(a, w * d), 1), lambda r, i: u(r, 0) < w * d),
                                 ('a place of its own', T.bitop('or', T.bnot(same) if same.__class__ is T.N else 1 - same, one, 1),
                                  lambda r, i: u(r, 0) != u(r, 4) or i[0:2] == i[2:4])], lab, seed=seed)
    rec.samples.append('%s cell offsets' % cfg)


def jobs(tier, seed):
    js = []
    rng = random.Random(7)
    for c in ALL:
        cs = []
        for f, (R, C) in sorted(FMT.items()):
            os = list(ORDERS)
            rng.shuffle(os)
            n = 2 if tier == 'quick' else 8
            for k in range(n):
                rows = max(1, R + [1, -1, 0, 2 * R - 1][k % 4])
                cols = max(1, C + [-1, 1, 2 * C - 1, 0][k % 4])
                rows = max(rows, cols)      # callers transpose the problem otherwise (a precondition of SingleThreadGemm)
                depth = [17, 3, 33, 8, 35, 1, 16, 70][(k + f) % (5 if tier == 'quick' else 8)]
                while rows * cols * depth > 9000:
                    depth = max(1, depth // 2)
                cs.append((f, dict(order=os[k % 8], rows=rows, depth=depth, cols=cols, dl=k % 2, dr=(k + 1) % 2, do=k % 3,
                                   l1=[0, 400][k % 2], l2=[0, 1500][k % 2], l2p=[0, 50][k % 2])))
        for i in range(3 if tier == 'quick' else 8):
            js.append(('%s/%d' % (c, i), task, dict(cfg=c, cases=cs[i::3 if tier == 'quick' else 8], seed=seed)))
        js.append(('%s/cells' % c, cells, dict(cfg=c, seed=seed)))
    return js
