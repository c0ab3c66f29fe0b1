"""C23: the quantized GEMM end to end."""
from .common import *
from . import q8lib
from .gemmlib import lemma

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('Gemm() with uint8 results executed symbolically on arbitrary operands, offsets, result offset and multiplier; z3 proves that the accumulator inside each output term is the integer '
           'product and then that the rest of the term is its rounded, saturated requantization.')


def BOUNDS(tier):
    return {'configurations': ALL, 'shapes': 'up to 31x40x17 around the kernel blocks, six storage orders, strides, cache settings', 'shifts': '0..31 (a few per configuration)',
            'operands, offsets, result offset, multiplier': 'all values for which (acc+offset)*multiplier does not overflow'}


def task(rec, cases, seed):
    lemma(rec)
    for k, kw in enumerate(cases):
        q8lib.check(rec, q8lib.Q8(**kw), seed + k, validate=k == 0)


def jobs(tier, seed):
    js = []
    Os = ['rcr', 'rcc', 'rrr', 'crc', 'ccr', 'ccc']
    sh = [8, 0, 3, 16, 31, 1, 12, 21, 5, 27]
    for ci, c in enumerate(ALL):
        R, C, D = KERN[c]
        shapes = [(R + 1, 5, C + 1), (C, 17, R + 2), (2 * R + 3, 3, 2 * C - 1), (3, 40, 2), (R - 1, 2, C), (1, 33, 7), (9, 1, 1)]
        if tier == 'thorough':
            shapes += [(2 * R, 18, 2 * C), (R + 5, 35, C + 3), (17, 8, 17), (1, 1, 1), (4, 64, 5), (8, 9, 3)]
        cs = []
        for k, (r, d, n) in enumerate(shapes):
            cs.append(dict(cfg=c, order=Os[(k + ci) % 6], rows=r, depth=d, cols=n, shift=sh[(k + 2 * ci) % 10], dl=k % 2, dr=(k // 2) % 2, do=(k + 1) % 3,
                           l1=[0, 500][k % 2], l2=[0, 2000][k % 2], l2p=[0, 50][k % 2]))
        n = 2 if tier == 'quick' else 4
        for i in range(n):
            js.append(('%s/%d' % (c, i), task, dict(cases=cs[i::n], seed=seed)))
    return js
