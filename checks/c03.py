"""C03: per-channel zero points."""
from .common import *
from . import gemmlib

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('GemmWithOutputPipelinePC with one offset per left row and/or per right column: all operand bytes and all offsets symbolic; '
           'entry (i,j) equals sum((l+lo_i)(r+ro_j)) mod 2^32.')


def BOUNDS(tier):
    return {'configurations': ALL, 'orders': ORDERS, 'offset vectors': 'left, right, both', 'shapes': 'the listed shapes (checks/c03.py)',
            'outside': 'other shapes; more than one thread (C11)'}


def shapes(cfg, lo, tier):
    kr, kc, kd = KERN[cfg]
    out = []

    def add(o, r, d, c, **kw):
        out.append(dict(cfg=cfg, order=ORDERS[o % 8], rows=r, depth=d, cols=c, pc=lo, **kw))
    for o in range(8):
        add(o, 2 * kr + 3, 17, kc + 1, do=1)
        add(o, kc + 1, 17, 2 * kr + 3, do=1)
        add(o, 3 * kr + 2, 32, 3 * kc + 3, l1=1024, l2=1500 if o % 2 else 2200, l2p=[0, 50, 25][o % 3])
        add(o, 3 * kc + 3, 32, 3 * kr + 2, l1=1024, l2=1500 if o % 2 else 2200, l2p=[0, 50, 25][o % 3])
    for r in range(1, 14):
        for c in range(1, 14):
            if (tier != 'quick' and (r + c) % 2 == 0) or (r * 3 + c * 5) % 11 == 0:
                add(r + c, r, (r * c) % 9 + 1, c, do=(r % 2))
    return out


def jobs(tier, seed):
    js = []
    for cfg in ALL:
        for lo in (1, 2, 3):
            s = shapes(cfg, lo, tier)
            k = 1 if tier == 'quick' else 4
            for i in range(k):
                js.append(('%s/pc%d/%d' % (cfg, lo, i), gemmlib.task, dict(cases=s[i::k], seed=seed + i, validate=1)))
    return js
