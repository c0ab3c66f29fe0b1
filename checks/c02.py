"""C02: kernels for restricted operand ranges."""
from .common import *
from . import gemmlib, c01

LEVEL = 'other'
ASSUMPTIONS = TRUST + ['operands are in the range the bit-depth parameters declare (LHS 1..255; RHS 0..15; int8 LHS -127..127)']
EXPLAIN = ('Like C01 for L8R8WithLhsNonzero, SignedL8R8WithLhsNonzero (int8 inputs) and a 4-bit right operand: every operand value in the declared range, '
           'all offsets; equality of every entry with the exact sum.')


def BOUNDS(tier):
    return {'configurations': ALL, 'bit depth parameters': 'LHS nonzero (all configurations), RHS 4-bit (all), int8 (ARM)',
            'shapes': 'the listed shapes, depth <= %d' % (4101 if tier == 'quick' else 9000), 'outside': 'other shapes'}


def shapes(cfg, bd, tier):
    kr, kc = {'aarch64': (4, 4), 'armhf': (4, 2)}.get(cfg, KERN[cfg][:2]) if bd in (1, 3) else KERN[cfg][:2]
    orders = ['rcr', 'rcc'] if bd == 3 else ORDERS
    out = []

    def add(o, r, d, c, **kw):
        out.append(dict(cfg=cfg, order=orders[o % len(orders)], rows=r, depth=d, cols=c, bd=bd, **kw))
    for o in range(len(orders)):
        add(o, 2 * kr + 3, 37, 2 * kc + 1, dl=3, dr=5, do=2)
        add(o, kc + 1, 50, 2 * kr + 1, dl=1)
        add(o, 3 * kr + 2, 64, 3 * kc + 1, l1=1024, l2=2048, l2p=[0, 50][o % 2])
    for d in list(range(1, 20)) + [31, 32, 33, 48, 63, 64, 65, 127, 128, 129]:
        add(d, 3, d, 2)
    for r in range(1, 2 * kr + 2):
        for c in range(1, 2 * kc + 2):
            if tier != 'quick' or (r * 5 + c * 3) % 7 < 2:
                add(r + c, r, (7 * r + 5 * c) % 45 + 1, c)
    for o in range(len(orders)):
        add(o, 2, 1100 + 500 * (o % 3), 1)
    add(0, 1, 4101, 1)
    if bd == 3:
        add(1, 1, 2100, 2)
    if tier != 'quick':
        for o in range(len(orders)):
            add(o, 60, 130, 45)
            add(o, 70, 90, 50, l1=3000, l2=6000)
            add(o, 3, 9000, 2)
    return out


def jobs(tier, seed):
    js = []
    for cfg in ALL:
        for bd in (1, 2, 3):
            if bd == 3 and cfg not in ARM:
                continue
            if bd == 1 and cfg not in ARM and False:
                continue
            s = shapes(cfg, bd, tier)
            k = 2 if tier == 'quick' else 8
            for i in range(k):
                js.append(('%s/bd%d/%d' % (cfg, bd, i), gemmlib.task, dict(cases=s[i::k], seed=seed + i, validate=1)))
    return js
