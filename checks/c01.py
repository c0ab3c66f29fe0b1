"""C01: exact integer matrix product."""
from .common import *
from . import gemmlib

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('For each listed shape/order/stride/cache setting the whole public GEMM call is executed symbolically with every operand byte, '
           'both offsets and all uninitialised memory symbolic; z3 decides equality of every result entry with sum((l+lo)(r+ro)) mod 2^32.')


def BOUNDS(tier):
    return {'configurations': ALL, 'orders': ORDERS, 'operand bytes': 'all 2^8 values each', 'offsets': 'all int32',
            'shapes': 'the listed shapes (see checks/c01.py), rows<=%d cols<=%d depth<=%d' % ((66, 52, 4101) if tier == 'quick' else (130, 130, 9000)),
            'outside': 'other shapes; more than one thread (C10)'}


def shapes(cfg, tier):
    kr, kc, kd = KERN[cfg]
    out = []
    n = 0

    def add(r, d, c, **kw):
        nonlocal n
        out.append(dict(cfg=cfg, order=ORDERS[n % 8], rows=r, depth=d, cols=c, **kw))
        n += 1
    # every order, with strides
    for o in range(8):
        n = o
        add(kr + 1, 21, kc + 1, dl=3, dr=5, do=2)
        n = o
        add(2 * kr + 5, 37 if o % 2 else 48, 2 * kc + 3)
    # thin products, all orders
    for o in range(8):
        n = o
        add(1, 35, kc + 1, do=1)
        n = o
        add(kr + 1, 35, 1, do=1)
        n = o
        add(1, 18, 1)
    # size sweep
    n = 1
    for r in sorted({1, 2, 3, kr - 1, kr, kr + 1, 2 * kr, 2 * kr + 1}):
        for c in sorted({1, 2, kc - 1, kc, kc + 1, 2 * kc}):
            add(r, (7 * r + 3 * c) % 41 + 1, c, dl=(r + c) % 3, do=(r * c) % 2)
    for d in list(range(1, 20)) + [31, 32, 33, 47, 48, 63, 64, 65]:
        add(3, d, 2, dr=d % 2)
    # several cache blocks in every dimension
    for o in range(8):
        n = o
        add(2 * kr + 9, 80, 3 * kc + 5, l1=1024, l2=3000, l2p=[0, 50, 25, 99][o % 4])
    n = 2
    add(66, 100, 52, l1=4096, l2=8192)
    add(66, 100, 52, l1=2048, l2=16384, l2p=30)
    # deep
    for o in (0, 2, 3, 5, 7):
        n = o
        add(2, 2070, 3)
    n = 2
    add(1, 4101, 1)
    add(3, 600, 2, l1=1500, l2=2500)
    if tier != 'quick':
        for r in range(1, 2 * kr + 2):
            for c in range(1, 2 * kc + 2):
                add(r, (5 * r + 11 * c) % 70 + 1, c, dl=r % 4, dr=c % 3, do=(r + c) % 4)
        for o in range(8):
            n = o
            add(130, 130, 130)
            n = o
            add(5, 9000, 3)
            n = o
            add(120, 70, 90, l1=4096, l2=4096, l2p=60)
            for l1, l2 in ((512, 1024), (1000, 100000), (16384, 20000), (300, 70000)):
                n = o
                add(70, 90, 50, l1=l1, l2=l2)
    return out


def jobs(tier, seed):
    js = []
    for cfg in ALL:
        s = shapes(cfg, tier)
        k = 4 if tier == 'quick' else 24
        for i in range(k):
            js.append(('%s/%d' % (cfg, i), gemmlib.task, dict(cases=s[i::k], seed=seed + i, validate=1 if tier == 'quick' else 3)))
    return js
