"""C04: a GEMM reads only its operands and writes exactly its result entries."""
from .common import *
from . import footlib

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('the public GEMM call is executed symbolically on operand and result buffers of exactly the size and alignment the maps describe; every load and store of the compiled code '
           '(including inline assembly and scratch memory) is checked against the live object it falls in, no access address depends on data, the padding between result entries keeps its '
           'symbolic initial value, and every entry is decided to be independent of the old result and of uninitialised memory.')


def BOUNDS(tier):
    return {'configurations': ALL, 'orders': ORDERS, 'result types': 'int32, uint8, int16, int8 (NEON)', 'operands': 'all values; buffers end at the last element, alignment 1',
            'shapes': 'the listed shapes (checks/c04.py)', 'outside': 'other shapes'}


def shapes(cfg, tier):
    kr, kc, kd = KERN[cfg]
    outs = [0, 1, 2] if cfg != 'x86_default' else [0, 1, 2, 3]
    if cfg in ARM:
        outs = [0, 1, 2, 3]
    out = []
    n = 0

    def add(r, d, c, o=None, **kw):
        nonlocal n
        out.append(dict(cfg=cfg, order=o or ORDERS[n % 8], rows=r, depth=d, cols=c, out=kw.pop('out', outs[(n // 8 + n) % len(outs)]), **kw))
        n += 1
    for o in range(8):
        for t in outs:
            n = o
            add(kr + 1 + t, 17 + o, kc + 2, out=t, dl=1, dr=2, do=3)
    n = 0
    for r in sorted({1, 2, 3, 4, 5, 7, 8, 9, kr - 1, kr, kr + 1, 2 * kr + 3}):
        for c in (1, 3, 4, 5, 8, 9, 2 * kc + 1):
            if r >= c or tier != 'quick':
                add(r, (3 * r + 5 * c) % 35 + 1, c, do=(r + c) % 3, pc=(r * c) % 2)
    for d in list(range(1, 18)) + [31, 33, 63, 65]:
        add(2, d, 2, do=1)
    for o in range(8):
        n = o
        add(2 * kr + 3, 50, 2 * kc + 5, l1=1000, l2=2500, do=2)
    bds = [1, 2] + ([3] if cfg in ARM else [])
    for bd in bds:
        for o in (['rcr', 'rcc'] if bd == 3 else ORDERS):
            add(kr + 2, 19, kc + 3, o=o, bd=bd, do=1)
            add(3, 33, 2, o=o, bd=bd)
    if tier != 'quick':
        for r in range(1, 2 * kr + 6):
            for c in range(1, 2 * kc + 6):
                add(r, (3 * r + 7 * c) % 67 + 1, c, do=(r + c) % 5, pc=c % 2, dl=r % 3, dr=c % 2)
        for l1, l2, l2p in ((300, 900, 0), (700, 2000, 50), (5000, 3000, 25), (2000, 50000, 99)):
            for o in range(8):
                for t in outs:
                    n = o
                    add(3 * kr + 5, 77, 3 * kc + 7, out=t, l1=l1, l2=l2, l2p=l2p)
    return out


def jobs(tier, seed):
    js = []
    for cfg in ALL:
        s = shapes(cfg, tier)
        s.sort(key=lambda d: (d['out'], d.get('bd', 0)))
        k = 5 if tier == 'quick' else 24
        m = (len(s) + k - 1) // k
        for i in range(k):
            if s[i * m:(i + 1) * m]:
                js.append(('%s/%d' % (cfg, i), footlib.task, dict(cases=s[i * m:(i + 1) * m], seed=seed + i)))
    return js
