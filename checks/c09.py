"""C09: SIMD fixed-point primitives, lane by lane."""
from .common import *
from . import fplib
LEVEL = 'other'
ASSUMPTIONS = TRUST + ['overflow of the non-saturating operations and of ShiftLeft is excluded (documented as undefined / uncommitted)',
                       'mask operands have all or no bits set in each lane']
EXPLAIN = ('every SIMD primitive (SSE4, AVX2, NEON; int32 and int16 lanes) is executed on vectors of symbolic lanes and each lane is compared by z3 '
           'with the meaning of the scalar primitive (C08).')


def BOUNDS(tier):
    return {'operands': 'all values of every lane', 'shift amounts and powers of two': 'every one the type allows',
            'configurations': ALL[1:], 'outside': 'MSA and WASM specialisations (not built here)'}


def jobs(tier, seed):
    js = []
    for cfg in ALL[1:]:
        for g, ops in enumerate(fplib.GROUPS):
            for t in ('v32', 'v16'):
                js.append(('%s/%s/%d' % (cfg, t, g), fplib.task, dict(cfg=cfg, types=[t], what=ops, seed=seed)))
    return js
