"""C08: scalar fixed-point primitives."""
from .common import *
from . import fplib
LEVEL = 'other'
ASSUMPTIONS = TRUST + ['overflow of the non-saturating operations and of ShiftLeft is excluded (documented as undefined / uncommitted)',
                       'mask operands have all or no bits set']
EXPLAIN = 'every scalar primitive and FixedPoint operator is executed on symbolic operands and compared by z3 with its mathematical meaning.'


def BOUNDS(tier):
    return {'operands': 'all int32 / int16 (int8 for SaturatingAdd)', 'shift amounts and powers of two': 'every one the type allows',
            'configurations': ALL, 'FixedPoint integer bits': '0,1,2,5',
            'outside': 'conversion to and from double'}


def jobs(tier, seed):
    js = []
    for cfg in (ALL):
        for g, ops in enumerate(fplib.GROUPS):
            for t in ('s32', 's16', 's8'):
                if t == 's8' and 'satadd' not in ops:
                    continue
                js.append(('%s/%s/%d' % (cfg, t, g), fplib.task, dict(cfg=cfg, types=[t], what=ops, seed=seed)))
    return js
