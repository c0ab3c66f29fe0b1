"""C05: integer requantization stages."""
from .common import *
from . import stagelib
LEVEL = 'other'
ASSUMPTIONS = TRUST + ['inputs whose intermediate sum or product overflows int32 are excluded (undefined behaviour)']
EXPLAIN = ('OutputStageQuantizeDownInt32ToUint8Scale(PC) through the public GEMM on arbitrary accumulators: z3 decides that every result entry is '
           '((acc+offset)*mult) / 2^shift to nearest, ties away from zero, for all int32 accumulators, offsets and multipliers.')


def BOUNDS(tier):
    return {'configurations': ALL, 'shift': 'every value 0..31', 'accumulators, offsets, multipliers': 'all int32 without overflow',
            'shapes': str(stagelib.SHAPES + stagelib.SMALL), 'outside': 'other result shapes'}


def jobs(tier, seed):
    return stagelib.jobs([1, 2, 3, 4], tier, seed, lambda st: list(range(32)))
