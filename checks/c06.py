"""C06: fixed-point multiplier stages."""
from .common import *
from . import stagelib
LEVEL = 'other'
ASSUMPTIONS = TRUST + ['inputs where the left shift or the final offset addition overflows int32 are excluded']
EXPLAIN = ('OutputStageQuantizeDownInt32ByFixedPoint and OutputStageScaleInt32ByFixedPointAndExponent(PC) through the public GEMM on arbitrary '
           'accumulators: equality with rounding_shift(saturating_rounding_doubling_high_mul(acc << left, mult), right) + offset.')


def BOUNDS(tier):
    return {'configurations': ALL, 'shift': 'every value 0..31', 'exponent': 'every value -31..30 (scalar stage) and mixtures (per channel)',
            'accumulators, offsets, multipliers': 'all int32 without overflow',
            'shapes': str(stagelib.SHAPES + stagelib.SMALL), 'outside': 'other result shapes'}


def jobs(tier, seed):
    def ks(st):
        if tier == 'quick' and st == 16:
            return [0, 1, 7, 31]
        if tier == 'quick' and st == 17:
            return [-31, -9, -1, 0, 1, 8]
        if st in (5, 16):
            return list(range(32))
        if st in (6, 17):
            return list(range(-31, 31))
        return list(range(0, 62, 5))
    return stagelib.jobs([5, 6, 7, 8, 16, 17], tier, seed, ks)
