"""C07: bias, clamp and cast stages."""
from .common import *
from . import stagelib
LEVEL = 'other'
ASSUMPTIONS = TRUST + ['inputs where a bias addition overflows int32 are excluded', 'the truncating cast is specified on values 0..255 only']
EXPLAIN = ('bias addition (row and column vectors), clamping and the saturating/truncating casts through the public GEMM on arbitrary accumulators.')


def BOUNDS(tier):
    return {'configurations': ALL, 'accumulators, biases, clamp bounds': 'all int32',
            'shapes': str(stagelib.SHAPES + stagelib.SMALL), 'outside': 'other result shapes'}


def jobs(tier, seed):
    return stagelib.jobs([9, 10, 11, 12, 13, 14, 18], tier, seed, lambda st: [0])
