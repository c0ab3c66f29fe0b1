"""C10: exp, tanh, logistic on fixed-point numbers."""
from .common import *
from . import translib
LEVEL = 'other'
ASSUMPTIONS = TRUST + ['the true functions are evaluated in double precision by this check; each slice of the argument range is compared with a line '
                       'whose distance to the true function is bounded and added to the tolerance (at most 1 unit in the last place of int16 results)']
EXPLAIN = ('the functions are executed on a symbolic argument; for every slice of the argument range z3 decides that no argument in it gives a result further from '
           'the true value than the tolerance, and that SIMD and scalar results are identical.')


def BOUNDS(tier):
    q = tier == 'quick'
    return {'int16': 'exp: %s; tanh, logistic: %s' % (('every second slice of 256 arguments, integer bits 3 and 6', 'every sixth slice of 256 arguments, integer bits 3') if q else
                ('all arguments, integer bits 0..6', 'all arguments, integer bits 0,3,5')),
            'int32': 'exp SIMD = scalar on all arguments (integer bits 3); accuracy on %d slices of 64 arguments per function' % (5 if q else 40),
            'SIMD = scalar': 'slices of 4 arguments spread over the range', 'outside': 'other integer bits; other int32 slices'}


def points(fn, w, ib, n):
    lo, hi = translib.domain(fn, w, ib)
    one = 1 << (w - 1 - ib)
    ps = [lo, hi - 3, -one // 4 - 2, -one - 2, -2]
    if hi > 0:
        ps += [one // 3, one - 5]
    k = 0
    while len(ps) < n:
        k += 1
        ps.append(lo + (hi - lo) * ((k * 0.6180339887) % 1))
    out = []
    for p in ps[:n]:
        p = int(p)
        out.append((max(lo, min(p, hi - 3)), min(hi, max(p, lo) + 3)))
    return out


def jobs(tier, seed):
    q = tier == 'quick'
    js = []

    def acc(cfg, fn, w, ib, slices, k, simd=False):
        for i in range(k):
            if slices[i::k]:
                js.append(('acc/%s/%s%d/%d/%d' % (cfg, fn, w, ib, i), translib.task, dict(cfg=cfg, fn=fn, w=w, ib=ib, slices=slices[i::k], seed=seed, simd=simd)))

    def full(fn, w, ib, step=1):
        lo, hi = translib.domain(fn, w, ib)
        out = []
        for i, a in enumerate(range(lo, hi + 1, 256)):
            if i % step and i not in (127, 128):
                continue
            out += list(translib.pieces(fn, w, ib, a, min(a + 255, hi), 1.0))
        return out
    for fn in ('tanh', 'logistic'):
        for ib in (3,) if q else (3, 0, 5):
            acc('x86_default', fn, 16, ib, full(fn, 16, ib, 6 if q else 1), 8 if q else 32)
    for fn in ('tanh', 'logistic', 'exp'):
        acc('x86_default', fn, 32, 3, [(a, min(a + 63, translib.domain(fn, 32, 3)[1])) for a, b in points(fn, 32, 3, 5 if q else 40)], 3 if q else 20)
    for cfg in ALL[1:]:
        js.append(('all/%s/exp32' % cfg, translib.all_task, dict(cfg=cfg, fn='exp', w=32, ib=3, seed=seed)))
        for fn in ('exp', 'tanh', 'logistic'):
            for w in (16, 32):
                if w == 32 and fn == 'exp':
                    continue
                p = points(fn, w, 3, (5 if w == 16 else 2) if q else 24)
                js.append(('eq/%s/%s%d' % (cfg, fn, w), translib.task, dict(cfg=cfg, fn=fn, w=w, ib=3, slices=p, seed=seed, what='eq')))
    for ib in (3, 6) if q else (0, 1, 2, 3, 4, 5, 6):
        acc('x86_default', 'exp', 16, ib, full('exp', 16, ib, 2 if q else 1), 4)
    return js
