"""C17: the EightBitIntGemm interface."""
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig
from .common import *
from . import q8lib
from .gemmlib import lemma

LEVEL = 'other'
ASSUMPTIONS = TRUST + ['float results: the int-to-float conversion and the product are uninterpreted functions, the same in code and specification']
EXPLAIN = ('EightBitIntGemm (quantized and float results) executed symbolically for every combination of transposition flags, leading dimensions and bit-depth settings, alone and after an earlier '
           'call on the same global state; z3 decides every result entry.')


def BOUNDS(tier):
    return {'configurations': ALL, 'transposition': 'all eight combinations', 'shapes': 'up to 26x35x17', 'bit depths': 'A8B8, A5B7', 'histories': 'two calls, quantized and float, growing and shrinking',
            'zero sizes': 'm, n or k equal to 0', 'operands, offsets, multiplier, float factor': 'all values'}


def task(rec, cases, seed):
    lemma(rec)
    for k, kw in enumerate(cases):
        q8lib.check(rec, q8lib.Q8(legacy=True, **kw), seed + k, validate=k == 0)


def twice(rec, cfg, pairs, seed):
    for k, (a, b, free) in enumerate(pairs):
        ga, gb = q8lib.Q8(cfg, legacy=True, tag='_1', **a), q8lib.Q8(cfg, legacy=True, tag='_2', **b)
        ints = ga.case.ints[:15] + [free if ga.flt else 1] + gb.case.ints[:15] + [0 if gb.flt else 1]
        case = Case('q8.cc', cfg, 'legacy_twice', ints, ga.case.bufs + gb.case.bufs)
        label = '%s%s then %s' % (ga.label, ', FreePersistentResources' if free or not ga.flt else '', gb.label)
        case.run()
        rec.absorb(case.m)
        if case.fault:
            rec.obligations += 1
            oblig.report_fault(rec, case, label, seed)
            continue
        ok = oblig.equal_via(rec, case, ga.items(2) + gb.items(6), label, seed=seed)
        oblig.untouched(rec, case, 2, ga.gaps(), label)
        oblig.untouched(rec, case, 6, gb.gaps(), label)
        if ok and k == 0:
            oblig.validate(rec, case, [x[:3] for x in ga.items(2) + gb.items(6)], seed)
        rec.samples.append(label)


def zero(rec, cfg, seed):
    """a zero size leaves the result alone"""
    for fl in (0, 1):
        for m, k, n in ((3, 0, 2), (0, 4, 2), (3, 4, 0), (0, 0, 0)):
            for t in range(8):
                fl3 = [(t >> i) & 1 for i in range(3)]
                nb = 4 if fl else 1
                bufs = [Buf.sym('lhs', m * k, ro=True), Buf.sym('rhs', k * n, ro=True), Buf.sym('out', nb * 6, align=nb),
                        Buf.words('params', [T.var('p%d' % i, 32) for i in range(4)], 4, ro=True)]
                ints = [m, k, n, k if fl3[0] else m, n if fl3[1] else k, n if fl3[2] else m, 1, 0, 0, 0, 5] + fl3 + [0, 1]
                case = Case('q8.cc', cfg, 'legacy_f' if fl else 'legacy_q8', ints, bufs)
                case.run()
                rec.absorb(case.m)
                label = '%s %s %dx%dx%d transposed %s' % (cfg, case.entry, m, k, n, fl3)
                if case.fault:
                    rec.obligations += 1
                    oblig.report_fault(rec, case, label, seed)
                    return
                if not oblig.untouched(rec, case, 2, range(nb * 6), label):
                    return
    rec.samples.append('%s zero sizes' % cfg)


def jobs(tier, seed):
    js = []
    sh = [8, 0, 3, 16, 31, 1, 12, 21]
    for ci, c in enumerate(ALL):
        R, C, D = KERN[c]
        cs = []
        for t in range(8):
            o = ''.join('r' if (t >> i) & 1 else 'c' for i in range(3))
            r, d, n = [(R + 1, 4, C + 1), (C + 1, 17, R + 1), (3, 9, 5), (R, 3, 2)][(t + ci) % 4]
            for fl in (0, 1):
                cs.append(dict(cfg=c, order=o, rows=r, depth=d, cols=n, shift=sh[(t + ci) % 8], a5b7=(t + fl) % 2, flt=bool(fl), dl=t % 2, dr=(t // 2) % 2, do=(t + fl) % 3))
                if tier == 'thorough':
                    cs.append(dict(cfg=c, order=o, rows=d + 2, depth=r, cols=n + 1, shift=sh[(t + ci + 3) % 8], a5b7=(t + fl + 1) % 2, flt=bool(fl), dl=0, dr=0, do=0))
        n = 2 if tier == 'quick' else 4
        for i in range(n):
            js.append(('%s/%d' % (c, i), task, dict(cases=cs[i::n], seed=seed)))
        P = lambda o, r, d, n, fl: dict(order=o, rows=r, depth=d, cols=n, flt=bool(fl), shift=4)
        pairs = [(P('rcr', 3, 4, 2, 1), P('ccr', 9, 5, 7, 1), 0), (P('crc', 9, 5, 7, 1), P('rcr', 5, 3, 2, 1), 0), (P('rcr', 9, 5, 7, 1), P('rrc', 4, 5, 3, 0), 0),
                 (P('rcc', 13, 5, 2, 0), P('rcr', 4, 5, 3, 1), 0), (P('rcr', 4, 3, 3, 1), P('ccr', 4, 3, 3, 1), 2), (P('rcr', 4, 3, 3, 1), P('ccr', 6, 3, 3, 1), 2)]
        # results that grow by 1 .. 16 entries, 4 .. 64 bytes: around the slack of the scratch buffer
        pairs += [(P('rcr', 4, 2, 5, 1), P('rcr', r, 2, n, 1), 0) for r, n in ((7, 3), (11, 2), (23, 1), (6, 4), (5, 5), (13, 2), (9, 3), (7, 4), (6, 6))]
        js.append(('%s/twice' % c, twice, dict(cfg=c, pairs=pairs, seed=seed)))
        js.append(('%s/zero' % c, zero, dict(cfg=c, seed=seed)))
    return js
