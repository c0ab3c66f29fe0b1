"""C22: integer helpers."""
import struct
from vp import term as T, smt
from vp.term import N
from vp.case import Case, Buf
from vp import oblig
from .common import *

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = 'RoundDown, RoundUp, CeilQuotient and RoundUpToPowerOfTwo executed symbolically on arbitrary arguments; z3 decides their definitions.'
MODS = [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 24, 32, 64, 100]


def BOUNDS(tier):
    return {'arguments': 'all non-negative int (and size_t) arguments whose result is representable', 'moduli': MODS, 'configurations': ALL,
            'CeilQuotient': 'all non-negative numerators and positive denominators with a+b-1 representable'}


def run(rec, cfg, entry, ints, nb, pre, claims, label, seed, timeout=100, arith=True):
    c = Case('params.cc', cfg, entry, ints, [Buf('out', [0] * nb, 8)])

    def setup(m):
        for p in pre:
            m.assume(p)
    for p in c.explore(setup, max_paths=200):
        rec.absorb(c.m)
        if c.fault:
            rec.obligations += 1
            oblig.report_fault(rec, c, label, seed)
            return
        oblig.holds(rec, c, claims(c), label, timeout=timeout, seed=seed, arith=arith)
    rec.samples.append(label)


def u(res, off, n):
    return int.from_bytes(res[0][off:off + n], 'little')


def rounding(rec, cfg, seed):
    sb = 32 if cfg == 'armhf' else 64
    for M in MODS:
        x = smt.rvar('x', 32, 0, 0x7fffffff - M)
        y = smt.rvar('y', 63, 0, (1 << (sb - 1)) - 1 - M)

        def claims(c, M=M):
            dn, up = T.sgn(c.got(0, 0, 4), 32), T.sgn(c.got(0, 4, 4), 32)
            dn2, up2 = c.got(0, 8, 8), c.got(0, 16, 8)
            out = []
            for v, d, w, nm, o, n, k in ((x, dn, 32, 'int', 0, 4, 0), (y, dn2, 64, 'size_t', 8, 8, 1)):
                out.append(('%s RoundDown<%d> is the largest multiple not above x' % (nm, M),
                            T.bitop('and', T.bitop('and', T.le(d, v), T.lt(v, T.add(d, M)), 1), T.eq(T.divop('urem', T.uns(d, w), M, w), 0, w), 1),
                            lambda r, i, o=o, n=n, k=k: u(r, o, n) == i[k] // M * M))
            for v, d, w, nm, o, n, k in ((x, up, 32, 'int', 4, 4, 0), (y, up2, 64, 'size_t', 16, 8, 1)):
                out.append(('%s RoundUp<%d> is the smallest multiple not below x' % (nm, M),
                            T.bitop('and', T.bitop('and', T.le(v, d), T.lt(d, T.add(v, M)), 1), T.eq(T.divop('urem', T.uns(d, w), M, w), 0, w), 1),
                            lambda r, i, o=o, n=n, k=k: u(r, o, n) == (i[k] + M - 1) // M * M))
            return out
        run(rec, cfg, 'round_%d' % M, [x, y], 24, [], claims, '%s RoundUp/RoundDown<%d>' % (cfg, M), seed)


def ceilq(rec, cfg, seed, bits):
    a = smt.rvar('a', bits, 0, (1 << bits) - 1)
    b = smt.rvar('b', bits, 1, (1 << bits) - 1)

    def claims(c):
        q = T.sgn(c.got(0, 0, 4), 32)
        p = T.mul(q, b)
        return [('CeilQuotient(a,b) is the ceiling of a/b', T.bitop('and', T.le(a, p), T.lt(p, T.add(a, b)), 1),
                 lambda r, i: u(r, 0, 4) == -(-i[0] // i[1]))]
    run(rec, cfg, 'ceilq', [a, b], 8, [T.le(T.add(a, b), 1 << 31)], claims, '%s CeilQuotient' % cfg, seed, timeout=600)


def pot(rec, cfg, seed):
    sb = 32 if cfg == 'armhf' else 64
    for e, w, hi, nb in (('pot32', 32, 1 << 31, 4), ('pots32', 32, 1 << 30, 4), ('potsz', sb, 1 << (sb - 1), 8)):
        n = smt.rvar('n', w, 1, hi)

        def claims(c, w=w, nb=nb):
            p = T.uns(c.got(0, 0, nb), w)
            pot = T.eq(T.bitop('and', p, T.uns(T.sub(p, 1), w), w), 0, w)
            ok = T.bitop('and', T.bitop('and', pot, T.le(n, p), 1), T.lt(p, T.mul(n, 2)), 1)
            return [('RoundUpToPowerOfTwo(n) is the smallest power of two not below n', ok,
                     lambda r, i: u(r, 0, nb) == 1 << (i[0] % (1 << 64) - 1).bit_length())]
        run(rec, cfg, e, [n], 8, [], claims, '%s %s' % (cfg, e), seed, arith=False)


def jobs(tier, seed):
    js = []
    for c in ALL:
        js.append(('%s/round' % c, rounding, dict(cfg=c, seed=seed)))
        js.append(('%s/pot' % c, pot, dict(cfg=c, seed=seed)))
        js.append(('%s/ceilq' % c, ceilq, dict(cfg=c, seed=seed, bits=31)))
    return js
