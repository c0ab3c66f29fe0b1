"""C14: a GEMM's result does not depend on what its context was used for before."""
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig
from .common import *
from .gemmlib import Gemm, lemma

LEVEL = 'other'
ASSUMPTIONS = TRUST + ['the tasks of a multi-threaded call are run one after the other (interleavings: C11)']
EXPLAIN = ('Histories of GEMM calls on one context (growing, shrinking, switching storage orders, thread counts and cache settings, empty products in between) executed symbolically with '
           'symbolic operands and offsets per call; after the whole history z3 decides that every call\'s result is its own integer product.')
ORD = ['rcr', 'crc', 'rcc', 'ccr']


def BOUNDS(tier):
    return {'configurations': ALL, 'histories': '%d calls, shapes up to 40x40x40' % (3 if tier == 'quick' else 5), 'operands and offsets': 'all values'}


def history(rec, cfg, calls, seed, validate=False):
    """calls: (order, rows, depth, cols, threads, l1, l2, l2p)"""
    gs, bufs, ints = [], [], [len(calls)]
    for k, (o, r, d, c, th, l1, l2, l2p) in enumerate(calls):
        g = Gemm(cfg, ORD[o], r, max(d, 1), c)
        g.empty = d == 0
        for b, nm in ((g.L, 'a'), (g.R, 'b')):
            b.name = '%s%d' % (nm, k)
            b.content = [T.var('%s%d_%d' % (nm, k, i), 8) for i in range(b.size)]
        offs = [T.var('lo%d' % k, 32), T.var('ro%d' % k, 32)]
        g.lovs, g.rovs = [offs[0]] * r, [offs[1]] * c
        bufs += [g.L, g.R, Buf.sym('out%d' % k, 4 * g.no, align=4), Buf.words('offsets%d' % k, offs, 4, ro=True)]
        ints += [o, r, d, c, th, l1, l2, l2p]
        gs.append(g)
    case = Case('hist.cc', cfg, 'hist', ints, bufs)
    label = '%s history %s' % (cfg, [x[:5] for x in calls])
    case.run()
    rec.absorb(case.m)
    if case.fault:
        rec.obligations += 1
        oblig.report_fault(rec, case, label, seed)
        return
    spec = []
    for k, g in enumerate(gs):
        if g.empty:
            oblig.untouched(rec, case, 4 * k + 2, range(4 * g.no), label + ' (empty product)')
        else:
            spec += [(4 * k + 2, o, n, t) for _, o, n, t in g.spec()]
    ok = oblig.equal(rec, case, spec, label, seed=seed)
    if ok and validate:
        oblig.validate(rec, case, [x[:3] for x in spec], seed)
    rec.samples.append(label)


def task(rec, cfg, hs, seed):
    lemma(rec)
    for k, h in enumerate(hs):
        history(rec, cfg, h, seed + k, validate=k == 0)


def jobs(tier, seed):
    H = [
        # growing then shrinking
        [(0, 3, 5, 2, 1, 0, 0, 0), (1, 13, 18, 9, 1, 0, 0, 0), (0, 3, 5, 2, 1, 0, 0, 0)],
        # many threads, then one, then many with other cache settings
        [(2, 36, 230, 16, 2, 0, 0, 0), (2, 5, 3, 7, 1, 300, 900, 50), (0, 33, 256, 16, 2, 3000, 20000, 75)],
        # empty product in between; cache settings shrink
        [(3, 14, 17, 5, 1, 0, 0, 0), (0, 4, 0, 6, 1, 0, 0, 0), (1, 25, 9, 26, 1, 200, 500, 25)],
    ]
    if tier == 'thorough':
        H += [H[0] + H[2][2:] + H[0][1:2], H[2] + H[0][:2], [(k % 4, 4 + 7 * k, 3 + 5 * k, 29 - 6 * k, 1 + k % 3, [0, 300][k % 2], [0, 900][k % 2], [0, 50][k % 2]) for k in range(5)],
              [(k % 4, 33, 65, 34 - k, k + 1, 0, 0, 0) for k in range(3)]]
    js = []
    for c in ALL:
        for k, h in enumerate(H):
            js.append(('%s/%d' % (c, k), task, dict(cfg=c, hs=[h], seed=seed + k)))
    return js
