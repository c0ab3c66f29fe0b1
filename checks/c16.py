"""C16: a GEMM with a zero size touches nothing."""
from vp import term as T, smt
from vp.term import N
from vp.case import Case, Buf
from vp import oblig
from vp.execu import Unsupported
from .common import *

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('rows, depth and columns are symbolic non-negative 31-bit integers of which at least one is zero; every feasible path of the entry point is executed: none may read an operand or '
           'offset (the buffers are empty, so any access is a fault), and the result keeps its symbolic initial bytes.')
ENT = ['v32_rcr', 'v32_rcc', 'vpc_rcr', 'vpc_rcc', 'v32_rrr', 'v32_crc', 'v32_ccr', 'vpc_ccc', 'v8_rcc', 'v8_crr']


def BOUNDS(tier):
    return {'configurations': ALL, 'sizes': 'all non-negative int sizes with at least one zero', 'threads': '1, 4', 'entry points': ENT}


def task(rec, cfg, seed, s8=False):
    for e in ENT[:4] if s8 else ENT:
        for th in (1, 4):
            sz = [smt.rvar(n, 32, 0, 0x7fffffff) for n in ('rows', 'depth', 'cols')]
            r, d, c = sz
            bufs = [Buf('lhs', [], 1, True), Buf('rhs', [], 1, True), Buf.sym('out', 8, 4), Buf('lhs_offsets', [], 4, True), Buf('rhs_offsets', [], 4, True)]
            case = Case('vac.cc', cfg, e, sz + [1, 1, 1, th], bufs, extra=['-DVP_S8'] if s8 else [])
            label = '%s %s%s threads=%d, a zero size' % (cfg, e, ' int8' if s8 else '', th)

            def setup(m):
                z = [T.eq(x, 0, 32) for x in sz]
                m.assume(T.bitop('or', T.bitop('or', z[0], z[1], 1), z[2], 1))
            n = 0
            try:
                for p in case.explore(setup, max_paths=64):
                    n += 1
                    rec.absorb(case.m)
                    rec.obligations += 1
                    if case.fault:
                        oblig.report_fault(rec, case, label, seed)
                        return
                    rec.discharged += 1
                    oblig.untouched(rec, case, 2, range(8), label)
            except Unsupported as x:
                # the path goes on with symbolic sizes: take small sizes on it and decide those
                if not small(rec, case, sz, th, e, s8, label, seed):
                    rec.problem('%s: %s' % (label, x))
                return
            if not n:
                rec.problem(label + ': no feasible path')
            rec.samples.append('%s: %d paths' % (label, n))


def small(rec, case, sz, th, e, s8, label, seed):
    pc = smt.pcnodes(case.m.pc)
    block = []
    for k in range(6):
        r = smt.check(pc + [T.le(x, 9) for x in sz] + block, timeout=30, som=False)
        if r.verdict != 'sat':
            break
        v = [r.model.get(n, 0) for n in ('rows', 'depth', 'cols')]
        block.append(T.bnot(T.bitop('and', T.bitop('and', T.eq(sz[0], v[0], 32), T.eq(sz[1], v[1], 32), 1), T.eq(sz[2], v[2], 32), 1)))
        bufs = [Buf('lhs', [], 1, True), Buf('rhs', [], 1, True), Buf.sym('out', 4 * 100, 4), Buf.words('lhs_offsets', [3] * v[0], 4, 4, True),
                Buf.words('rhs_offsets', [4] * v[2], 4, 4, True)]
        c = Case(case.src, case.cfg, e, v + [10, 10, 10, th], bufs, extra=case.extra)
        c.run()
        rec.obligations += 1
        l = '%s (rows=%d depth=%d cols=%d)' % (label, v[0], v[1], v[2])
        if c.fault:
            oblig.report_fault(rec, c, l, seed)
            return True
        rec.discharged += 1
        if not oblig.untouched(rec, c, 2, range(400), l):
            return True
    return False


def jobs(tier, seed):
    return [('%s' % c, task, dict(cfg=c, seed=seed)) for c in ALL] + [('%s/int8' % c, task, dict(cfg=c, seed=seed, s8=True)) for c in ARM]
