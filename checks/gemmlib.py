"""GEMM cases through the public API."""
import random
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig


def sx(v, signed):
    return T.sgn(v, 8) if signed else v


def operands(bd, nl, nr):
    if bd == 1:
        L = Buf.sym('lhs', nl, ro=True, lo=1, hi=255)
        R = Buf.sym('rhs', nr, ro=True)
    elif bd == 2:
        L = Buf.sym('lhs', nl, ro=True)
        R = Buf.sym('rhs', nr, ro=True, lo=0, hi=15)
    elif bd == 3:
        L = Buf('lhs', [T.uns(T.sub(smt.rvar('lhs_%d' % i, 8, 0, 254), 127), 8) for i in range(nl)], 1, True)
        R = Buf.sym('rhs', nr, ro=True)
    else:
        L = Buf.sym('lhs', nl, ro=True)
        R = Buf.sym('rhs', nr, ro=True)
    return L, R


class Gemm(object):
    """int32 GEMM: V = rows depth cols ls rs os threads l1 l2 l2p."""

    def __init__(self, cfg, order, rows, depth, cols, dl=0, dr=0, do=0, bd=0, threads=1, l1=0, l2=0, l2p=0,
                 offsets=None, opt='-O2', src='gemm.cc', prefix='gemm_', outinit='sym', pc=None):
        self.order = order
        self.shape = rows, depth, cols
        lo, ro, oo = order
        self.bd = bd
        self.ls = (depth if lo == 'r' else rows) + dl
        self.rs = (cols if ro == 'r' else depth) + dr
        self.os = (cols if oo == 'r' else rows) + do
        self.nl = ((rows if lo == 'r' else depth) - 1) * self.ls + (depth if lo == 'r' else rows)
        self.nr = ((depth if ro == 'r' else cols) - 1) * self.rs + (cols if ro == 'r' else depth)
        self.no = ((rows if oo == 'r' else cols) - 1) * self.os + (cols if oo == 'r' else rows)
        self.L, self.R = operands(bd, self.nl, self.nr)
        if outinit == 'sym':
            O = Buf.sym('out', 4 * self.no, align=4)
        else:
            O = Buf('out', [outinit] * (4 * self.no), 4)
        self.pc = pc
        if pc is not None:
            src = 'gemmpc.cc'
            lov = [T.var('lhs_offset_%d' % i, 32) for i in range(rows if pc & 1 else 1)]
            rov = [T.var('rhs_offset_%d' % j, 32) for j in range(cols if pc & 2 else 1)]
            self.lovs = lov if pc & 1 else lov * rows
            self.rovs = rov if pc & 2 else rov * cols
            F = [Buf.words('lhs_offsets', lov, 4, ro=True), Buf.words('rhs_offsets', rov, 4, ro=True)]
            extra = ['-DVP_LO=%d' % pc]
        else:
            if offsets is None:
                offsets = (T.var('lhs_offset', 32), T.var('rhs_offset', 32))
            self.lovs, self.rovs = [offsets[0]] * rows, [offsets[1]] * cols
            F = [Buf.words('offsets', offsets, 4, ro=True)]
            extra = ['-DVP_BD=%d' % bd] if src == 'gemm.cc' else []
        self.case = Case(src, cfg, prefix + order, [rows, depth, cols, self.ls, self.rs, self.os, threads, l1, l2, l2p],
                         [self.L, self.R, O] + F, extra=extra, opt=opt)
        self.label = '%s %s %dx%dx%d stride+%d/%d/%d bd%d%s threads=%d l1=%d l2=%d' % (
            cfg, order, rows, depth, cols, dl, dr, do, bd, '' if pc is None else ' pc%d' % pc, threads, l1, l2)

    def li(self, i, k):
        return i * self.ls + k if self.order[0] == 'r' else k * self.ls + i

    def ri(self, k, j):
        return k * self.rs + j if self.order[1] == 'r' else j * self.rs + k

    def oi(self, i, j):
        return i * self.os + j if self.order[2] == 'r' else j * self.os + i

    def acc(self, i, j, expand):
        s = self.bd == 3
        L, R = self.L.content, self.R.content
        depth = self.shape[1]
        lov, rov = self.lovs[i], self.rovs[j]
        if expand:
            p = sa = sb = 0
            for k in range(depth):
                a, b = sx(L[self.li(i, k)], s), sx(R[self.ri(k, j)], s)
                p = T.add(p, T.mul(a, b))
                sa = T.add(sa, a)
                sb = T.add(sb, b)
            return T.add(T.add(p, T.mul(sa, rov)), T.add(T.mul(sb, lov), T.mul(T.mul(lov, rov), depth)))
        p = 0
        for k in range(depth):
            a, b = sx(L[self.li(i, k)], s), sx(R[self.ri(k, j)], s)
            p = T.add(p, T.mul(T.add(a, lov), T.add(b, rov)))
        return p

    def spec(self, expand=None):
        rows, depth, cols = self.shape
        if expand is None:
            expand = rows * cols * depth > 6000
        return [(2, 4 * self.oi(i, j), 4, self.acc(i, j, expand)) for i in range(rows) for j in range(cols)]

    def gaps(self):
        rows, depth, cols = self.shape
        used = set()
        for i in range(rows):
            for j in range(cols):
                o = 4 * self.oi(i, j)
                used.update(range(o, o + 4))
        return [i for i in range(4 * self.no) if i not in used]


def check_gemm(rec, g, seed, validate=False, timeout=90, untouched=True):
    c = g.case
    c.run()
    rec.absorb(c.m)
    if c.fault:
        rec.obligations += 1
        oblig.report_fault(rec, c, g.label, seed)
        return
    ok = oblig.equal(rec, c, g.spec(), g.label, timeout=timeout, seed=seed)
    if untouched:
        oblig.untouched(rec, c, 2, g.gaps(), g.label + ' (between result columns)')
    if validate and ok:
        oblig.validate(rec, c, [s[:3] for s in g.spec(True)], seed)
    rec.samples.append(g.label)


def lemma(rec, signed=False):
    """distributivity used by the expanded specification, discharged once: (a+lo)*(b+ro) = ab + a ro + b lo + lo ro mod 2^32."""
    lo, ro = T.var('lo', 32), T.var('ro', 32)
    a, b = T.var('a', 8), T.var('b', 8)
    if signed:
        a, b = T.sgn(a, 8), T.sgn(b, 8)
    l = T.mul(T.add(a, lo), T.add(b, ro))
    r = T.add(T.add(T.mul(a, b), T.mul(a, ro)), T.add(T.mul(b, lo), T.mul(lo, ro)))
    rec.obligations += 1
    x = smt.differ([(l, r)], 32)
    if x.verdict == 'unsat':
        rec.discharged += 1
    else:
        rec.problem('expansion lemma: ' + x.verdict)


def task(rec, cases, seed, validate=1):
    lemma(rec)
    for k, kw in enumerate(cases):
        check_gemm(rec, Gemm(**kw), seed + k, validate=k < validate)
