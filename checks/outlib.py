"""Output-stage cases (harness out.cc): accumulators x_ij = lhs_offset_i (+ biases)."""
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig

NB = {2: 1, 9: 1, 10: 1, 11: 2, 12: 1, 16: 1, 17: 2}
UNSUPPORTED = {'x86_sse4': {7, 8, 10, 12}, 'aarch64': {12}, 'armhf': {12}}
I32 = (-(1 << 31), (1 << 31) - 1)


def s32(v):
    return T.sgn(v, 32)


def fits(v, w=32):
    lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
    l, h = T.rng(v)
    if l >= lo and h <= hi:
        return 1
    return T.bitop('and', T.le(lo, v), T.le(v, hi), 1)


def conj(*cs):
    r = 1
    for c in cs:
        r = T.bitop('and', r, c, 1)
    return r


def rdpot(y, k):
    """nearest integer to y / 2^k, ties away from zero"""
    if k == 0:
        return y
    return T.shr(T.add(y, T.sub(1 << (k - 1), T.lt(y, 0))), k)


def srdhm(a, b, w=32):
    """nearest integer to a*b / 2^(w-1), ties upward, saturated"""
    m = -(1 << (w - 1))
    p = T.shr(T.add(T.mul(a, b), 1 << (w - 2)), w - 1)
    if a.__class__ is not T.N and b.__class__ is not T.N:
        return min(p, (1 << (w - 1)) - 1)
    both = T.bitop('and', T.eq(a, m, w), T.eq(b, m, w), 1)
    return T.ite(both, (1 << (w - 1)) - 1, s_w(p, w))


def s_w(v, w):
    return T.sgn(v, w)


def clamp(v, lo, hi):
    return T.smin(T.smax(v, lo), hi)


class Out(object):
    def __init__(self, cfg, stage, order, rows, cols, params, do=1, veca=None, vecb=None, tanh=(0, 1)):
        """params: 6 ints or terms"""
        self.stage, self.rows, self.cols, self.order = stage, rows, cols, order
        self.nb = NB.get(stage, 4)
        self.stride = (cols if order == 'r' else rows) + do
        n = ((rows if order == 'r' else cols) - 1) * self.stride + (cols if order == 'r' else rows)
        self.lo = [s32(T.var('acc_%d' % i, 32)) for i in range(rows)]
        self.bias = [s32(T.var('bias_%d' % j, 32)) for j in range(cols)]
        self.cb = [s32(T.var('cbias_%d' % i, 32)) for i in range(rows)]
        nv = max(rows, cols)
        self.pa = veca if veca is not None else [s32(T.var('pa_%d' % i, 32)) for i in range(nv)]
        self.pb = vecb if vecb is not None else [s32(T.var('pb_%d' % i, 32)) for i in range(nv)]
        vlen = rows if stage in (3, 7) else cols if stage in (4, 8) else nv
        self.pa, self.pb = self.pa[:vlen], self.pb[:vlen]
        self.p = [s32(x) if x.__class__ is T.N else x for x in params]
        bufs = [Buf.words('acc', self.lo, 4, ro=True), Buf.words('bias', self.bias, 4, ro=True),
                Buf.sym('out', n * self.nb, align=self.nb), Buf.words('params', self.p, 4, ro=True),
                Buf.words('veca', self.pa, 4, ro=True), Buf.words('vecb', self.pb, 4, ro=True),
                Buf('lhs', [0] * rows, 1, True), Buf('rhs', [0] * cols, 1, True), Buf.words('cbias', self.cb, 4, ro=True)]
        self.tz, self.ta = tanh
        self.case = Case('out.cc', cfg, 'out_' + order, [rows, cols, self.stride, self.tz, self.ta], bufs, extra=['-DVP_STAGE=%d' % stage])
        self.label = '%s output stage %d %s %dx%d params %s' % (cfg, stage, order, rows, cols, [x if x.__class__ is int else 'sym' for x in params])

    def off(self, i, j):
        return self.nb * (i * self.stride + j if self.order == 'r' else j * self.stride + i)

    def value(self, i, j):
        """(term, condition)"""
        st, p = self.stage, self.p
        if st in (1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 15):
            raw = T.add(self.lo[i], self.bias[j])
        elif st in (4, 8, 13, 16, 17):
            raw = T.add(self.lo[i], self.cb[i])
        elif st == 14:
            raw = T.add(T.add(self.lo[i], self.bias[j]), self.cb[i])
        else:
            raw = self.lo[i]
        x = s32(raw)
        cond = fits(raw)
        if st in (1, 2, 3, 4):
            if st in (1, 2):
                o, mu = p[0], p[1]
            else:
                k = i if st == 3 else j
                o, mu = self.pa[k], self.pb[k]
            a = T.add(raw, o)
            y = T.mul(a, mu)
            cond = conj(cond, fits(a), fits(y))
            v = rdpot(s32(y), p[2])
            if st == 2:
                v = clamp(v, 0, 255)
            return v, cond
        if st in (5, 6, 7, 8, 16, 17):
            if st in (5, 16):
                mu, e, o = p[0], -p[1], p[2]
            elif st in (6, 17):
                mu, e, o = p[0], p[1], p[2]
            else:
                k = i if st == 7 else j
                mu, e, o = self.pa[k], self.pb[k], p[2]
            if e > 0:
                sh = T.mul(x, 1 << e)
                cond = conj(cond, fits(sh))
                x = s32(sh)
            v = rdpot(srdhm(x, mu), max(-e, 0))
            v = T.add(v, o)
            cond = conj(cond, fits(v))
            v = s32(v)
            if st in (16, 17):
                cond = conj(cond, T.le(p[3], p[4]))
                v = clamp(v, p[3], p[4])
                v = clamp(v, 0, 255) if st == 16 else clamp(v, -32768, 32767)
            return v, cond
        if st == 9:
            return clamp(x, 0, 255), cond
        if st == 10:
            return clamp(x, -128, 127), cond
        if st == 11:
            return clamp(x, -32768, 32767), cond
        if st == 12:
            return clamp(x, p[3], p[4]), conj(cond, T.le(0, p[3]), T.le(p[3], p[4]), T.le(p[4], 255))
        if st == 13:
            return clamp(x, p[3], p[4]), conj(cond, T.le(p[3], p[4]))
        return x, cond

    def spec(self):
        return [(2, self.off(i, j), self.nb) + self.value(i, j) for i in range(self.rows) for j in range(self.cols)]

    def gaps(self):
        used = set()
        for i in range(self.rows):
            for j in range(self.cols):
                used.update(range(self.off(i, j), self.off(i, j) + self.nb))
        return [k for k in range(self.case.bufs[2].size) if k not in used]


def sym(n):
    return T.var(n, 32)


def check(rec, o, seed, validate=False, timeout=120, cache=None):
    c = o.case
    c.run()
    rec.absorb(c.m)
    if c.fault:
        rec.obligations += 1
        oblig.report_fault(rec, c, o.label, seed)
        return
    ok = oblig.equal_each(rec, c, o.spec(), o.label, timeout=timeout, seed=seed, cache=cache)
    oblig.untouched(rec, c, 2, o.gaps(), o.label + ' (gaps)')
    if validate and ok:
        oblig.validate(rec, c, [s[:3] for s in o.spec()], seed)
    rec.samples.append(o.label)
