"""Quantized GEMM with uint8 results."""
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig
from .gemmlib import Gemm, lemma
from .outlib import rdpot, clamp, fits, conj, s32


class Q8(Gemm):
    def __init__(self, cfg, order, rows, depth, cols, shift=8, mult=None, legacy=None, a5b7=0, threads=1, flt=False, offs=None, tag='', free=1, **kw):
        Gemm.__init__(self, cfg, order, rows, depth, cols, threads=threads, **kw)
        b = self.case.bufs
        v = self.case.ints
        if tag:
            for x in (self.L, self.R):
                x.name += tag
                x.content = [T.var('%s_%d' % (x.name, i), 8) for i in range(x.size)]
        lo, ro = offs or (s32(T.var('lhs_offset' + tag, 32)), s32(T.var('rhs_offset' + tag, 32)))
        self.lovs, self.rovs = [lo] * rows, [ro] * cols
        self.ofs = s32(T.var('res_offset' + tag, 32))
        self.mult = s32(T.var('mult' + tag, 32)) if mult is None else mult
        self.shift = shift
        self.flt = flt
        self.nb = 4 if flt else 1
        self.cof = T.var('c_offset' + tag, 32)
        pars = [lo, ro] + ([self.cof, 0] if flt else [self.ofs, self.mult])
        bufs = [self.L, self.R, Buf.sym('out' + tag, self.nb * self.no, align=self.nb), Buf.words('params' + tag, pars, 4, ro=True)]
        ints = list(v[:10]) + [shift]
        if legacy:
            # EightBitIntGemm: a transposed operand is row-major
            ints += [int(c == 'r') for c in order] + [a5b7, free]
            entry = 'legacy_f' if flt else 'legacy_q8'
        else:
            ints += [0]
            entry = 'q8_' + order
        self.case = Case('q8.cc', cfg, entry, ints, bufs)
        self.label = '%s %s%s %dx%dx%d stride+%d/%d/%d shift %d mult %s%s threads=%d' % (
            cfg, entry, '' if not legacy else ' ' + order, rows, depth, cols, kw.get('dl', 0), kw.get('dr', 0), kw.get('do', 0), shift,
            'any' if mult is None else mult, ' A5B7' if a5b7 else '', threads)

    def value(self, x):
        """result for the accumulator x"""
        if self.flt:
            f = T.uf('sitofp32', ((x, 33),), 32)
            return T.uf('fmul32', ((f, 32), (self.cof, 32)), 32), 1
        a = T.add(x, self.ofs)
        v, c = self.scaled(a)
        return v, conj(fits(a), c)

    def scaled(self, a):
        y = T.mul(a, self.mult)
        return clamp(rdpot(s32(y), self.shift), 0, 255), fits(y)

    def items(self, b=2):
        rows, depth, cols = self.shape
        out = []
        for i in range(rows):
            for j in range(cols):
                a = self.acc(i, j, True)
                out.append((b, self.nb * self.oi(i, j), self.nb, a, self.value) + (() if self.flt else (T.add(a, self.ofs), self.scaled)))
        return out

    def gaps(self):
        rows, depth, cols = self.shape
        used = set()
        for i in range(rows):
            for j in range(cols):
                o = self.nb * self.oi(i, j)
                used.update(range(o, o + self.nb))
        return [i for i in range(self.nb * self.no) if i not in used]


def check(rec, g, seed, validate=False, timeout=90):
    c = g.case
    c.run()
    rec.absorb(c.m)
    if c.fault:
        rec.obligations += 1
        oblig.report_fault(rec, c, g.label, seed)
        return
    ok = oblig.equal_via(rec, c, g.items(), g.label, timeout=timeout, seed=seed)
    oblig.untouched(rec, c, 2, g.gaps(), g.label + ' (between result columns)')
    if validate and ok:
        oblig.validate(rec, c, [s[:3] for s in g.items()], seed)
    rec.samples.append(g.label)
