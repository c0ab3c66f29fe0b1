"""What memory a GEMM call touches (harness foot.cc)."""
from vp import term as T, smt
from vp.term import N
from vp.case import Case, Buf, collect, decide
from vp import oblig
from .gemmlib import operands

from vp.term import rename as term_rename

NB = {0: 4, 1: 1, 2: 2, 3: 1}


class Foot(object):
    def __init__(self, cfg, order, rows, depth, cols, dl=0, dr=0, do=0, bd=0, out=0, pc=0, l1=0, l2=0, l2p=0, oname='out'):
        lo, ro, oo = order
        self.order, self.shape, self.nb = order, (rows, depth, cols), NB[out]
        self.ls = (depth if lo == 'r' else rows) + dl
        self.rs = (cols if ro == 'r' else depth) + dr
        self.os = (cols if oo == 'r' else rows) + do
        nl = ((rows if lo == 'r' else depth) - 1) * self.ls + (depth if lo == 'r' else rows)
        nr = ((depth if ro == 'r' else cols) - 1) * self.rs + (cols if ro == 'r' else depth)
        no = ((rows if oo == 'r' else cols) - 1) * self.os + (cols if oo == 'r' else rows)
        self.no = no
        L, R = operands(bd, nl, nr)
        O = Buf.sym(oname, self.nb * no, align=self.nb)
        F = [Buf.words('lhs_offsets', [T.var('lhs_offset_%d' % i, 32) for i in range(rows if pc else 0)], 4, ro=True),
             Buf.words('rhs_offsets', [T.var('rhs_offset_%d' % i, 32) for i in range(cols if pc else 0)], 4, ro=True)]
        self.case = Case('foot.cc', cfg, 'foot_' + order, [rows, depth, cols, self.ls, self.rs, self.os, 1, l1, l2, l2p, pc],
                         [L, R, O] + F, extra=['-DVP_BD=%d' % bd, '-DVP_OUT=%d' % out])
        self.label = '%s %s %dx%dx%d stride+%d/%d/%d bd%d result type %d%s l1=%d l2=%d' % (
            cfg, order, rows, depth, cols, dl, dr, do, bd, out, ' pc' if pc else '', l1, l2)

    def oi(self, i, j):
        return i * self.os + j if self.order[2] == 'r' else j * self.os + i

    def entries(self):
        return [(2, self.nb * self.oi(i, j), self.nb) for i in range(self.shape[0]) for j in range(self.shape[2])]

    def inputs(self):
        """names of the symbolic bytes that the result may depend on."""
        rows, depth, cols = self.shape
        L, R = self.case.bufs[0].content, self.case.bufs[1].content
        ts = []
        for k in range(depth):
            ts += [L[i * self.ls + k if self.order[0] == 'r' else k * self.ls + i] for i in range(rows)]
            ts += [R[k * self.rs + j if self.order[1] == 'r' else j * self.rs + k] for j in range(cols)]
        for b in self.case.bufs[3:]:
            ts += b.content
        return set(collect(ts))

    def gaps(self):
        used = set()
        for _, o, n in self.entries():
            used.update(range(o, o + n))
        return [i for i in range(self.nb * self.no) if i not in used]


def check(rec, kw, seed, validate=False):
    g = Foot(**kw)
    c = g.case
    rec.obligations += 1
    c.run()
    rec.absorb(c.m)
    if c.fault:
        oblig.report_fault(rec, c, g.label, seed)
        return
    rec.discharged += 1
    oblig.untouched(rec, c, 2, g.gaps(), g.label + ' (between result entries)')
    # every entry is written, and from the operands only: it does not depend on the old result or on uninitialised memory
    ents = g.entries()
    got = [c.got(*e) for e in ents]
    rec.obligations += 1
    bad = [n for n in collect(got) if n.startswith(('out_', 'garbage_'))]
    if bad:
        dependence(rec, g, ents, got, bad, seed)
    else:
        rec.discharged += 1
    # the corner entries are a function of the operand entries alone: the solver decides that they are the same for any
    # other padding, old result and uninitialised memory
    keep = g.inputs()
    rows, depth, cols = g.shape
    memo = {}
    pairs = []
    for k in sorted({0, cols - 1, (rows - 1) * cols, rows * cols - 1}):
        pairs.append((got[k], term_rename(got[k], lambda n: n if n in keep else n + '_other', memo)))
    rec.obligations += 1
    r = smt.differ(pairs, 8 * g.nb, c.m.pc, timeout=60, som=False, simplify_only=not any(a is not b for a, b in pairs))
    if r.verdict == 'unsat':
        rec.discharged += 1
    else:
        allv = set(collect(got)) - keep
        n = rec.discharged
        dependence(rec, g, ents, got, sorted(allv), seed)
    if validate:
        oblig.validate(rec, c, ents, seed)
    rec.samples.append(g.label)


def rename(t, names, memo):
    """t with the given variables replaced by fresh ones (used to ask whether t depends on them)."""
    return term_rename(t, lambda n: n + '_other' if n in names else n, memo)


def dependence(rec, g, ents, got, bad, seed):
    names = set(bad)
    memo = {}
    for e, t in zip(ents, got):
        if t.__class__ is not N or not (set(collect([t])) & names):
            continue
        t2 = rename(t, names, memo)
        r = decide([(t, t2)], 8 * e[2], g.case.m.pc, timeout=60, seed=seed)
        if r.verdict == 'unsat':
            continue
        if r.verdict != 'sat':
            rec.problem('%s: solver answered %s' % (g.label, r.verdict))
            return
        # replay: two native runs that differ only in the old result / the fill of fresh memory
        env = r.env
        outs = []
        for v in range(2):
            e2 = {n: x for n, x in env.items() if not n.endswith('_other')}
            if v:
                for n in names:
                    if n + '_other' in env:
                        e2[n] = env[n + '_other']
            for n in collect([x for b in g.case.bufs for x in b.content]):
                e2.setdefault(n, 0)
            st, res, logs, err = g.case.native(e2, fill=(0x11, 0xee)[v])
            if st != 0:
                rec.problem('%s: native run ends with %s' % (g.label, st))
                return
            outs.append((res, e2))
        for b, o, n in ents:
            if outs[0][0][b][o:o + n] != outs[1][0][b][o:o + n]:
                rec.violation('%s: the result entry at byte %d depends on the previous contents of the result or on uninitialised memory' % (g.label, o),
                              dict(g.case.describe(outs[0][1]), other=g.case.describe(outs[1][1])))
                return
        rec.problem('%s: dependence on %s not reproduced natively' % (g.label, bad[:3]))
        return
    rec.discharged += 1


def task(rec, cases, seed, validate=1):
    for k, kw in enumerate(cases):
        check(rec, kw, seed + k, validate=k < validate)
