"""Multi-threaded GEMM through a caller-supplied workers pool (harness gemmmt.cc)."""
from vp import term as T, smt
from vp.case import Case, Buf
from vp import oblig
from .gemmlib import Gemm, lemma
from .outlib import rdpot, clamp, fits, conj, s32


class MT(Gemm):
    def __init__(self, cfg, order, rows, depth, cols, threads=2, dl=0, dr=0, do=0, l1=0, l2=0, l2p=0, pc=0, sched=0, u8=None):
        Gemm.__init__(self, cfg, order, rows, depth, cols, dl, dr, do, 0, threads, l1, l2, l2p, pc=3 if pc else None)
        self.u8 = u8
        b = self.case.bufs
        if pc:
            bufs = b[:5]
        else:
            lo, ro = self.lovs[0], self.rovs[0]
            bufs = b[:3] + [Buf.words('lhs_offset', [lo], 4, ro=True), Buf.words('rhs_offset', [ro], 4, ro=True)]
        self.bias = [s32(T.var('bias_%d' % i, 32)) for i in range(rows)]
        self.par = [s32(T.var('res_offset', 32)), s32(T.var('res_mult', 32))]
        self.nb = 4
        if u8 is not None:
            self.nb = 1
            bufs[2] = Buf.sym('out', self.no)
        bufs += [Buf.words('bias', self.bias, 4, ro=True), Buf.words('params', self.par, 4, ro=True)]
        self.case = Case('gemmmt.cc', cfg, 'gemm_' + order,
                         [rows, depth, cols, self.ls, self.rs, self.os, threads, l1, l2, l2p, sched, 0, self.no * self.nb, u8 or 0], bufs,
                         extra=['-DVP_PC=%d' % pc] + (['-DVP_U8'] if u8 is not None else []))
        self.label = '%s %s %dx%dx%d threads=%d task order %d l1=%d l2=%d%s%s' % (
            cfg, order, rows, depth, cols, threads, sched, l1, l2, ' per-channel' if pc else '', '' if u8 is None else ' uint8')

    def gaps(self):
        rows, depth, cols = self.shape
        used = set()
        for i in range(rows):
            for j in range(cols):
                o = self.nb * self.oi(i, j)
                used.update(range(o, o + self.nb))
        return [i for i in range(self.nb * self.no) if i not in used]


class Tracker(object):
    """per task, the bytes read and written in objects that the task did not create itself"""

    def __init__(self):
        self.cur = None
        self.calls = []          # [(call, task, {obj: (reads, writes)})]
        self.keep = []

    def __call__(self, m):
        def log(tag, a, b):
            if tag == 1:
                self.cur = ({}, m.nobj)
                self.calls.append((b, a, self.cur[0]))
                m.trace_mem = trace
            elif tag == 2:
                m.trace_mem = None
                self.cur = None

        def trace(w, o, off, n):
            d, seq = self.cur
            if o.seq > seq:
                return
            k = d.get(id(o))
            if k is None:
                k = d[id(o)] = (o, set(), set())
                self.keep.append(o)
            k[1 + w].update(range(off, off + n))
        m.ext['vp_log'] = log

    def conflicts(self):
        by = {}
        for c, t, d in self.calls:
            by.setdefault(c, []).append((t, d))
        out = []
        for c, ts in by.items():
            for i in range(len(ts)):
                for j in range(i):
                    for k, (o, r, w) in ts[i][1].items():
                        e = ts[j][1].get(k)
                        if e is None:
                            continue
                        x = (w & e[2]) | (w & e[1]) | (r & e[2])
                        if x:
                            out.append((c, ts[i][0], ts[j][0], o, min(x), len(x)))
        return out


def check(rec, g, seed, validate=False):
    c = g.case
    tr = Tracker()
    c.run(setup=tr)
    rec.absorb(c.m)
    if c.fault:
        rec.obligations += 1
        oblig.report_fault(rec, c, g.label, seed)
        return
    if not tr.calls:
        rec.notes.append('%s: ran on one thread' % g.label)
    rec.obligations += 1
    con = tr.conflicts()
    if con:
        call, t1, t2, o, at, n = con[0]
        report_conflict(rec, g, call, t1, t2, o, at, n, seed)
    else:
        rec.discharged += 1
    if g.u8 is None:
        sp = g.spec()
        ok = oblig.equal(rec, c, sp, g.label, seed=seed)
    else:
        # the same call on one thread is the specification
        s = MT(*g.args, **dict(g.kw, threads=1, sched=0))
        c1 = s.case
        pairs = [(c.got(2, g.oi(i, j), 1), (i, j)) for i in range(g.shape[0]) for j in range(g.shape[2])]
        got = [(p, c.got(2, g.oi(*p), 1)) for _, p in pairs]
        c1.run()
        rec.absorb(c1.m)
        sp = [(2, g.oi(*p), 1, c1.got(2, s.oi(*p), 1)) for p, _ in got]
        from vp.case import decide
        rec.obligations += 1
        r = decide([(x, y[3]) for (p, x), y in zip(got, sp)], 8, c.m.pc, timeout=100, seed=seed)
        ok = r.verdict == 'unsat'
        if ok:
            rec.discharged += 1
        elif r.verdict == 'sat':
            oblig.confirm_values(rec, c, sp, r.env, g.label + ' compared with one thread')
        else:
            rec.problem('%s: solver answered %s' % (g.label, r.verdict))
        if validate and ok:
            oblig.validate(rec, c1, [x[:3] for x in sp], seed)
        rec.samples.append(g.label)
        return
    oblig.untouched(rec, c, 2, g.gaps(), g.label + ' (between result columns)')
    if validate and ok:
        oblig.validate(rec, c, [x[:3] for x in sp], seed)
    rec.samples.append(g.label + ' (%d tasks)' % len(tr.calls))


def report_conflict(rec, g, call, t1, t2, o, at, n, seed):
    what = '%s: tasks %d and %d of call %d both access %d bytes of %s (first at offset %d), at least one writing' % (g.label, t1, t2, call, n, o.name, at)
    c = g.case
    env = oblig.fault_env(c, seed)
    if o is c.obj[2]:
        ints = list(c.ints)
        c.ints[11] = 1
        st, res, logs, err = c.native(env)
        rep = c.describe(env)
        c.ints = ints
        if st == 0:
            w = [set((cc, k) for t, cc, k in logs if t == 3 + x) for x in (t1, t2)]
            if w[0] & w[1]:
                rec.violation(what + ' [native: both tasks write result byte %d]' % min(k for _, k in w[0] & w[1]), rep)
                return
        rec.problem(what + ' (not confirmed natively)')
        return
    rec.violation(what, dict(c.describe(env), conflict=[call, t1, t2, o.name, at, n]))


def task(rec, cases, seed, validate=1):
    lemma(rec)
    for k, kw in enumerate(cases):
        g = MT(**kw)
        g.args, g.kw = (), kw
        check(rec, g, seed + k, validate=k < validate)
