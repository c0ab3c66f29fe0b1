"""exp / tanh / logistic on fixed-point numbers (harness trans.cc): slices of the argument range."""
import math
from vp import term as T, smt, sweep
from vp.case import Case, Buf, decide, collect
from vp import oblig

LANES = {'x86_default': (1, 1), 'x86_sse4': (4, 8), 'x86_avx2': (8, 16), 'aarch64': (4, 8), 'armhf': (4, 8)}
REAL = {'exp': math.exp, 'tanh': math.tanh, 'logistic': lambda x: 1 / (1 + math.exp(-x)),
        'expq': math.exp, 'inv': lambda x: 1 / (1 + x), 'mob': lambda x: (1 - x) / (1 + x)}
# largest error in units of the last place: the tolerances the library's own tests grant, plus the rounding of their reference
TOL = {'exp': {16: 3, 32: 501}, 'tanh': {16: 13, 32: 311}, 'logistic': {16: 7, 32: 156},
       'expq': {16: 2, 32: 501}, 'inv': {16: 6, 32: 7}, 'mob': {16: 12, 32: 13}}
F = 24


def domain(fn, w, ib):
    mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
    if fn == 'exp':
        return mn, 0
    if fn == 'expq':
        return -(1 << (w - 3)), -1
    if fn in ('inv', 'mob'):
        return 0, mx
    return mn, mx


def line(fn, w, ib, a, b):
    """integer line  m*(x-a)+c  (scaled by 2^F) and a bound of its distance to the function on [a,b]"""
    f, S, sc = REAL[fn], 2.0 ** (w - 1), 2.0 ** (w - 1 - ib)
    g = lambda x: f(x / sc) * S
    n = b - a
    y0, y1 = g(a), g(b)
    m = int(round((y1 - y0) / n * 2 ** F)) if n else 0
    c = int(round(y0 * 2 ** F))
    h = n / sc
    # the chord of a function with |f''| <= 1 (true of all of these; <= 4 for 1/(1+x), (1-x)/(1+x)) is within h^2/8 |f''|
    e = h * h / 8 * (4 if fn in ('inv', 'mob') else 1) * S
    step = max(1, n // 32)
    e2 = max(abs((c + m * (x - a)) / 2.0 ** F - g(x)) for x in range(a, b + 1, step))
    return m, c, min(e, 2 * e2 + 0.5) + 2.0 ** -8 * (1 if w == 16 else 64)


def pieces(fn, w, ib, a, b, maxerr):
    """split [a,b] until the line is close"""
    st = [(a, b)]
    while st:
        x, y = st.pop()
        m, c, e = line(fn, w, ib, x, y)
        if e > maxerr and y - x > 15:
            mid = (x + y) // 2
            st += [(mid + 1, y), (x, mid)]
            continue
        yield x, y


def build(cfg, fn, w, ib, a, b, simd, tag=''):
    nb = w // 8
    L = LANES[cfg][0 if w == 32 else 1] if simd else 1
    n = b - a
    lo = smt.rvar('x%s' % tag, max(1, n.bit_length()), 0, n) if n else 0
    x = T.add(lo, a)
    vals = [x] + [T.add(a, (7 * i) % (n + 1)) for i in range(1, L)]
    c = Case('trans.cc', cfg, '%s_%s_%d' % ('t' if simd else 'u', fn, w), [],
             [Buf.words('a', vals, nb, align=1, ro=True), Buf.sym('simd', L * nb), Buf.sym('scalar', L * nb)], extra=['-DVP_IB=%d' % ib])
    return c, lo


def accurate(rec, cfg, fn, w, ib, a, b, seed, simd=False, qt=20):
    """every argument in [a,b]: the result is within TOL of the true value"""
    nb = w // 8
    work = [(a, b)]
    label = '%s %s int%d, %d integer bits%s' % (cfg, fn, w, ib, ' (SIMD)' if simd else '')
    rec.obligations += 1
    while work:
        a, b = work.pop()
        c, lo = build(cfg, fn, w, ib, a, b, simd)
        c.run()
        rec.absorb(c.m)
        if c.fault:
            oblig.report_fault(rec, c, label, seed)
            return False
        ob = 1 if simd else 2
        m, cc, e = line(fn, w, ib, a, b)
        tol = int((TOL[fn][w] + e) * 2 ** F)
        got = T.sgn(c.got(ob, 0, nb), w)
        d = T.sub(T.mul(got, 1 << F), T.add(T.mul(lo, m), cc))
        ok = T.bitop('and', T.le(d, tol), T.le(-tol, d), 1)
        r = decide([(ok, 1)], 1, c.m.pc, timeout=qt if b - a > 3 else 120, seed=seed)
        if r.verdict == 'unsat':
            continue
        if r.verdict == 'unknown' and b - a > 3:
            mid = (a + b) // 2
            work += [(a, mid), (mid + 1, b)]
            continue
        if r.verdict != 'sat':
            rec.problem('%s on [%d,%d]: solver answered %s' % (label, a, b, r.verdict))
            return False
        st, res, logs, err = c.native(r.env)
        if st != 0:
            rec.violation('%s: native run ends with %s' % (label, st), c.describe(r.env))
            return False
        raw = oblig.val(T.add(lo, a), r.env)
        y = int.from_bytes(res[ob][:nb], 'little')
        y -= (1 << w) if y >> (w - 1) else 0
        true = REAL[fn](raw / 2.0 ** (w - 1 - ib)) * 2.0 ** (w - 1)
        if abs(y - true) > TOL[fn][w]:
            rec.violation('%s of raw %d: got %d, true value %.2f, tolerance %d' % (label, raw, y, true, TOL[fn][w]),
                          dict(c.describe(r.env), got=y, true=true))
        else:
            rec.problem('%s of raw %d: counterexample does not reproduce natively (got %d, true %.2f)' % (label, raw, y, true))
        return False
    rec.discharged += 1
    return True


def agrees(rec, cfg, fn, w, ib, a, b, seed, qt=10):
    """every argument in [a,b]: the SIMD result (first lane symbolic, the others spread over the slice) is the scalar result"""
    nb = w // 8
    L = LANES[cfg][0 if w == 32 else 1]
    label = '%s %s SIMD = scalar, int%d, %d integer bits' % (cfg, fn, w, ib)
    work = [(a, b)]
    rec.obligations += 1
    while work:
        a, b = work.pop()
        c, lo = build(cfg, fn, w, ib, a, b, True)
        c.run()
        rec.absorb(c.m)
        if c.fault:
            oblig.report_fault(rec, c, label, seed)
            return False
        r = decide([(c.got(1, i * nb, nb), c.got(2, i * nb, nb)) for i in range(L)], w, c.m.pc, timeout=qt if b > a else 100, seed=seed)
        if r.verdict == 'unsat':
            continue
        if r.verdict == 'unknown' and b > a:
            mid = (a + b) // 2
            work += [(a, mid), (mid + 1, b)]
            continue
        if r.verdict != 'sat':
            rec.problem('%s on [%d,%d]: solver answered %s' % (label, a, b, r.verdict))
            return False
        confirm_pair(rec, c, r.env, L, nb, label)
        return False
    rec.discharged += 1
    return True


def confirm_pair(rec, c, env, L, nb, label):
    st, res, logs, err = c.native(env)
    if st == 0 and all(res[1][i * nb:(i + 1) * nb] == res[2][i * nb:(i + 1) * nb] for i in range(L)):
        rec.problem('%s: counterexample does not reproduce natively' % label)
    else:
        rec.violation('%s: lanes %s, scalar %s (status %s)' % (label, res and res[1].hex(), res and res[2].hex(), st), c.describe(env))


def agrees_all(rec, cfg, fn, w, ib, seed, budget=100):
    """the whole domain at once, by equivalence sweeping"""
    nb = w // 8
    L = LANES[cfg][0 if w == 32 else 1]
    label = '%s %s SIMD = scalar, int%d, %d integer bits, whole domain' % (cfg, fn, w, ib)
    lo, hi = domain(fn, w, ib)
    vals = [T.sgn(T.var('a_%d' % i, w), w) for i in range(L)]
    c = Case('trans.cc', cfg, 't_%s_%d' % (fn, w), [],
             [Buf.words('a', vals, nb, align=1, ro=True), Buf.sym('simd', L * nb), Buf.sym('scalar', L * nb)], extra=['-DVP_IB=%d' % ib])
    c.run()
    rec.absorb(c.m)
    rec.obligations += 1
    if c.fault:
        oblig.report_fault(rec, c, label, seed)
        return
    from vp.case import alpha
    seen = set()
    for i in range(L):
        x, y = c.got(1, i * nb, nb), c.got(2, i * nb, nb)
        pc = list(c.m.pc)
        for k in (T.le(vals[i], hi), T.le(lo, vals[i])):
            if k.__class__ is T.N:
                pc.append((k, 1))
        key = alpha([x, y])
        if key in seen:
            continue
        v, env, _ = sweep.equal(x, y, w, pc, seed, budget)
        if v == 'sat':
            env = dict(env)
            for n in collect(vals):
                env.setdefault(n, 0)
            confirm_pair(rec, c, env, L, nb, label)
            return
        if v != 'unsat':
            rec.problem('%s: %s' % (label, v))
            return
        seen.add(key)
    rec.discharged += 1
    rec.samples.append(label)


def task(rec, cfg, fn, w, ib, slices, seed, simd=False, what='acc'):
    for a, b in slices:
        if what == 'acc':
            if not accurate(rec, cfg, fn, w, ib, a, b, seed, simd):
                return
        elif not agrees(rec, cfg, fn, w, ib, a, b, seed):
            return
    rec.samples.append('%s %s int%d %d integer bits: %d slices, %s' % (cfg, fn, w, ib, len(slices), what))


def all_task(rec, cfg, fn, w, ib, seed):
    agrees_all(rec, cfg, fn, w, ib, seed)
