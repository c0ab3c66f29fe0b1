"""Fixed-point primitives (harness fp.cc): meaning of each operation per lane."""
from vp import term as T
from vp.case import Case, Buf
from vp import oblig
from .outlib import rdpot, srdhm, clamp, fits, conj

LANES = {'x86_sse4': (4, 8), 'x86_avx2': (8, 16), 'aarch64': (4, 8), 'armhf': (4, 8)}


def spec(op, a, b, m, n, w, scal, got):
    """(meaning, condition) of op on lane values a, b (signed), mask m (0/1), shift n; scal: first scalar / constant"""
    ones = (1 << w) - 1
    mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
    M = lambda c: T.ite(c, ones, 0) if c.__class__ is T.N else (ones if c else 0)
    if op.startswith('F_'):
        op = op[2:]
        if op == 'mul':
            op = 'srdhm'
        elif op == 'eq' or op == 'ne':
            raise KeyError(op)
        elif op == 'one':
            return 1 << (w - 1 - 2), 1
        elif op == 'zero':
            return 0, 1
        elif op == 'one0':
            return mx, 1
        elif op == 'pot':
            return 1 << (w - 1 - 2 - 3), 1
        elif op == 'exact' or op == 'same':
            return a, 1
        elif op == 'up':
            return clamp(T.mul(a, 4), mn, mx), 1
        elif op == 'down':
            return rdpot(a, 3), 1
        elif op == 'const':
            # an int32 raw value shifted down to the scalar type, rounding to nearest (values that round out of range excluded)
            v = rdpot(scal, 32 - w)
            return v, fits(v, w)
    if op in ('add', 'sub', 'mul'):
        v = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op](a, b)
        return v, fits(v, w)
    if op in ('and', 'or', 'xor'):
        return T.bitop(op, T.uns(a, w), T.uns(b, w), w), 1
    if op == 'not':
        return T.sub(-1, a), 1
    if op == 'neg':
        v = T.neg(a)
        return v, fits(v, w)
    if op == 'dup':
        return scal, 1
    if op == 'shl':
        v = T.mul(a, 1 << n)
        return v, fits(v, w)
    if op == 'shr':
        return T.shr(a, n), 1
    if op == 'sel':
        return T.ite(m, a, b), 1
    if op in ('ifz', 'ifnz', 'ifeq', 'ifne'):
        e = T.eq(a, 0 if op in ('ifz', 'ifnz') else b, w)
        return M(e if op in ('ifz', 'ifeq') else T.bnot(e)), 1
    if op in ('ifgt', 'ifge', 'iflt', 'ifle'):
        return M({'ifgt': T.lt(b, a), 'ifge': T.le(b, a), 'iflt': T.lt(a, b), 'ifle': T.le(a, b)}[op]), 1
    if op == 'rhs':
        s = T.add(a, b)
        up = T.shr(T.add(s, 1), 1)
        away = T.neg(T.shr(T.sub(1, s), 1))
        odd = T.eq(T.bitop('and', T.uns(s, w + 1), 1, w + 1), 1, w + 1)
        # nearest; a tie goes up when the sum is not negative, either way otherwise
        neg = T.bitop('and', T.lt(s, 0), odd, 1)
        return T.ite(neg, T.ite(T.eq(got, away, w), away, up), up), 1
    if op == 'srdhm':
        return srdhm(a, b, w), 1
    if op == 'rdpot':
        return rdpot(a, n), 1
    if op == 'satadd' or (op == 'addsat16' and w == 16):
        return clamp(T.add(a, b), mn, mx), 1
    if op == 'addsat16':
        return T.add(a, b), fits(T.add(a, b), w)
    if op.startswith('pot_p'):
        return clamp(T.mul(a, 1 << n), mn, mx), 1
    if op.startswith('pot_m'):
        return rdpot(a, n), 1
    raise KeyError(op)


OPS = ['add', 'sub', 'mul', 'and', 'or', 'xor', 'not', 'neg', 'dup', 'sel', 'ifz', 'ifnz', 'ifeq', 'ifne', 'ifgt', 'ifge', 'iflt', 'ifle',
       'all', 'any', 'lanes', 'rhs', 'srdhm', 'addsat16', 'satadd',
       'F_mul', 'F_neg', 'F_not', 'F_add', 'F_sub', 'F_and', 'F_xor', 'F_or', 'F_rhs', 'F_addsat16', 'F_ifz', 'F_ifnz', 'F_ifeq', 'F_ifne',
       'F_ifgt', 'F_ifge', 'F_iflt', 'F_ifle', 'F_sel', 'F_eq', 'F_ne', 'F_one', 'F_zero', 'F_one0', 'F_pot', 'F_exact', 'F_up', 'F_down', 'F_same', 'F_const']


def one(rec, cfg, op, t, n, seed, cache, validate=False):
    w = int(t[1:])
    vec = t[0] == 'v'
    lanes = LANES[cfg][0 if w == 32 else 1] if vec else 1
    nb = w // 8
    A = [T.sgn(T.var('a_%d' % i, w), w) for i in range(lanes)]
    Bv = [T.sgn(T.var('b_%d' % i, w), w) for i in range(lanes)]
    mk = [T.var('m_%d' % i, 1) for i in range(lanes)]
    C = [T.ite(x, -1, 0) for x in mk]
    scal = A[0]
    if op == 'F_const':
        scal = T.sgn(T.var('const', 32), 32)
        C = [scal]
    pot = op.startswith('pot')
    pred = op in ('all', 'any', 'F_eq', 'F_ne', 'lanes')
    bufs = [Buf.words('a', A, nb, align=1, ro=True), Buf.words('b', Bv, nb, align=1, ro=True),
            Buf.words('c', C, 4 if op == 'F_const' else nb, align=4 if op == 'F_const' else 1, ro=True),
            Buf.sym('out', 1 if pred else lanes * nb)]
    if op == 'dup':
        bufs[0] = Buf.words('a', A, nb, align=nb, ro=True)
    name = '%s_%s' % (op, t) if pot else 'fp_%s_%s' % (op, t)
    c = Case('fp.cc', cfg, name, [n], bufs, extra=['-DVP_POT'] if pot else [])
    label = '%s %s(%s)%s' % (cfg, op, t, ' by %d' % n if op in ('shl', 'shr', 'rdpot') else '')
    if pred:
        for _ in c.explore():
            rec.absorb(c.m)
            if c.fault:
                rec.obligations += 1
                oblig.report_fault(rec, c, label, seed)
                continue
            r = 1 if op != 'any' else 0
            for i in range(lanes):
                if op == 'all':
                    r = T.bitop('and', r, mk[i], 1)
                elif op == 'any':
                    r = T.bitop('or', r, mk[i], 1)
                else:
                    r = T.bitop('and', r, T.eq(A[i], Bv[i], w), 1)
            if op == 'F_ne':
                r = T.bnot(r)
            if op == 'lanes':
                r = lanes
            oblig.equal(rec, c, [(3, 0, 1, r)], label, seed=seed)
        return
    c.run()
    rec.absorb(c.m)
    if c.fault:
        rec.obligations += 1
        oblig.report_fault(rec, c, label, seed)
        return
    sp = []
    for i in range(lanes):
        v, cond = spec(op, A[i], Bv[i], mk[i], n, w, scal, c.got(3, i * nb, nb))
        sp.append((3, i * nb, nb, v, cond))
    ok = oblig.equal_each(rec, c, sp, label, timeout=100, seed=seed, cache=cache)
    if ok and validate:
        oblig.validate(rec, c, [s[:3] for s in sp], seed, runs=3)
    rec.samples.append(label)


def task(rec, cfg, types, what, seed):
    cache = set()
    for t in types:
        w = int(t[1:])
        for op in what:
            if op == 'satadd' and t[1:] == '32':
                continue
            if t == 's8' and op != 'satadd':
                continue
            if op == 'pot':
                for k in range(w - 1):
                    for s in 'pm':
                        one(rec, cfg, 'pot_%s%d' % (s, k), t, k, seed, cache, k in (3, 7))
            elif op in ('shl', 'shr', 'rdpot'):
                for k in range(w - 1 if op == 'shl' else w):
                    one(rec, cfg, op, t, k, seed, cache, k in (1, 9))
            else:
                one(rec, cfg, op, t, 0, seed, cache, True)


_F = [o for o in OPS if o.startswith('F_') and o != 'F_mul']
GROUPS = [[o for o in OPS if not o.startswith('F_') and o not in ('rhs', 'srdhm', 'addsat16', 'satadd')],
          ['rhs', 'addsat16', 'satadd'] + _F, ['srdhm', 'F_mul'], ['pot'], ['shl', 'shr'], ['rdpot']]
