"""Emission of terms to z3 integers, for size arithmetic (divisions and remainders, which bit-blasting handles badly).

Terms denote exact integers (see term.py), so the encoding is direct: a wrap is a remainder, a division is q,r with
a = q*b + r.  Operations with no integer counterpart become an unconstrained value in the interval of the node; that only
adds behaviours, so `unsat` is sound, and a model is accepted only if the terms themselves evaluate to true on it."""
import time
import z3
from . import term as T, smt
from .term import N


class Int(object):
    def __init__(self):
        self.ctx = z3.Context()
        self.memo = {}
        self.vars = {}
        self.facts = []
        self.loose = 0
        self.k = 0
        self.prod = {}

    def fresh(self, lo, hi):
        self.k += 1
        v = z3.Int('t%d' % self.k, self.ctx)
        self.facts += [v >= lo, v <= hi]
        return v

    def g(self, p):
        return self.memo[p.id] if p.__class__ is N else z3.IntVal(p, self.ctx)

    def b(self, p):
        """boolean value of a 0/1 operand"""
        if p.__class__ is not N:
            return z3.BoolVal(bool(p & 1), self.ctx)
        v = self.memo[p.id]
        return v if z3.is_bool(v) else v != 0

    def i(self, p):
        if p.__class__ is not N:
            return z3.IntVal(p, self.ctx)
        v = self.memo[p.id]
        return z3.If(v, z3.IntVal(1, self.ctx), z3.IntVal(0, self.ctx)) if z3.is_bool(v) else v

    def divmod(self, x, M, lo, hi):
        """floor division of x by the positive constant M"""
        q = self.fresh(lo // M, hi // M)
        r = self.fresh(0, min(M - 1, hi) if lo >= 0 else M - 1)
        self.facts.append(x == q * M + r)
        return q, r

    def emit(self, root):
        if root.__class__ is not N:
            return
        st = [root]
        while st:
            n = st[-1]
            if n.id in self.memo:
                st.pop()
                continue
            if n.op == 'var':
                ch = ()
            elif n.op == 'cat':
                ch = [p for p, _ in n.args[0]]
            elif n.op == 'uf':
                ch = ()
            else:
                ch = n.args
            todo = [p for p in ch if p.__class__ is N and p.id not in self.memo]
            if todo:
                st.extend(todo)
                continue
            self.memo[n.id] = self.node(n)
            st.pop()

    def node(self, n):
        op, a = n.op, n.args
        if op == 'var':
            v = z3.Int('v_' + a[0], self.ctx)
            self.vars[a[0]] = v
            lo, hi = n.lo, n.hi
            if a[0] in smt.RANGES:
                lo, hi, _ = smt.RANGES[a[0]]
            self.facts += [v >= lo, v <= hi]
            return v
        if op == 'add':
            return self.i(a[0]) + self.i(a[1])
        if op == 'mul':
            return self.i(a[0]) * self.i(a[1])
        if op == 'wrapu':
            return self.divmod(self.i(a[1]), 1 << a[0], *T.rng(a[1]))[1]
        if op == 'wraps':
            h = 1 << (a[0] - 1)
            lo, hi = T.rng(a[1])
            return self.divmod(self.i(a[1]) + h, 2 * h, lo + h, hi + h)[1] - h
        if op == 'slice':
            lo, hi = T.rng(a[0])
            q = self.divmod(self.i(a[0]), 1 << a[1], lo, hi)[0] if a[1] else self.i(a[0])
            lo, hi = lo >> a[1], hi >> a[1]
            if lo >= 0 and hi < 1 << a[2]:
                return q
            return self.divmod(q, 1 << a[2], lo, hi)[1]
        if op == 'shr':
            return self.divmod(self.i(a[0]), 1 << a[1], *T.rng(a[0]))[0]
        if op == 'ite':
            x, y = a[1], a[2]
            if x.__class__ is N and y.__class__ is N and z3.is_bool(self.memo[x.id]) and z3.is_bool(self.memo[y.id]):
                return z3.If(self.b(a[0]), self.b(x), self.b(y))
            return z3.If(self.b(a[0]), self.i(x), self.i(y))
        if op == 'lt':
            return self.i(a[0]) < self.i(a[1])
        if op == 'le':
            return self.i(a[0]) <= self.i(a[1])
        if op == 'eq':
            w = a[2]
            (al, ah), (bl, bh) = T.rng(a[0]), T.rng(a[1])
            if max(ah - bl, bh - al) < 1 << w:
                return self.i(a[0]) == self.i(a[1])
            return self.divmod(self.i(a[0]) - self.i(a[1]), 1 << w, al - bh, ah - bl)[1] == 0
        if op == 'not':
            return z3.Not(self.b(a[0]))
        if op in ('and', 'or', 'xor'):
            if T._isb(a[0]) and T._isb(a[1]) or a[2] == 1:
                x, y = self.b(a[0]), self.b(a[1])
                if a[2] == 1 and not (T._isb(a[0]) and T._isb(a[1])):
                    x, y = [self.low(p) for p in a[:2]]
                return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](x, y)
            if op == 'and':
                for x, c in ((a[0], a[1]), (a[1], a[0])):
                    if c.__class__ is not N:
                        c &= T._M[a[2]]
                        if c and (c & (c + 1)) == 0:
                            return self.divmod(self.i(x), c + 1, *T.rng(x))[1]
                        low = c & -c
                        hi_ = c + low
                        if c and hi_ & (hi_ - 1) == 0:      # 1..10..0
                            lo, hi = T.rng(x)
                            m = self.divmod(self.i(x), hi_, lo, hi)[1] if not (lo >= 0 and hi < hi_) else self.i(x)
                            return self.divmod(m, low, 0, hi_ - 1)[0] * low
            self.loose += 1
            v = self.fresh(n.lo, n.hi)
            M = T._M[a[2]]
            if all(T.rng(p)[0] >= 0 and T.rng(p)[1] <= M for p in a[:2]):
                x, y = self.i(a[0]), self.i(a[1])
                self.facts += {'and': [v <= x, v <= y], 'or': [v >= x, v >= y, v <= x + y], 'xor': [v <= x + y, v >= x - y, v >= y - x]}[op]
            return v
        if op == 'cat':
            r, sh = None, 0
            for p, w in a[0]:
                lo, hi = T.rng(p)
                x = self.i(p) if lo >= 0 and hi < 1 << w else self.divmod(self.i(p), 1 << w, lo, hi)[1]
                x = x * (1 << sh)
                r = x if r is None else r + x
                sh += w
            return r
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            (al, ah), (bl, bh) = T.rng(a[0]), T.rng(a[1])
            if al >= 0 and bl == bh and bl > 0:
                q, r = self.divmod(self.i(a[0]), bl, al, ah)
            else:
                key = tuple(p if p.__class__ is not N else ('n', p.id) for p in a[:2])
                if key not in self.prod:
                    x, y = self.i(a[0]), self.i(a[1])
                    m = max(abs(al), abs(ah))
                    if al >= 0 and bl > 0:
                        q, r = self.fresh(al // bh, ah // bl), self.fresh(0, min(bh - 1, ah))
                        self.facts += [x == q * y + r, r < y]
                    else:       # truncating division; unconstrained when the divisor is 0
                        q, r = self.fresh(-m, m), self.fresh(-m, m)
                        zero = y == 0
                        mag = z3.If(y > 0, y, -y)
                        self.facts += [z3.Or(zero, x == q * y + r), z3.Or(zero, z3.If(x >= 0, z3.And(r >= 0, r < mag), z3.And(r <= 0, -r < mag)))]
                    self.prod[key] = q, r
                q, r = self.prod[key]
            if 1:
                return q if op in ('udiv', 'sdiv') else r
        self.loose += 1
        return self.fresh(n.lo, n.hi)

    def low(self, p):
        if T._isb(p):
            return self.b(p)
        lo, hi = T.rng(p)
        return self.divmod(self.i(p), 2, lo, hi)[1] == 1


def check(assertions, timeout=60, fallback=True):
    t0 = time.time()
    em = Int()
    fs = []
    for x in assertions:
        em.emit(x)
        fs.append(em.b(x))
    s = z3.Solver(ctx=em.ctx)
    s.set('timeout', int(timeout * 1000))
    s.add(*(em.facts + fs))
    smt.STATS['queries'] += 1
    smt.STATS['assertions'] += len(fs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    res = None
    if r == z3.unsat:
        res = smt.Result('unsat')
    elif r == z3.sat:
        m = s.model()
        env = {k: m.eval(v, model_completion=True).as_long() for k, v in em.vars.items()}
        for k in env:
            if k in smt.RANGES:
                env[k] &= T._M[smt.RANGES[k][2]]
        memo = {}
        if all((T.evaluate(x, env, memo) if x.__class__ is N else x) & 1 for x in assertions):
            res = smt.Result('sat', env)
    if res is None:
        smt.STATS['unknown'] += 1
        smt.STATS['solver_s'] += time.time() - t0
        if fallback:
            return smt.check(assertions, timeout=timeout, som=False)
        return smt.Result('unknown')
    res.secs = time.time() - t0
    smt.STATS[res.verdict] += 1
    smt.STATS['solver_s'] += res.secs
    return res


class PathSolver(object):
    """feasibility oracle for branch decisions, in integer arithmetic."""

    def __init__(self, timeout=5):
        self.timeout = timeout

    def feasible(self, pc, lit):
        return check(smt.pcnodes(list(pc) + [lit]), self.timeout, False).verdict != 'unsat'
