"""Equivalence sweeping: rewrites terms by merging sub-terms that the solver proves equal.

Candidate pairs are found by evaluation at sample inputs; every merge is a
solver verdict (unsat) on the two sub-terms, in which already merged sub-terms
may be abstracted by fresh variables of their range.  Evaluation only proposes.
"""
import random
import time
from . import smt
from . import term as T
from .term import N


def kids(n):
    out = []
    for a in n.args:
        if a.__class__ is N:
            out.append(a)
        elif a.__class__ is tuple:
            for y in a:
                if y.__class__ is tuple and y[0].__class__ is N:
                    out.append(y[0])
    return out


def remake(n, g):
    """n with its children mapped by g."""
    op, a = n.op, n.args
    if op == 'add':
        return T.add(g(a[0]), g(a[1]))
    if op == 'mul':
        return T.mul(g(a[0]), g(a[1]))
    if op == 'wrapu':
        return T.uns(g(a[1]), a[0])
    if op == 'wraps':
        return T.sgn(g(a[1]), a[0])
    if op == 'slice':
        return T.slice_(g(a[0]), a[1], a[2])
    if op == 'shr':
        return T.shr(g(a[0]), a[1])
    if op == 'ite':
        return T.ite(g(a[0]), g(a[1]), g(a[2]))
    if op == 'lt':
        return T.lt(g(a[0]), g(a[1]))
    if op == 'le':
        return T.le(g(a[0]), g(a[1]))
    if op == 'eq':
        return T.eq(g(a[0]), g(a[1]), a[2])
    if op == 'not':
        return T.bnot(g(a[0]))
    if op in ('and', 'or', 'xor'):
        return T.bitop(op, g(a[0]), g(a[1]), a[2])
    if op == 'cat':
        return T.cat([(g(p), w) for p, w in a[0]])
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        return T.divop(op, g(a[0]), g(a[1]), a[2])
    if op in ('shlv', 'lshrv', 'ashrv'):
        return T.shiftv({'shlv': 'shl', 'lshrv': 'lshr', 'ashrv': 'ashr'}[op], g(a[0]), g(a[1]), a[2])
    if op == 'uf':
        return T.uf(a[0], tuple((g(p), w) for p, w in a[1]), a[2], n.lo, n.hi)
    return n


def topo(roots):
    seen, out = set(), []
    for r in roots:
        if r.__class__ is not N:
            continue
        st = [(r, 0)]
        while st:
            n, ph = st.pop()
            if ph:
                out.append(n)
                continue
            if n.id in seen:
                continue
            seen.add(n.id)
            st.append((n, 1))
            for k in kids(n):
                if k.id not in seen:
                    st.append((k, 0))
    return out


def substitute(roots, mp):
    """roots with the nodes whose id is in mp replaced."""
    memo = dict(mp)
    for r in roots:
        if r.__class__ is not N:
            continue
        st = [r]
        while st:
            n = st[-1]
            if n.id in memo:
                st.pop()
                continue
            todo = [k for k in kids(n) if k.id not in memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            if n.op == 'var':
                memo[n.id] = n
            else:
                memo[n.id] = remake(n, lambda x: memo[x.id] if x.__class__ is N else x)
    return [memo[r.id] if r.__class__ is N else r for r in roots]


def bits(*vs):
    lo = min(T.rng(v)[0] for v in vs)
    hi = max(T.rng(v)[1] for v in vs)
    w = 1
    while not (-(1 << (w - 1)) <= lo and hi < (1 << (w - 1))):
        w += 1
    return w


class Sweeper(object):
    """Processes the roots bottom-up.  Sub-terms of a proven class are replaced by a definition variable whose range is
    proven by the solver, so that later queries see small terms; definitions are added back as constraints when a query
    fails without them."""

    def __init__(self, roots, pc, envs, budget=60, qtime=2.0, levels=(0, 1, 2), maxwidth=100, verbose=False):
        self.pc = list(pc)
        self.envs = [dict(e) for e in envs]
        self.memos = [{} for _ in envs]
        self.end = time.time() + budget
        self.qtime = qtime
        self.levels = levels
        self.maxw = maxwidth
        self.merged = self.tried = 0
        self.defs = {}      # var name -> (definition term, offset node)
        self.map = {}
        self.busy = set()
        self.verbose = verbose
        self.classes = {}
        self.order = topo(roots)
        for n in self.order:
            if n.op == 'var':
                continue
            k = self.key(n)
            if k is not None:
                self.classes.setdefault(k, []).append(n)
        self.clsof = {}
        for k, l in self.classes.items():
            if len(l) > 1:
                for n in l:
                    self.clsof[n.id] = l
        # products below a node since the last definition
        self.heavy = {}

    def vals(self, n):
        return [T.evaluate(n, e, m) for e, m in zip(self.envs, self.memos)]

    def key(self, n):
        v = self.vals(n)
        if all(x == v[0] for x in v):
            return ('const', n.id)
        w = 1
        if n.lo >= 0 and n.hi <= 1:
            return (1, tuple(v))
        for w in (8, 16, 32, 64, 128):
            if n.lo >= -(1 << (w - 1)) and n.hi < (1 << w):
                M = T._M[w]
                return (w, tuple(x & M for x in v))
        return None

    # ---------------------------------------------------------------- proofs
    def defvars(self, nodes, level):
        names, todo = [], list(nodes)
        seen = set()
        out = []
        for _ in range(level):
            new = []
            for n in topo(todo):
                if n.op == 'var' and n.args[0] in self.defs and n.args[0] not in seen:
                    seen.add(n.args[0])
                    new.append(n.args[0])
            if not new:
                break
            for nm in new:
                term, dv = self.defs[nm]
                out.append((T.eq(dv, term, bits(dv, term)), 1))
            todo = [self.defs[nm][0] for nm in new]
        return out

    def prove(self, x, y, w=None, levels=None):
        """x == y (mod 2**w, exactly when w is None)"""
        if w is None:
            w = bits(x, y)
            if w > self.maxw:
                return False
        if x.__class__ is not N and y.__class__ is not N:
            return (x - y) & T._M[w] == 0
        self.tried += 1
        last = None
        for lv in (self.levels if levels is None else levels):
            if time.time() > self.end:
                return False
            extra = self.defvars([x, y], lv)
            if last == len(extra):
                continue
            last = len(extra)
            if any(k.__class__ is not N and k != 1 for k, _ in extra):
                return False
            pc = (self.pc if lv else []) + [(k, p) for k, p in extra if k.__class__ is N]
            t0 = time.time()
            r = smt.differ([(x, y)], w, pc, timeout=self.qtime, som=False, cut=2)
            if self.verbose and time.time() - t0 > .3:
                print('      level', lv, r.verdict, round(time.time() - t0, 2))
            if r.verdict == 'unsat':
                return True
        return False

    def tighten(self, r):
        """a proven range of r, tried at the power-of-two bounds around its sampled values."""
        v = self.vals(r)
        lo, hi = r.lo, r.hi
        mn, mx = min(v), max(v)

        def up(x):
            return (1 << max(x, 0).bit_length()) - 1
        c = up(mx)
        if c < hi and self.prove(T.lt(c, r), 0, 2, (0, 1)):
            hi = c
        if mn >= 0:
            cands = [0]
        else:
            cands = [-(up(-mn - 1) + 1)]
        for c in cands:
            if c > lo and self.prove(T.lt(r, c), 0, 2, (0, 1)):
                lo = c
        return lo, hi

    def define(self, r):
        lo, hi = self.tighten(r)
        if lo == hi:
            return lo
        name = '#d%d_%d_%d' % (r.id, lo, hi)
        w = max(1, (hi - lo).bit_length())
        dv = T.add(smt.rvar(name, w, 0, hi - lo), lo)
        for e, m in zip(self.envs, self.memos):
            e[name] = T.evaluate(r, e, m) - lo
        self.defs[name] = (r, dv)
        self.heavy[dv.id] = False
        return dv

    def isheavy(self, n):
        h = self.heavy.get(n.id)
        if h is not None:
            return h
        for x in topo([n]):
            if x.id in self.heavy:
                continue
            self.heavy[x.id] = any(self.heavy.get(k.id, False) for k in kids(x)) or (
                x.op == 'mul' and x.args[0].__class__ is N and (x.args[1].__class__ is N or abs(x.args[1]) > 1 << 12))
        return self.heavy[n.id]

    # --------------------------------------------------------------- walking
    def process(self, n):
        if n.__class__ is not N:
            return n
        if n.id in self.map:
            return self.map[n.id]
        for k in kids(n):
            self.process(k)
        if n.id in self.map:
            return self.map[n.id]
        g = lambda x: self.map[x.id] if x.__class__ is N else x
        if n.op == 'var':
            self.map[n.id] = n
            return n
        r = remake(n, g)
        if r.__class__ is not N or r.op == 'var' or time.time() > self.end:
            self.map[n.id] = r
            return r
        v = self.vals(n)
        if all(x == v[0] for x in v):
            if r.hi > r.lo and self.prove(r, v[0]):
                self.merged += 1
                r = v[0]
            self.map[n.id] = r
            return r
        cls = self.clsof.get(n.id)
        self.map[n.id] = r
        if cls is None or n.id in self.busy:
            return r
        ms = [m for m in cls if m.id != n.id]
        if len({x for x in v}) < 12:
            # few distinct values: a coincidence is likely, do not pull in unprocessed members
            ms = [m for m in ms if m.id in self.map and m.id not in self.busy]
        done = []
        for m in ms:
            self.busy.add(m.id)
        self.busy.add(n.id)
        for m in ms:
            if m.id not in self.map:
                self.process(m)
        k = self.key(n)
        w = k[0]
        if w == 1:
            # booleans: merge into an already proven equal one
            for m in ms:
                y = self.map.get(m.id)
                if y is None or y is r or y.__class__ is not N:
                    continue
                if self.prove(r, y, 2):
                    self.merged += 1
                    self.map[m.id] = r
            return r
        group = [n]
        same = True
        for m in ms:
            y = self.map.get(m.id)
            if y is None:
                continue
            if y is r:
                group.append(m)
                continue
            if self.prove(r, y, w):
                self.merged += 1
                group.append(m)
                same = False
        if (not same) or self.isheavy(r):
            best = min((self.map[m.id] for m in group), key=lambda t: (T.rng(t)[1] - T.rng(t)[0]))
            if best.__class__ is N and best.hi - best.lo > 3:
                sg = T.sgn(best, w) if best.hi >= (1 << (w - 1)) and any(m.lo < 0 for m in group) else best
                d = self.define(sg) if sg.__class__ is N and sg.op != 'var' else sg
                for m in group:
                    self.map[m.id] = T.uns(d, w) if m.lo >= 0 else T.sgn(d, w)
                    if self.map[m.id].__class__ is N:
                        self.heavy[self.map[m.id].id] = False
        return self.map[n.id]

    def expand(self, t, depth=50):
        for _ in range(depth):
            mp = {}
            for n in topo([t]):
                if n.op == 'var' and n.args[0] in self.defs:
                    # var = definition - offset
                    term, dv = self.defs[n.args[0]]
                    off = dv.args[1] if dv is not n else 0
                    mp[n.id] = T.sub(term, off)
            if not mp:
                return t
            t = substitute([t], mp)[0]
        return t


def sample(names, pc, rng, count, tries=4000, bias=None):
    from .case import rand_env
    envs = []
    k = 0
    while len(envs) < count and k < tries:
        env = rand_env(names, rng, (2 if k % 3 else 0) if k % 7 else 1)
        if bias:
            bias(env, rng, k)
        k += 1
        memo = {}
        if all((T.evaluate(c, env, memo) & 1) == p for c, p in pc):
            envs.append(env)
    return envs


def equal(a, b, w, pc, seed=1, budget=60, qtime=3.0, samples=64, bias=None, timeout=60, verbose=False):
    """verdict on a == b mod 2**w under pc, with sweeping; (verdict, env, sweeper)."""
    from .case import collect
    names = collect([x for x in (a, b) if x.__class__ is N] + [k for k, _ in pc])
    envs = sample(names, pc, random.Random(seed), samples, bias=bias)
    if len(envs) < 8:
        return 'unknown', None, None
    M = T._M[w]
    for e in envs:
        memo = {}
        x = T.evaluate(a, e, memo) if a.__class__ is N else a
        y = T.evaluate(b, e, memo) if b.__class__ is N else b
        if (x - y) & M:
            return 'sat', e, None
    import sys
    import threading
    res = []

    def work():
        try:
            sw = Sweeper([a, b], pc, envs, budget, qtime, verbose=verbose)
            res.append((sw.process(a), sw.process(b), sw))
        except BaseException as e:
            res.append(e)
    sys.setrecursionlimit(1000000)
    threading.stack_size(512 << 20)
    th = threading.Thread(target=work)
    th.start()
    th.join()
    if not res or isinstance(res[0], BaseException):
        raise res[0] if res else RuntimeError('sweep')
    a2, b2, sw = res[0]
    if a2.__class__ is not N and b2.__class__ is not N:
        return ('unsat' if (a2 - b2) & M == 0 else 'sat'), None, sw
    if a2 is b2:
        return 'unsat', None, sw
    sw.end = max(sw.end, time.time() + 10)
    if sw.prove(a2, b2, w, (0, 1, 2, 4)):
        return 'unsat', None, sw
    r = smt.differ([(a, b)], w, pc, timeout=timeout, som=False)
    if r.verdict == 'sat':
        env = dict(r.model)
        for n in names:
            env.setdefault(n, 0)
        return 'sat', env, sw
    return r.verdict, None, sw
