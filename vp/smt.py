"""Emission of terms to z3 bit-vectors, and the queries."""
import time
import z3
from z3 import z3core as Z
from . import term as T
from .term import N

STATS = {'queries': 0, 'unsat': 0, 'sat': 0, 'unknown': 0, 'solver_s': 0.0, 'assertions': 0, 'second_solver': 0}


class Emit(object):
    def __init__(self):
        self.ctx = z3.Context()
        self.c = self.ctx.ref()
        self.memo = {}
        self.sorts = {}
        self.addd = {}
        self.vars = {}
        self.ufs = {}
        self.side = []      # range assumptions of restricted variables
        self.fpmode = 'uf'
        self.cutmul = False     # abstract products of two symbolic factors by fresh variables
        self.cuts = {}
        self.cutfs = []
        self.cutlater = []
        self.cutdone = []

    def ref(self, a):
        Z.Z3_inc_ref(self.c, a)
        return a

    def sort(self, w):
        s = self.sorts.get(w)
        if s is None:
            s = self.sorts[w] = Z.Z3_mk_bv_sort(self.c, w)
            Z.Z3_inc_ref(self.c, Z.Z3_sort_to_ast(self.c, s))
        return s

    def num(self, v, w):
        k = ('k', v & T._M[w], w)
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self.ref(Z.Z3_mk_numeral(self.c, str(v & T._M[w]), self.sort(w)))
        return r

    def var(self, name, w):
        r = self.vars.get(name)
        if r is None:
            r = self.ref(Z.Z3_mk_const(self.c, Z.Z3_mk_string_symbol(self.c, name), self.sort(w)))
            self.vars[name] = r
        return r

    def resize(self, a, w, W, signed=False):
        if W == w:
            return a
        if W < w:
            return self.ref(Z.Z3_mk_extract(self.c, W - 1, 0, a))
        if signed:
            return self.ref(Z.Z3_mk_sign_ext(self.c, W - w, a))
        return self.ref(Z.Z3_mk_zero_ext(self.c, W - w, a))

    def need(self, *vs):
        """signed width that holds all the integer ranges."""
        lo = min(T.rng(v)[0] for v in vs)
        hi = max(T.rng(v)[1] for v in vs)
        return max(hi.bit_length(), (-lo - 1).bit_length() if lo < 0 else 0) + 1

    # dependencies: list of (node, width) needed to emit n at W
    def deps(self, n, W):
        op = n.op
        a = n.args
        if op == 'var':
            return ()
        if op == 'mul':
            if self.cutmul and self.iscut(a):
                return ()
            return ((a[0], W), (a[1], W))
        if op == 'add':
            leaves = []
            st = [a[1], a[0]]
            memo = self.memo
            while st:
                x = st.pop()
                if x.__class__ is N and x.op == 'add' and (x.id, W) not in memo and len(leaves) < 200000:
                    st.append(x.args[1])
                    st.append(x.args[0])
                else:
                    leaves.append((x, W))
            return leaves
        if op == 'wrapu' or op == 'wraps':
            return ((a[1], min(W, a[0])),)
        if op == 'slice':
            return ((a[0], a[1] + min(a[2], W)),)
        if op == 'shr':
            if a[0].lo >= 0:
                nd = a[0].hi.bit_length()
            else:
                nd = self.need(a[0])
            return ((a[0], min(nd, W + a[1]) if nd > a[1] else a[1] + 1),)
        if op == 'ite':
            return ((a[0], 1), (a[1], W), (a[2], W))
        if op == 'lt' or op == 'le':
            nd = self.need(a[0], a[1])
            return ((a[0], nd), (a[1], nd))
        if op == 'eq':
            return ((a[0], a[2]), (a[1], a[2]))
        if op == 'not':
            return ((a[0], 1),)
        if op in ('and', 'or', 'xor'):
            w = min(W, a[2])
            return ((a[0], w), (a[1], w))
        if op == 'cat':
            out = []
            pos = 0
            for p, w in a[0]:
                if pos >= W:
                    break
                out.append((p, min(w, W - pos)))
                pos += w
            return out
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            nd = self.need(a[0], a[1])
            if a[0].__class__ is N and op[0] == 's' and T.rng(a[0])[0] < 0:
                nd += 1
            return ((a[0], nd), (a[1], nd))
        if op in ('shlv', 'lshrv', 'ashrv'):
            return ((a[0], a[2]), (a[1], a[2]))
        if op == 'uf':
            return tuple(a[1])
        raise Exception('deps ' + op)

    def bv(self, root, W):
        """z3 ast of root mod 2**W."""
        if root.__class__ is not N:
            return self.num(root, W)
        memo = self.memo
        k0 = (root.id, W)
        r = memo.get(k0)
        if r is not None:
            return r
        stack = [(root, W)]
        while stack:
            n, w = stack[-1]
            if (n.id, w) in memo:
                stack.pop()
                continue
            d = self.deps(n, w)
            miss = [(x, y) for x, y in d if x.__class__ is N and (x.id, y) not in memo]
            if miss:
                stack.extend(miss)
                continue
            stack.pop()
            memo[(n.id, w)] = self.build(n, w, d)
        return memo[k0]

    def iscut(self, a):
        if a[0].__class__ is N and a[1].__class__ is N:
            return True
        if self.cutmul == 2:
            # products with a large constant too
            k = abs(a[1]) if a[1].__class__ is not N else 0
            return k != 0 and k // (k & -k) > 1024
        return False

    def linear(self, n, W):
        """canonical linear form of n mod 2**W (W None: exact)."""
        c, f = 0, {}
        st = [(n, 1)]
        while st:
            x, k = st.pop()
            if x.__class__ is not N:
                c += x * k
            elif x.op == 'add':
                st.append((x.args[0], k))
                st.append((x.args[1], k))
            elif x.op == 'mul' and x.args[1].__class__ is not N:
                st.append((x.args[0], k * x.args[1]))
            elif W is not None and x.op in ('wraps', 'wrapu') and x.args[0] >= W:
                st.append((x.args[1], k))
            else:
                f[x.id] = f.get(x.id, 0) + k
        M = T._M[W] if W is not None else None
        if M is not None:
            return (c & M,) + tuple(sorted((i, k & M) for i, k in f.items() if k & M))
        return (c,) + tuple(sorted((i, k) for i, k in f.items() if k))

    def cut(self, n, W):
        if n.args[1].__class__ is not N:
            # x * (c * 2^k) is cut as (x * c) shifted
            k = n.args[1]
            p2 = k & -k
            if k < 0 or p2 > 1:
                q = abs(k) // p2
                base = self.bv(T._mk('mul', (n.args[0], q), *sorted((n.args[0].lo * q, n.args[0].hi * q))), W)
                return self.ref(Z.Z3_mk_bvmul(self.c, base, self.num(k // q, W)))
        nd = self.need(n)
        if W >= nd:
            return self.resize(self.cutexact(n, nd), nd, W, True)
        key = tuple(sorted((self.linear(n.args[0], W), self.linear(n.args[1], W)))) + (W,)
        v = self.cuts.get(key)
        if v is None:
            v = self.cuts[key] = self.var('cut!%d' % len(self.cuts), W)
        if nd <= 160:
            e = z3.BitVecRef(self.cutexact(n, nd), self.ctx)
            self.cutfs.append(z3.Extract(W - 1, 0, e) == z3.BitVecRef(v, self.ctx))
        return v

    def cutexact(self, n, w):
        key = tuple(sorted((self.linear(n.args[0], None), self.linear(n.args[1], None)))) + ('x', w)
        v = self.cuts.get(key)
        if v is None:
            v = self.cuts[key] = self.var('cut!%d' % len(self.cuts), w)
            x = z3.BitVecRef(v, self.ctx)
            self.cutfs += [x >= z3.BitVecVal(n.lo, w, self.ctx), x <= z3.BitVecVal(n.hi, w, self.ctx)]
            self.cutlater.append((n, x, w))
        return v

    def cutfacts(self):
        """true facts about the abstracted products: where the extreme values are attained, and signs."""
        while self.cutlater:
            n, x, w = self.cutlater.pop()
            f = []
            for a in n.args:
                k = self.need(a)
                f.append((z3.BitVecRef(self.bv(a, k), self.ctx), k, a))
            (a, ka, na), (b, kb, nb) = f
            (nalo, nahi), (nblo, nbhi) = T.rng(na), T.rng(nb)

            def at(v, k, c):
                return v == z3.BitVecVal(c, k, self.ctx)
            for e in {n.lo, n.hi}:
                ors = []
                for p in {nalo, nahi}:
                    for q in {nblo, nbhi}:
                        if p * q == e:
                            ors.append(z3.And(at(a, ka, p), at(b, kb, q)))
                if ors and e != 0:
                    self.cutfs.append((x == z3.BitVecVal(e, w, self.ctx)) == z3.Or(*ors))
            for e, sg in ((n.hi, 1), (n.lo, -1)):
                cand = []
                for p in (nalo, nalo + 1, nahi - 1, nahi):
                    for q in (nblo, nblo + 1, nbhi - 1, nbhi):
                        if nalo <= p <= nahi and nblo <= q <= nbhi and p * q != e:
                            cand.append(p * q * sg)
                if cand and na is not nb:
                    v = max(cand) * sg
                    b2 = z3.BitVecVal(v, w, self.ctx)
                    self.cutfs.append(z3.Or(x == z3.BitVecVal(e, w, self.ctx), x <= b2 if sg > 0 else x >= b2))
            for n2, x2, w2, f2 in self.cutdone[-6:]:
                for (p, kp, _), (q, kq, _) in ((f2[0], f2[1]), (f2[1], f2[0])):
                    def up(v, k, m):
                        return z3.SignExt(m - k, v) if m > k else v
                    m1, m2, m3 = max(ka, kp), max(kb, kq), max(w, w2)
                    self.cutfs.append(z3.Implies(z3.And(up(a, ka, m1) == up(p, kp, m1), up(b, kb, m2) == up(q, kq, m2)),
                                                 up(x, w, m3) == up(x2, w2, m3)))
            self.cutdone.append((n, x, w, f))
            az, bz = at(a, ka, 0), at(b, kb, 0)
            self.cutfs.append((x == z3.BitVecVal(0, w, self.ctx)) == z3.Or(az, bz))
            self.cutfs.append((x < 0) == z3.And(z3.Not(az), z3.Not(bz), z3.Xor(a < 0, b < 0)))

    def get(self, x, w):
        if x.__class__ is not N:
            return self.num(x, w)
        return self.memo[(x.id, w)]

    def b2v(self, cond, W):
        return self.ref(Z.Z3_mk_ite(self.c, cond, self.num(1, W), self.num(0, W)))

    def isone(self, x):
        """boolean from a 1-bit ast of node x"""
        return self.ref(Z.Z3_mk_eq(self.c, self.get(x, 1), self.num(1, 1)))

    def build(self, n, W, d):
        c = self.c
        op = n.op
        a = n.args
        if op == 'var':
            v = self.var(a[0], a[1])
            return self.resize(v, a[1], W)
        if op == 'add':
            xs = [self.get(x, W) for x, _ in d]
            if len(xs) == 2:
                return self.ref(Z.Z3_mk_bvadd(c, xs[0], xs[1]))
            decl = self.addd.get(W)
            if decl is None:
                t = self.ref(Z.Z3_mk_bvadd(c, xs[0], xs[1]))
                decl = Z.Z3_get_app_decl(c, Z.Z3_to_app(c, t))
                self.ref(Z.Z3_func_decl_to_ast(c, decl))
                self.addd[W] = decl
            arr = (z3.Ast * len(xs))(*xs)
            return self.ref(Z.Z3_mk_app(c, decl, len(xs), arr))
        if op == 'mul':
            if self.cutmul and self.iscut(a):
                return self.cut(n, W)
            return self.ref(Z.Z3_mk_bvmul(c, self.get(a[0], W), self.get(a[1], W)))
        if op == 'wrapu':
            w = d[0][1]
            return self.resize(self.get(a[1], w), w, W)
        if op == 'wraps':
            w = d[0][1]
            return self.resize(self.get(a[1], w), w, W, True)
        if op == 'slice':
            w = d[0][1]
            x = self.ref(Z.Z3_mk_extract(c, w - 1, a[1], self.get(a[0], w)))
            return self.resize(x, w - a[1], W)
        if op == 'shr':
            w = d[0][1]
            x = self.ref(Z.Z3_mk_extract(c, w - 1, a[1], self.get(a[0], w)))
            return self.resize(x, w - a[1], W, a[0].lo < 0)
        if op == 'ite':
            return self.ref(Z.Z3_mk_ite(c, self.isone(a[0]), self.get(a[1], W), self.get(a[2], W)))
        if op == 'lt':
            w = d[0][1]
            return self.b2v(self.ref(Z.Z3_mk_bvslt(c, self.get(a[0], w), self.get(a[1], w))), W)
        if op == 'le':
            w = d[0][1]
            return self.b2v(self.ref(Z.Z3_mk_bvsle(c, self.get(a[0], w), self.get(a[1], w))), W)
        if op == 'eq':
            w = a[2]
            return self.b2v(self.ref(Z.Z3_mk_eq(c, self.get(a[0], w), self.get(a[1], w))), W)
        if op == 'not':
            x = self.ref(Z.Z3_mk_bvnot(c, self.get(a[0], 1)))
            return self.resize(x, 1, W)
        if op in ('and', 'or', 'xor'):
            w = d[0][1]
            f = {'and': Z.Z3_mk_bvand, 'or': Z.Z3_mk_bvor, 'xor': Z.Z3_mk_bvxor}[op]
            x = self.ref(f(c, self.get(a[0], w), self.get(a[1], w)))
            return self.resize(x, w, W)
        if op == 'cat':
            r = None
            tot = 0
            for p, w in d:
                x = self.get(p, w)
                r = x if r is None else self.ref(Z.Z3_mk_concat(c, x, r))
                tot += w
            return self.resize(r, tot, W)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            w = d[0][1]
            f = {'udiv': Z.Z3_mk_bvudiv, 'urem': Z.Z3_mk_bvurem, 'sdiv': Z.Z3_mk_bvsdiv, 'srem': Z.Z3_mk_bvsrem}[op]
            x = self.ref(f(c, self.get(a[0], w), self.get(a[1], w)))
            return self.resize(x, w, W, True)
        if op in ('shlv', 'lshrv', 'ashrv'):
            w = a[2]
            f = {'shlv': Z.Z3_mk_bvshl, 'lshrv': Z.Z3_mk_bvlshr, 'ashrv': Z.Z3_mk_bvashr}[op]
            x = self.ref(f(c, self.get(a[0], w), self.get(a[1], w)))
            return self.resize(x, w, W, op == 'ashrv')
        if op == 'uf':
            x = self.ufapp(n)
            return self.resize(x, a[2], W)
        raise Exception('build ' + op)

    def ufapp(self, n):
        name, args, w = n.args
        if self.fpmode == 'fp':
            r = self.fpop(name, args, w)
            if r is not None:
                return r
        key = (name, tuple(x for _, x in args), w)
        f = self.ufs.get(key)
        if f is None:
            sorts = [z3.BitVecSort(x, self.ctx) for _, x in args] + [z3.BitVecSort(w, self.ctx)]
            f = z3.Function('uf_%s' % name, *sorts)
            self.ufs[key] = f
        if not args:
            return self.ref(f().as_ast())
        zs = [z3.BitVecRef(self.get(v, x), self.ctx) for v, x in args]
        return self.ref(f(*zs).as_ast())

    def fpop(self, name, args, w):
        import re as _re
        def S(x):
            return z3.Float32(self.ctx) if x == 32 else z3.Float64(self.ctx)
        def fp(i):
            v, x = args[i]
            return z3.fpBVToFP(z3.BitVecRef(self.get(v, x), self.ctx), S(x))
        def bvi(i):
            v, x = args[i]
            return z3.BitVecRef(self.get(v, x), self.ctx)
        RNE = z3.RNE(self.ctx)
        mm = _re.match(r'^f(add|sub|mul|div)(32|64)$', name)
        r = None
        if mm:
            f = {'add': z3.fpAdd, 'sub': z3.fpSub, 'mul': z3.fpMul, 'div': z3.fpDiv}[mm.group(1)]
            r = z3.fpToIEEEBV(f(RNE, fp(0), fp(1)))
        elif name.startswith('sitofp'):
            r = z3.fpToIEEEBV(z3.fpSignedToFP(RNE, bvi(0), S(w)))
        elif name == 'fpext':
            r = z3.fpToIEEEBV(z3.fpFPToFP(RNE, fp(0), S(64)))
        elif name == 'fptrunc':
            r = z3.fpToIEEEBV(z3.fpFPToFP(RNE, fp(0), S(32)))
        elif name.startswith('fcmp_'):
            p = name[5:8]
            x, y = fp(0), fp(1)
            base = {'eq': z3.fpEQ(x, y), 'ne': z3.Not(z3.fpEQ(x, y)), 'lt': z3.fpLT(x, y), 'le': z3.fpLEQ(x, y),
                    'gt': z3.fpGT(x, y), 'ge': z3.fpGEQ(x, y)}.get(p[1:])
            un = z3.Or(z3.fpIsNaN(x), z3.fpIsNaN(y))
            if p == 'ord':
                b = z3.Not(un)
            elif p == 'uno':
                b = un
            elif p[0] == 'o':
                b = z3.And(base, z3.Not(un))
            else:
                b = z3.Or(base, un)
            r = z3.If(b, z3.BitVecVal(1, 1, self.ctx), z3.BitVecVal(0, 1, self.ctx))
        else:
            mm = _re.match(r'^(?:fptosi|lround|fptoui)(32|64)_(\d+)$', name)
            if mm:
                rm = z3.RTZ(self.ctx) if name.startswith('fpto') else z3.RNA(self.ctx)
                r = z3.fpToSBV(rm, fp(0), z3.BitVecSort(w, self.ctx))
            mm = _re.match(r'^(round|floor|ceil|trunc|rint|nearbyint|roundeven)(32|64)$', name)
            if mm:
                rm = {'round': z3.RNA, 'floor': z3.RTN, 'ceil': z3.RTP, 'trunc': z3.RTZ}.get(mm.group(1), z3.RNE)(self.ctx)
                r = z3.fpToIEEEBV(z3.fpRoundToIntegral(rm, fp(0)))
        if r is None:
            return None
        return self.ref(r.as_ast())

    def boolean(self, n):
        """z3 BoolRef for a 0/1 node."""
        if n.__class__ is not N:
            return z3.BoolVal(bool(n & 1), self.ctx)
        if n.op in ('lt', 'le', 'eq'):
            d = self.deps(n, 1)
            for x, w in d:
                self.bv(x, w)
            a, b = self.get(*d[0]), self.get(*d[1])
            f = {'lt': Z.Z3_mk_bvslt, 'le': Z.Z3_mk_bvsle, 'eq': Z.Z3_mk_eq}[n.op]
            return z3.BoolRef(self.ref(f(self.c, a, b)), self.ctx)
        if n.op == 'not':
            return z3.Not(self.boolean(n.args[0]))
        x = self.bv(n, 1)
        return z3.BitVecRef(x, self.ctx) == z3.BitVecVal(1, 1, self.ctx)

    def ranges(self):
        """assumptions for restricted variables actually used."""
        out = []
        for name, ast in self.vars.items():
            r = RANGES.get(name)
            if r is not None:
                lo, hi, w = r
                v = z3.BitVecRef(ast, self.ctx)
                if lo >= 0:
                    out.append(z3.UGE(v, z3.BitVecVal(lo, w, self.ctx)))
                    out.append(z3.ULE(v, z3.BitVecVal(hi, w, self.ctx)))
        return out


RANGES = {}


def rvar(name, w, lo, hi):
    """a symbolic w-bit input assumed to lie in [lo, hi] (unsigned)."""
    n = T._mk('var', (name, w), lo, hi)
    n.lo, n.hi = lo, hi
    RANGES[name] = (lo, hi, w)
    return n


class Result(object):
    def __init__(self, verdict, model=None, secs=0, reason=''):
        self.verdict = verdict
        self.model = model
        self.secs = secs
        self.reason = reason


def _model(em, m):
    env = {}
    for name, ast in em.vars.items():
        v = m.eval(z3.BitVecRef(ast, em.ctx), model_completion=True)
        env[name] = v.as_long()
    return env


def check(assertions, timeout=60, som=True, fp=False, build=None, logic=None):
    """assertions: list of 0/1 nodes that must hold together. Returns Result."""
    t0 = time.time()
    em = Emit()
    if fp:
        em.fpmode = 'fp'
    fs = [em.boolean(a) for a in assertions]
    if build is not None:
        fs += build(em)
    return solve(em, fs, timeout, som, t0)


def solve(em, fs, timeout, som, t0=None, simplify_only=False):
    if t0 is None:
        t0 = time.time()
    em.cutfacts()
    fs = fs + em.ranges() + em.cutfs
    g = z3.Goal(ctx=em.ctx)
    for f in fs:
        g.add(f)
    STATS['queries'] += 1
    STATS['assertions'] += len(fs)
    res = None
    try:
        tac = z3.With(z3.Tactic('simplify', ctx=em.ctx), som=True, som_blowup=100000000, flat=True, hoist_mul=False, sort_sums=True) if som else \
            z3.Tactic('simplify', ctx=em.ctx)
        sub = tac(g)
        if len(sub) == 1 and sub[0].inconsistent():
            res = Result('unsat')
        elif simplify_only:
            res = Result('unknown', None, 0, 'not settled by simplification')
            STATS['unknown'] -= 1
            STATS['queries'] -= 1
        else:
            s = z3.Tactic('smt' if em.fpmode == 'fp' and False else 'qfbv' if em.fpmode != 'fp' and not em.ufs else 'default', ctx=em.ctx).solver() \
                if False else (z3.SolverFor('QF_BV', ctx=em.ctx) if em.fpmode != 'fp' and not em.ufs else z3.Solver(ctx=em.ctx))
            s.set('timeout', int(timeout * 1000))
            for f in sub[0]:
                s.add(f)
            r = s.check()
            if r == z3.unsat:
                res = Result('unsat')
            elif r == z3.sat:
                res = Result('sat', _model(em, s.model()))
            else:
                res = Result('unknown', None, 0, s.reason_unknown())
    except z3.Z3Exception as e:
        res = Result('unknown', None, 0, str(e))
    res.secs = time.time() - t0
    STATS[res.verdict] += 1
    STATS['solver_s'] += res.secs
    return res


class PathSolver(object):
    """feasibility oracle for branch decisions."""

    def __init__(self, timeout=20):
        self.timeout = timeout
        self.cache = {}
        self.em = None

    def feasible(self, pc, lit):
        key = (tuple((k.id, p) for k, p in pc), lit[0].id, lit[1])
        r = self.cache.get(key)
        if r is not None:
            return r
        t0 = time.time()
        em = Emit()
        fs = []
        for k, p in list(pc) + [lit]:
            b = em.boolean(k)
            fs.append(b if p else z3.Not(b))
        res = solve(em, fs, self.timeout, False, t0)
        ok = res.verdict != 'unsat'
        self.cache[key] = ok
        return ok


def pcnodes(pc):
    return [k if p else T.bnot(k) for k, p in pc]


def differ(pairs, w, pc=(), timeout=60, fp=False, som=True, simplify_only=False, cut=False):
    """Is there an input under pc with some pair different (mod 2**w)?"""
    t0 = time.time()
    em = Emit()
    em.cutmul = cut
    if fp:
        em.fpmode = 'fp'
    ors = []
    for a, b in pairs:
        x, y = em.bv(a, w), em.bv(b, w)
        e = em.ref(Z.Z3_mk_eq(em.c, x, y))
        ors.append(z3.Not(z3.BoolRef(e, em.ctx)))
    fs = [em.boolean(n) for n in pcnodes(pc)]
    if len(ors) == 1:
        fs.append(ors[0])
    elif not ors:
        fs.append(z3.BoolVal(False, em.ctx))
    else:
        fs.append(z3.Or(*ors))
    return solve(em, fs, timeout, som, t0, simplify_only)
