"""A case: one harness entry on a configuration, with symbolic buffers; its
symbolic execution, the queries against a specification, and the replay of a
counterexample against the native build."""
import os
import random
import time
from . import llir, execu, smt, build
from . import term as T
from .term import N
from .execu import Fault, Unsupported, PathEnd

_mods = {}
_machs = {}


def module(src, cfg, extra=(), opt='-O2'):
    k = (src, cfg, tuple(extra), opt)
    if k not in _mods:
        _mods[k] = llir.Module(open(build.ir(src, cfg, opt, extra)).read())
    return _mods[k]


class Buf(object):
    """content: list of byte terms (int or N) or None per byte for uninitialised; align: guaranteed alignment."""

    def __init__(self, name, content, align=1, ro=False, off=None):
        self.name = name
        self.content = content
        self.align = align
        self.ro = ro
        self.off = off
        self.size = len(content)

    @staticmethod
    def sym(name, n, align=1, ro=False, lo=None, hi=None):
        if lo is None:
            c = [T.var('%s_%d' % (name, i), 8) for i in range(n)]
        else:
            c = [smt.rvar('%s_%d' % (name, i), 8, lo, hi) for i in range(n)]
        return Buf(name, c, align, ro)

    @staticmethod
    def words(name, vals, nbytes=4, align=None, ro=False):
        """little-endian words that may be terms."""
        c = []
        for v in vals:
            for k in range(nbytes):
                c.append(T.extract(T.uns(v, 8 * nbytes), 8 * k, 8) if v.__class__ is N else (v >> (8 * k)) & 255)
        b = Buf(name, c, align or nbytes, ro)
        b.wordvals = [(v, nbytes) for v in vals]
        return b


class Case(object):
    def __init__(self, src, cfg, entry, ints, bufs, extra=(), opt='-O2', deps=()):
        self.src, self.cfg, self.entry = src, cfg, entry
        self.ints = list(ints)
        self.bufs = bufs
        self.extra = list(extra)
        self.opt = opt
        self.deps = list(deps)
        self.fault = None
        self.m = None

    # ------------------------------------------------------------ execution
    def machine(self, setup=None, prefix=(), solver=None):
        k = (self.src, self.cfg, tuple(self.extra), self.opt)
        m = _machs.get(k)
        if m is None:
            m = _machs[k] = execu.Machine(module(self.src, self.cfg, self.extra, self.opt))
        else:
            m.reset()
        m.solver = solver or smt.PathSolver()
        m.prefix = list(prefix)
        m.todo = []
        execu.CUR[0] = m
        self.m = m
        self.obj = []
        for b in self.bufs:
            al = max(b.align, 1)
            # aligned to exactly b.align and no more; flush against nothing
            o = m.newobj(b.size, b.name, 'heap', al, off=(64 + al) if al < 64 else None)
            o.data = list(b.content)
            wv = getattr(b, 'wordvals', None)
            if wv:
                pos = 0
                for v, n in wv:
                    if v.__class__ is N:
                        m.st(o.base + pos, v, n)
                    pos += n
            o.ro = b.ro
            self.obj.append(o)
        PB = m.PB
        Bo = m.newobj(PB * (len(self.bufs) + 1), 'vpB', 'heap', 16)
        Vo = m.newobj(8 * (len(self.ints) + 1), 'vpV', 'heap', 16)
        for i, o in enumerate(self.obj):
            m.st(Bo.base + PB * i, o.base, PB)
        for i, v in enumerate(self.ints):
            if v.__class__ is N:
                m.st(Vo.base + 8 * i, T.sgn(v, 64) if v.__class__ is N else v, 8)
            else:
                m.st(Vo.base + 8 * i, v & T._M[64], 8)
        self.B, self.V = Bo, Vo
        if setup:
            setup(m)
        return m

    def run(self, setup=None, prefix=(), solver=None, forking=False, merge=False):
        m = self.machine(setup, prefix, solver)
        m.merge = merge
        self.fault = None
        try:
            m.call('@' + self.entry, (self.B.base, self.V.base))
        except Fault as f:
            self.fault = f
        if m.todo and not forking:
            if not merge:
                # join the two sides of data-dependent branches instead of following one
                return self.run(setup, prefix, solver, merge=True)
            raise Unsupported('the execution of %s on %s forks on data (%d other paths)' % (self.entry, self.cfg, len(m.todo)))
        return self

    def explore(self, setup=None, max_paths=2000, deadline=None, solver=None):
        """all feasible paths; yields self per path (self.m.pc is the path condition)."""
        solver = solver or smt.PathSolver()
        work = [[]]
        n = 0
        while work:
            p = work.pop()
            try:
                self.run(setup, p, solver, True)
                ended = False
            except PathEnd:
                ended = True
            work.extend(self.m.todo)
            if ended:
                continue
            n += 1
            if n > max_paths:
                raise Unsupported('more than %d paths' % max_paths)
            if deadline and time.time() > deadline:
                raise Unsupported('path exploration deadline')
            yield self

    def got(self, b, off, n):
        return self.m.ld(self.obj[b].base + off, n)

    # --------------------------------------------------------------- replay
    def concrete(self, env):
        memo = {}
        bufs = []
        for b in self.bufs:
            by = bytearray()
            for x in b.content:
                if x.__class__ is N:
                    x = T.evaluate(x, env, memo)
                elif x is None:
                    x = env.get('#fill', 0x5a)
                by.append(x & 255)
            bufs.append((bytes(by), b.align))
        ints = []
        for v in self.ints:
            if v.__class__ is N:
                v = T.evaluate(v, env, memo)
                v &= T._M[64]
                v = v - (1 << 64) if v >> 63 else v
            ints.append(v)
        return ints, bufs

    def native(self, env, guard='high', fill=None, heapguard=False, timeout=60, sanitize=None):
        binary = build.native([self.src] + self.deps, self.cfg, self.extra, sanitize)
        ints, bufs = self.concrete(env)
        e = {}
        if heapguard:
            e['VP_HEAPGUARD'] = '1'
        if sanitize and 'address' in sanitize:
            e['ASAN_OPTIONS'] = 'detect_leaks=0'
        return build.run_native(binary, self.cfg, self.entry, ints, bufs, guard, fill, timeout, e)

    def describe(self, env):
        ints, bufs = self.concrete(env)
        return {'src': self.src, 'cfg': self.cfg, 'entry': self.entry, 'extra': self.extra, 'deps': self.deps,
                'ints': ints, 'bufs': [[b.hex(), al] for b, al in bufs], 'names': [b.name for b in self.bufs]}


def collect(nodes):
    """names and widths of the variables under the nodes."""
    seen, names = set(), {}
    st = [n for n in nodes if n.__class__ is N]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'var':
            names[x.args[0]] = x.args[1]
            continue
        for a in x.args:
            if a.__class__ is N:
                st.append(a)
            elif a.__class__ is tuple:
                for y in a:
                    if y.__class__ is tuple:
                        if y[0].__class__ is N:
                            st.append(y[0])
    return names


SPECIAL = {8: [0, 255, 1, 254, 128, 127], 32: [0, 0xffffffff, 0x7fffffff, 0x80000000, 1, 128], 16: [0, 0xffff, 0x7fff, 0x8000, 1]}


def rand_env(names, rng, style=0):
    env = {}
    for n, w in names.items():
        r = smt.RANGES.get(n)
        if r:
            lo, hi, _ = r
            if style == 1:
                env[n] = rng.choice((lo, hi))
            else:
                env[n] = rng.randint(lo, hi)
            continue
        if style == 1 or (style == 2 and rng.random() < .5):
            env[n] = rng.choice(SPECIAL.get(w, [0, T._M[w]]))
        else:
            env[n] = rng.getrandbits(w)
    return env


def guess(pairs, w, pc, seed, tries=6, fpu=None):
    """cheap model search by evaluation; a hit is then confirmed by the solver."""
    nodes = [x for p in pairs for x in p] + [k for k, _ in pc]
    names = collect(nodes)
    rng = random.Random(seed)
    M = T._M[w]
    for t in range(tries):
        env = rand_env(names, rng, t % 3)
        memo = {}
        try:
            ok = all((T.evaluate(k, env, memo) & 1) == pol for k, pol in pc)
            if not ok:
                continue
            for i, (a, b) in enumerate(pairs):
                x = T.evaluate(a, env, memo) & M if a.__class__ is N else a & M
                y = T.evaluate(b, env, memo) & M if b.__class__ is N else b & M
                if x != y:
                    return env, i
        except Exception:
            return None
    return None


class Outcome(object):
    """result of one obligation."""

    def __init__(self, verdict, detail='', env=None, index=None):
        self.verdict, self.detail, self.env, self.index = verdict, detail, env, index


def decide(pairs, w, pc=(), timeout=60, seed=1, som=True, fp=False):
    """solver verdict on 'all pairs equal mod 2**w under pc'."""
    pairs = [(i, a, b) for i, (a, b) in enumerate(pairs) if not (a.__class__ is int and b.__class__ is int and (a - b) & T._M[w] == 0)]
    if not pairs:
        smt.STATS['trivial'] = smt.STATS.get('trivial', 0) + 1
        return Outcome('unsat')
    pl = [(a, b) for _, a, b in pairs]
    g = None
    if len(pl) > 8:
        # the solver's simplifier alone usually settles large linear obligations
        r = smt.differ(pl, w, pc, timeout=timeout, fp=fp, som=som, simplify_only=True)
        if r.verdict == 'unsat':
            return Outcome('unsat')
    g = guess(pl, w, pc, seed)
    if g is not None:
        env, i = g
        # confirm with the solver: the pair under the pinned inputs
        names = collect([pl[i][0], pl[i][1]] + [k for k, _ in pc])
        pins = [(T.eq(T.var(n, wd) if n not in smt.RANGES else smt.rvar(n, wd, *smt.RANGES[n][:2]), env[n], wd), 1) for n, wd in names.items()]
        pins = [(k, p) for k, p in pins if k.__class__ is N]
        r = smt.differ([pl[i]], w, list(pc) + pins, timeout=timeout, fp=fp, som=False)
        if r.verdict == 'sat':
            return Outcome('sat', '', env, pairs[i][0])
    r = smt.differ(pl, w, pc, timeout=timeout, fp=fp, som=som)
    if r.verdict == 'sat':
        env = dict(r.model)
        names = collect([x for p in pl for x in p])
        for n in names:
            env.setdefault(n, 0)
        idx = None
        memo = {}
        for i, a, b in pairs:
            try:
                x = T.evaluate(a, env, memo) if a.__class__ is N else a
                y = T.evaluate(b, env, memo) if b.__class__ is N else b
            except Exception:
                continue
            if (x - y) & T._M[w]:
                idx = i
                break
        return Outcome('sat', '', env, idx)
    return Outcome(r.verdict, r.reason)


def alpha(nodes):
    """serialisation of terms up to renaming of variables."""
    num, vars_, out = {}, {}, []
    for root in nodes:
        if root.__class__ is not N:
            out.append(root)
            continue
        st = [(root, 0)]
        while st:
            n, ph = st.pop()
            if n.id in num:
                continue
            if n.op == 'var':
                num[n.id] = len(num)
                out.append(('v', n.args[1], n.lo, n.hi))
                continue
            kids = []
            for a in n.args:
                if a.__class__ is N:
                    kids.append(a)
                elif a.__class__ is tuple:
                    for y in a:
                        if y.__class__ is tuple and y[0].__class__ is N:
                            kids.append(y[0])
            if ph == 0:
                todo = [k for k in kids if k.id not in num]
                if todo:
                    st.append((n, 1))
                    st.extend((k, 0) for k in reversed(todo))
                    continue
            num[n.id] = len(num)
            key = []
            for a in n.args:
                if a.__class__ is N:
                    key.append(('n', num[a.id]))
                elif a.__class__ is tuple:
                    key.append(tuple(((('n', num[y[0].id]) if y[0].__class__ is N else y[0]),) + y[1:] if y.__class__ is tuple else y for y in a))
                else:
                    key.append(a)
            out.append((n.op, tuple(key)))
        out.append(('root', num[root.id]))
    return tuple(out)


def special(a, b, w, lits, fp):
    """a difference where one input has a special value: products with it are easy for the solver"""
    names = collect([a, b] + [k for k, _ in lits])
    wide = sorted(n for n, wd in names.items() if wd > 8)
    if not 1 < len(wide) <= 8:
        return None
    for v in (1, -1):
        for n in wide:
            x = T.var(n, names[n]) if n not in smt.RANGES else smt.rvar(n, names[n], *smt.RANGES[n][:2])
            k = T.eq(x, v & T._M[names[n]], names[n])
            if k.__class__ is not N:
                continue
            r = smt.differ([(a, b)], w, list(lits) + [(k, 1)], timeout=4, som=False, fp=fp)
            if r.verdict == 'sat':
                return r
    return None


def decide_each(triples, w, pc=(), timeout=60, seed=1, fp=False, cache=None):
    """triples (a, b, cond): for every input under pc, cond implies a == b mod 2**w.  One query per
    structurally distinct triple; products are abstracted first."""
    pcn = [k for k, _ in pc]
    seen = cache if cache is not None else set()
    for i, (a, b, c) in enumerate(triples):
        if a.__class__ is not N and b.__class__ is not N:
            if (a - b) & T._M[w] == 0:
                continue
        if c == 0:
            continue
        key = (w, alpha([a, b, c] + pcn), tuple(p for _, p in pc))
        if key in seen:
            continue
        lits = list(pc)
        if c.__class__ is N:
            r = None
            g = guess([(a, b)], w, pc, seed, tries=3)
            if g is None:
                for cut in (True, False):
                    r = smt.differ([(a, b)], w, pc, timeout=min(timeout, 3), som=False, cut=cut, fp=fp)
                    if r.verdict == 'unsat':
                        break
            if r is not None and r.verdict == 'unsat':
                seen.add(key)
                continue
            lits.append((c, 1))
        g = guess([(a, b)], w, lits, seed, tries=40)
        if g is not None:
            env = g[0]
            names = collect([a, b] + [k for k, _ in lits])
            pins = [(T.eq(T.var(n, wd) if n not in smt.RANGES else smt.rvar(n, wd, *smt.RANGES[n][:2]), env[n], wd), 1) for n, wd in names.items()]
            r = smt.differ([(a, b)], w, lits + [(k, p) for k, p in pins if k.__class__ is N], timeout=timeout, som=False, fp=fp)
            if r.verdict == 'sat':
                return Outcome('sat', '', env, i)
        r = smt.differ([(a, b)], w, lits, timeout=timeout / 2, som=False, cut=True, fp=fp)
        if r.verdict != 'unsat':
            r = special(a, b, w, lits, fp) or smt.differ([(a, b)], w, lits, timeout=timeout, som=False, fp=fp)
        if r.verdict == 'unsat':
            seen.add(key)
            continue
        if r.verdict == 'sat':
            env = dict(r.model)
            for n in collect([a, b, c] + pcn):
                env.setdefault(n, 0)
            return Outcome('sat', '', env, i)
        return Outcome(r.verdict, r.reason, None, i)
    return Outcome('unsat')
