"""Threads: every interleaving of the synchronisation operations of real thread code.

Each thread function is executed symbolically on its own: a load of a location that several threads touch
returns a fresh variable, so the paths of a thread form a tree of events (atomic and plain accesses, mutex,
condition variable, create, join, free).  A partial-order encoding then asks z3 for an execution: a clock per
event (the interleaving), a reads-from relation, mutual exclusion, and for races a second clock that only has to
respect happens-before (C++11: program order, unlock/lock, release/acquire, create/join)."""
import sys
import time
import z3
from . import term as T, smt, execu, llir, build
from .term import N
from .execu import Fault, Unsupported, PathEnd, Machine

ACQ = {'acquire', 'acq_rel', 'seq_cst'}
REL = {'release', 'acq_rel', 'seq_cst'}


class ThreadEnd(Exception):
    def __init__(self, how, msg=''):
        Exception.__init__(self, how)
        self.how, self.msg = how, msg


class Branch(Exception):
    """a decision on shared values that has not been taken yet"""

    def __init__(self, key):
        Exception.__init__(self)
        self.key = key


class Node(object):
    __slots__ = ('key', 'th', 'parent', 'kids', 'guards', 'kind', 'loc', 'n', 'order', 'val', 'var', 'msg', 'id', 'depth', 'obj', 'plain', 'en', 't',
                 'tid', 'rf', 'grow', 'rel', 'unl', 'lock')

    def __repr__(self):
        return 'T%d#%d %s %s %s %s' % (self.th, self.id, self.kind, self.obj if self.obj else '', self.loc if self.loc else '', self.order or '')


class CMachine(Machine):
    def __init__(self, mod):
        Machine.__init__(self, mod)
        self.world = None

    def decide(self, c):
        if self.world is None or c.__class__ is int:
            return Machine.decide(self, c)
        c = T.uns(c, 1)
        if c.__class__ is int:
            return c
        neg = c.op == 'not'
        key = c.args[0] if neg else c
        nc = T.bnot(key)
        for k, pol in self.pc:
            if k is key:
                return pol ^ neg
            if k is nc:
                return (1 - pol) ^ neg
        i = len(self.decisions)
        if i >= len(self.prefix):
            ft = self.solver.feasible(self.pc, (key, 1))
            ff = self.solver.feasible(self.pc, (key, 0)) if ft else True
            if ft and ff:
                raise Branch(key)
            pol = 1 if ft else 0
        else:
            pol = self.prefix[i]
        self.decisions.append(pol)
        self.pc.append((key, pol))
        return pol ^ neg

    def newobj(self, size, name, kind='heap', align=16, init=None, off=None):
        if self.world is not None and kind != 'global':
            # addresses depend on the thread and its allocations so far only
            self.heap = self.stackp = self.world.region(size, name, kind)
            self.stackfree = {}
        o = Machine.newobj(self, size, name, kind, align, init, off)
        if self.world is not None and kind != 'global':
            self.world.created(self, o)
        return o

    def freeobj(self, o):
        # addresses are never reused, so that an address names one object
        o.live = False
        if self.world is not None:
            self.world.freed(self, o)

    def find(self, addr, n, what):
        if addr.__class__ is N and addr.lo != addr.hi:
            addr = self.world.resolve(self, addr)
        return Machine.find(self, addr, n, what)

    def icall(self, addr, args):
        if addr.__class__ is N:
            addr = self.world.resolve(self, addr)
        return Machine.icall(self, addr, args)

    def ld(self, addr, n):
        if addr.__class__ is N:
            addr = self.world.resolve(self, addr)
        if self.world is not None and self.world.active:
            r = self.world.read(self, addr, n)
            if r is not None:
                return r
        return Machine.ld(self, addr, n)

    def st(self, addr, v, n):
        if addr.__class__ is N:
            addr = self.world.resolve(self, addr)
        if self.world is not None and self.world.active:
            if self.world.write(self, addr, v, n):
                return
        return Machine.st(self, addr, v, n)

    def memset(self, d, v, n):
        if d.__class__ is N:
            d = self.world.resolve(self, d)
        if self.world is not None and self.world.active and n.__class__ is int and n <= 4096:
            k = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            b = (v & 255) if v.__class__ is int else 0
            for i in range(0, n, k):
                self.st(d + i, int.from_bytes(bytes([b]) * k, 'little'), k)
            return
        return Machine.memset(self, d, v, n)

    def memcpy(self, d, s, n):
        if d.__class__ is N:
            d = self.world.resolve(self, d)
        if s.__class__ is N:
            s = self.world.resolve(self, s)
        if self.world is not None and self.world.active and n.__class__ is int and n <= 4096:
            k = 8 if n % 8 == 0 else 4 if n % 4 == 0 else 1
            vals = [self.ld(s + i, k) for i in range(0, n, k)]
            for i, x in enumerate(vals):
                self.st(d + i * k, x, k)
            return
        return Machine.memcpy(self, d, s, n)


class Grow(object):
    """a clause whose disjuncts are found one by one"""
    __slots__ = ('ext', 'n', 'lits')


class Deadline(Unsupported):
    pass


class World(object):
    """the threads of one scenario.  The event trees are unfolded on demand: the solver is asked for an execution
    that leaves the part explored so far, the thread that does is executed further, until there is none."""

    def __init__(self, mod, entry, ints, stubs=None, max_events=600, max_waits=2, max_same=1, deadline=None):
        self.mod, self.entry, self.ints = mod, entry, ints
        self.m = CMachine(mod)
        self.shared = set()        # locations (base, off, n) with events
        self.objinfo = {}          # base -> (size, name)
        self.active = False
        self.max_events, self.max_waits, self.max_same = max_events, max_waits, max_same
        self.stubs = stubs or {}
        self.deadline = deadline
        self.log = None
        self.functions = set()
        self.regions = {}
        self.queries = 0
        self.solver_s = 0.0
        self.restarts = 0
        self.pathsolver = smt.PathSolver()
        self.cand = {}             # variable -> values found for it so far

    # ---------------------------------------------------------- exploration
    def run(self):
        """returns None when no execution has an error, or (what, node, schedule)"""
        while True:
            self.start()
            r = self.unfold()
            if r == 'restart':
                self.restarts += 1
                continue
            return r

    def start(self):
        self.nodes, self.bykey = [], {}
        self.touch, self.newshared = {}, set()
        self.snap, self.snapkey, self.snaps = {}, {}, {}
        self.threads = [0]
        self.reads, self.writes, self.locks, self.creates, self.joins, self.ends, self.frees = {}, {}, {}, {}, {}, {}, []
        self.begins = {}
        self.em = smt.Emit()
        self.ctx = self.em.ctx
        self.S = z3.Solver(ctx=self.ctx)
        self.grows = []
        self.frontier = []
        self.nf = 0
        self.paths = 0
        self.varloc = {}
        self.varw = {}
        self.inits = {}
        self.todo = [(0, (), None, [])]
        self.error = None
        self.cuts = []

    def bool(self, name):
        return z3.Bool(name, self.ctx)

    def int(self, name):
        return z3.Int(name, self.ctx)

    def And(self, *a):
        return z3.And(*a) if len(a) > 1 else a[0] if a else z3.BoolVal(True, self.ctx)

    def Or(self, *a):
        return z3.Or(*a) if len(a) > 1 else a[0] if a else z3.BoolVal(False, self.ctx)

    def grow(self, first):
        g = Grow()
        g.n = len(self.grows)
        g.lits = []
        g.ext = self.bool('x%d_0' % g.n)
        self.S.add(z3.Or(z3.Not(first), g.ext))
        self.grows.append(g)
        return g

    def more(self, g, lit):
        g.lits.append(lit)
        e = self.bool('x%d_%d' % (g.n, len(g.lits)))
        self.S.add(z3.Or(z3.Not(g.ext), lit, e))
        g.ext = e

    def check(self, extra, limit=None):
        t = time.time()
        if self.deadline:
            left = self.deadline - t
            if left <= 0:
                raise Deadline('time limit')
            self.S.set('timeout', int(1000 * left) + 1)
        r = self.S.check(*([z3.Not(g.ext) for g in self.grows] + extra))
        self.queries += 1
        smt.STATS['queries'] += 1
        smt.STATS['solver_s'] += time.time() - t
        self.solver_s += time.time() - t
        smt.STATS['sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'] += 1
        if r == z3.unknown:
            raise Deadline('solver answered unknown: %s' % self.S.reason_unknown())
        return r == z3.sat

    def unfold(self):
        while True:
            while self.todo:
                f = self.todo.pop()
                self.expand(*f)
                if self.newshared:
                    if self.log:
                        self.log('shared: %s' % ' '.join(sorted(self.name(l) for l in self.newshared)))
                    self.shared |= self.newshared
                    return 'restart'
            if not self.frontier:
                return None
            self.nf += 1
            q = self.bool('q%d' % self.nf)
            self.S.add(z3.Or(z3.Not(q), *[f[4] for f in self.frontier]))
            if not self.check([q]):
                self.S.add(z3.Not(q))
                return None
            m = self.S.model()
            hit = [f for f in self.frontier if z3.is_true(m.eval(f[4], model_completion=False))]
            if not hit:
                raise Unsupported('no frontier in the model')
            for f in hit:
                if f[2] is not None and f[2].kind == 'error':
                    return 'error', '%s: %s' % (self.who(f[2].th), f[2].msg), self.schedule(m)
                if f[2] is not None and f[2].kind == 'cut':
                    raise Deadline('more events than the bound')
            for f in hit:
                if f[5] is not None:
                    # an address: take the value of the model as a new candidate
                    v = m.eval(z3.BitVecRef(self.em.var(f[5], self.varw[f[5]]), self.ctx), model_completion=True).as_long()
                    self.cand.setdefault(f[5], []).append(v)
                self.todo.append(f[:4])
            self.frontier = [f for f in self.frontier if not any(f is h for h in hit)]
            self.S.add(z3.Not(q))
            if self.log and self.nf % 50 == 0:
                self.log('%d queries %.1fs, %d nodes, %d open' % (self.nf, self.solver_s, len(self.nodes), len(self.frontier)))

    def schedule(self, m):
        """the enabled events of a model in the order of their clocks"""
        ev = []
        for n in self.nodes:
            if z3.is_true(m.eval(n.en, model_completion=True)):
                ev.append((m.eval(n.t, model_completion=True).as_long(), n.id, n))
        return [n for _, _, n in sorted(ev, key=lambda x: x[:2])]

    def lits(self, guards):
        out = []
        for k, p in guards:
            b = self.em.boolean(k)
            out.append(b if p else z3.Not(b))
        return out

    def addfrontier(self, th, prefix, guards, var=None):
        self.nf += 1
        f = self.bool('f%d' % self.nf)
        self.S.add(z3.Implies(f, self.And(self.cur.en, *self.lits(guards))))
        self.frontier.append((th, tuple(prefix), self.cur, list(guards), f, var))

    def name(self, loc):
        return '%s+%d' % (self.objinfo.get(loc[0], (0, hex(loc[0])))[1], loc[1])

    def expand(self, th, prefix, parent, guards):
        m = self.m
        m.reset()
        m.world = None
        m.solver, m.prefix, m.todo = self.pathsolver, list(prefix), []
        execu.CUR[0] = m
        X = m.ext
        for k, f in self.stubs.items():
            X[k] = f
        self.install(X)
        # stubs win over bodies in the module
        for k in list(m.F):
            if k[1:].strip('"') in X:
                m.F.pop(k)
        self.th = th
        self.cur = None
        self.ids = 0
        self.same = 0
        self.waits = 0
        self.made = 0
        self.nalloc = {}
        self.pcpos = 0
        self.held = []
        self.gone = set()
        m.world = self
        self.paths += 1
        if th == 0:
            self.active = False
            B = m.newobj(8, 'vpB', 'heap', 16)
            V = m.newobj(8 * len(self.ints) + 8, 'vpV', 'heap', 16)
            for i, v in enumerate(self.ints):
                m.st(V.base + 8 * i, v, 8)
            self.active = True
            go = lambda: m.call('@' + self.entry, (B.base, V.base))
        else:
            fn, arg, mem, glob = self.snap[th]
            self.active = False
            for (base, size, name, kind, data, live, pg, npg) in mem:
                self.place(base, size, name, kind, list(data), live)
            for o in m.globs:
                if o.base in glob:
                    o.data = list(glob[o.base])
            # objects the other threads make later
            for base, (size, name) in list(self.objinfo.items()):
                if m.pages.get(base >> execu.PG) is None and not name.startswith('T%d:' % th):
                    self.place(base, size, name, 'later', [None] * size, True)
            self.active = True
            go = lambda: m.icall(fn, (arg,))
        self.event('begin', None, 0)
        try:
            go()
            if self.held:
                raise ThreadEnd('error', 'thread ends holding a mutex')
            self.event('end', None, 0)
        except Branch as b:
            g = m.pc[self.pcpos:]
            for pol in (1, 0):
                self.addfrontier(th, m.decisions + [pol], g + [(b.key, pol)])
        except ThreadEnd as e:
            if e.how == 'address':
                self.addfrontier(th, m.decisions, m.pc[self.pcpos:], e.msg)
            else:
                n = len(self.nodes)
                e2 = self.event(e.how, None, 0, msg=e.msg)
                if len(self.nodes) > n and (e.how == 'error' or e.msg == 'too many events'):
                    self.addfrontier(th, m.decisions, [])
        except Fault as f:
            n = len(self.nodes)
            self.event('error', None, 0, msg='%s' % f)
            if len(self.nodes) > n:
                self.addfrontier(th, m.decisions, [])
        except PathEnd:
            pass
        self.functions |= m.stats['functions']
        m.world = None

    def place(self, base, size, name, kind, data, live):
        m = self.m
        o = execu.Obj()
        o.size, o.name, o.kind, o.live, o.ro, o.base, o.pg, o.npg = size, name, kind, live, False, base, base, 1
        m.nobj += 1
        o.seq = m.nobj
        o.data = data
        for k in range(base >> execu.PG, ((base + max(size, 1) - 1) >> execu.PG) + 1):
            m.pages[k] = o

    # ------------------------------------------------------------- hooks
    def created(self, m, o):
        o.name = 'T%d:%s@%x' % (self.th, o.name.rstrip('0123456789'), o.base >> 32)
        self.objinfo[o.base] = (o.size, o.name)

    def freed(self, m, o):
        if self.active and sys.exc_info()[0] is None:
            self.free(o)

    def region(self, size, name, kind):
        # the k-th object of this size and name that the thread makes
        k = (self.th, size, name.rstrip('0123456789'), kind)
        self.nalloc[k] = n = self.nalloc.get(k, 0) + 1
        r = self.regions.setdefault(k + (n,), len(self.regions) + 1)
        return (r + 16) << 32

    def free(self, o):
        if o.base in self.gone:
            return
        self.gone.add(o.base)
        self.access((o.base, 0, o.size, 'free'), True)
        if any(l[0] == o.base for l in self.shared):
            self.event('free', (o.base, 0, o.size), o.size, obj=o.name, plain=True)

    def resolve(self, m, v):
        v = T.uns(v, m.ptrbits)
        if v.__class__ is int:
            return v
        vs = self.varsof(v)
        if len(vs) != 1:
            raise Unsupported('address over %d shared values' % len(vs))
        for c in self.cand.get(vs[0], ()):
            x = T.evaluate(v, {vs[0]: c}, {})
            if m.decide(T.eq(T.var(vs[0], self.varw[vs[0]]), c, self.varw[vs[0]])):
                return x
        raise ThreadEnd('address', vs[0])

    def varsof(self, v):
        from .case import collect
        return list(collect([v]))

    def find(self, addr, n, what):
        return Machine.find(self.m, addr, n, what)

    def read(self, m, addr, n):
        o, off = self.find(addr, n, 'read')
        loc = (o.base, off, n)
        self.access(loc, False)
        if loc not in self.shared and o.kind != 'later':
            if self.th and off < len(o.data) and o.data[off] is None and not o.name.startswith('T%d:' % self.th):
                # not written before this thread was created: by another thread, then
                self.newshared.add(loc)
                raise PathEnd()
            return None
        return self.rd(loc, n, o, None)

    def rd(self, loc, n, o, order):
        e = self.event('read', loc, n, order=order, obj=o.name, plain=order is None)
        return T.var(e.var, 8 * n)

    def write(self, m, addr, v, n):
        o, off = self.find(addr, n, 'write')
        if o.ro:
            raise Fault('memory', 'write to read-only %s' % o.name)
        loc = (o.base, off, n)
        self.access(loc, True)
        if loc not in self.shared and o.kind != 'later':
            return False
        self.event('write', loc, n, obj=o.name, plain=True, val=v)
        return False

    def access(self, loc, w):
        """notes an access, and whether it makes the location one that needs events"""
        s = self.touch.setdefault(loc[:3], set())
        a = (self.th, w, self.made)
        if a in s:
            return
        s.add(a)
        if loc in self.shared or len(loc) > 3:
            return
        for b in s:
            if b[0] != self.th and (b[1] or w) and not self.before(a, b) and not self.before(b, a):
                self.newshared.add(loc)
                return
        if self.th and len(self.snaps.get(self.th, ())) > 1:
            d = [x.get(loc[0]) for x in self.snaps[self.th]]
            d = [None if x is None else x[loc[1]:loc[1] + loc[2]] for x in d]
            if any(x != d[0] for x in d):
                self.newshared.add(loc)

    def before(self, a, b):
        """access a happens before thread b[0] was created"""
        k = self.snapkey.get(b[0])
        return k is not None and k[0] == a[0] and a[2] <= k[1]

    def atomic(self, kind, addr, n, order, v=None):
        m = self.m
        if kind == 'fence':
            self.event('fence', None, 0, order=order)
            return
        if addr.__class__ is N:
            addr = self.resolve(m, addr)
        o, off = self.find(addr, n, 'read')
        loc = (o.base, off, n)
        w = 8 * n
        if kind == 'load':
            self.access(loc, False)
            if loc not in self.shared and o.kind != 'later':
                if self.made or self.th:
                    self.newshared.add(loc)
                    raise PathEnd()
                return Machine.ld(m, addr, n)
            l = self.cur
            if l is not None and l.kind == 'read' and l.loc == loc and l.order == order:
                # nothing happened in between: the executions in which the two loads differ are those in which
                # the first one happens later
                self.same += 1
                if self.same >= self.max_same:
                    if self.same > self.max_same + 2:
                        raise ThreadEnd('spin')
                    return T.var(l.var, w)
            else:
                self.same = 0
            return self.rd(loc, n, o, order)
        self.access(loc, True)
        if kind == 'store':
            if loc in self.shared or o.kind == 'later':
                self.event('write', loc, n, order=order, obj=o.name, val=v)
            Machine.st(m, addr, v, n)
            return
        sh = loc in self.shared or o.kind == 'later'
        old = T.var(self.evar('rmw'), w) if sh else Machine.ld(m, addr, n)
        if kind == 'cmpxchg':
            exp, new = v
            ok = T.eq(old, exp, w)
            r = T.ite(ok, new, old) if ok.__class__ is N else (new if ok else old)
        else:
            op = kind[4:]
            if op == 'add':
                r = execu.op_add(old, v, w)
            elif op == 'sub':
                r = execu.op_sub(old, v, w)
            elif op == 'xchg':
                r = v
            elif op in ('and', 'or', 'xor'):
                r = execu.norm(T.bitop(op, old, v, w), w)
            else:
                raise Unsupported(kind)
        if sh:
            self.event('rmw', loc, n, order=order, obj=o.name, val=r)
        Machine.st(m, addr, r, n)
        return [old, ok] if kind == 'cmpxchg' else old

    def install(self, X):
        m = self.m
        m.on_atomic = self.atomic

        def create(pt, attr, fn, arg):
            key = (self.th, self.made)
            k = None
            for t, s in self.snapkey.items():
                if s == key:
                    k = t
            glob = {o.base: list(o.data) for o in m.globs}
            mem, seen, objs = [], set(), {}
            for o in m.pages.values():
                if id(o) in seen:
                    continue
                seen.add(id(o))
                objs[o.base] = list(o.data)
                if o.kind != 'global':
                    mem.append((o.base, o.size, o.name, o.kind, objs[o.base], o.live, o.pg, o.npg))
            if k is None:
                k = len(self.threads)
                self.threads.append(k)
                self.snapkey[k] = key
                self.snap[k] = (fn, arg, mem, glob)
                self.snaps[k] = []
                self.todo.append((k, (), None, []))
            elif self.snap[k][:2] != (fn, arg):
                raise Unsupported('thread creation depends on the path')
            new = self.bykey.get((self.th, self.key(self.ids + 1))) is None
            if new:
                self.snaps[k].append(objs)
            self.made += 1
            self.event('create', None, 0, tid=k)
            m.st(pt, 0x7000 + k, m.PB)
            if new:
                for loc in list(self.touch):
                    if loc not in self.shared and any(a[0] == k for a in self.touch[loc]):
                        self.samesnap(k, loc)
            return 0

        def join(t, ret):
            if t.__class__ is N:
                t = self.resolve(m, t)
            k = (t & 0xffff) - 0x7000
            if k not in self.threads:
                raise ThreadEnd('error', 'join of something that is not a thread')
            self.event('join', None, 0, tid=k)
            return 0

        def lock(a):
            a = self.sync(a)
            if a in self.held:
                raise ThreadEnd('error', 'thread locks a mutex that it holds')
            self.event('lock', a, 0)
            self.held.append(a)
            return 0

        def unlock(a):
            a = self.sync(a)
            if a not in self.held:
                raise ThreadEnd('error', 'thread unlocks a mutex that it does not hold')
            self.held.remove(a)
            self.event('unlock', a, 0)
            return 0

        def wait(c, a):
            c, a = self.sync(c), self.sync(a)
            if a not in self.held:
                raise ThreadEnd('error', 'wait without holding the mutex')
            l = self.cur
            while l is not None and l.kind == 'read':
                l = l.parent
            self.waits = self.waits + 1 if l is not None and l.kind == 'lock' and l.msg == c else 1
            if self.waits > self.max_waits:
                raise ThreadEnd('cut', 'spurious wake-ups')
            self.event('unlock', a, 0, msg=c)      # waiting on c from here
            self.event('lock', a, 0, msg=c)
            return 0

        def bcast(c):
            self.event('signal', self.sync(c), 0, msg='broadcast')
            return 0

        def signal(c):
            self.event('signal', self.sync(c), 0, msg='signal')
            return 0

        def initd(a):
            self.event('write', self.sync(a), 0, plain=True)
            return 0
        X['pthread_create'] = create
        X['pthread_join'] = join
        X['pthread_mutex_lock'] = lock
        X['pthread_mutex_unlock'] = unlock
        X['pthread_cond_wait'] = wait
        X['pthread_cond_broadcast'] = bcast
        X['pthread_cond_signal'] = signal
        for n in ('pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_cond_init', 'pthread_cond_destroy'):
            X[n] = (lambda a, *r: initd(a))
        oldfree = X['free']

        def free(p, *a):
            if p.__class__ is N:
                p = self.resolve(m, p)
            if p:
                o = m.pages.get(p >> execu.PG)
                if o is not None and o.kind == 'later':
                    o.kind = 'heap'
                oldfree(p)
                self.free(o)
        for k in list(X):
            if X[k] is oldfree:
                X[k] = free
        X['vp_fail'] = self.fail
        for n in ('nanosleep', 'usleep', 'sched_yield', 'sleep'):
            X[n] = lambda *a: 0

    def who(self, th):
        return 'main thread' if th == 0 else 'worker %d' % th

    def samesnap(self, k, loc):
        d = [x.get(loc[0]) for x in self.snaps[k]]
        d = [None if x is None else x[loc[1]:loc[1] + loc[2]] for x in d]
        if any(x != d[0] for x in d):
            self.newshared.add(loc)

    def fail(self, what, r, k):
        c = lambda x: x if x.__class__ is int else '?'
        raise ThreadEnd('error', {1: 'task has not run when Execute returns', 2: 'task ran more than once', 3: 'task without an allocator'}.get(what, 'failure %s' % c(what))
                        + ' (round %s, task %s)' % (c(r), c(k)))

    def sync(self, a):
        if a.__class__ is N:
            a = self.resolve(self.m, a)
        o, off = self.find(a, 1, 'synchronisation object')
        return (o.base, off, 0)

    def key(self, ids):
        return '%d_%s' % (ids, ''.join(map(str, self.m.decisions)))

    def evar(self, kind):
        return 'v%d_%s' % (self.th, self.key(self.ids + 1))

    def event(self, kind, loc, n, order=None, msg=None, obj=None, plain=False, val=None, tid=None):
        m = self.m
        if self.ids >= self.max_events and kind not in ('cut', 'error'):
            raise ThreadEnd('cut', 'too many events')
        key = self.key(self.ids + 1)
        var = self.evar(kind) if kind in ('read', 'rmw') else None
        self.ids += 1
        k = (self.th, key)
        e = self.bykey.get(k)
        guards = m.pc[self.pcpos:]
        self.pcpos = len(m.pc)
        if e is not None:
            if e.kind != kind or e.loc != loc:
                raise Unsupported('event tree is not deterministic: %r / %s %s' % (e, kind, loc))
        else:
            e = Node()
            e.key, e.th, e.parent, e.kids, e.guards = key, self.th, self.cur, [], list(guards)
            e.kind, e.loc, e.n, e.order, e.val, e.var, e.msg = kind, loc, n, order, val, var, msg
            e.obj, e.plain, e.tid = obj, plain, tid
            e.id = len(self.nodes)
            e.depth = 0 if self.cur is None else self.cur.depth + 1
            e.rf, e.grow, e.rel, e.unl, e.lock = [], None, None, [], None
            self.nodes.append(e)
            self.bykey[k] = e
            if self.cur is not None:
                self.cur.kids.append(e)
            self.encode(e)
        self.cur = e
        return e

    # ------------------------------------------------------------- encoding
    INF = 1 << 30

    def encode(self, e):
        S = self.S
        e.en = self.bool('e%d' % e.id)
        e.t = self.int('t%d' % e.id)
        S.add(e.t < self.INF)
        if e.parent is not None:
            S.add(e.t > e.parent.t)
            S.add(z3.Implies(e.en, self.And(e.parent.en, *self.lits(e.guards))))
        else:
            S.add(e.t >= 0)
        k = e.kind
        if k == 'begin':
            self.begins[e.th] = e
            if e.th:
                e.grow = self.grow(e.en)
                for c in self.creates.get(e.th, ()):
                    self.created_by(e, c)
        elif k == 'create':
            self.creates.setdefault(e.tid, []).append(e)
            if e.tid in self.begins:
                self.created_by(self.begins[e.tid], e)
        elif k == 'join':
            e.grow = self.grow(e.en)
            self.joins.setdefault(e.tid, []).append(e)
            for x in self.ends.get(e.tid, ()):
                self.more(e.grow, z3.And(x.en, x.t < e.t))
        elif k == 'end':
            self.ends.setdefault(e.th, []).append(e)
            for j in self.joins.get(e.th, ()):
                self.more(j.grow, z3.And(e.en, e.t < j.t))
        elif k == 'lock':
            e.rel = self.int('r%d' % e.id)
            g = self.grow(e.en)
            e.grow = g
            self.more(g, e.rel == self.INF)
            for l in self.locks.get(e.loc, ()):
                if l.th != e.th:
                    S.add(z3.Implies(z3.And(e.en, l.en), z3.Or(e.rel < l.t, l.rel < e.t)))
            self.locks.setdefault(e.loc, []).append(e)
        elif k == 'unlock':
            l = e.parent
            while l is not None and not (l.kind == 'lock' and l.loc == e.loc):
                l = l.parent
            e.lock = l
            l.unl.append(e)
            self.more(l.grow, z3.And(e.en, l.rel == e.t))
        elif k == 'free':
            self.frees.append(e)
        if k in ('write', 'rmw') and e.n:
            ws = self.writes.setdefault(e.loc, [])
            for r in self.reads.get(e.loc, ()):
                if r.th != e.th:
                    for w, b in r.rf:
                        self.notbetween(r, w, b, e)
            ws.append(e)
            for r in self.reads.get(e.loc, ()):
                if r.th != e.th:
                    self.readsfrom(r, e)
        if k in ('read', 'rmw'):
            self.varloc[e.var] = e.loc
            self.varw[e.var] = 8 * e.n
            e.grow = self.grow(e.en)
            own = e.parent
            while own is not None and not (own.kind in ('write', 'rmw') and own.loc == e.loc):
                own = own.parent
            if own is not None:
                self.readsfrom(e, own)
            else:
                self.readsfrom(e, None)
            for w in self.writes.get(e.loc, ()):
                if w.th != e.th:
                    self.readsfrom(e, w)
            self.reads.setdefault(e.loc, []).append(e)

    def created_by(self, b, c):
        self.S.add(z3.Implies(c.en, c.t < b.t))
        self.more(b.grow, c.en)

    def value(self, x, n):
        if x.__class__ is int:
            return z3.BitVecVal(x, 8 * n, self.ctx)
        return z3.BitVecRef(self.em.bv(x, 8 * n), self.ctx)

    def initial(self, loc):
        """contents before the first write: known for globals only"""
        for o in self.m.globs:
            if o.base == loc[0]:
                d = self.globinit(o)[loc[1]:loc[1] + loc[2]]
                if all(x.__class__ is int for x in d):
                    return int.from_bytes(bytes(d), 'little')
        return None

    def globinit(self, o):
        i = self.inits.get(o.base)
        return i if i is not None else o.data

    def readsfrom(self, r, w):
        b = self.bool('rf%d_%s' % (r.id, 'i' if w is None else w.id))
        var = z3.BitVecRef(self.em.var(r.var, 8 * r.n), self.ctx)
        c = []
        if w is not None:
            c = [w.en, w.t < r.t, var == self.value(w.val, r.n)]
        else:
            v = self.initial(r.loc)
            if v is not None:
                c = [var == v]
        if c:
            self.S.add(z3.Implies(b, self.And(*c)))
        r.rf.append((w, b))
        for x in self.writes.get(r.loc, ()):
            self.notbetween(r, w, b, x)
        self.more(r.grow, b)

    def under(self, a, b):
        """b is a, or below it, in the tree of a thread"""
        while b is not None and b.depth > a.depth:
            b = b.parent
        return a is b

    def notbetween(self, r, w, b, x):
        if x is w or x is r:
            return
        alt = []
        if x.th == r.th:
            if not self.under(x, r):
                return
            # x before r in its own thread
            if w is None:
                alt = []
            elif w.th == r.th:
                return            # w is the last one before r
            else:
                alt = [x.t < w.t]
        elif w is not None and x.th == w.th:
            if not self.under(w, x):
                return
            alt = [r.t < x.t]
        else:
            alt = [r.t < x.t]
            if w is not None:
                alt.append(x.t < w.t)
        self.S.add(z3.Or(z3.Not(b), z3.Not(x.en), *alt))

    # ------------------------------------------------------------- queries on the complete trees
    def clocks(self):
        """a second clock that has to respect happens-before only (C++11)"""
        S = self.S
        h = {n: self.int('h%d' % n.id) for n in self.nodes}
        s = {}
        for n in self.nodes:
            if n.kind == 'fence':
                raise Unsupported('memory fence')
            if n.parent is not None:
                S.add(h[n] > h[n.parent])
            if n.kind in ('write', 'rmw') and n.n:
                s[n] = self.int('s%d' % n.id)
                if n.order in REL:
                    S.add(s[n] >= h[n])
        for n in self.nodes:
            if n.kind == 'begin':
                for c in self.creates.get(n.th, ()):
                    S.add(z3.Implies(c.en, h[c] < h[n]))
            elif n.kind == 'join':
                for x in self.ends.get(n.tid, ()):
                    S.add(z3.Implies(z3.And(n.en, x.en), h[x] < h[n]))
            elif n.kind == 'unlock':
                for l in self.locks.get(n.loc, ()):
                    if l.th != n.th:
                        S.add(z3.Or(z3.Not(n.en), z3.Not(l.en), l.t < n.t, h[n] < h[l]))
            if n.kind in ('read', 'rmw'):
                for w, b in n.rf:
                    if w is None:
                        continue
                    if n.order in ACQ:
                        S.add(z3.Implies(b, s[w] < h[n]))
                    if n.kind == 'rmw':
                        S.add(z3.Implies(b, s[n] >= s[w]))
        return h

    def conflicts(self):
        """pairs of accesses of two threads to the same memory, at least one of them a write and one not atomic"""
        by = {}
        for n in self.nodes:
            if n.loc is not None:
                by.setdefault(n.loc[0], []).append(n)
        for base, ns in by.items():
            plain = [n for n in ns if n.plain]
            for a in plain:
                for b in ns:
                    if a.th == b.th or (b.plain and b.id < a.id):
                        continue
                    if a.kind == 'read' and b.kind == 'read':
                        continue
                    if a.kind != 'free' and b.kind != 'free':
                        (x, i), (y, j) = (a.loc[1], max(a.loc[2], 1)), (b.loc[1], max(b.loc[2], 1))
                        if not (x < y + j and y < x + i):
                            continue
                    yield a, b

    def ask(self, lits, what):
        """some of the lits: [(literal, description)]"""
        if not lits:
            return None
        self.nf += 1
        q = self.bool('q%d' % self.nf)
        self.S.add(z3.Or(z3.Not(q), *[l for l, _ in lits]))
        if not self.check([q]):
            return None
        m = self.S.model()
        for l, d in lits:
            if z3.is_true(m.eval(l, model_completion=True)):
                return what, d() if callable(d) else d, self.schedule(m)
        return what, '?', self.schedule(m)

    def races(self):
        self.S.push()
        h = self.clocks()
        lits = []
        for a, b in self.conflicts():
            lits.append((z3.And(a.en, b.en, h[a] == h[b]), 'data race between %s and %s on %s' % (self.descr(a), self.descr(b), self.name(a.loc))))
        r = self.ask(lits, 'race')
        self.S.pop()
        return r, len(lits)

    def descr(self, n):
        return '%s (%s%s)' % (self.who(n.th), n.kind, ' ' + n.order if n.order else '')

    def after_free(self):
        self.S.push()
        lits = []
        for f in self.frees:
            for n in self.nodes:
                if n.loc is not None and n.loc[0] == f.loc[0] and n.th != f.th:
                    lits.append((z3.And(f.en, n.en, f.t < n.t), '%s after %s freed %s' % (self.descr(n), self.who(f.th), f.obj)))
        r = self.ask(lits, 'after-free')
        self.S.pop()
        return r, len(lits)

    def deadlock(self):
        S = self.S
        S.push()
        Not, And, Or = z3.Not, self.And, self.Or
        for th in self.threads:
            b = self.begins.get(th)
            if th == 0:
                S.add(b.en)
            elif b is not None:
                for c in self.creates[th]:
                    S.add(z3.Implies(c.en, b.en))
        stuck = []
        for n in self.nodes:
            if n.kind in ('cut', 'error'):
                S.add(Not(n.en))
                continue
            kids = [k.en for k in n.kids]
            alts = []
            if n.kind == 'end':
                continue
            if n.kind == 'spin':
                r = n.parent
                c = And(*[Not(And(w.en, w.t > r.t)) for w in self.writes.get(r.loc, ()) if w.th != r.th])
                alts.append((c, '%s waits forever for a change of %s' % (self.who(n.th), self.name(r.loc))))
            for k in n.kids:
                g = self.lits(k.guards)
                if k.kind == 'lock':
                    hold = [And(l.en, *[Not(u.en) for u in l.unl]) for l in self.locks[k.loc] if l.th != k.th]
                    alts.append((And(Or(*hold), *g), '%s waits forever for a mutex' % self.who(n.th)))
                    if k.msg is not None:
                        c = []
                        for s in self.nodes:
                            if s.kind == 'signal' and s.loc == k.msg and s.th != n.th:
                                x = [Not(s.en), s.t < n.t]
                                if s.msg == 'signal':
                                    for o in self.nodes:
                                        if o.kind == 'unlock' and o.msg == k.msg and o.th not in (n.th, s.th):
                                            x.append(And(o.en, o.t < s.t, Not(Or(*[And(w.en, w.t < s.t) for w in o.kids]))))
                                c.append(Or(*x))
                        alts.append((And(*(c + g)), '%s waits forever for a condition variable' % self.who(n.th)))
                elif k.kind == 'join':
                    alts.append((And(*([Not(x.en) for x in self.ends.get(k.tid, ())] + g)), '%s waits forever for %s to end' % (self.who(n.th), self.who(k.tid))))
            S.add(Or(Not(n.en), *(kids + [c for c, _ in alts])))
            for c, d in alts:
                stuck.append((And(n.en, c, *[Not(k) for k in kids]), d))
        r = self.ask(stuck, 'deadlock')
        S.pop()
        return r, len(stuck)

    def complete(self):
        """sanity: some execution ends all threads"""
        return self.check([x for x in [self.Or(*[e.en for e in self.ends.get(th, ())]) for th in self.threads]])

    CODE = {'lock': 'L', 'unlock': 'U', 'signal': 'S', 'create': 'C', 'join': 'J', 'begin': 'B', 'end': 'E'}

    def script(self, sched):
        out = []
        for n in sched:
            c = self.CODE.get(n.kind)
            if n.kind == 'unlock' and n.msg is not None:
                c = 'W'
            if n.kind == 'lock' and n.msg is not None:
                c = 'K'
            if n.order is not None:
                c = {'read': 'R', 'write': 'A', 'rmw': 'M'}[n.kind]
            if c:
                out.append('%d %s' % (n.th, c))
        return out
