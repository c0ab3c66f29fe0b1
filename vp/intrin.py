"""LLVM intrinsics and library stubs."""
import re
from . import term as T
from .term import N
from . import execu as E
from .execu import norm, sg, Fault, Unsupported, b32, b64, f32, f64


def lanes(f):
    """lift a scalar function over vectors."""
    def g(*a):
        for x in a:
            if x.__class__ is list:
                n = len(x)
                break
        else:
            return f(*a)
        return [f(*[x[i] if x.__class__ is list else x for x in a]) for i in range(n)]
    return g


def satu(v, w):
    """saturate integer v to unsigned w bits"""
    return T.smin(T.smax(v, 0), T._M[w])


def sats(v, w):
    h = 1 << (w - 1)
    return T.smin(T.smax(v, -h), h - 1)


def c(v, w):
    return norm(v, w)


def width(t):
    return (t.e if t.k == 'vec' else t).n


def lookup(m, name, rt, at):
    """returns python callable or None to drop the call."""
    b = name[5:]
    if b.startswith(('lifetime', 'dbg', 'invariant', 'assume', 'experimental.noalias', 'prefetch', 'donothing', 'va_end',
                     'stackrestore')):
        return None
    if b.startswith('stacksave'):
        return lambda *a: 0
    if b.startswith(('memcpy', 'memmove')):
        return lambda d, s, n, v: m.memcpy(d, s, n)
    if b.startswith('memset'):
        return lambda d, x, n, v: m.memset(d, x, n)
    if b.startswith('trap'):
        def trap(*a):
            raise Fault('abort', 'llvm.trap')
        return trap
    if b.startswith('expect'):
        return lambda x, *a: x
    if b.startswith('is.constant'):
        return lambda *a: 0
    if b.startswith('objectsize'):
        return lambda *a: T._M[rt.n]
    if b.startswith('ptrmask'):
        return lambda p, k: p & k
    if rt.k in ('i', 'vec') and not b.startswith(('x86', 'aarch64', 'arm', 'lrint', 'lround', 'llrint', 'llround', 'fpto')):
        w = width(rt)
        e = (rt.e if rt.k == 'vec' else rt)
        if e.k == 'i':
            r = generic_int(m, b, w, rt, at)
            if r is not None:
                return r
    if rt.k == 'struct' and '.with.overflow' in b:
        w = width(at[0])
        op = b.split('.')[0]

        def wo(a, bb):
            sgd = op[0] == 's'
            x, y = (T.sgn(a, w), T.sgn(bb, w)) if sgd else (T.uns(a, w), T.uns(bb, w))
            v = {'add': T.add, 'sub': T.sub, 'mul': T.mul}[op[1:]](x, y)
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if sgd else (0, T._M[w])
            o = T.bitop('or', T.lt(v, lo), T.lt(hi, v), 1)
            return [c(v, w), o]
        return wo
    fl = generic_float(m, b, rt, at)
    if fl is not None:
        return fl
    if b.startswith('x86.'):
        from . import x86
        r = x86.intrinsic(m, b[4:], rt, at)
        if r is not None:
            return r
    if b.startswith('aarch64.') or b.startswith('arm.'):
        from . import arm
        r = arm.intrinsic(m, b, rt, at)
        if r is not None:
            return r
    raise Unsupported('intrinsic ' + name)


def generic_int(m, b, w, rt, at):
    h = b.split('.')[0]
    M = T._M[w]
    if h == 'smax':
        return lanes(lambda x, y: c(T.smax(T.sgn(x, w), T.sgn(y, w)), w))
    if h == 'smin':
        return lanes(lambda x, y: c(T.smin(T.sgn(x, w), T.sgn(y, w)), w))
    if h == 'umax':
        return lanes(lambda x, y: T.smax(T.uns(x, w), T.uns(y, w)))
    if h == 'umin':
        return lanes(lambda x, y: T.smin(T.uns(x, w), T.uns(y, w)))
    if h == 'abs':
        def ab(x, p):
            s = T.sgn(x, w)
            return c(T.ite(T.lt(s, 0), T.neg(s), s), w)
        return lambda x, p: [ab(e, p) for e in x] if x.__class__ is list else ab(x, p)
    if b.startswith('sadd.sat'):
        return lanes(lambda x, y: c(sats(T.add(T.sgn(x, w), T.sgn(y, w)), w), w))
    if b.startswith('ssub.sat'):
        return lanes(lambda x, y: c(sats(T.sub(T.sgn(x, w), T.sgn(y, w)), w), w))
    if b.startswith('uadd.sat'):
        return lanes(lambda x, y: c(satu(T.add(T.uns(x, w), T.uns(y, w)), w), w))
    if b.startswith('usub.sat'):
        return lanes(lambda x, y: c(satu(T.sub(T.uns(x, w), T.uns(y, w)), w), w))
    if b.startswith('sshl.sat'):
        def ssh(x, k):
            if k.__class__ is N:
                raise Unsupported('sshl.sat symbolic')
            return c(sats(T.mul(T.sgn(x, w), 1 << k), w), w)
        return lanes(ssh)
    if h == 'fshl' or h == 'fshr':
        def fsh(a, bb, k):
            if k.__class__ is N:
                raise Unsupported('symbolic funnel shift')
            k %= w
            if h == 'fshr':
                k = (w - k) % w if k else 0
                if k == 0:
                    return bb
            if k == 0:
                return a
            return c(T.cat([(T.extract(T.uns(bb, w), w - k, k), k), (T.trunc(a, w - k), w - k)]), w)
        return lanes(fsh)
    if h == 'bswap':
        def bs(a):
            return c(T.cat([(T.extract(a, w - 8 * (i + 1), 8), 8) for i in range(w // 8)]), w)
        return lanes(bs)
    if h == 'ctpop':
        def pop(a):
            if a.__class__ is int:
                return bin(a).count('1')
            r = 0
            for i in range(w):
                r = T.add(r, T.extract(a, i, 1))
            return r
        return lanes(pop)
    if h in ('ctlz', 'cttz'):
        def lz(a, p):
            if a.__class__ is int:
                if h == 'ctlz':
                    return w - a.bit_length()
                return ((a & -a).bit_length() - 1) if a else w
            a = T.uns(a, w)
            r = w
            if h == 'ctlz':
                # highest set bit i  <=>  a >= 2^i
                r = w
                for i in range(w):
                    r = T.ite(T.le(1 << i, a), w - 1 - i, r)
                # order: later (higher) i wins
                return r
            for i in range(w - 1, -1, -1):
                r = T.ite(T.extract(a, i, 1), i, r)
            return r
        return lambda a, p: [lz(x, p) for x in a] if a.__class__ is list else lz(a, p)
    if b.startswith('vector.reduce.'):
        op = b.split('.')[2]
        wv = width(at[0])
        f = {'add': E.op_add, 'mul': E.op_mul, 'and': E.op_and, 'or': E.op_or, 'xor': E.op_xor}.get(op)
        if f is None:
            g = {'smax': lambda x, y, w_: c(T.smax(T.sgn(x, w_), T.sgn(y, w_)), w_),
                 'smin': lambda x, y, w_: c(T.smin(T.sgn(x, w_), T.sgn(y, w_)), w_),
                 'umax': lambda x, y, w_: T.smax(T.uns(x, w_), T.uns(y, w_)),
                 'umin': lambda x, y, w_: T.smin(T.uns(x, w_), T.uns(y, w_))}
            f = g[op]

        def red(v):
            r = v[0]
            for x in v[1:]:
                r = f(r, x, wv)
            return r
        return red
    if h == 'bitreverse':
        def br(a):
            return c(T.cat([(T.extract(a, w - 1 - i, 1), 1) for i in range(w)]), w)
        return lanes(br)
    return None


def generic_float(m, b, rt, at):
    import math
    t = at[0] if at else None
    if t is None:
        return None
    e = t.e if t.k == 'vec' else t
    if e.k not in ('float', 'double'):
        return None
    w = e.n
    un = (lambda v: f32(v)) if w == 32 else (lambda v: f64(v))
    mk = b32 if w == 32 else b64
    h = b.split('.')[0]

    def rnd_even(x):
        if x != x or abs(x) >= 2 ** 53:
            return x
        return math.copysign(float(round(x)), x)

    def rnd_away(x):
        if x != x or abs(x) >= 2 ** 53:
            return x
        return math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) != 0.49999999999999994 else math.copysign(0.0, x)
    one = {'fabs': abs, 'floor': lambda x: float(math.floor(x)), 'ceil': lambda x: float(math.ceil(x)),
           'trunc': lambda x: float(math.trunc(x)), 'rint': rnd_even, 'nearbyint': rnd_even, 'roundeven': rnd_even,
           'round': rnd_away, 'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log}
    if h in one:
        if h == 'fabs':
            return lanes(lambda v: T.bitop('and', v, T._M[w - 1], w))
        f = one[h]
        return lanes(lambda v: mk(f(un(v))) if v.__class__ is int else T.uf(h + str(w), ((v, w),), w))
    if h in ('lround', 'llround', 'lrint', 'llrint'):
        f = rnd_away if 'round' in h else rnd_even
        rw = width(rt)
        return lanes(lambda v: int(f(un(v))) & T._M[rw] if v.__class__ is int else T.uf('%s%d_%d' % (h, w, rw), ((v, w),), rw))
    if h in ('maxnum', 'minnum', 'maximum', 'minimum'):
        f = max if h.startswith('max') else min
        return lanes(lambda a, bb: mk(f(un(a), un(bb))) if a.__class__ is int and bb.__class__ is int
                     else T.uf(h + str(w), ((a, w), (bb, w)), w))
    if h == 'fmuladd':
        return lanes(lambda a, bb, cc: E.fbin('fadd', E.fbin('fmul', a, bb, w), cc, w))
    if h == 'fma':
        def fma(a, bb, cc):
            return T.uf('fma%d' % w, ((a, w), (bb, w), (cc, w)), w)
        return lanes(fma)
    if h == 'copysign':
        return lanes(lambda a, bb: norm(T.bitop('or', T.bitop('and', a, T._M[w - 1], w), T.bitop('and', bb, 1 << (w - 1), w), w), w))
    if b.startswith('fptosi.sat') or b.startswith('fptoui.sat'):
        rw = width(rt)
        sgd = b.startswith('fptosi')

        def fs(v):
            if v.__class__ is int:
                x = un(v)
                if x != x:
                    return 0
                lo, hi = (-(1 << (rw - 1)), (1 << (rw - 1)) - 1) if sgd else (0, T._M[rw])
                if x >= hi:
                    return hi & T._M[rw]
                if x <= lo:
                    return lo & T._M[rw]
                return int(x) & T._M[rw]
            return T.uf('%s%d_%d' % ('fptosisat' if sgd else 'fptouisat', w, rw), ((v, w),), rw)
        return lanes(fs)
    return None


# ------------------------------------------------------------------ externals
def install(m):
    X = m.ext
    cnt = [0]

    def alloc(n, align, name='heap'):
        if n.__class__ is N:
            raise Unsupported('symbolic allocation size')
        if n > (1 << 28):
            raise Unsupported('allocation of %d bytes' % n)
        cnt[0] += 1
        o = m.newobj(n, '%s%d' % (name, cnt[0]), 'heap', align)
        m.heap_objs.append(o)
        return o.base

    def malloc(n):
        return alloc(n, 16 if m.ptrbits == 64 else 8)

    def free(p, *a):
        if p == 0:
            return
        o = m.pages.get(p >> E.PG)
        if o is None or o.base != p or o.kind != 'heap':
            raise Fault('memory', 'free of invalid pointer 0x%x' % p)
        if not o.live:
            raise Fault('memory', 'double free of %s' % o.name)
        o.live = False

    def posix_memalign(pp, al, n):
        if al.__class__ is int and (al & (al - 1) or al < m.PB):
            return 22
        m.st(pp, alloc(n, al), m.PB)
        return 0

    def aligned_alloc(al, n):
        return alloc(n, al)

    def calloc(a, b):
        p = malloc(a * b)
        m.memset(p, 0, a * b)
        return p

    X['malloc'] = malloc
    X['calloc'] = calloc
    X['free'] = free
    X['posix_memalign'] = posix_memalign
    X['aligned_alloc'] = aligned_alloc
    X['memalign'] = aligned_alloc
    for s in ('m', 'j'):
        X['_Znw' + s] = malloc
        X['_Zna' + s] = malloc
        X['_Znw%sSt11align_val_t' % s] = lambda n, al: alloc(n, al)
        X['_Zna%sSt11align_val_t' % s] = lambda n, al: alloc(n, al)
        X['_ZdlPv' + s] = free
        X['_ZdaPv' + s] = free
        X['_ZdlPv%sSt11align_val_t' % s] = free
    X['_ZdlPv'] = free
    X['_ZdaPv'] = free
    X['_ZdlPvSt11align_val_t'] = free

    def memcpy(d, s, n):
        m.memcpy(d, s, n)
        return d

    def memset(d, v, n):
        m.memset(d, v, n)
        return d
    X['memcpy'] = X['memmove'] = memcpy
    X['memset'] = memset

    def memcmp(a, b, n):
        for i in range(n):
            x, y = m.ld(a + i, 1), m.ld(b + i, 1)
            if x.__class__ is int and y.__class__ is int:
                if x != y:
                    return (1 if x > y else -1) & 0xffffffff
            else:
                raise Unsupported('symbolic memcmp')
        return 0
    X['memcmp'] = X['bcmp'] = memcmp

    def strlen(p):
        return len(m.cstr(p))
    X['strlen'] = strlen

    def strcmp(a, b):
        x, y = m.cstr(a), m.cstr(b)
        return 0 if x == y else (1 if x > y else 0xffffffff)
    X['strcmp'] = strcmp

    def assert_fail(e, f, l, fn):
        raise Fault('assert', 'assertion failed: %s (%s:%s)' % (m.cstr(e), m.cstr(f), l))
    X['__assert_fail'] = assert_fail

    def ab(*a):
        raise Fault('abort', 'abort() called')
    X['abort'] = ab
    X['_ZSt9terminatev'] = ab
    X['__cxa_pure_virtual'] = ab
    X['__stack_chk_fail'] = ab

    def ex(code, *a):
        raise Fault('abort', 'exit(%s) called' % code)
    X['exit'] = ex
    X['_exit'] = ex
    for n in ('_ZSt17__throw_bad_allocv', '_ZSt20__throw_length_errorPKc', '_ZSt28__throw_bad_array_new_lengthv',
              '_ZSt24__throw_out_of_range_fmtPKcz', '_ZSt19__throw_logic_errorPKc', '_ZSt25__throw_bad_function_callv',
              '_ZSt20__throw_system_errori'):
        X[n] = ab
    zero = lambda *a: 0
    for n in ('printf', 'fprintf', 'puts', 'putchar', 'fflush', 'fputs', 'fwrite', 'fputc', 'vfprintf', '__cxa_atexit',
              'perror', 'clock_gettime', 'gettimeofday', 'usleep', 'nanosleep', 'sched_yield', '__cxa_guard_abort'):
        X[n] = zero
    X['__cxa_guard_acquire'] = lambda g: 0 if m.ld(g, 1) == 1 else 1
    X['__cxa_guard_release'] = lambda g: m.st(g, 1, 1)
    X['sysconf'] = lambda n: m.ncpu if hasattr(m, 'ncpu') else 4
    X['getenv'] = zero
    X['rand'] = lambda: 12345
    for n in ('pthread_mutex_init', 'pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_destroy',
              'pthread_cond_init', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_cond_destroy',
              'pthread_once', 'pthread_getspecific', 'pthread_setspecific', 'pthread_key_create',
              'pthread_key_delete'):
        X[n] = zero

    def nothreads(*a):
        raise Unsupported('thread creation in sequential execution')
    X['pthread_create'] = nothreads
    X['pthread_cond_wait'] = nothreads
    X['pthread_join'] = nothreads

    def lround(v):
        if v.__class__ is int:
            return int(E.f64(v) + 0.5) if E.f64(v) >= 0 else -int(-E.f64(v) + 0.5)
        return T.uf('lround64_%d' % m.ptrbits, ((v, 64),), m.ptrbits)
    X['lround'] = lround
    # ARM EABI runtime helpers
    X['__aeabi_memcpy'] = X['__aeabi_memcpy4'] = X['__aeabi_memcpy8'] = memcpy
    X['__aeabi_memmove'] = X['__aeabi_memmove4'] = memcpy
    X['__aeabi_memset'] = X['__aeabi_memset4'] = X['__aeabi_memset8'] = lambda d, n, v: memset(d, v, n)
    X['__aeabi_memclr'] = X['__aeabi_memclr4'] = X['__aeabi_memclr8'] = lambda d, n: memset(d, 0, n)
    # harness protocol
    X['vp_log'] = lambda tag, a, b: m.logs.append((tag, a, b))
