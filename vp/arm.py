"""NEON intrinsics of the ARM and AArch64 targets (as LLVM calls)."""
import re
from . import term as T
from .term import N
from . import execu as E
from .execu import norm, Fault, Unsupported, bitcast
from .intrin import lanes, sats, satu, c, width


def ew(t):
    return width(t)


def pairs(v):
    return [(v[i], v[i + 1]) for i in range(0, len(v), 2)]


def rshl(x, s, w, signed, rnd, sat):
    """NEON shift by signed register amount."""
    s = T.sgn(T.trunc(s, 8), 8)
    x = T.sgn(x, w) if signed else T.uns(x, w)
    if s.__class__ is N:
        # symbolic amount: a chain over the possible values
        lo, hi = T.rng(s)
        lo, hi = max(lo, -w - 1), min(hi, w)
        r = None
        for k in range(lo, hi + 1):
            e = rshl(x, k & 255, w, signed, rnd, sat)
            r = e if r is None else T.ite(T.eq(s, k & 255, 8), e, r)
        # amounts beyond +-w behave as +-w
        s_ = s
        if T.rng(s)[1] > w:
            r = T.ite(T.lt(w, s_), rshl(x, w, w, signed, rnd, sat), r)
        if T.rng(s)[0] < -w - 1:
            r = T.ite(T.lt(s_, -w - 1), rshl(x, (-w - 1) & 255, w, signed, rnd, sat), r)
        return r
    if s >= 0:
        if sat:
            f = sats if signed else satu
            return c(f(T.mul(x, 1 << min(s, w)), w), w)
        if s >= w:
            return 0
        return c(T.mul(x, 1 << s), w)
    s = -s
    if rnd:
        x = T.add(x, 1 << (s - 1)) if s <= w + 1 else 0
    return c(T.shr(x, min(s, w + 2)), w)


def qdmulh(x, y, w, rnd):
    p = T.mul(T.sgn(x, w), T.sgn(y, w))
    p = T.mul(p, 2)
    if rnd:
        p = T.add(p, 1 << (w - 1))
    return c(sats(T.shr(p, w), w), w)


def intrinsic(m, b, rt, at):
    a64 = b.startswith('aarch64.')
    n = b[8:] if a64 else b[4:]
    if n.startswith('neon.'):
        n = n[5:]
        return neon(m, n, rt, at, a64)
    if n.startswith('crc') or n.startswith('hint') or n.startswith('dmb') or n.startswith('clrex'):
        return None
    return None


def neon(m, n, rt, at, a64):
    h = n.split('.')[0]
    # ---- loads/stores
    mm = re.match(r'^vld1$', h)
    if mm and not a64:
        w, cnt = ew(rt), rt.n
        return lambda p, al: m.ldv(p, cnt, w // 8)
    if h == 'vst1' and not a64:
        w = ew(at[1])
        return lambda p, v, al: m.stv(p, v, w // 8)
    mm = re.match(r'^(?:v)?ld([234])$', h) or re.match(r'^ld([234])$', h)
    if mm:
        k = int(mm.group(1))
        t = rt.fields[0]
        w, cnt = ew(t), t.n

        def ldk(p, *al):
            v = m.ldv(p, cnt * k, w // 8)
            return [v[i::k] for i in range(k)]
        return ldk
    mm = re.match(r'^(?:v)?ld1x([234])$', h)
    if mm:
        k = int(mm.group(1))
        t = rt.fields[0]
        w, cnt = ew(t), t.n

        def ldx(p, *al):
            v = m.ldv(p, cnt * k, w // 8)
            return [v[i * cnt:(i + 1) * cnt] for i in range(k)]
        return ldx
    mm = re.match(r'^(?:v)?st([234])$', h)
    if mm:
        k = int(mm.group(1))
        t = at[0] if a64 else at[1]
        w = ew(t)

        def stk(*a):
            if a64:
                vs, p = a[:k], a[k]
            else:
                p, vs = a[0], a[1:1 + k]
            m.stv(p, [x for tup in zip(*vs) for x in tup], w // 8)
        return stk
    mm = re.match(r'^(?:v)?st1x([234])$', h)
    if mm:
        k = int(mm.group(1))
        t = at[0] if a64 else at[1]
        w = ew(t)

        def stx(*a):
            if a64:
                vs, p = a[:k], a[k]
            else:
                p, vs = a[0], a[1:1 + k]
            m.stv(p, [x for v in vs for x in v], w // 8)
        return stx
    mm = re.match(r'^(?:v)?(ld|st)([234])lane$', h)
    if mm:
        k = int(mm.group(2))
        if mm.group(1) == 'ld':
            t = rt.fields[0]
            w = ew(t)

            def ldl(*a):
                if a64:
                    vs, ln, p = a[:k], a[k], a[k + 1]
                else:
                    p, vs, ln = a[0], a[1:1 + k], a[1 + k]
                e = m.ldv(p, k, w // 8)
                out = []
                for v, x in zip(vs, e):
                    v = list(v)
                    v[ln] = x
                    out.append(v)
                return out
            return ldl
        t = at[0] if a64 else at[1]
        w = ew(t)

        def stl(*a):
            if a64:
                vs, ln, p = a[:k], a[k], a[k + 1]
            else:
                p, vs, ln = a[0], a[1:1 + k], a[1 + k]
            m.stv(p, [v[ln] for v in vs], w // 8)
        return stl
    mm = re.match(r'^(?:v)?ld([1234])(?:r|dup)$', h)
    if mm:
        k = int(mm.group(1))
        t = rt.fields[0] if rt.k == 'struct' else rt
        w, cnt = ew(t), t.n

        def ldr(p, *al):
            e = m.ldv(p, k, w // 8)
            r = [[x] * cnt for x in e]
            return r if rt.k == 'struct' else r[0]
        return ldr
    if rt.k not in ('vec', 'i'):
        return None
    w = ew(rt)
    # ---- arithmetic
    if h in ('addp', 'vpadd', 'faddp'):
        if h == 'faddp' or (rt.e if rt.k == 'vec' else rt).k != 'i':
            return lambda x, y: [E.fbin('fadd', a, b, w) for a, b in pairs(x + y)]
        return lambda x, y: [E.op_add(a, b, w) for a, b in pairs(x + y)]
    if h in ('saddlp', 'vpaddls', 'uaddlp', 'vpaddlu'):
        s = h in ('saddlp', 'vpaddls')
        iw = ew(at[0])
        ex = (lambda v: T.sgn(v, iw)) if s else (lambda v: T.uns(v, iw))
        return lambda x: [c(T.add(ex(a), ex(b)), w) for a, b in pairs(x)]
    if h in ('vpadals', 'vpadalu'):
        s = h == 'vpadals'
        iw = ew(at[1])
        ex = (lambda v: T.sgn(v, iw)) if s else (lambda v: T.uns(v, iw))
        return lambda acc, x: [E.op_add(z, c(T.add(ex(a), ex(b)), w), w) for z, (a, b) in zip(acc, pairs(x))]
    if h in ('saddlv', 'uaddlv', 'saddv', 'uaddv'):
        s = h[0] == 's'
        iw = ew(at[0])
        ex = (lambda v: T.sgn(v, iw)) if s else (lambda v: T.uns(v, iw))

        def alv(x):
            r = 0
            for e in x:
                r = T.add(r, ex(e))
            return c(r, w)
        return alv
    if h in ('smaxv', 'sminv', 'umaxv', 'uminv'):
        iw = ew(at[0])
        s = h[0] == 's'
        f = T.smax if 'max' in h else T.smin

        def mv(x):
            r = None
            for e in x:
                e = T.sgn(e, iw) if s else T.uns(e, iw)
                r = e if r is None else f(r, e)
            return c(r, w)
        return mv
    if h in ('smaxp', 'sminp', 'umaxp', 'uminp', 'vpmaxs', 'vpmins', 'vpmaxu', 'vpminu'):
        s = h[0] == 's' or h[-1] == 's'
        f = T.smax if 'max' in h else T.smin
        ex = (lambda v: T.sgn(v, w)) if s else (lambda v: T.uns(v, w))
        return lambda x, y: [c(f(ex(a), ex(b)), w) for a, b in pairs(x + y)]
    if h in ('sqrdmulh', 'vqrdmulh'):
        return lanes(lambda x, y: qdmulh(x, y, w, True))
    if h in ('sqdmulh', 'vqdmulh'):
        return lanes(lambda x, y: qdmulh(x, y, w, False))
    mm = re.match(r'^sq(r?)dmulh$', h)
    if h in ('sqrdmulh.lane', 'sqrdmulh.laneq', 'sqdmulh.lane', 'sqdmulh.laneq'):
        return lambda x, y, ln: [qdmulh(e, y[ln], w, 'r' in h) for e in x]
    if h in ('sqxtn', 'vqmovns'):
        iw = ew(at[0])
        return lanes(lambda x: c(sats(T.sgn(x, iw), w), w))
    if h in ('uqxtn', 'vqmovnu'):
        iw = ew(at[0])
        return lanes(lambda x: c(satu(T.uns(x, iw), w), w))
    if h in ('sqxtun', 'vqmovnsu'):
        iw = ew(at[0])
        return lanes(lambda x: c(satu(T.sgn(x, iw), w), w))
    sh = {'sshl': (1, 0, 0), 'ushl': (0, 0, 0), 'srshl': (1, 1, 0), 'urshl': (0, 1, 0), 'sqshl': (1, 0, 1), 'uqshl': (0, 0, 1),
          'sqrshl': (1, 1, 1), 'uqrshl': (0, 1, 1),
          'vshifts': (1, 0, 0), 'vshiftu': (0, 0, 0), 'vrshifts': (1, 1, 0), 'vrshiftu': (0, 1, 0), 'vqshifts': (1, 0, 1),
          'vqshiftu': (0, 0, 1), 'vqrshifts': (1, 1, 1), 'vqrshiftu': (0, 1, 1)}.get(h)
    if sh:
        return lanes(lambda x, s: rshl(x, T.trunc(s, 8), w, *sh))
    if h in ('smull', 'umull', 'vmulls', 'vmullu'):
        s = h in ('smull', 'vmulls')
        iw = ew(at[0])
        ex = (lambda v: T.sgn(v, iw)) if s else (lambda v: T.uns(v, iw))
        return lanes(lambda x, y: c(T.mul(ex(x), ex(y)), w))
    if h == 'vbsl':
        n0 = rt.n

        def bsl(k, x, y):
            # per lane at the widest granularity at which the mask lanes are all-or-nothing
            for g in (32, 16, 8):
                if g < w or (n0 * w) % g:
                    continue
                kk = bitcast(k, n0, w, n0 * w // g, g)
                cs = []
                for e in kk:
                    if e.__class__ is not N:
                        cb = 1 if e == T._M[g] else 0 if e == 0 else None
                    else:
                        cb = T._maskbool(e, g)
                    cs.append(cb)
                if any(cb is None for cb in cs):
                    continue
                xx, yy = bitcast(x, n0, w, n0 * w // g, g), bitcast(y, n0, w, n0 * w // g, g)
                return bitcast([c(T.ite(cb, p, q), g) for cb, p, q in zip(cs, xx, yy)], n0 * w // g, g, n0, w)
            M = T._M[w]
            return [T.bitop('or', T.bitop('and', e, p, w), T.bitop('and', T.bitop('xor', e, M, w), q, w), w) for e, p, q in zip(k, x, y)]
        return bsl
    if h in ('srhadd', 'urhadd', 'shadd', 'uhadd', 'vrhadds', 'vrhaddu', 'vhadds', 'vhaddu', 'shsub', 'uhsub', 'vhsubs', 'vhsubu'):
        s = h in ('srhadd', 'shadd', 'vrhadds', 'vhadds', 'shsub', 'vhsubs')
        r = 'rh' in h
        sub = 'sub' in h
        ex = (lambda v: T.sgn(v, w)) if s else (lambda v: T.uns(v, w))

        def hadd(x, y):
            t = T.sub(ex(x), ex(y)) if sub else T.add(ex(x), ex(y))
            if r:
                t = T.add(t, 1)
            return c(T.shr(t, 1), w)
        return lanes(hadd)
    if h in ('sqadd', 'vqadds', 'sqsub', 'vqsubs', 'uqadd', 'vqaddu', 'uqsub', 'vqsubu'):
        s = h in ('sqadd', 'vqadds', 'sqsub', 'vqsubs')
        f = T.sub if 'sub' in h else T.add
        if s:
            return lanes(lambda x, y: c(sats(f(T.sgn(x, w), T.sgn(y, w)), w), w))
        return lanes(lambda x, y: c(satu(f(T.uns(x, w), T.uns(y, w)), w), w))
    if h in ('smax', 'smin', 'umax', 'umin', 'vmaxs', 'vmins', 'vmaxu', 'vminu'):
        s = h[0] == 's' or h[-1] == 's'
        f = T.smax if 'max' in h else T.smin
        ex = (lambda v: T.sgn(v, w)) if s else (lambda v: T.uns(v, w))
        return lanes(lambda x, y: c(f(ex(x), ex(y)), w))
    if h in ('sabd', 'uabd', 'vabds', 'vabdu'):
        s = h in ('sabd', 'vabds')
        ex = (lambda v: T.sgn(v, w)) if s else (lambda v: T.uns(v, w))
        return lanes(lambda x, y: c(T.sub(T.smax(ex(x), ex(y)), T.smin(ex(x), ex(y))), w))
    if h in ('abs', 'vabs', 'sqabs', 'vqabs'):
        def ab(x):
            x = T.sgn(x, w)
            r = T.smax(x, T.neg(x))
            if 'q' in h:
                r = sats(r, w)
            return c(r, w)
        return lanes(ab)
    if h in ('sqneg', 'vqneg'):
        return lanes(lambda x: c(sats(T.neg(T.sgn(x, w)), w), w))
    mm = re.match(r'^(?:v)?tbl1$', h)
    if mm:
        def tbl(t, ix):
            out = []
            for i in ix:
                if i.__class__ is N:
                    raise Unsupported('symbolic tbl')
                out.append(t[i] if i < len(t) else 0)
            return out
        return tbl
    mm = re.match(r'^(?:v)?(sq|uq|squ)?(r)?sh(?:ift|r)n?$', h)
    if h in ('sqshrn', 'sqrshrn', 'uqshrn', 'uqrshrn', 'sqshrun', 'sqrshrun', 'rshrn', 'shrn'):
        iw = ew(at[0])
        s = h[0] == 's' and h != 'shrn'
        r = 'rsh' in h
        un = h.endswith('un')

        def srn(x, k):
            x = T.sgn(x, iw) if s else T.uns(x, iw)
            if r:
                x = T.add(x, 1 << (k - 1))
            x = T.shr(x, k)
            if un or h.startswith('uq'):
                x = satu(x, w)
            elif h.startswith('sq'):
                x = sats(x, w)
            return c(x, w)
        return lambda x, k: [srn(e, k) for e in x] if x.__class__ is list else srn(x, k)
    if h in ('raddhn', 'addhn', 'rsubhn', 'subhn', 'vraddhn', 'vrsubhn'):
        iw = ew(at[0])

        def ahn(x, y):
            t = T.sub(x, y) if 'sub' in h else T.add(x, y)
            if 'r' == h[0] or h.startswith('vr'):
                t = T.add(t, 1 << (iw - w - 1))
            return T.extract(T.uns(t, iw), iw - w, w)
        return lanes(ahn)
    if h in ('fcvtns', 'fcvtas', 'vcvtns', 'vcvtas'):
        return lanes(lambda x: T.uf(h.replace('vcvt', 'fcvt') + '32_32', ((x, 32),), 32))
    return None
