"""AArch64 NEON inline-assembly interpreter."""
import re
from . import term as T
from .term import N
from . import execu as E
from .execu import Unsupported, Fault
from .armcommon import *
from . import armcommon

ES = {'b': 8, 'h': 16, 's': 32, 'd': 64}


def po(s):
    """parse operand"""
    mm = re.match(r'^#?(-?(?:0x[0-9a-fA-F]+|\d+))$', s)
    if mm:
        return ('imm', int(mm.group(1), 0))
    mm = re.match(r'^#?(-?\d+\.\d+)$', s)
    if mm:
        return ('fimm', float(mm.group(1)))
    mm = re.match(r'^v(\d+)\.(\d*)([bhsd])\[(\d+)\]$', s)
    if mm:
        return ('elem', int(mm.group(1)), ES[mm.group(3)], int(mm.group(4)))
    mm = re.match(r'^v(\d+)\.(\d+)([bhsd])$', s)
    if mm:
        return ('vec', int(mm.group(1)), ES[mm.group(3)], int(mm.group(2)))
    mm = re.match(r'^v(\d+)\.([bhsd])$', s)
    if mm:
        return ('vecn', int(mm.group(1)), ES[mm.group(2)])
    mm = re.match(r'^\$(\d+)\.(\d+)([bhsd])$', s)
    if mm:
        return ('vecop', int(mm.group(1)), ES[mm.group(3)], int(mm.group(2)))
    mm = re.match(r'^([xw])(\d+)$', s)
    if mm:
        return ('g', 'x' + mm.group(2), 64 if mm.group(1) == 'x' else 32)
    if s in ('xzr', 'wzr'):
        return ('imm', 0)
    mm = re.match(r'^([qdsbh])(\d+)$', s)
    if mm:
        return ('fp', int(mm.group(2)), {'q': 128, 'd': 64, 's': 32, 'h': 16, 'b': 8}[mm.group(1)])
    mm = re.match(r'^\$(\d+)$', s)
    if mm:
        return ('op', int(mm.group(1)))
    mm = re.match(r'^\$(\d+):w$', s)
    if mm:
        return ('op', int(mm.group(1)))
    mm = re.match(r'^\{(.*)\}(?:\[(\d+)\])?$', s)
    if mm:
        body = mm.group(1).strip()
        if '-' in body:
            a, b = [x.strip() for x in body.split('-')]
            pa, pb = po(a), po(b)
            n = (pb[1] - pa[1]) % 32 + 1
            regs = [(pa[0], (pa[1] + i) % 32) + pa[2:] for i in range(n)]
        else:
            regs = [po(x.strip()) for x in body.split(',')]
        return ('list', regs, None if mm.group(2) is None else int(mm.group(2)))
    mm = re.match(r'^\[(.*)\](!?)$', s)
    if mm:
        return ('mem', [po(x) for x in splitops(mm.group(1))], mm.group(2) == '!')
    mm = re.match(r'^(lsl|lsr|asr)\s*#(\d+)$', s)
    if mm:
        return ('shift', mm.group(1), int(mm.group(2)))
    return ('sym', s)


class State(BaseState):
    @staticmethod
    def compile(mn, ops):
        o = [po(x) for x in ops]
        f = COMPILED.get(mn)
        if f is not None:
            return f, (o,)
        if mn.startswith('b.') or (mn[0] == 'b' and mn[1:] in CONDS):
            cc = mn[2:] if mn[1] == '.' else mn[1:]
            lab = ops[0]
            return (lambda S, cc, lab: lab if S.cond(cc) else None), (cc, lab)
        raise Unsupported('aarch64 asm: %s %s' % (mn, ops))

    # GPR
    def gname(self, o):
        return o[1] if o[0] == 'g' else self.opreg[o[1]]

    def gw(self, o):
        return o[2] if o[0] == 'g' else 64

    def gget(self, o, w=64):
        if o[0] == 'imm':
            return o[1] & T._M[w]
        v = self.g.get(self.gname(o))
        if v is None:
            raise Unsupported('asm: unset register %r' % (o,))
        if v.__class__ is int:
            return v & T._M[self.gw(o)]
        return v

    def gint(self, o, w=64):
        v = self.gget(o, w)
        if v.__class__ is not int:
            raise Unsupported('asm: symbolic register in control')
        return v

    def gset(self, o, v):
        w = self.gw(o)
        self.g[self.gname(o)] = v & T._M[w] if v.__class__ is int else v

    def addr(self, o):
        """('mem', parts, wb)"""
        p = o[1]
        if p[0][0] == 'op' and p[0][1] in self.opmem and len(p) == 1:
            return self.opmem[p[0][1]]
        a = self.gint(p[0])
        off = 0
        if len(p) > 1:
            off = self.gint(p[1]) if p[1][0] != 'imm' else p[1][1]
            if len(p) > 2 and p[2][0] == 'shift':
                off <<= p[2][2]
        if o[2]:
            self.gset(p[0], a + off)
        return (a + off) & T._M[64]

    # vectors
    def reg(self, r, w):
        val = self.v.get(r)
        if val is None:
            val = (8, [T.var('asmreg_%s_%d' % (r, i), 8) for i in range(16)])
            self.v[r] = val
        return vconv(val, w)

    def vn(self, o):
        if o[0] in ('vecop',):
            return self.opreg[o[1]]
        return 'v%d' % o[1]

    def vget(self, o, hi=False):
        """lanes of a vector operand; hi: upper half ('2' forms use the full arrangement)"""
        if o[0] == 'elem':
            raise Unsupported('elem as vector')
        l = self.reg(self.vn(o), o[2])
        n = o[3]
        if hi:
            return l[n // 2:n]
        return l[:n]

    def vset(self, o, lanes_):
        w, n = o[2], o[3]
        if w * n == 64:
            lanes_ = list(lanes_) + [0] * n
        self.v[self.vn(o)] = (w, lanes_)


CONDS = {'eq', 'ne', 'cs', 'hs', 'cc', 'lo', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', 'al'}
COMPILED = {}


def ins(*names):
    def d(f):
        for n in names:
            COMPILED[n] = f
        return f
    return d


@ins('nop', 'prfm', 'hint')
def i_nop(S, o):
    return None


@ins('b')
def i_b(S, o):
    return o[0][1]


@ins('cbz')
def i_cbz(S, o):
    return o[1][1] if S.gint(o[0]) == 0 else None


@ins('cbnz')
def i_cbnz(S, o):
    return o[1][1] if S.gint(o[0]) != 0 else None


@ins('subs')
def i_subs(S, o):
    w = S.gw(o[0])
    S.gset(o[0], S.setflags_sub(S.gint(o[1], w) & T._M[w], S.gint(o[2], w) & T._M[w], w))


@ins('adds')
def i_adds(S, o):
    w = S.gw(o[0])
    S.gset(o[0], S.setflags_add(S.gint(o[1], w) & T._M[w], S.gint(o[2], w) & T._M[w], w))


@ins('cmp')
def i_cmp(S, o):
    w = S.gw(o[0])
    S.setflags_sub(S.gint(o[0], w) & T._M[w], S.gint(o[1], w) & T._M[w], w)


@ins('tst')
def i_tst(S, o):
    r = S.gint(o[0]) & S.gint(o[1])
    S.zf = 1 if r == 0 else 0
    S.nf = r >> 63
    S.cf = S.vf = 0


def _shifted(S, o):
    y = S.gint(o[2])
    if len(o) > 3 and o[3][0] == 'shift':
        k = o[3][2]
        y = y << k if o[3][1] == 'lsl' else y >> k
    return y


@ins('add')
def i_add(S, o):
    if o[0][0] in ('vec', 'vecop'):
        w = o[0][2]
        S.vset(o[0], [E.op_add(a, b, w) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])
    else:
        S.gset(o[0], S.gint(o[1]) + _shifted(S, o))


@ins('sub')
def i_sub(S, o):
    if o[0][0] in ('vec', 'vecop'):
        w = o[0][2]
        S.vset(o[0], [E.op_sub(a, b, w) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])
    else:
        S.gset(o[0], S.gint(o[1]) - _shifted(S, o))


@ins('lsl')
def i_lsl(S, o):
    S.gset(o[0], S.gint(o[1]) << S.gint(o[2]))


@ins('lsr')
def i_lsr(S, o):
    S.gset(o[0], S.gint(o[1]) >> S.gint(o[2]))


@ins('and')
def i_and(S, o):
    if o[0][0] in ('vec', 'vecop'):
        S.vset(o[0], [E.op_and(a, b, o[0][2]) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])
    else:
        S.gset(o[0], S.gint(o[1]) & S.gint(o[2]))


@ins('eor')
def i_eor(S, o):
    if o[0][0] in ('vec', 'vecop'):
        if o[1] == o[2]:
            S.vset(o[0], [0] * o[0][3])
        else:
            S.vset(o[0], [E.op_xor(a, b, o[0][2]) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])
    else:
        S.gset(o[0], S.gint(o[1]) ^ S.gint(o[2]))


@ins('mul')
def i_mul(S, o):
    if o[0][0] in ('vec', 'vecop'):
        w = o[0][2]
        b = velem(S, o[2], o[0][3], False)
        S.vset(o[0], [E.op_mul(a, b, w) for a, b in zip(S.vget(o[1]), b)])
    else:
        S.gset(o[0], S.gint(o[1]) * S.gint(o[2]))


@ins('madd')
def i_madd(S, o):
    S.gset(o[0], S.gint(o[1]) * S.gint(o[2]) + S.gint(o[3]))


@ins('mla')
def i_mla(S, o):
    w = o[0][2]
    b = velem(S, o[2], o[0][3], False)
    S.vset(o[0], [E.op_add(d, E.op_mul(x, y, w), w) for d, x, y in zip(S.vget(o[0]), S.vget(o[1]), b)])


@ins('mov')
def i_mov(S, o):
    d, s = o
    if d[0] == 'elem':
        _, r, w, i = d
        l = list(S.reg('v%d' % r, w))
        if s[0] == 'elem':
            l[i] = S.reg('v%d' % s[1], s[2])[s[3]]
        else:
            v = S.gget(s)
            l[i] = v & T._M[w] if v.__class__ is int else T.trunc(v, w)
        S.v['v%d' % r] = (w, l)
    elif d[0] in ('vec', 'vecop'):
        sv = S.v.get(S.vn(s))
        if d[2] * d[3] == 128 and sv is not None:
            S.v[S.vn(d)] = (sv[0], list(sv[1]))
        else:
            S.vset(d, S.vget(s))
    elif s[0] == 'elem':
        S.gset(d, T.uns(S.reg('v%d' % s[1], s[2])[s[3]], s[2]))
    else:
        S.gset(d, S.gget(s))


@ins('umov')
def i_umov(S, o):
    s = o[1]
    S.gset(o[0], T.uns(S.reg('v%d' % s[1], s[2])[s[3]], s[2]))


@ins('ins')
def i_ins(S, o):
    i_mov(S, o)


@ins('movi')
def i_movi(S, o):
    v = o[1][1]
    if o[0][0] == 'fp':
        S.v['v%d' % o[0][1]] = (64, [v & T._M[64], 0])
        return
    w, n = o[0][2], o[0][3]
    if len(o) > 2 and o[2][0] == 'shift':
        v <<= o[2][2]
    S.vset(o[0], [v & T._M[w]] * n)


@ins('dup')
def i_dup(S, o):
    w, n = o[0][2], o[0][3]
    s = o[1]
    if s[0] == 'elem':
        v = S.reg('v%d' % s[1], s[2])[s[3]]
        if s[2] != w:
            raise Unsupported('dup width')
    else:
        v = S.gget(s)
        v = v & T._M[w] if v.__class__ is int else T.trunc(v, w)
    S.vset(o[0], [v] * n)


def post(S, o, nbytes):
    """post-index operand"""
    if len(o) > 2:
        base = o[1][1][0]
        if o[2][0] == 'imm':
            inc = o[2][1]
            if inc != nbytes:
                raise Fault('asm', 'post-index immediate %d does not match transfer size %d (would not assemble)' % (inc, nbytes))
        else:
            inc = T.sgn(S.gint(o[2]), 64)
        S.gset(base, S.gint(base) + inc)


def _ldst(S, o, k, load):
    _, regs, lane = o[0]
    a = S.addr(o[1])
    m = S.m
    if lane is not None:
        w = regs[0][2]
        nb = w // 8
        for i, r in enumerate(regs):
            nm = 'v%d' % r[1]
            if load:
                l = list(S.reg(nm, w))
                l[lane] = m.ld(a + i * nb, nb)
                S.v[nm] = (w, l)
            else:
                m.st(a + i * nb, E.norm(T.uns(S.reg(nm, w)[lane], w), w), nb)
        post(S, o, nb * len(regs))
        return
    w, n = regs[0][2], regs[0][3]
    nb = w // 8
    tot = nb * n * len(regs)
    m.find(a, tot, 'read' if load else 'write')
    if k == 1:
        for i, r in enumerate(regs):
            if load:
                S.vset(r, m.ldv(a + i * nb * n, n, nb))
            else:
                m.stv(a + i * nb * n, [E.norm(T.uns(x, w), w) for x in S.vget(r)], nb)
    else:
        if len(regs) != k:
            raise Fault('asm', 'register list length')
        if load:
            cols = [[] for _ in regs]
            for j in range(n):
                for i in range(k):
                    cols[i].append(m.ld(a + (j * k + i) * nb, nb))
            for i, r in enumerate(regs):
                S.vset(r, cols[i])
        else:
            ls = [S.vget(r) for r in regs]
            for j in range(n):
                for i in range(k):
                    m.st(a + (j * k + i) * nb, E.norm(T.uns(ls[i][j], w), w), nb)
    post(S, o, tot)


for _k in (1, 2, 3, 4):
    COMPILED['ld%d' % _k] = (lambda k: lambda S, o: _ldst(S, o, k, True))(_k)
    COMPILED['st%d' % _k] = (lambda k: lambda S, o: _ldst(S, o, k, False))(_k)


@ins('ld1r')
def i_ld1r(S, o):
    _, regs, lane = o[0]
    a = S.addr(o[1])
    w = regs[0][2]
    v = S.m.ld(a, w // 8)
    S.vset(regs[0], [v] * regs[0][3])
    post(S, o, w // 8)


@ins('ldr')
def i_ldr(S, o):
    d, s = o[0], o[1]
    if s[0] == 'op' and s[1] in S.opmem:
        a = S.opmem[s[1]]
    else:
        a = S.addr(s)
    if d[0] == 'fp':
        w = d[2]
        if w == 128:
            S.v['v%d' % d[1]] = (32, S.m.ldv(a, 4, 4))
        elif w == 64:
            S.v['v%d' % d[1]] = (32, S.m.ldv(a, 2, 4) + [0, 0])
        elif w == 32:
            S.v['v%d' % d[1]] = (32, [S.m.ld(a, 4), 0, 0, 0])
        else:
            raise Unsupported('ldr width')
    else:
        w = S.gw(d)
        S.gset(d, S.m.ld(a, w // 8))
    if len(o) > 2:
        base = s[1][0]
        S.gset(base, S.gint(base) + o[2][1])


@ins('str')
def i_str(S, o):
    d, s = o[0], o[1]
    a = S.opmem[s[1]] if s[0] == 'op' and s[1] in S.opmem else S.addr(s)
    if d[0] == 'fp':
        n = d[2] // 32
        S.m.stv(a, [E.norm(T.uns(x, 32), 32) for x in S.reg('v%d' % d[1], 32)[:n]], 4)
    else:
        S.m.st(a, S.gget(d), S.gw(d) // 8)
    if len(o) > 2:
        base = s[1][0]
        S.gset(base, S.gint(base) + o[2][1])


def velem(S, o, n, hi):
    if o[0] == 'elem':
        return [S.reg('v%d' % o[1], o[2])[o[3]]] * n
    return S.vget(o, hi)


def _mull(acc, signed, hi):
    def f(S, o):
        d, a, b = o
        w = a[2]
        n = d[3]
        x = S.vget(a, hi)
        y = velem(S, b, n, hi)
        if len(x) != n:
            raise Fault('asm', 'arrangement mismatch')
        p = [T.mul(ext(u, w, signed), ext(v, w, signed)) for u, v in zip(x, y)]
        w2 = 2 * w
        if acc > 0:
            p = [T.add(q, r) for q, r in zip(p, S.vget(d))]
        elif acc < 0:
            p = [T.sub(r, q) for q, r in zip(p, S.vget(d))]
        S.vset(d, [c(q, w2) for q in p])
    return f


for _s, _sg in (('u', False), ('s', True)):
    for _hi in (False, True):
        _x = '2' if _hi else ''
        COMPILED[_s + 'mull' + _x] = _mull(0, _sg, _hi)
        COMPILED[_s + 'mlal' + _x] = _mull(1, _sg, _hi)
        COMPILED[_s + 'mlsl' + _x] = _mull(-1, _sg, _hi)


def _addlp(signed, acc):
    def f(S, o):
        d, a = o
        w = a[2]
        x = S.vget(a)
        r = [T.add(ext(x[i], w, signed), ext(x[i + 1], w, signed)) for i in range(0, len(x), 2)]
        if acc:
            r = [T.add(p, q) for p, q in zip(r, S.vget(d))]
        S.vset(d, [c(q, 2 * w) for q in r])
    return f


COMPILED['uaddlp'] = _addlp(False, False)
COMPILED['saddlp'] = _addlp(True, False)
COMPILED['uadalp'] = _addlp(False, True)
COMPILED['sadalp'] = _addlp(True, True)


@ins('addp')
def i_addp(S, o):
    w = o[0][2]
    l = S.vget(o[1]) + S.vget(o[2])
    S.vset(o[0], [E.op_add(l[i], l[i + 1], w) for i in range(0, len(l), 2)])


def _addw(signed, hi, sub=False):
    def f(S, o):
        d, a, b = o
        w = b[2]
        y = [ext(v, w, signed) for v in S.vget(b, hi)]
        g = T.sub if sub else T.add
        S.vset(d, [c(g(E.sg(x, 2 * w) if x.__class__ is int else x, v), 2 * w) for x, v in zip(S.vget(a), y)])
    return f


COMPILED['uaddw'] = _addw(False, False)
COMPILED['uaddw2'] = _addw(False, True)
COMPILED['saddw'] = _addw(True, False)
COMPILED['saddw2'] = _addw(True, True)


def _addl(signed, hi):
    def f(S, o):
        d, a, b = o
        w = b[2]
        S.vset(d, [c(T.add(ext(x, w, signed), ext(y, w, signed)), 2 * w) for x, y in zip(S.vget(a, hi), S.vget(b, hi))])
    return f


COMPILED['uaddl'] = _addl(False, False)
COMPILED['uaddl2'] = _addl(False, True)
COMPILED['saddl'] = _addl(True, False)
COMPILED['saddl2'] = _addl(True, True)


def _xtl(signed, hi):
    def f(S, o):
        d, a = o[0], o[1]
        w = a[2]
        S.vset(d, [c(ext(x, w, signed), 2 * w) for x in S.vget(a, hi)])
    return f


COMPILED['uxtl'] = _xtl(False, False)
COMPILED['uxtl2'] = _xtl(False, True)
COMPILED['sxtl'] = _xtl(True, False)
COMPILED['sxtl2'] = _xtl(True, True)


def _xtn(sat, signed, hi):
    def f(S, o):
        d, a = o
        w = a[2]
        w2 = w // 2
        r = []
        for x in S.vget(a):
            if sat is None:
                r.append(T.trunc(x, w2))
            else:
                r.append(c(sat(ext(x, w, signed), w2), w2))
        if hi:
            lo = S.reg(S.vn(d), w2)[:len(r)]
            S.v[S.vn(d)] = (w2, list(lo) + r)
        else:
            S.vset(d, r)
    return f


for _hi in (False, True):
    _x = '2' if _hi else ''
    COMPILED['xtn' + _x] = _xtn(None, False, _hi)
    COMPILED['sqxtn' + _x] = _xtn(armcommon.sats, True, _hi)
    COMPILED['uqxtn' + _x] = _xtn(armcommon.satu, False, _hi)
    COMPILED['sqxtun' + _x] = _xtn(armcommon.satu, True, _hi)


def _perm(kind):
    def f(S, o):
        d, a, b = o
        x, y = S.vget(a), S.vget(b)
        n = len(x)
        if kind[:3] == 'trn':
            p = int(kind[3]) - 1
            r = []
            for i in range(0, n, 2):
                r += [x[i + p], y[i + p]]
        elif kind[:3] == 'uzp':
            p = int(kind[3]) - 1
            r = (x + y)[p::2]
        else:
            h = 0 if kind[3] == '1' else n // 2
            r = []
            for i in range(n // 2):
                r += [x[h + i], y[h + i]]
        S.vset(d, r)
    return f


for _kk in ('trn1', 'trn2', 'uzp1', 'uzp2', 'zip1', 'zip2'):
    COMPILED[_kk] = _perm(_kk)


@ins('ext')
def i_ext(S, o):
    k = o[3][1]
    l = S.vget(o[1]) + S.vget(o[2])
    S.vset(o[0], l[k:k + o[0][3]])


def _minmax(g, signed):
    def f(S, o):
        w = o[0][2]
        S.vset(o[0], [c(g(ext(a, w, signed), ext(b, w, signed)), w) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])
    return f


COMPILED['umin'] = _minmax(T.smin, False)
COMPILED['umax'] = _minmax(T.smax, False)
COMPILED['smin'] = _minmax(T.smin, True)
COMPILED['smax'] = _minmax(T.smax, True)


@ins('sshl')
def i_sshl(S, o):
    w = o[0][2]
    S.vset(o[0], [sshl(a, b, w) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])


@ins('ushl')
def i_ushl(S, o):
    w = o[0][2]
    S.vset(o[0], [ushl(a, b, w) for a, b in zip(S.vget(o[1]), S.vget(o[2]))])


@ins('shl')
def i_shl(S, o):
    w = o[0][2]
    S.vset(o[0], [E.op_shl(a, o[2][1], w) for a in S.vget(o[1])])


@ins('scvtf')
def i_scvtf(S, o):
    S.vset(o[0], [E.sitofp(a if a.__class__ is N else a, 32, 32, True) for a in S.vget(o[1])])


@ins('ucvtf')
def i_ucvtf(S, o):
    S.vset(o[0], [E.sitofp(a, 32, 32, False) for a in S.vget(o[1])])


@ins('fcvtzs')
def i_fcvtzs(S, o):
    S.vset(o[0], [fcvtzs(a) for a in S.vget(o[1])])


@ins('fcvtns')
def i_fcvtns(S, o):
    S.vset(o[0], [fcvtns(a) for a in S.vget(o[1])])


def _fb(op):
    def f(S, o):
        b = velem(S, o[2], o[0][3], False)
        S.vset(o[0], [E.fbin(op, x, y, 32) for x, y in zip(S.vget(o[1]), b)])
    return f


COMPILED['fadd'] = _fb('fadd')
COMPILED['fsub'] = _fb('fsub')
COMPILED['fmul'] = _fb('fmul')


def assemble(m, text, ops):
    return make_runner(m, text, ops, State)
