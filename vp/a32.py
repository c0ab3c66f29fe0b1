"""ARM32 NEON inline-assembly interpreter."""
import re
from . import term as T
from .term import N
from . import execu as E
from .execu import Unsupported, Fault
from .armcommon import *
from . import armcommon

GP = {'sp': 'r13', 'lr': 'r14', 'pc': 'r15', 'ip': 'r12', 'fp': 'r11'}


def po(s):
    s = s.strip()
    mm = re.match(r'^#?(-?(?:0x[0-9a-fA-F]+|\d+))$', s)
    if mm:
        return ('imm', int(mm.group(1), 0))
    mm = re.match(r'^([dq])(\d+)$', s)
    if mm:
        return (mm.group(1), int(mm.group(2)))
    mm = re.match(r'^d(\d+)\[(\d*)\]$', s)
    if mm:
        return ('de', int(mm.group(1)), None if mm.group(2) == '' else int(mm.group(2)))
    mm = re.match(r'^r(\d+)$', s)
    if mm:
        return ('g', 'r' + mm.group(1))
    if s in GP:
        return ('g', GP[s])
    mm = re.match(r'^\$(\d+)$', s)
    if mm:
        return ('op', int(mm.group(1)))
    mm = re.match(r'^\{(.*)\}$', s)
    if mm:
        body = mm.group(1)
        regs = []
        for x in body.split(','):
            x = x.strip()
            if '-' in x:
                a, b = [po(y) for y in x.split('-')]
                regs += [(a[0], i) for i in range(a[1], b[1] + 1)]
            else:
                regs.append(po(x))
        out = []
        for r in regs:
            if r[0] == 'q':
                out += [('d', 2 * r[1]), ('d', 2 * r[1] + 1)]
            else:
                out.append(r)
        return ('list', out)
    mm = re.match(r'^\[(.*)\](!?)$', s)
    if mm:
        body = mm.group(1)
        al = None
        m2 = re.match(r'^([^,:]+)\s*:\s*(\d+)$', body)
        if m2:
            body, al = m2.group(1), int(m2.group(2))
        return ('mem', [po(x) for x in splitops(body)], mm.group(2) == '!', al)
    mm = re.match(r'^(lsl|lsr|asr)\s*#(\d+)$', s)
    if mm:
        return ('shift', mm.group(1), int(mm.group(2)))
    return ('sym', s)


class State(BaseState):
    W = 32

    @staticmethod
    def compile(mn, ops):
        o = [po(x) for x in ops]
        base, _, ty = mn.partition('.')
        if mn[0] == 'b' and (mn == 'b' or mn[1:] in CONDS):
            cc = mn[1:] or 'al'
            return (lambda S, cc, lab: lab if S.cond(cc) else None), (cc, ops[0])
        f = COMPILED.get(base)
        if f is None:
            raise Unsupported('arm asm: %s %s' % (mn, ops))
        return f, (o, ty)

    def gname(self, o):
        return o[1] if o[0] == 'g' else self.opreg[o[1]]

    def gget(self, o):
        if o[0] == 'imm':
            return o[1] & 0xffffffff
        v = self.g.get(self.gname(o))
        if v is None:
            raise Unsupported('asm: unset register %r' % (o,))
        return v & 0xffffffff if v.__class__ is int else v

    def gint(self, o):
        v = self.gget(o)
        if v.__class__ is not int:
            raise Unsupported('asm: symbolic register in control')
        return v

    def gset(self, o, v):
        self.g[self.gname(o)] = v & 0xffffffff if v.__class__ is int else v

    def d(self, i, w):
        val = self.v.get(i)
        if val is None:
            val = (8, [T.var('asmreg_d%d_%d' % (i, k), 8) for k in range(8)])
            self.v[i] = val
        return vconv(val, w)

    def get(self, o, w):
        if o[0] == 'd':
            return self.d(o[1], w)
        if o[0] == 'q':
            return self.d(2 * o[1], w) + self.d(2 * o[1] + 1, w)
        raise Unsupported('arm vector operand %r' % (o,))

    def set(self, o, w, l):
        if o[0] == 'd':
            if len(l) * w != 64:
                raise Fault('asm', 'lane count')
            self.v[o[1]] = (w, l)
        else:
            if len(l) * w != 128:
                raise Fault('asm', 'lane count')
            h = len(l) // 2
            self.v[2 * o[1]] = (w, l[:h])
            self.v[2 * o[1] + 1] = (w, l[h:])

    def mem(self, o):
        """address operand; returns addr, writeback allowed"""
        p = o[1]
        if p[0][0] == 'op' and p[0][1] in self.opmem:
            return self.opmem[p[0][1]]
        a = self.gint(p[0])
        if len(p) > 1:
            off = p[1][1] if p[1][0] == 'imm' else self.gint(p[1])
            if len(p) > 2:
                off <<= p[2][2]
            a += off
        if o[3] is not None and a % (o[3] // 8):
            raise Fault('memory', 'address 0x%x violates the :%d alignment of a NEON access' % (a, o[3]))
        return a & 0xffffffff

    def wb(self, o, k, nbytes):
        """writeback for vld/vst: o[k] = mem, o[k+1] optional register"""
        mem = o[k]
        base = mem[1][0]
        if mem[2]:
            self.gset(base, self.gint(base) + nbytes)
        elif len(o) > k + 1:
            self.gset(base, self.gint(base) + self.gint(o[k + 1]))


CONDS = {'eq', 'ne', 'cs', 'hs', 'cc', 'lo', 'mi', 'pl', 'vs', 'vc', 'hi', 'ls', 'ge', 'lt', 'gt', 'le', 'al'}
COMPILED = {}


def ins(*names):
    def d(f):
        for n in names:
            COMPILED[n] = f
        return f
    return d


def tw(ty):
    """width and signedness of a type suffix"""
    mm = re.match(r'^([usifp]?)(\d+)$', ty)
    return int(mm.group(2)), mm.group(1) == 's'


@ins('nop', 'pld')
def i_nop(S, o, ty):
    return None


def op3(o):
    return (o[0], o[0], o[1]) if len(o) == 2 else tuple(o[:3])


def _sh(S, o):
    y = S.gint(o[-1]) if o[-1][0] != 'shift' else None
    if y is None:
        k = o[-1]
        y = S.gint(o[-2])
        y = y << k[2] if k[1] == 'lsl' else y >> k[2]
        return o[:-1], y & 0xffffffff
    return o, y


@ins('add')
def i_add(S, o, ty):
    o, y = _sh(S, o)
    d, a, b = op3(o)
    S.gset(d, S.gint(a) + y)


@ins('sub')
def i_sub(S, o, ty):
    o, y = _sh(S, o)
    d, a, b = op3(o)
    S.gset(d, S.gint(a) - y)


@ins('subs')
def i_subs(S, o, ty):
    o, y = _sh(S, o)
    d, a, b = op3(o)
    S.gset(d, S.setflags_sub(S.gint(a), y, 32))


@ins('adds')
def i_adds(S, o, ty):
    o, y = _sh(S, o)
    d, a, b = op3(o)
    S.gset(d, S.setflags_add(S.gint(a), y, 32))


@ins('cmp')
def i_cmp(S, o, ty):
    S.setflags_sub(S.gint(o[0]), S.gint(o[1]), 32)


@ins('mov')
def i_mov(S, o, ty):
    v = S.gget(o[1])
    if len(o) > 2 and o[2][0] == 'shift':
        v = S.gint(o[1]) << o[2][2]
    S.gset(o[0], v)


@ins('lsl')
def i_lsl(S, o, ty):
    d, a, b = op3(o)
    S.gset(d, S.gint(a) << S.gint(b))


@ins('mul')
def i_mul(S, o, ty):
    d, a, b = op3(o)
    S.gset(d, S.gint(a) * S.gint(b))


@ins('ldr')
def i_ldr(S, o, ty):
    s = o[1]
    if s[0] == 'op' and s[1] in S.opmem:
        a = S.opmem[s[1]]
    else:
        a = S.mem(s)
    S.gset(o[0], S.m.ld(a, 4))
    if s[0] == 'mem' and s[2]:
        S.gset(s[1][0], a)
    elif len(o) > 2:
        S.gset(s[1][0], S.gint(s[1][0]) + S.gint(o[2]))


@ins('vldr')
def i_vldr(S, o, ty):
    a = S.mem(o[1]) if o[1][0] == 'mem' else S.opmem[o[1][1]]
    if o[0][0] != 'd':
        raise Unsupported('vldr')
    S.set(o[0], 32, S.m.ldv(a, 2, 4))


def _vldst(k, load):
    def f(S, o, ty):
        w = int(re.sub(r'\D', '', ty))
        nb = w // 8
        regs = o[0][1]
        a = S.mem(o[1])
        m = S.m
        if regs[0][0] == 'de':
            lane = regs[0][2]
            for i, r in enumerate(regs):
                if lane is None:          # all lanes
                    v = m.ld(a + (i * nb if k > 1 else 0), nb)
                    S.v[r[1]] = (w, [v] * (64 // w))
                elif load:
                    l = list(S.d(r[1], w))
                    l[lane] = m.ld(a + i * nb, nb)
                    S.v[r[1]] = (w, l)
                else:
                    m.st(a + i * nb, E.norm(T.uns(S.d(r[1], w)[lane], w), w), nb)
            S.wb(o, 1, nb * k)
            return
        n = 64 // w
        tot = 8 * len(regs)
        m.find(a, tot, 'read' if load else 'write')
        if k == 1:
            for i, r in enumerate(regs):
                if load:
                    S.v[r[1]] = (w, m.ldv(a + 8 * i, n, nb))
                else:
                    cur = S.v.get(r[1])
                    cw = w if cur is None else cur[0]
                    m.stv(a + 8 * i, [E.norm(T.uns(x, cw), cw) for x in S.d(r[1], cw)], cw // 8)
        else:
            if len(regs) != k:
                raise Unsupported('vld%d with %d regs' % (k, len(regs)))
            if load:
                cols = [[] for _ in regs]
                for j in range(n):
                    for i in range(k):
                        cols[i].append(m.ld(a + (j * k + i) * nb, nb))
                for i, r in enumerate(regs):
                    S.v[r[1]] = (w, cols[i])
            else:
                ls = [S.d(r[1], w) for r in regs]
                for j in range(n):
                    for i in range(k):
                        m.st(a + (j * k + i) * nb, E.norm(T.uns(ls[i][j], w), w), nb)
        S.wb(o, 1, tot)
    return f


for _k in (1, 2, 3, 4):
    COMPILED['vld%d' % _k] = _vldst(_k, True)
    COMPILED['vst%d' % _k] = _vldst(_k, False)


def _mull(acc):
    def f(S, o, ty):
        w, sgd = tw(ty)
        d, a, b = o
        x = S.get(a, w)
        y = [S.d(b[1], w)[b[2]]] * len(x) if b[0] == 'de' else S.get(b, w)
        p = [T.mul(ext(u, w, sgd), ext(v, w, sgd)) for u, v in zip(x, y)]
        if acc:
            p = [T.add(q, r) for q, r in zip(p, S.get(d, 2 * w))]
        S.set(d, 2 * w, [c(q, 2 * w) for q in p])
    return f


COMPILED['vmull'] = _mull(False)
COMPILED['vmlal'] = _mull(True)


@ins('vpadal')
def i_vpadal(S, o, ty):
    w, sgd = tw(ty)
    x = S.get(o[1], w)
    acc = S.get(o[0], 2 * w)
    S.set(o[0], 2 * w, [c(T.add(q, T.add(ext(x[2 * i], w, sgd), ext(x[2 * i + 1], w, sgd))), 2 * w) for i, q in enumerate(acc)])


@ins('vpaddl')
def i_vpaddl(S, o, ty):
    w, sgd = tw(ty)
    x = S.get(o[1], w)
    S.set(o[0], 2 * w, [c(T.add(ext(x[2 * i], w, sgd), ext(x[2 * i + 1], w, sgd)), 2 * w) for i in range(len(x) // 2)])


@ins('vpadd')
def i_vpadd(S, o, ty):
    w, _ = tw(ty)
    d, a, b = op3(o)
    l = S.get(a, w) + S.get(b, w)
    if ty[0] == 'f':
        S.set(d, w, [E.fbin('fadd', l[i], l[i + 1], 32) for i in range(0, len(l), 2)])
    else:
        S.set(d, w, [E.op_add(l[i], l[i + 1], w) for i in range(0, len(l), 2)])


@ins('vaddw')
def i_vaddw(S, o, ty):
    w, sgd = tw(ty)
    d, a, b = op3(o)
    S.set(d, 2 * w, [c(T.add(E.sg(x, 2 * w) if x.__class__ is int else x, ext(y, w, sgd)), 2 * w)
                     for x, y in zip(S.get(a, 2 * w), S.get(b, w))])


@ins('vaddl')
def i_vaddl(S, o, ty):
    w, sgd = tw(ty)
    d, a, b = op3(o)
    S.set(d, 2 * w, [c(T.add(ext(x, w, sgd), ext(y, w, sgd)), 2 * w) for x, y in zip(S.get(a, w), S.get(b, w))])


@ins('vmovl')
def i_vmovl(S, o, ty):
    w, sgd = tw(ty)
    S.set(o[0], 2 * w, [c(ext(x, w, sgd), 2 * w) for x in S.get(o[1], w)])


@ins('vmovn')
def i_vmovn(S, o, ty):
    w, sgd = tw(ty)
    S.set(o[0], w // 2, [T.trunc(x, w // 2) for x in S.get(o[1], w)])


@ins('vqmovn')
def i_vqmovn(S, o, ty):
    w, sgd = tw(ty)
    f = armcommon.sats if sgd else armcommon.satu
    S.set(o[0], w // 2, [c(f(ext(x, w, sgd), w // 2), w // 2) for x in S.get(o[1], w)])


@ins('vqmovun')
def i_vqmovun(S, o, ty):
    w, sgd = tw(ty)
    S.set(o[0], w // 2, [c(armcommon.satu(T.sgn(x, w), w // 2), w // 2) for x in S.get(o[1], w)])


@ins('vmov')
def i_vmov(S, o, ty):
    d, s = o[0], o[1]
    if d[0] == 'de':
        w = int(re.sub(r'\D', '', ty) or 32)
        l = list(S.d(d[1], w))
        v = S.gget(s)
        l[d[2]] = v & T._M[w] if v.__class__ is int else T.trunc(v, w)
        S.v[d[1]] = (w, l)
    elif s[0] == 'imm':
        w = int(re.sub(r'\D', '', ty))
        n = (64 if d[0] == 'd' else 128) // w
        S.set(d, w, [s[1] & T._M[w]] * n)
    elif s[0] == 'de':
        w = int(re.sub(r'\D', '', ty) or 32)
        S.gset(d, S.d(s[1], w)[s[2]])
    elif d[0] in 'dq' and s[0] == d[0]:
        for i in range(1 if d[0] == 'd' else 2):
            k = 1 if d[0] == 'd' else 2
            S.d(s[1] * k + i, 8) if S.v.get(s[1] * k + i) is None else None
            ow, l = S.v[s[1] * k + i]
            S.v[d[1] * k + i] = (ow, list(l))
    elif d[0] == 'd' and len(o) == 3:
        S.v[d[1]] = (32, [S.gget(o[1]), S.gget(o[2])])
    else:
        raise Unsupported('vmov %r' % (o,))


@ins('vdup')
def i_vdup(S, o, ty):
    w = int(re.sub(r'\D', '', ty))
    d, s = o
    n = (64 if d[0] == 'd' else 128) // w
    if s[0] == 'de':
        v = S.d(s[1], w)[s[2]]
    else:
        v = S.gget(s)
        v = v & T._M[w] if v.__class__ is int else T.trunc(v, w)
    S.set(d, w, [v] * n)


@ins('vext')
def i_vext(S, o, ty):
    w = int(re.sub(r'\D', '', ty))
    if len(o) == 3:
        o = [o[0], o[0], o[1], o[2]]
    d, a, b, k = o
    x, y = S.get(a, w), S.get(b, w)
    S.set(d, w, (x + y)[k[1]:k[1] + len(x)])


def _two(f):
    def g(S, o, ty):
        w = int(re.sub(r'\D', '', ty) or 8)
        x, y = S.get(o[0], w), S.get(o[1], w)
        x2, y2 = f(x, y)
        S.set(o[0], w, x2)
        S.set(o[1], w, y2)
    return g


def _trn(x, y):
    a, b = list(x), list(y)
    for i in range(0, len(x), 2):
        a[i + 1], b[i] = y[i], x[i + 1]
    return a, b


COMPILED['vtrn'] = _two(_trn)
COMPILED['vuzp'] = _two(lambda x, y: ((x + y)[0::2], (x + y)[1::2]))


def _zip(x, y):
    r = []
    for p, q in zip(x, y):
        r += [p, q]
    n = len(x)
    return r[:n], r[n:]


COMPILED['vzip'] = _two(_zip)


@ins('vswp')
def i_vswp(S, o, ty):
    k = 1 if o[0][0] == 'd' else 2
    for i in range(k):
        a, b = o[0][1] * k + i, o[1][1] * k + i
        S.d(a, 8) if S.v.get(a) is None else None
        S.d(b, 8) if S.v.get(b) is None else None
        S.v[a], S.v[b] = S.v[b], S.v[a]


def _arith(fi, ff):
    def f(S, o, ty):
        w, _ = tw(ty)
        d, a, b = op3(o)
        x = S.get(a, w)
        y = [S.d(b[1], w)[b[2]]] * len(x) if b[0] == 'de' else S.get(b, w)
        if ty[0] == 'f':
            S.set(d, w, [E.fbin(ff, p, q, 32) for p, q in zip(x, y)])
        else:
            S.set(d, w, [fi(p, q, w) for p, q in zip(x, y)])
    return f


COMPILED['vadd'] = _arith(E.op_add, 'fadd')
COMPILED['vsub'] = _arith(E.op_sub, 'fsub')
COMPILED['vmul'] = _arith(E.op_mul, 'fmul')
COMPILED['veor'] = lambda S, o, ty: S.set(o[0], 32, [0 if o[1] == o[2] else E.op_xor(p, q, 32) for p, q in zip(S.get(o[1], 32), S.get(o[2], 32))])


@ins('vmla')
def i_vmla(S, o, ty):
    w, _ = tw(ty)
    d, a, b = o
    x = S.get(a, w)
    y = [S.d(b[1], w)[b[2]]] * len(x) if b[0] == 'de' else S.get(b, w)
    S.set(d, w, [E.op_add(r, E.op_mul(p, q, w), w) for p, q, r in zip(x, y, S.get(d, w))])


def _mm(g):
    def f(S, o, ty):
        w, sgd = tw(ty)
        d, a, b = op3(o)
        S.set(d, w, [c(g(ext(x, w, sgd), ext(y, w, sgd)), w) for x, y in zip(S.get(a, w), S.get(b, w))])
    return f


COMPILED['vmin'] = _mm(T.smin)
COMPILED['vmax'] = _mm(T.smax)


@ins('vshl')
def i_vshl(S, o, ty):
    w, sgd = tw(ty)
    d, a, b = op3(o)
    x = S.get(a, w)
    if b[0] == 'imm':
        S.set(d, w, [E.op_shl(p, b[1], w) for p in x])
    else:
        f = sshl if sgd else ushl
        S.set(d, w, [f(p, q, w) for p, q in zip(x, S.get(b, w))])


@ins('vcvt')
def i_vcvt(S, o, ty):
    x = S.get(o[1], 32)
    if ty == 'f32.s32':
        S.set(o[0], 32, [E.sitofp(p, 32, 32, True) for p in x])
    elif ty == 'f32.u32':
        S.set(o[0], 32, [E.sitofp(p, 32, 32, False) for p in x])
    elif ty == 's32.f32':
        S.set(o[0], 32, [fcvtzs(p) for p in x])
    else:
        raise Unsupported('vcvt ' + ty)


def assemble(m, text, ops):
    return make_runner(m, text, ops, State)
