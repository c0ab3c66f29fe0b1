"""Shared parts of the AArch64 and ARM32 inline-assembly interpreters."""
import re
from . import term as T
from .term import N
from . import execu as E
from .execu import norm, Unsupported, Fault, bitcast
from .intrin import sats, satu


def vconv(val, w):
    ow, l = val
    if ow == w:
        return l
    return bitcast(l, len(l), ow, 1, w)


def ext(v, w, signed):
    return T.sgn(v, w) if signed else T.uns(v, w)


def c(v, w):
    return norm(v, w)


def sshl(v, s, w):
    """NEON register shift: signed shift amount (low byte), left if positive."""
    s = T.sgn(T.trunc(s, 8), 8)
    if s.__class__ is N:
        raise Unsupported('symbolic vector shift amount')
    if s >= w:
        return 0
    if s >= 0:
        return c(T.mul(v, 1 << s), w) if v.__class__ is N else (v << s) & T._M[w]
    s = min(-s, w)
    return c(T.shr(T.sgn(v, w), s), w)


def ushl(v, s, w):
    s = T.sgn(T.trunc(s, 8), 8)
    if s.__class__ is N:
        raise Unsupported('symbolic vector shift amount')
    if s >= w:
        return 0
    if s >= 0:
        return c(T.mul(v, 1 << s), w) if v.__class__ is N else (v << s) & T._M[w]
    if -s >= w:
        return 0
    return T.shr(T.uns(v, w), -s)


def fcvtzs(v):
    """float32 -> int32 toward zero, saturating"""
    if v.__class__ is int:
        x = E.f32(v)
        if x != x:
            return 0
        if x >= 2147483647.0:
            return 0x7fffffff
        if x <= -2147483648.0:
            return 0x80000000
        return int(x) & 0xffffffff
    return T.uf('fptosisat32_32', ((v, 32),), 32)


def fcvtns(v):
    if v.__class__ is int:
        x = E.f32(v)
        if x != x:
            return 0
        if x >= 2147483647.0:
            return 0x7fffffff
        if x <= -2147483648.0:
            return 0x80000000
        return int(round(x)) & 0xffffffff
    return T.uf('fcvtns32_32', ((v, 32),), 32)


def split_lines(text):
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    out = []
    for l in re.split(r'[\n;]', text):
        l = l.split('//')[0].strip()
        if l.startswith('@') or l.startswith('#'):
            continue
        if l:
            out.append(l)
    return out


def splitops(s):
    out, cur, d = [], '', 0
    i = 0
    while i < len(s):
        ch = s[i]
        if ch in '({[':
            d += 1
        elif ch in ')}]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
        i += 1
    if cur.strip():
        out.append(cur.strip())
    return out


def parse(text):
    """-> [(mnemonic, [operand strings])], labels"""
    code, labels = [], {}
    for line in split_lines(text):
        while True:
            mm = re.match(r'^([A-Za-z_.0-9]+(?:\$\{:uid\})?[A-Za-z_.0-9]*):\s*', line)
            if not mm:
                break
            labels.setdefault(mm.group(1), []).append(len(code))
            line = line[mm.end():].strip()
        if not line:
            continue
        mm = re.match(r'^(\S+)\s*(.*)$', line)
        mn, rest = mm.group(1), mm.group(2)
        code.append((mn.lower(), splitops(norm_ops(rest))))
    return code, labels


def norm_ops(s):
    # ${3:w} -> $3:w ; keep braces only for register lists
    s = re.sub(r'\$\{(\d+)(?::(\w+))?\}', lambda m: '$' + m.group(1), s)
    return s


def find_label(labels, t, pc):
    if t in labels:
        return labels[t][0]
    mm = re.match(r'^(\d+)([bf])$', t)
    if mm:
        l = labels.get(mm.group(1), [])
        c_ = [x for x in l if x > pc] if mm.group(2) == 'f' else [x for x in l if x <= pc]
        if c_:
            return c_[0] if mm.group(2) == 'f' else c_[-1]
    raise Unsupported('label ' + t)


class BaseState(object):
    W = 64

    def __init__(self, m):
        self.m = m
        self.g = {}
        self.v = {}
        self.opreg = {}
        self.opmem = {}
        self.nf = self.zf = self.cf = self.vf = 0

    def bind(self, ops, args):
        for k, o in enumerate(ops):
            if o['mem']:
                self.opmem[k] = args[o['arg']]
            elif 'tied' in o:
                t = o['tied']
                self.opreg[k] = self.opreg[t] = 'op%d' % t
                self.setreg('op%d' % t, args[o['arg']], o['ty'])
            elif o['arg'] is not None:
                self.opreg[k] = 'op%d' % k
                self.setreg('op%d' % k, args[o['arg']], o['ty'])
            else:
                self.opreg.setdefault(k, 'op%d' % k)

    def setreg(self, r, v, ty):
        if ty.k == 'vec':
            self.v[r] = (self.m.mod.bits(ty.e), list(v))
        else:
            self.g[r] = v

    def results(self, ops):
        res = []
        for k, o in enumerate(ops):
            if o['out'] and not o['mem']:
                r = self.opreg[k]
                if o['ty'].k == 'vec':
                    res.append(vconv(self.v[r], self.m.mod.bits(o['ty'].e)))
                else:
                    v = self.g.get(r)
                    res.append(self.m.undef(o['ty']) if v is None else v)
        return res

    def cond(self, cc):
        n, z, cf, v = self.nf, self.zf, self.cf, self.vf
        return {'eq': z, 'ne': not z, 'cs': cf, 'hs': cf, 'cc': not cf, 'lo': not cf, 'mi': n, 'pl': not n,
                'vs': v, 'vc': not v, 'hi': cf and not z, 'ls': not (cf and not z), 'ge': n == v, 'lt': n != v,
                'gt': (not z) and n == v, 'le': z or n != v, 'al': True}[cc]

    def setflags_sub(self, x, y, w):
        r = (x - y) & T._M[w]
        H = 1 << (w - 1)
        self.nf = r >> (w - 1)
        self.zf = 1 if r == 0 else 0
        self.cf = 1 if x >= y else 0
        sx, sy = x - 2 * (x & H), y - 2 * (y & H)
        self.vf = 0 if -H <= sx - sy < H else 1
        return r

    def setflags_add(self, x, y, w):
        r = (x + y) & T._M[w]
        H = 1 << (w - 1)
        self.nf = r >> (w - 1)
        self.zf = 1 if r == 0 else 0
        self.cf = 1 if x + y > T._M[w] else 0
        sx, sy = x - 2 * (x & H), y - 2 * (y & H)
        self.vf = 0 if -H <= sx + sy < H else 1
        return r


def make_runner(m, text, ops, StateCls):
    code, labels = parse(text)
    prog = [StateCls.compile(mn, o) for mn, o in code]

    def run(args):
        S = StateCls(m)
        S.bind(ops, args)
        pc, n, cnt = 0, len(prog), 0
        while pc < n:
            f, a = prog[pc]
            t = f(S, *a)
            cnt += 1
            pc = pc + 1 if t is None else find_label(labels, t, pc)
            if cnt > 5000000:
                raise Unsupported('asm loop bound')
        m.stats['asm_insns'] += cnt
        return S.results(ops)
    return run
