"""x86-64: SSE/AVX intrinsics and an AT&T inline-assembly interpreter."""
import re
from . import term as T
from .term import N
from . import execu as E
from .execu import norm, sg, Fault, Unsupported, bitcast
from .intrin import lanes, sats, satu, c, width


def pmaddwd(a, b):
    out = []
    for i in range(0, len(a), 2):
        x = T.mul(T.sgn(a[i], 16), T.sgn(b[i], 16))
        y = T.mul(T.sgn(a[i + 1], 16), T.sgn(b[i + 1], 16))
        out.append(c(T.add(x, y), 32))
    return out


def intrinsic(m, b, rt, at):
    if b.endswith('pmadd.wd'):
        return pmaddwd
    if b.endswith('pmadd.ub.sw') or b.endswith('pmadd.ub.sw.128'):
        def f(x, y):
            return [c(sats(T.add(T.mul(T.uns(x[i], 8), T.sgn(y[i], 8)), T.mul(T.uns(x[i + 1], 8), T.sgn(y[i + 1], 8))), 16), 16)
                    for i in range(0, len(x), 2)]
        return f

    def packer(sat, w):
        def f(x, y):
            n = len(x)
            blk = 128 // w
            out = []
            for k in range(0, n, blk):
                for v in (x, y):
                    for e in v[k:k + blk]:
                        out.append(c(sat(T.sgn(e, w), w // 2), w // 2))
            return out
        return f
    if 'packssdw' in b:
        return packer(sats, 32)
    if 'packsswb' in b:
        return packer(sats, 16)
    if 'packuswb' in b:
        return packer(satu, 16)
    if 'packusdw' in b:
        return packer(satu, 32)
    if 'pshuf.b' in b:
        def f(x, k):
            out = []
            for base in range(0, len(x), 16):
                for i in range(16):
                    j = k[base + i]
                    if j.__class__ is N:
                        raise Unsupported('symbolic pshufb')
                    out.append(0 if j & 128 else x[base + (j & 15)])
            return out
        return f
    if 'pblendvb' in b or 'blendv' in b:
        w = width(rt)

        def f(x, y, k):
            return [E.sel(T.extract(T.uns(kk, w), w - 1, 1), yy, xx) for xx, yy, kk in zip(x, y, k)]
        return f
    mm = re.search(r'\.(psra|psrl|psll)(i?)\.(w|d|q)', b)
    if mm:
        w = {'w': 16, 'd': 32, 'q': 64}[mm.group(3)]
        op = {'psra': 'ashr', 'psrl': 'lshr', 'psll': 'shl'}[mm.group(1)]

        def f(x, k):
            if k.__class__ is list:
                k = T.cat([(e, w) for e in k[:64 // w]])
            if k.__class__ is N:
                # symbolic count: all lanes share it
                big = T.le(w, T.uns(k, 64))
                kk = T.uns(k, 64)
                out = []
                for e in x:
                    if op == 'ashr':
                        out.append(T.shiftv('ashr', e, T.smin(kk, w - 1), w))
                    else:
                        out.append(T.ite(big, 0, T.shiftv(op, e, T.ite(big, 0, kk), w)))
                return out
            if k >= w:
                return [E.BIN['ashr'](e, w - 1, w) if op == 'ashr' else 0 for e in x]
            return [E.BIN[op](e, k, w) for e in x]
        return f
    mm = re.search(r'\.(psrav|psrlv|psllv)\.(d|q)', b)
    if mm:
        w = {'d': 32, 'q': 64}[mm.group(2)]
        op = {'psrav': 'ashr', 'psrlv': 'lshr', 'psllv': 'shl'}[mm.group(1)]

        def f(x, k):
            out = []
            for e, s in zip(x, k):
                if s.__class__ is N:
                    raise Unsupported('symbolic variable shift')
                if s >= w:
                    out.append(E.BIN['ashr'](e, w - 1, w) if op == 'ashr' else 0)
                else:
                    out.append(E.BIN[op](e, s, w))
            return out
        return f
    mm = re.search(r'phadd\.(w|d)', b)
    if mm:
        w = {'w': 16, 'd': 32}[mm.group(1)]

        def f(x, y):
            blk = 128 // w
            out = []
            for k in range(0, len(x), blk):
                for v in (x, y):
                    for i in range(k, k + blk, 2):
                        out.append(E.op_add(v[i], v[i + 1], w))
            return out
        return f
    if b.endswith('pmovmskb.128') or b.endswith('pmovmskb') or 'movmsk' in b:
        w = width(at[0])
        return lambda x: c(T.cat([(T.extract(T.uns(e, w), w - 1, 1), 1) for e in x]), 32)
    if b.startswith('sse2.pavg') or b.startswith('avx2.pavg'):
        w = width(rt)
        return lambda x, y: [T.shr(T.add(T.add(T.uns(p, w), T.uns(q, w)), 1), 1) for p, q in zip(x, y)]
    mm = re.search(r'psign\.(b|w|d)', b)
    if mm:
        w = {'b': 8, 'w': 16, 'd': 32}[mm.group(1)]

        def f(x, y):
            return [c(T.ite(T.lt(T.sgn(q, w), 0), T.neg(p), T.ite(T.eq(q, 0, w), 0, p)), w) for p, q in zip(x, y)]
        return f
    if 'pmulh.w' in b:
        return lambda x, y: [c(T.shr(T.mul(T.sgn(p, 16), T.sgn(q, 16)), 16), 16) for p, q in zip(x, y)]
    if 'pmulhu.w' in b:
        return lambda x, y: [c(T.shr(T.mul(T.uns(p, 16), T.uns(q, 16)), 16), 16) for p, q in zip(x, y)]
    if 'pmul.hr.sw' in b:
        return lambda x, y: [c(T.shr(T.add(T.mul(T.sgn(p, 16), T.sgn(q, 16)), 1 << 14), 15), 16) for p, q in zip(x, y)]
    if b.startswith('sse41.ptest') or b.startswith('avx.ptest'):
        kind = b.split('ptest')[1][0]
        w = width(at[0])

        def f(x, y):
            z = [T.eq(T.bitop('and', p, q, w), 0, w) for p, q in zip(x, y)]
            cc = [T.eq(T.bitop('and', E.op_xor(p, T._M[w], w), q, w), 0, w) for p, q in zip(x, y)]

            def al(l):
                r = 1
                for e in l:
                    r = T.bitop('and', r, e, 1)
                return r
            if kind == 'z':
                return al(z)
            if kind == 'c':
                return al(cc)
            return T.bitop('and', T.bnot(al(z)), T.bnot(al(cc)), 1)
        return f
    if b.endswith('vperm2i128') or b.endswith('vperm2f128.si.256'):
        def f(x, y, imm):
            n = len(x) // 2
            src = [x[:n], x[n:], y[:n], y[n:]]

            def pick(k):
                return [0] * n if k & 8 else src[k & 3]
            return pick(imm & 15) + pick(imm >> 4)
        return f
    if b.endswith('permd'):
        return lambda x, k: [x[i & 7] for i in k]
    return None


# ---------------------------------------------------------------- assembler
GPR = {}
for _i, _n in enumerate(['ax', 'bx', 'cx', 'dx', 'si', 'di', 'bp', 'sp']):
    GPR['r' + _n] = ('r' + _n, 64)
    GPR['e' + _n] = ('r' + _n, 32)
for _i in range(8, 16):
    GPR['r%d' % _i] = ('r%d' % _i, 64)
    GPR['r%dd' % _i] = ('r%d' % _i, 32)


def assemble(m, text, ops):
    code = []
    labels = {}
    text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
    for line in re.split(r'[\n;]', text):
        line = line.strip()
        if line.startswith('//') or line.startswith('#'):
            continue
        line = line.split('//')[0].strip()
        while True:
            mm = re.match(r'^([A-Za-z_.0-9]+(?:\$\{:uid\})?[A-Za-z_.0-9]*):\s*', line)
            if not mm:
                break
            labels.setdefault(mm.group(1), []).append(len(code))
            line = line[mm.end():]
        if not line:
            continue
        mm = re.match(r'^(\S+)\s*(.*)$', line)
        mn, rest = mm.group(1), mm.group(2)
        code.append((mn, [operand(x) for x in splitops(rest)]))
    prog = []
    for i, (mn, oo) in enumerate(code):
        prog.append((mn, oo))

    # bind operands to pseudo registers
    def run(args):
        S = State(m)
        for k, o in enumerate(ops):
            if o['mem']:
                S.opmem[k] = args[o['arg']]
            elif o['arg'] is not None and 'tied' not in o:
                S.opreg[k] = ('op%d' % k)
                S.setop(k, args[o['arg']], o['ty'])
            elif 'tied' in o:
                t = o['tied']
                S.opreg[k] = 'op%d' % t
                S.opreg[t] = 'op%d' % t
                S.setop(t, args[o['arg']], o['ty'])
            else:
                S.opreg.setdefault(k, 'op%d' % k)
        pc = 0
        n = len(prog)
        cnt = 0
        while pc < n:
            mn, oo = prog[pc]
            t = S.exec1(mn, oo)
            cnt += 1
            if t is not None:
                pc = find_label(labels, t, pc)
            else:
                pc += 1
            if cnt > 5000000:
                raise Unsupported('asm loop bound')
        m.stats['asm_insns'] += cnt
        res = []
        for k, o in enumerate(ops):
            if o['out'] and not o['mem']:
                res.append(S.getop(k, o['ty']))
        return res
    return run


def find_label(labels, t, pc):
    if t in labels:
        return labels[t][0]
    mm = re.match(r'^(\d+)([bf])$', t)
    if mm:
        l = labels.get(mm.group(1), [])
        if mm.group(2) == 'f':
            c_ = [x for x in l if x > pc]
            return c_[0]
        c_ = [x for x in l if x <= pc]
        return c_[-1]
    raise Unsupported('label ' + t)


def splitops(s):
    out, cur, d = [], '', 0
    for ch in s:
        if ch in '({[':
            d += 1
        elif ch in ')}]':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def operand(s):
    mm = re.match(r'^\$\$(-?(?:0x[0-9a-fA-F]+|\d+))$', s)
    if mm:
        return ('imm', int(mm.group(1), 0))
    mm = re.match(r'^%([a-z0-9]+)$', s)
    if mm:
        return ('reg', mm.group(1))
    mm = re.match(r'^\$(\d+)$', s) or re.match(r'^\$\{(\d+)(?::\w+)?\}$', s)
    if mm:
        return ('op', int(mm.group(1)))
    mm = re.match(r'^(-?(?:0x[0-9a-fA-F]+|\d+))?\(([^,()]*)(?:,([^,()]*))?(?:,([^,()]*))?\)$', s)
    if mm:
        disp = int(mm.group(1), 0) if mm.group(1) else 0
        base = operand(mm.group(2).strip()) if mm.group(2).strip() else None
        idx = operand(mm.group(3).strip()) if mm.group(3) and mm.group(3).strip() else None
        sc = int(mm.group(4).strip(), 0) if mm.group(4) else 1
        return ('mem', base, idx, sc, disp)
    return ('lab', s)


class State(object):
    def __init__(self, m):
        self.m = m
        self.g = {}
        self.v = {}
        self.opreg = {}
        self.opmem = {}
        self.zf = self.sf = self.cf = self.of = 0

    def setop(self, k, val, ty):
        if ty.k == 'vec':
            self.v['op%d' % k] = (self.m.mod.bits(ty.e), list(val))
        else:
            self.g['op%d' % k] = val

    def getop(self, k, ty):
        r = self.opreg[k]
        if ty.k == 'vec':
            return vconv(self.v[r], self.m.mod.bits(ty.e))
        v = self.g.get(r)
        if v is None:
            return self.m.undef(ty)
        b = self.m.mod.bits(ty)
        return v & ((1 << b) - 1) if v.__class__ is int else v

    def gname(self, o):
        if o[0] == 'reg':
            return GPR[o[1]]
        return self.opreg[o[1]], 64

    def gget(self, o, w=64):
        if o[0] == 'imm':
            return o[1] & ((1 << w) - 1)
        if o[0] == 'mem' or (o[0] == 'op' and o[1] in self.opmem):
            v = self.m.ld(self.ea(o), w // 8)
        else:
            n, _ = self.gname(o)
            v = self.g.get(n)
            if v is None:
                raise Unsupported('asm: read of unset register %s' % n)
        if v.__class__ is not int:
            raise Unsupported('asm: symbolic general register')
        return v & ((1 << w) - 1)

    def gset(self, o, v, w=64):
        v &= (1 << w) - 1
        if o[0] == 'mem' or (o[0] == 'op' and o[1] in self.opmem):
            self.m.st(self.ea(o), v, w // 8)
            return
        n, _ = self.gname(o)
        self.g[n] = v

    def ea(self, o):
        if o[0] == 'op':
            return self.opmem[o[1]]
        _, base, idx, sc, disp = o
        a = disp
        if base is not None:
            a += self.gget(base)
        if idx is not None:
            a += self.gget(idx) * sc
        return a & ((1 << 64) - 1)

    def isvec(self, o):
        return o[0] == 'reg' and o[1][:3] in ('xmm', 'ymm')

    def vget(self, o, bits, w, align=0):
        """bits of operand as lanes of width w"""
        if o[0] == 'mem' or (o[0] == 'op' and o[1] in self.opmem):
            a = self.ea(o)
            if align:
                self.m.chkalign(a, align)
            return self.m.ldv(a, bits // w, w // 8)
        if o[0] == 'op':
            r = self.opreg[o[1]]
        else:
            r = 'v' + o[1][3:]
        val = self.v.get(r)
        if val is None:
            val = (8, [T.var('asmreg_%s_%d' % (r, i), 8) for i in range(32)])
            self.v[r] = val
        l = vconv(val, w)
        n = bits // w
        if len(l) < n:
            raise Unsupported('asm: upper half of %s read' % r)
        return l[:n]

    def vset(self, o, w, lanes_):
        if o[0] == 'op':
            self.v[self.opreg[o[1]]] = (w, lanes_)
        else:
            self.v['v' + o[1][3:]] = (w, lanes_)

    def flags(self, r, w):
        r &= (1 << w) - 1
        self.zf = 1 if r == 0 else 0
        self.sf = r >> (w - 1)

    def exec1(self, mn, o):
        h = mn
        if h.startswith('prefetch') or h == 'nop' or h == 'vzeroupper':
            return None
        if h in JCC:
            if JCC[h](self):
                return o[0][1]
            return None
        if h == 'jmp':
            return o[0][1]
        # integer
        isv = any(self.isvec(x) for x in o)
        if not isv:
            w = 64 if h[-1] == 'q' else 32
            b = h[:-1] if h[-1] in 'ql' and h[:-1] in INTOPS else h
            if b == 'test' and h == 'test':
                w = 32 if (o[1][0] == 'reg' and GPR[o[1][1]][1] == 32) else 64
            if b == 'mov':
                self.gset(o[1], self.gget(o[0], w), w)
                return None
            if b == 'lea':
                self.gset(o[1], self.ea(o[0]), w)
                return None
            if b in ('add', 'sub', 'cmp'):
                x, y = self.gget(o[1], w), self.gget(o[0], w)
                r = x + y if b == 'add' else x - y
                H = 1 << (w - 1)
                sx, sy = x - 2 * (x & H), y - 2 * (y & H)
                sr = sx + sy if b == 'add' else sx - sy
                self.of = 0 if -H <= sr < H else 1
                self.cf = 1 if (r < 0 or r >> w) else 0
                self.flags(r, w)
                if b != 'cmp':
                    self.gset(o[1], r, w)
                return None
            if b in ('inc', 'dec'):
                x = self.gget(o[0], w)
                r = x + 1 if b == 'inc' else x - 1
                H = 1 << (w - 1)
                self.of = 1 if (b == 'inc' and x == H - 1) or (b == 'dec' and x == H) else 0
                self.flags(r, w)
                self.gset(o[0], r, w)
                return None
            if b == 'shl' or b == 'sal':
                self.gset(o[1], self.gget(o[1], w) << self.gget(o[0], 8), w)
                self.flags(self.gget(o[1], w), w)
                return None
            if b == 'shr':
                self.gset(o[1], self.gget(o[1], w) >> self.gget(o[0], 8), w)
                self.flags(self.gget(o[1], w), w)
                return None
            if b in ('test', 'and', 'or', 'xor'):
                x, y = self.gget(o[1], w), self.gget(o[0], w)
                r = x & y if b in ('test', 'and') else (x | y if b == 'or' else x ^ y)
                self.cf = self.of = 0
                self.flags(r, w)
                if b != 'test':
                    self.gset(o[1], r, w)
                return None
            if b == 'imul':
                self.gset(o[-1], self.gget(o[0], w) * self.gget(o[1], w), w)
                return None
            raise Unsupported('x86 asm: %s' % mn)
        # vector
        vex = h[0] == 'v'
        b = h[1:] if vex else h
        dst = o[-1]
        bits = 256 if any(x[0] == 'reg' and x[1].startswith('ymm') for x in o) else 128

        def src2(w):
            if vex:
                return self.vget(o[1], bits, w), self.vget(o[0], bits, w)
            return self.vget(o[1], bits, w), self.vget(o[0], bits, w, 16)
        if b in ('movdqu', 'movdqa', 'movups', 'movaps', 'lddqu'):
            al = bits // 8 if b[-1] == 'a' or b == 'movaps' else 0
            if dst[0] == 'mem' or (dst[0] == 'op' and dst[1] in self.opmem):
                a = self.ea(dst)
                if al:
                    self.m.chkalign(a, al)
                src = self.v['v' + o[0][1][3:]]
                l = src[1][:bits // src[0]]
                self.m.stv(a, [E.norm(T.uns(x, src[0]), src[0]) for x in l], src[0] // 8)
            else:
                w = 32
                if o[0][0] == 'reg':
                    sv = self.v.get('v' + o[0][1][3:])
                    if sv:
                        w = sv[0]
                self.vset(dst, w, self.vget(o[0], bits, w, al))
            return None
        if b in ('pxor', 'por', 'pand', 'xorps'):
            if b in ('pxor', 'xorps') and o[0] == o[1] and (not vex or True) and o[0][0] == 'reg':
                self.vset(dst, 32, [0] * (bits // 32))
                return None
            x, y = src2(32)
            f = {'pxor': E.op_xor, 'xorps': E.op_xor, 'por': E.op_or, 'pand': E.op_and}[b]
            self.vset(dst, 32, [f(p, q, 32) for p, q in zip(x, y)])
            return None
        mm = re.match(r'^p(add|sub)([bwdq])$', b)
        if mm:
            w = {'b': 8, 'w': 16, 'd': 32, 'q': 64}[mm.group(2)]
            x, y = src2(w)
            f = E.op_add if mm.group(1) == 'add' else E.op_sub
            self.vset(dst, w, [f(p, q, w) for p, q in zip(x, y)])
            return None
        if b == 'pmaddwd':
            x, y = src2(16)
            self.vset(dst, 32, pmaddwd(x, y))
            return None
        if b == 'pmulld':
            x, y = src2(32)
            self.vset(dst, 32, [E.op_mul(p, q, 32) for p, q in zip(x, y)])
            return None
        mm = re.match(r'^pmov([zs])x(b|w)(w|d)$', b)
        if mm:
            w1 = {'b': 8, 'w': 16}[mm.group(2)]
            w2 = {'w': 16, 'd': 32}[mm.group(3)]
            n = bits // w2
            x = self.vget(o[0], n * w1, w1)
            f = (lambda v: T.uns(v, w1)) if mm.group(1) == 'z' else (lambda v: E.sext(v, w1, w2))
            self.vset(dst, w2, [f(v) for v in x])
            return None
        if b == 'pshufd':
            imm = o[0][1]
            x = self.vget(o[1], bits, 32, 0 if vex else 16)
            out = []
            for k in range(0, len(x), 4):
                out += [x[k + ((imm >> (2 * i)) & 3)] for i in range(4)]
            self.vset(dst, 32, out)
            return None
        if b == 'permq':
            imm = o[0][1]
            x = self.vget(o[1], 256, 64) if self.v.get('v' + o[1][1][3:], (64,))[0] >= 64 else None
            if x is None:
                sw, sl = self.v['v' + o[1][1][3:]]
                k = 64 // sw
                out = []
                for i in range(4):
                    q = (imm >> (2 * i)) & 3
                    out += sl[q * k:(q + 1) * k]
                self.vset(dst, sw, out)
            else:
                self.vset(dst, 64, [x[(imm >> (2 * i)) & 3] for i in range(4)])
            return None
        mm = re.match(r'^punpck([lh])(bw|wd|dq|qdq)$', b)
        if mm:
            w = {'bw': 8, 'wd': 16, 'dq': 32, 'qdq': 64}[mm.group(2)]
            x, y = src2(w)
            out = []
            blk = 128 // w
            for k in range(0, len(x), blk):
                s = k if mm.group(1) == 'l' else k + blk // 2
                for i in range(s, s + blk // 2):
                    out += [x[i], y[i]]
            self.vset(dst, w, out)
            return None
        raise Unsupported('x86 asm: %s' % mn)


INTOPS = {'mov', 'lea', 'add', 'sub', 'cmp', 'inc', 'dec', 'shl', 'sal', 'shr', 'test', 'and', 'or', 'xor', 'imul'}
JCC = {
    'jz': lambda s: s.zf, 'je': lambda s: s.zf, 'jnz': lambda s: not s.zf, 'jne': lambda s: not s.zf,
    'js': lambda s: s.sf, 'jns': lambda s: not s.sf, 'ja': lambda s: not s.cf and not s.zf,
    'jae': lambda s: not s.cf, 'jb': lambda s: s.cf, 'jbe': lambda s: s.cf or s.zf,
    'jg': lambda s: not s.zf and s.sf == s.of, 'jge': lambda s: s.sf == s.of,
    'jl': lambda s: s.sf != s.of, 'jle': lambda s: s.zf or s.sf != s.of,
}


def vconv(val, w):
    ow, l = val
    if ow == w:
        return l
    return bitcast(l, len(l), ow, 1, w)
