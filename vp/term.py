"""Symbolic integer terms.

A machine value of width w is represented by an *integer* v (a Python int when
concrete, an N node when symbolic) such that  value == v mod 2**w.  Ring
operations (add, sub, mul, shl by a constant) and truncation are therefore
exact on the integers with no wrapping node.  Where an operation needs the
unsigned or the signed representative (zext, compares, right shifts, ...), the
interval of v decides: if v is provably inside the range it is its own
representative, otherwise an explicit wrap node is made.  Every node is emitted
to the solver as a bit-vector term at the width at which it is used (smt.py).
"""

_table = {}
_next = [0]


class N(object):
    __slots__ = ('op', 'args', 'lo', 'hi', 'id', 'tz')

    def __repr__(self):
        return 'N%d(%s)[%s,%s]' % (self.id, self.op, self.lo, self.hi)


def reset():
    _table.clear()
    _next[0] = 0


def _mk(op, args, lo, hi):
    k = (op,) + tuple([a if a.__class__ is not N else ('n', a.id) for a in args])
    n = _table.get(k)
    if n is None:
        n = N()
        n.op = op
        n.args = args
        n.lo = lo
        n.hi = hi
        n.id = _next[0]
        n.tz = 0
        _next[0] += 1
        _table[k] = n
    return n


def var(name, w):
    return _mk('var', (name, w), 0, (1 << w) - 1)


def isc(v):
    return v.__class__ is not N


def add(a, b):
    if a.__class__ is not N:
        if b.__class__ is not N:
            return a + b
        a, b = b, a
    # a is N
    if b.__class__ is not N:
        if b == 0:
            return a
        if a.op == 'add' and a.args[1].__class__ is not N:
            return add(a.args[0], a.args[1] + b)
        k = ('add', a.id, 'c', b)
        n = _table.get(k)
        if n is None:
            n = N()
            n.op = 'add'
            n.args = (a, b)
            n.lo = a.lo + b
            n.hi = a.hi + b
            n.id = _next[0]
            n.tz = 0
            _next[0] += 1
            _table[k] = n
        return n
    if a.id > b.id:
        a, b = b, a
    k = ('add', a.id, b.id)
    n = _table.get(k)
    if n is None:
        n = N()
        n.op = 'add'
        n.args = (a, b)
        n.lo = a.lo + b.lo
        n.hi = a.hi + b.hi
        n.id = _next[0]
        n.tz = a.tz if a.tz < b.tz else b.tz
        _next[0] += 1
        _table[k] = n
    return n


def mul(a, b):
    if a.__class__ is not N:
        if b.__class__ is not N:
            return a * b
        a, b = b, a
    if b.__class__ is not N:
        if b == 0:
            return 0
        if b == 1:
            return a
        if a.op == 'mul' and a.args[1].__class__ is not N:
            return mul(a.args[0], a.args[1] * b)
        k = ('mul', a.id, 'c', b)
        n = _table.get(k)
        if n is None:
            n = N()
            n.op = 'mul'
            n.args = (a, b)
            if b > 0:
                n.lo = a.lo * b
                n.hi = a.hi * b
            else:
                n.lo = a.hi * b
                n.hi = a.lo * b
            n.id = _next[0]
            n.tz = a.tz + ((b & -b).bit_length() - 1)
            _next[0] += 1
            _table[k] = n
        return n
    if a.id > b.id:
        a, b = b, a
    k = ('mul', a.id, b.id)
    n = _table.get(k)
    if n is None:
        n = N()
        n.op = 'mul'
        n.args = (a, b)
        if a is b:
            l, h = abs(a.lo), abs(a.hi)
            n.hi = max(l * l, h * h)
            n.lo = 0 if (a.lo <= 0 <= a.hi) else min(l * l, h * h)
        else:
            p = a.lo * b.lo
            q = a.lo * b.hi
            r = a.hi * b.lo
            s = a.hi * b.hi
            n.lo = min(p, q, r, s)
            n.hi = max(p, q, r, s)
        n.id = _next[0]
        n.tz = a.tz + b.tz
        _next[0] += 1
        _table[k] = n
    return n


def neg(a):
    return mul(a, -1)


def sub(a, b):
    if a is b and a.__class__ is N:
        return 0
    return add(a, mul(b, -1))


_M = [(1 << i) - 1 for i in range(0, 1100)]


def rng(v):
    if v.__class__ is N:
        return v.lo, v.hi
    return v, v


def uns(v, w):
    """The unsigned w-bit representative of v."""
    if v.__class__ is not N:
        return v & _M[w]
    if v.lo >= 0 and v.hi <= _M[w]:
        return v
    q = v.lo >> w
    if q == v.hi >> w:
        return add(v, -(q << w))
    op = v.op
    if op == 'cat':
        return catslice(v, 0, w)
    if op == 'wrapu' or op == 'wraps':
        if v.args[0] >= w:
            return uns(v.args[1], w)
    if op == 'add' and v.args[1].__class__ is not N:
        c = v.args[1]
        c2 = c & _M[w]
        if c2 >= (1 << (w - 1)):
            c2 -= 1 << w
        if c2 != c:
            return uns(add(v.args[0], c2), w)
    if op == 'ite':
        c, a, b = v.args
        return ite(c, uns(a, w), uns(b, w))
    n = _mk('wrapu', (w, v), 0, _M[w])
    return n


def sgn(v, w):
    """The signed w-bit representative of v."""
    h = 1 << (w - 1)
    if v.__class__ is not N:
        v &= _M[w]
        return v - (h << 1) if v & h else v
    if v.lo >= -h and v.hi < h:
        return v
    q = (v.lo + h) >> w
    if q == (v.hi + h) >> w:
        return add(v, -(q << w))
    op = v.op
    if op == 'cat':
        s = catslice(v, 0, w)
        if s is not v:
            return sgn(s, w)
    elif op == 'wrapu' or op == 'wraps':
        if v.args[0] >= w:
            return sgn(v.args[1], w)
    elif op == 'ite':
        c, a, b = v.args
        return ite(c, sgn(a, w), sgn(b, w))
    elif op == 'add' and v.args[1].__class__ is not N:
        c = v.args[1]
        c2 = c & _M[w]
        if c2 >= h:
            c2 -= 1 << w
        if c2 != c:
            return sgn(add(v.args[0], c2), w)
    return _mk('wraps', (w, v), -h, h - 1)


def trunc(v, w):
    """Any representative mod 2**w (keeps terms small)."""
    if v.__class__ is not N:
        return v & _M[w]
    op = v.op
    if op == 'cat':
        return catslice(v, 0, w)
    if (op == 'wrapu' or op == 'wraps') and v.args[0] >= w:
        return trunc(v.args[1], w)
    if op == 'ite':
        c, a, b = v.args
        if a.__class__ is not N or b.__class__ is not N:
            return ite(c, trunc(a, w), trunc(b, w))
    return v


def _src(v, w):
    """v (w bits, unsigned) as bits [off, off+w) of a source value."""
    op = v.op
    if op == 'slice' and v.args[2] == w:
        return v.args[0], v.args[1]
    if op == 'wrapu' and v.args[0] == w:
        return v.args[1], 0
    if op == 'shr' and v.args[0].lo >= 0 and v.args[0].hi < (1 << (v.args[1] + w)):
        return v.args[0], v.args[1]
    return v, 0


def cat(parts):
    """parts: [(value, width)] lowest first; values are taken mod 2**width."""
    out = []
    for v, w in parts:
        if v.__class__ is N and v.op == 'cat':
            t = v.args[1]
            if t <= w and v.lo >= 0:
                out.extend(v.args[0])
                if t < w:
                    out.append((0, w - t))
                continue
            elif t > w:
                v = catslice(v, 0, w)
                if v.__class__ is N and v.op == 'cat':
                    out.extend(v.args[0])
                    if v.args[1] < w:
                        out.append((0, w - v.args[1]))
                    continue
        if v.__class__ is N:
            v = uns(v, w)
            # contiguous slices of one value re-merge
            if out and v.__class__ is N:
                pv, pw = out[-1]
                if pv.__class__ is N:
                    s1 = _src(pv, pw)
                    s2 = _src(v, w)
                    if s1[0] is s2[0] and s1[1] + pw == s2[1]:
                        mv = extract(s1[0], s1[1], pw + w)
                        if not (mv.__class__ is N and mv.op == 'cat'):
                            out[-1] = (mv, pw + w)
                            continue
                    elif pv.op == 'ite' and v.op == 'ite' and pv.args[0] is v.args[0]:
                        c = v.args[0]
                        mv = ite(c, cat([(pv.args[1], pw), (v.args[1], w)]),
                                 cat([(pv.args[2], pw), (v.args[2], w)]))
                        if not (mv.__class__ is N and mv.op == 'cat'):
                            out[-1] = (mv, pw + w)
                            continue
            if v.__class__ is not N:
                v &= _M[w]
            out.append((v, w))
        else:
            v &= _M[w]
            if out and out[-1][0].__class__ is not N:
                pv, pw = out[-1]
                out[-1] = (pv | (v << pw), pw + w)
            else:
                out.append((v, w))
    if len(out) == 1:
        return out[0][0]
    # drop high zeros (integer value unaffected)
    while len(out) > 1 and out[-1][0].__class__ is not N and out[-1][0] == 0:
        out.pop()
    if len(out) == 1:
        return out[0][0]
    tot = sum(w for _, w in out)
    lo = hi = 0
    sh = 0
    for v, w in out:
        l, h = rng(v)
        lo += l << sh
        hi += h << sh
        sh += w
    key = ('cat',) + tuple([(v.id if v.__class__ is N else ('c', v), w) for v, w in out])
    n = _table.get(key)
    if n is None:
        n = N()
        n.op = 'cat'
        n.args = (tuple(out), tot)
        n.lo = lo
        n.hi = hi
        n.id = _next[0]
        n.tz = 0
        if out[0][0].__class__ is not N and out[0][0] == 0:
            n.tz = out[0][1]
        _next[0] += 1
        _table[key] = n
    return n


def catslice(v, off, w):
    """bits [off, off+w) of a cat node (unsigned)."""
    parts = []
    pos = 0
    end = off + w
    for p, pw in v.args[0]:
        s = max(off, pos)
        e = min(end, pos + pw)
        if s < e:
            if s == pos and e == pos + pw:
                parts.append((p, pw))
            else:
                parts.append((extract(p, s - pos, e - s), e - s))
        pos += pw
        if pos >= end:
            break
    if not parts:
        return 0
    r = cat(parts)
    return r


def slice_(v, off, w):
    if off == 0 and v.lo >= 0 and v.hi <= _M[w]:
        return v
    return _mk('slice', (v, off, w), 0, _M[w])


def extract(v, off, w):
    """bits [off, off+w) of v (unsigned)."""
    if v.__class__ is not N:
        return (v >> off) & _M[w]
    op = v.op
    if off == 0:
        return uns(v, w)
    if op == 'cat':
        return catslice(v, off, w)
    if v.lo >= 0 and v.hi <= _M[off]:
        return 0
    if op == 'slice':
        if off >= v.args[2]:
            return 0
        return extract(v.args[0], v.args[1] + off, min(w, v.args[2] - off))
    if op == 'wrapu':
        if off + w <= v.args[0]:
            return extract(v.args[1], off, w)
    if op == 'wraps':
        if off + w <= v.args[0]:
            return extract(v.args[1], off, w)
    if op == 'ite':
        c, a, b = v.args
        return ite(c, extract(a, off, w), extract(b, off, w))
    if v.lo >= 0 and v.hi < (1 << (off + w)):
        return shr(v, off)
    if op == 'mul' and v.args[1].__class__ is not N:
        c = v.args[1]
        if c == 1 << off:
            return uns(v.args[0], w)
        if c > 0 and c & (c - 1) == 0:
            k = c.bit_length() - 1
            if k < off:
                return extract(v.args[0], off - k, w)
    return slice_(v, off, w)


def shr(a, k):
    """floor(a / 2**k)."""
    if a.__class__ is not N:
        return a >> k
    if k == 0:
        return a
    lo, hi = a.lo >> k, a.hi >> k
    if lo == hi:
        return lo
    if a.op == 'cat':
        return catslice(a, k, max(a.args[1] - k, 1)) if a.args[1] > k else 0
    if a.op == 'mul' and a.args[1].__class__ is not N:
        c = a.args[1]
        if c % (1 << k) == 0:
            return mul(a.args[0], c >> k)
    if a.op == 'shr':
        return shr(a.args[0], a.args[1] + k)
    if a.op == 'wraps' and a.args[1].__class__ is N and a.args[1].op == 'mul' and \
            a.args[1].args[1].__class__ is not N and a.args[1].args[1] == 1 << k and a.args[0] > k:
        return sgn(a.args[1].args[0], a.args[0] - k)
    if a.op == 'wrapu' and a.args[1].__class__ is N and a.args[1].op == 'mul' and \
            a.args[1].args[1].__class__ is not N and a.args[1].args[1] == 1 << k and a.args[0] > k:
        return uns(a.args[1].args[0], a.args[0] - k)
    return _mk('shr', (a, k), lo, hi)


def ite(c, a, b):
    if c.__class__ is not N:
        return a if c & 1 else b
    if a is b or (a.__class__ is not N and b.__class__ is not N and a == b):
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    if a.__class__ is N and a.op == 'ite' and a.args[0] is c:
        a = a.args[1]
    if b.__class__ is N and b.op == 'ite' and b.args[0] is c:
        b = b.args[2]
    if a.__class__ is not N and b.__class__ is not N:
        if a == 1 and b == 0:
            return c
        if a == 0 and b == 1:
            return bnot(c)
    al, ah = rng(a)
    bl, bh = rng(b)
    # min / max shapes give tighter intervals
    lo, hi = min(al, bl), max(ah, bh)
    if c.op == 'lt' or c.op == 'le':
        x, y = c.args
        if same(x, a) and same(y, b):      # a<b ? a : b  = min
            if ah <= bl:
                return a
            if bh <= al:
                return b
            hi = min(ah, bh)
        elif same(x, b) and same(y, a):    # b<a ? a : b  = max
            if al >= bh:
                return a
            if bl >= ah:
                return b
            lo = max(al, bl)
        else:
            # conditional clamps: refine a's interval by the guard when a is one side
            al, ah = _refine(c, True, a, al, ah)
            bl, bh = _refine(c, False, b, bl, bh)
            if al <= ah and bl <= bh:
                lo, hi = min(al, bl), max(ah, bh)
    return _mk('ite', (c, a, b), lo, hi)


def _refine(c, pol, v, l, h):
    x, y = c.args
    strict = 1 if c.op == 'lt' else 0
    if pol:
        if same(v, x):
            h = min(h, rng(y)[1] - strict)
        if same(v, y):
            l = max(l, rng(x)[0] + strict)
    else:  # not (x < y) => y <= x ; not (x <= y) => y < x
        if same(v, y):
            h = min(h, rng(x)[1] - (1 - strict))
        if same(v, x):
            l = max(l, rng(y)[0] + (1 - strict))
    return l, h


def same(a, b):
    if a.__class__ is N:
        return a is b
    return b.__class__ is not N and a == b


def lt(a, b):
    """integer a < b -> 0/1"""
    al, ah = rng(a)
    bl, bh = rng(b)
    if ah < bl:
        return 1
    if al >= bh:
        return 0
    if a is b:
        return 0
    return _mk('lt', (a, b), 0, 1)


def le(a, b):
    al, ah = rng(a)
    bl, bh = rng(b)
    if ah <= bl:
        return 1
    if al > bh:
        return 0
    if a is b:
        return 1
    return _mk('le', (a, b), 0, 1)


def eq(a, b, w):
    """a == b mod 2**w"""
    if a.__class__ is not N:
        if b.__class__ is not N:
            return 1 if (a - b) & _M[w] == 0 else 0
        a, b = b, a
    if a is b:
        return 1
    if b.__class__ is not N:
        bs = b & _M[w]
        if w == 1:
            au = uns(a, 1)
            return au if bs else bnot(au)
        # range test
        q = a.lo >> w
        if q == a.hi >> w:
            if bs < a.lo - (q << w) or bs > a.hi - (q << w):
                return 0
        b = bs
        if a.op == 'ite' and a.args[1].__class__ is not N and a.args[2].__class__ is not N:
            t1 = (a.args[1] - b) & _M[w] == 0
            t2 = (a.args[2] - b) & _M[w] == 0
            return ite(a.args[0], 1 if t1 else 0, 1 if t2 else 0)
        if b == 0 and a.op in ('lt', 'le', 'eq', 'not', 'bfun'):
            return bnot(a)
        if b == 0 and a.op == 'cat':
            pass
    else:
        if a.hi < b.lo or b.hi < a.lo:
            # definitely different integers; different mod 2**w if the spread is small
            if max(a.hi, b.hi) - min(a.lo, b.lo) <= _M[w]:
                return 0
        if a.id > b.id:
            a, b = b, a
    return _mk('eq', (a, b, w), 0, 1)


def bnot(a):
    if a.__class__ is not N:
        return 1 - (a & 1)
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return _mk('not', (a,), 0, 1)


def _isb(a):
    return a.__class__ is N and a.lo >= 0 and a.hi <= 1


def bitop(op, a, b, w):
    """and / or / xor at width w."""
    if a.__class__ is not N:
        if b.__class__ is not N:
            a &= _M[w]
            b &= _M[w]
            return a & b if op == 'and' else (a | b if op == 'or' else a ^ b)
        a, b = b, a
    full = _M[w]
    if b.__class__ is not N:
        b &= full
        if op == 'and':
            if b == 0:
                return 0
            if b == full:
                return a
            if b & (b + 1) == 0:          # low mask
                return uns(a, b.bit_length())
            if _isb(a):
                return a if b & 1 else 0
            tz = (b & -b).bit_length() - 1
            m = b >> tz
            if m & (m + 1) == 0:          # contiguous field
                f = extract(a, tz, m.bit_length())
                return mul(f, 1 << tz)
        elif op == 'or':
            if b == 0:
                return a
            if b == full:
                return full
            if a.op == 'mul' or a.op == 'cat' or a.lo >= 0:
                # disjoint constant low bits
                if a.tz and b < (1 << a.tz):
                    return add(a, b)
                if a.lo >= 0 and b & _M[max(a.hi.bit_length(), 0)] == 0:
                    return add(a, b)
        else:
            if b == 0:
                return a
            if w == 1:
                return bnot(uns(a, 1))
            if b == full:
                return add(neg(a), -1)
            if b == 1 << (w - 1):
                return add(a, -b)
            if b == 1 and _isb(a):
                return bnot(a)
            if a.lo >= 0 and a.hi <= b and b & (b + 1) == 0:   # b = 2^k-1, a in [0,b]
                return add(neg(a), b)
        return _mk(op, (a, b, w), 0, full) if op != 'and' else _mk(op, (uns(a, w), b, w), 0, b)
    if a is b:
        return 0 if op == 'xor' else a
    if op == 'or' or op == 'xor':
        # disjoint by known trailing zeros
        if a.lo >= 0 and b.tz and a.hi < (1 << b.tz):
            return add(a, b)
        if b.lo >= 0 and a.tz and b.hi < (1 << a.tz):
            return add(a, b)
    if w == 1 or (_isb(a) and _isb(b)):
        a = uns(a, 1)
        b = uns(b, 1)
        if a.__class__ is not N or b.__class__ is not N:
            return bitop(op, a, b, 1)
        if op == 'and':
            return ite(a, b, 0)
        if op == 'or':
            return ite(a, 1, b)
        return ite(a, bnot(b), b)
    # lane masks: both sign-extended booleans or (mask & x)
    if op == 'and':
        ma = _maskbool(a, w)
        if ma is not None:
            return ite(ma, b, 0)
        mb = _maskbool(b, w)
        if mb is not None:
            return ite(mb, a, 0)
    elif op == 'or':
        ma = _maskbool(a, w)
        if ma is not None:
            return ite(ma, full, b)
        mb = _maskbool(b, w)
        if mb is not None:
            return ite(mb, full, a)
        # (c ? x : 0) | (!c ? y : 0)
        r = _blend(a, b)
        if r is not None:
            return r
    elif op == 'xor':
        ma = _maskbool(a, w)
        if ma is not None:
            return ite(ma, add(neg(b), -1), b)
        mb = _maskbool(b, w)
        if mb is not None:
            return ite(mb, add(neg(a), -1), a)
        r = _blend(a, b)
        if r is not None:
            return r
    if a.op == 'cat' or b.op == 'cat':
        r = _catbit(op, a, b, w)
        if r is not None:
            return r
    if a.id > b.id:
        a, b = b, a
    a, b = uns(a, w), uns(b, w)
    hi = full
    if a.__class__ is N and b.__class__ is N:
        if op == 'and':
            hi = min(a.hi, b.hi)
        else:
            hi = _M[max(a.hi.bit_length(), b.hi.bit_length())]
    else:
        return bitop(op, a, b, w)
    return _mk(op, (a, b, w), 0, hi)


def _catbit(op, a, b, w):
    cuts = set([0, w])
    for v in (a, b):
        if v.op == 'cat':
            p = 0
            for _, pw in v.args[0]:
                p += pw
                if p < w:
                    cuts.add(p)
    cuts = sorted(cuts)
    if len(cuts) == 2:
        return None
    return cat([(bitop(op, extract(a, s, e - s), extract(b, s, e - s), e - s), e - s)
                for s, e in zip(cuts, cuts[1:])])


def _maskbool(a, w):
    """c such that a == (c ? all-ones : 0) at width w, else None."""
    if a.op == 'ite':
        _, x, y = a.args
        if x.__class__ is not N and y.__class__ is not N:
            x &= _M[w]
            y &= _M[w]
            if x == _M[w] and y == 0:
                return a.args[0]
            if y == _M[w] and x == 0:
                return bnot(a.args[0])
    elif a.op == 'mul' and a.args[1].__class__ is not N and _isb(a.args[0]) \
            and a.args[1] & _M[w] == _M[w]:
        return a.args[0]
    return None


def _blend(a, b):
    if a.op == 'ite' and b.op == 'ite':
        ca, ax, ay = a.args
        cb, bx, by = b.args
        if ca is cb:
            if same(ax, 0) and same(by, 0):
                return ite(ca, bx, ay)
            if same(ay, 0) and same(bx, 0):
                return ite(ca, ax, by)
        elif bnot(ca) is cb:
            if same(ay, 0) and same(by, 0):
                return ite(ca, ax, bx)
            if same(ax, 0) and same(bx, 0):
                return ite(ca, by, ay)
    return None


def smax(a, b):
    return ite(lt(b, a), a, b)


def smin(a, b):
    return ite(lt(a, b), a, b)


def divop(op, a, b, w):
    """udiv urem sdiv srem; a, b already canonical for the signedness."""
    if a.__class__ is not N and b.__class__ is not N:
        if b == 0:
            raise ZeroDivisionError
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return q if op in ('udiv', 'sdiv') else a - q * b
    al, ah = rng(a)
    bl, bh = rng(b)
    if b.__class__ is not N and b > 0 and b & (b - 1) == 0 and al >= 0:
        k = b.bit_length() - 1
        if op in ('udiv', 'sdiv'):
            return shr(a, k)
        return uns(a, k) if k else 0
    if op in ('udiv', 'sdiv'):
        if al >= 0 and bl > 0:
            lo, hi = al // bh, ah // bl
        else:
            m = max(abs(al), abs(ah))
            lo, hi = -m, m
    else:
        m = max(abs(bl), abs(bh)) - 1
        m2 = max(abs(al), abs(ah))
        hi = min(max(m, 0), max(ah, 0)) if al >= 0 else min(m, m2)
        lo = 0 if al >= 0 else -min(m, m2)
        if al >= 0 and bl > ah:
            return a
    return _mk(op, (a, b, w), lo, hi)


def shiftv(op, a, s, w):
    """shl lshr ashr with a symbolic amount (amount < w assumed checked)."""
    a = sgn(a, w) if op == 'ashr' else uns(a, w)
    if op == 'ashr':
        lo, hi = (a.lo, a.hi) if a.__class__ is N else (min(a, 0), max(a, 0))
        lo = min(lo, 0 if hi >= 0 else -1)
        hi = max(hi, -1 if lo < 0 else 0)
    elif op == 'lshr':
        lo, hi = 0, (a.hi if a.__class__ is N else a)
    else:
        lo, hi = 0, _M[w]
    return _mk(op + 'v', (a, uns(s, w), w), lo, hi)


def uf(name, args, w, lo=0, hi=None):
    """opaque function result (unsigned w bits); args is a tuple of (value, width)."""
    key = ('uf', name, w) + tuple([(v.id if v.__class__ is N else ('c', v), ww) for v, ww in args])
    n = _table.get(key)
    if n is None:
        n = N()
        n.op = 'uf'
        n.args = (name, tuple(args), w)
        n.lo = lo
        n.hi = _M[w] if hi is None else hi
        n.id = _next[0]
        n.tz = 0
        _next[0] += 1
        _table[key] = n
    return n


def evaluate(root, env, memo=None, uffun=None):
    """Concrete integer value of a node under env: var name -> int."""
    if root.__class__ is not N:
        return root
    if memo is None:
        memo = {}
    stack = [root]
    while stack:
        n = stack[-1]
        if n.id in memo:
            stack.pop()
            continue
        op = n.op
        if op == 'var':
            memo[n.id] = env.get(n.args[0], 0) & _M[n.args[1]]
            stack.pop()
            continue
        if op == 'cat':
            ch = [p for p, _ in n.args[0] if p.__class__ is N]
        elif op == 'uf':
            ch = [p for p, _ in n.args[1] if p.__class__ is N]
        else:
            ch = [p for p in n.args if p.__class__ is N]
        todo = [c for c in ch if c.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        g = lambda p: memo[p.id] if p.__class__ is N else p
        a = n.args
        if op == 'add':
            r = g(a[0]) + g(a[1])
        elif op == 'mul':
            r = g(a[0]) * g(a[1])
        elif op == 'wrapu':
            r = g(a[1]) & _M[a[0]]
        elif op == 'wraps':
            r = g(a[1]) & _M[a[0]]
            if r >> (a[0] - 1):
                r -= 1 << a[0]
        elif op == 'slice':
            r = (g(a[0]) >> a[1]) & _M[a[2]]
        elif op == 'shr':
            r = g(a[0]) >> a[1]
        elif op == 'ite':
            r = g(a[1]) if g(a[0]) else g(a[2])
        elif op == 'lt':
            r = 1 if g(a[0]) < g(a[1]) else 0
        elif op == 'le':
            r = 1 if g(a[0]) <= g(a[1]) else 0
        elif op == 'eq':
            r = 1 if (g(a[0]) - g(a[1])) & _M[a[2]] == 0 else 0
        elif op == 'not':
            r = 1 - g(a[0])
        elif op == 'and':
            r = (g(a[0]) & g(a[1])) & _M[a[2]]
        elif op == 'or':
            r = (g(a[0]) | g(a[1])) & _M[a[2]]
        elif op == 'xor':
            r = (g(a[0]) ^ g(a[1])) & _M[a[2]]
        elif op == 'cat':
            r = 0
            sh = 0
            for p, w in a[0]:
                r |= (g(p) & _M[w]) << sh
                sh += w
        elif op in ('udiv', 'sdiv', 'urem', 'srem'):
            x, y = g(a[0]), g(a[1])
            if y == 0:
                r = 0
            else:
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                r = q if op in ('udiv', 'sdiv') else x - q * y
        elif op == 'shlv':
            r = (g(a[0]) << g(a[1])) & _M[a[2]] if g(a[1]) < a[2] else 0
        elif op == 'lshrv':
            r = g(a[0]) >> g(a[1]) if g(a[1]) < a[2] else 0
        elif op == 'ashrv':
            r = g(a[0]) >> min(g(a[1]), a[2])
        elif op == 'uf':
            if uffun is None:
                from .execu import ufconc as uffun
            r = uffun(n.args[0], [g(p) for p, _ in n.args[1]], n.args[2])
        else:
            raise Exception('evaluate ' + op)
        memo[n.id] = r
        stack.pop()
    return memo[root.id]


def rename(root, f, memo):
    """root with every variable's name mapped by f."""
    if root.__class__ is not N:
        return root
    st = [root]
    while st:
        n = st[-1]
        if n.id in memo:
            st.pop()
            continue
        if n.op == 'var':
            nm = f(n.args[0])
            memo[n.id] = n if nm == n.args[0] else var(nm, n.args[1])
            st.pop()
            continue
        todo = []
        for a in n.args:
            if a.__class__ is N:
                if a.id not in memo:
                    todo.append(a)
            elif a.__class__ is tuple:
                for y in a:
                    y0 = y[0] if y.__class__ is tuple else y
                    if y0.__class__ is N and y0.id not in memo:
                        todo.append(y0)
        if todo:
            st.extend(todo)
            continue
        ch = False
        args = []
        for a in n.args:
            if a.__class__ is N:
                b = memo[a.id]
                ch = ch or b is not a
                args.append(b)
            elif a.__class__ is tuple:
                l = []
                for y in a:
                    if y.__class__ is tuple and y and y[0].__class__ is N:
                        b = memo[y[0].id]
                        ch = ch or b is not y[0]
                        l.append((b,) + y[1:])
                    elif y.__class__ is N:
                        b = memo[y.id]
                        ch = ch or b is not y
                        l.append(b)
                    else:
                        l.append(y)
                args.append(tuple(l))
            else:
                args.append(a)
        memo[n.id] = _mk(n.op, tuple(args), n.lo, n.hi) if ch else n
        st.pop()
    return memo[root.id]
