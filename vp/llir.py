"""Parser for textual LLVM IR (LLVM 18, opaque pointers)."""
import re

TOK = re.compile(r'''
  c"(?:[^"\\]|\\.)*" | "(?:[^"\\]|\\.)*" |
  [%@$](?:"[^"]*"|[-a-zA-Z$._0-9]+) |
  \#\d+ | ![-a-zA-Z$._0-9]* |
  0x[KLMHR]?[0-9A-Fa-f]+ |
  -?\d+\.\d+(?:[eE][-+]?\d+)? |
  -?\d+ |
  \.\.\. |
  [a-zA-Z_][-a-zA-Z_0-9.]*:? |
  [\[\]{}()<>,=*|:]
''', re.X)


class Ty(object):
    __slots__ = ('k', 'n', 'e', 'fields', 'packed', '_size', '_align', 'offs', 'name')

    def __init__(self, k, n=0, e=None, fields=None, packed=False):
        self.k = k
        self.n = n
        self.e = e
        self.fields = fields
        self.packed = packed
        self._size = None
        self._align = None
        self.offs = None

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.n
        if self.k == 'vec':
            return '<%d x %r>' % (self.n, self.e)
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.e)
        if self.k == 'struct':
            return '{' + ','.join(map(repr, self.fields)) + '}'
        return self.k


VOID = Ty('void')
_ints = {}


def I(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty('i', n)
    return t


FLOAT = Ty('float', 32)
DOUBLE = Ty('double', 64)
HALF = Ty('half', 16)


class Module(object):
    def __init__(self, text):
        self.types = {}
        self.globals = {}      # name -> (Ty, init tokens, is_const)
        self.funcs = {}        # name -> Function (lazy)
        self.decls = {}
        self.aliases = {}
        self.triple = ''
        self.ptrbits = 64
        self.PTR = Ty('ptr', 64)
        self._vec = {}
        self.scan(text)

    # ---- types -----------------------------------------------------------
    def size(self, t):
        s = t._size
        if s is None:
            self.layout(t)
            s = t._size
        return s

    def align(self, t):
        if t._align is None:
            self.layout(t)
        return t._align

    def layout(self, t):
        k = t.k
        if k == 'i':
            b = (t.n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            t._align = min(p, 16 if self.ptrbits == 64 else 8)
            t._size = (b + t._align - 1) // t._align * t._align
        elif k == 'float':
            t._size = t._align = 4
        elif k == 'double':
            t._size = t._align = 8
        elif k == 'half':
            t._size = t._align = 2
        elif k == 'x86_fp80':
            t._size = t._align = 16
        elif k == 'fp128':
            t._size = t._align = 16
        elif k == 'ptr':
            t._size = t._align = self.ptrbits // 8
        elif k == 'vec':
            bits = t.n * self.bits(t.e)
            b = (bits + 7) // 8
            p = 1
            while p < b:
                p *= 2
            t._size = p
            t._align = min(p, 8) if self.arm32 else p
        elif k == 'arr':
            t._size = t.n * self.size(t.e)
            t._align = self.align(t.e)
        elif k == 'struct':
            off = 0
            al = 1
            t.offs = []
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                al = max(al, a)
                off = (off + a - 1) // a * a
                t.offs.append(off)
                off += self.size(f)
            t._size = (off + al - 1) // al * al
            t._align = al
        elif k == 'opaque':
            t._size = 0
            t._align = 1
        else:
            raise Exception('layout of ' + k)

    def bits(self, t):
        if t.k in ('i', 'float', 'double', 'half', 'ptr'):
            return t.n
        if t.k == 'vec':
            return t.n * self.bits(t.e)
        return 8 * self.size(t)

    @property
    def arm32(self):
        return self.ptrbits == 32

    # ---- module scan -----------------------------------------------------
    def scan(self, text):
        lines = text.split('\n')
        n = len(lines)
        i = 0
        # first pass: triple
        for l in lines[:20]:
            if l.startswith('target triple'):
                self.triple = l.split('"')[1]
                if self.triple.startswith('arm') or self.triple.startswith('thumb'):
                    self.ptrbits = 32
                    self.PTR = Ty('ptr', 32)
        while i < n:
            l = lines[i]
            if not l or l[0] == ';' or l[0] == '!':
                i += 1
                continue
            c = l[0]
            if c == '%':
                m = re.match(r'(%(?:"[^"]*"|[-\w$.]+)) = type (.*)$', l)
                if m:
                    self.types[m.group(1)] = m.group(2)
            elif c == '@':
                self.global_line(l)
            elif l.startswith('define'):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = Function(self, l, lines[i + 1:j])
                self.funcs[f.name] = f
                i = j
            elif l.startswith('declare'):
                m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', l)
                self.decls[m.group(1)] = l
            i += 1

    def global_line(self, l):
        m = re.match(r'(@(?:"[^"]*"|[-\w$.]+)) = (.*)$', l)
        name, rest = m.group(1), m.group(2)
        toks = TOK.findall(rest)
        if 'alias' in toks[:8]:
            self.aliases[name] = [t for t in toks if t.startswith('@')][-1]
            return
        k = 0
        ext = False
        tls = False
        while toks[k] not in ('global', 'constant'):
            if toks[k] in ('external', 'extern_weak'):
                ext = True
            k += 1
        const = toks[k] == 'constant'
        p = P(self, toks, k + 1)
        ty = p.type()
        al = None
        m2 = re.search(r', align (\d+)', rest)
        if m2:
            al = int(m2.group(1))
        self.globals[name] = (ty, None if ext else toks[p.i:], const, al)


class P(object):
    """token cursor"""

    def __init__(self, mod, toks, i=0):
        self.m = mod
        self.t = toks
        self.i = i

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def expect(self, s):
        x = self.t[self.i]
        if x != s:
            raise Exception('expected %r got %r in %r' % (s, x, ' '.join(self.t[max(0, self.i - 10):self.i + 10])))
        self.i += 1

    def accept(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def type(self):
        m = self.m
        x = self.next()
        if x[0] == 'i' and x[1:].isdigit():
            t = I(int(x[1:]))
        elif x == 'ptr':
            t = m.PTR
            if self.peek() == 'addrspace':
                self.i += 4
        elif x == 'void':
            t = VOID
        elif x == 'float':
            t = FLOAT
        elif x == 'double':
            t = DOUBLE
        elif x == 'half':
            t = HALF
        elif x in ('x86_fp80', 'fp128', 'metadata', 'label', 'token', 'opaque'):
            t = Ty(x)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = Ty('arr', n, e)
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self.struct(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                key = (n, id(e))
                t = m._vec.get(key)
                if t is None:
                    t = m._vec[key] = Ty('vec', n, e)
        elif x == '{':
            t = self.struct(False)
        elif x[0] == '%':
            v = m.types.get(x)
            if v is None:
                raise Exception('unknown type ' + x)
            if not isinstance(v, Ty):
                q = P(m, TOK.findall(v))
                v = q.type()
                m.types[x] = v
            t = v
        else:
            raise Exception('type? %r in %r' % (x, ' '.join(self.t)))
        # function types: T (args) -- only for calls with explicit fn type
        return t

    def struct(self, packed):
        f = []
        if not self.accept('}'):
            while True:
                f.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return Ty('struct', len(f), None, f, packed)

    ATTRW = set('''noundef nonnull signext zeroext inreg byval sret noalias nocapture readonly readnone
      writeonly returned nest immarg align dereferenceable dereferenceable_or_null noreturn nounwind
      dso_local swiftself inalloca allocalign allocptr preallocated elementtype captures writable
      alignstack dead_on_unwind range nofpclass initializes nofree nosync memory'''.split())

    def attrs(self):
        """skip parameter attributes; returns dict of interesting ones"""
        r = None
        while True:
            x = self.peek()
            if x is None or x not in self.ATTRW:
                return r
            self.i += 1
            if r is None:
                r = {}
            if x == 'align':
                if self.accept('('):
                    r['align'] = int(self.next())
                    self.expect(')')
                else:
                    r['align'] = int(self.next())
            elif self.peek() == '(':
                if x in ('sret', 'byval', 'elementtype'):
                    self.next()
                    r[x] = self.type()
                    self.expect(')')
                else:
                    d = 0
                    while True:
                        y = self.next()
                        if y == '(':
                            d += 1
                        elif y == ')':
                            d -= 1
                            if d == 0:
                                break
            else:
                r[x] = True

    # constants: returns ('c', value) forms — see exec.py resolve
    def value(self, ty):
        """operand of known type -> descriptor:
        ('r', name) local, ('k', const python object), ('g', name) global, ('e', op, ...) const expr"""
        x = self.peek()
        c = x[0]
        if c == '%':
            self.i += 1
            return ('r', x)
        if c == '@':
            self.i += 1
            return ('g', x)
        if x == 'null' or x == 'zeroinitializer':
            self.i += 1
            return ('z', ty)
        if x in ('undef', 'poison'):
            self.i += 1
            return ('u', ty)
        if x == 'true':
            self.i += 1
            return ('k', 1)
        if x == 'false':
            self.i += 1
            return ('k', 0)
        if c == '-' or c.isdigit():
            self.i += 1
            if ty.k == 'i':
                if x.startswith('0x'):
                    return ('k', int(x, 16))
                return ('k', int(x) & ((1 << ty.n) - 1))
            return ('k', parse_float(x, ty))
        if c == '<' or c == '[' or c == '{':
            packed = False
            self.i += 1
            if c == '<' and self.peek() == '{':
                self.i += 1
                packed = True
            close = {'<': '>', '[': ']', '{': '}'}[c]
            if packed:
                close = '}'
            el = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('a', ty, el)
        if c == 'c' and x.startswith('c"'):
            self.i += 1
            return ('s', unescape(x[2:-1]))
        if x == 'getelementptr':
            self.i += 1
            while self.peek() in ('inbounds', 'nuw', 'nusw') or self.peek() == 'inrange':
                if self.next() == 'inrange' and self.peek() == '(':
                    while self.next() != ')':
                        pass
            self.expect('(')
            st = self.type()
            self.expect(',')
            ops = []
            while True:
                self.accept('inrange')
                t = self.type()
                ops.append((t, self.value(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('gep', st, ops)
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.i += 1
            self.expect('(')
            t = self.type()
            v = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', x, t, v, t2)
        if x in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            self.i += 1
            while self.peek() in ('nuw', 'nsw', 'exact'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('bin', x, t, a, b)
        if x in ('dso_local_equivalent', 'no_cfi'):
            self.i += 1
            return self.value(ty)
        if x == 'asm':
            return ('asm',)
        if x == 'none':
            self.i += 1
            return ('k', 0)
        raise Exception('value? %r in %r' % (x, ' '.join(self.t)))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


def parse_float(x, ty):
    import struct
    if x.startswith('0x'):
        h = x[2:]
        if h[0] in 'KLMHR':
            return int(h[1:], 16)
        d = struct.unpack('<d', struct.pack('<Q', int(h, 16)))[0]
        if ty.k == 'double':
            return int(h, 16)
    else:
        d = float(x)
    if ty.k == 'float':
        return struct.unpack('<I', struct.pack('<f', d))[0]
    if ty.k == 'double':
        return struct.unpack('<Q', struct.pack('<d', d))[0]
    raise Exception('float ' + ty.k)


def unescape(s):
    out = bytearray()
    i = 0
    n = len(s)
    while i < n:
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(s[i].encode('utf-8'))
            i += 1
    return bytes(out)


class Function(object):
    def __init__(self, mod, head, body):
        self.mod = mod
        self.head = head
        self.body = body
        m = re.search(r'(@(?:"[^"]*"|[-\w$.]+))\(', head)
        self.name = m.group(1)
        self.hoff = m.end(1)
        self.compiled = None
        self.params = None
        self.ret = None

    def parse_head(self):
        toks = TOK.findall(self.head[self.hoff:])
        p = P(self.mod, toks)
        p.expect('(')
        params = []
        self.vararg = False
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    self.vararg = True
                    p.expect(')')
                    break
                t = p.type()
                a = p.attrs()
                nm = None
                if p.peek() and p.peek()[0] == '%':
                    nm = p.next()
                params.append((t, nm, a))
                if p.accept(')'):
                    break
                p.expect(',')
        # unnamed params get numbers
        k = 0
        out = []
        for t, nm, a in params:
            if nm is None:
                nm = '%%%d' % k
                k += 1
            elif nm[1:].isdigit():
                k = int(nm[1:]) + 1
            out.append((t, nm, a))
        self.params = out
        self.nextnum = k
        return out

    def blocks(self):
        """[(label, [token lists])]"""
        self.parse_head()
        blocks = []
        cur = []
        label = '%%%d' % self.nextnum
        blocks.append((label, cur))
        lines = self.body
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l:
                continue
            if l[0] != ' ':
                m = re.match(r'("[^"]*"|[-\w$.]+):', l)
                if m:
                    lab = '%' + m.group(1)
                    if not cur and len(blocks) == 1:
                        blocks[0] = (lab, cur)
                    else:
                        cur = []
                        blocks.append((lab, cur))
                    continue
            s = l.strip()
            if not s or s[0] == ';':
                continue
            if s.startswith('switch ') and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            cur.append(s)
        return blocks
