"""Symbolic executor for LLVM IR: every IR function is translated to a Python
function over the terms of term.py; control flow is concrete, or forked on
symbolic conditions by replaying decision prefixes (explore())."""
import re
import struct
import sys
from . import term as T
from .term import N
from . import llir
from .llir import Ty, P, TOK

sys.setrecursionlimit(20000)


class Fault(Exception):
    """A property-relevant failure of the executed code (memory error, abort...)."""

    def __init__(self, kind, msg):
        Exception.__init__(self, '%s: %s' % (kind, msg))
        self.kind = kind
        self.msg = msg


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class MergeFail(Exception):
    pass


PG = 12


class Obj(object):
    __slots__ = ('base', 'size', 'data', 'name', 'kind', 'live', 'ro', 'pg', 'npg', 'init', 'tag', 'seq')

    def __repr__(self):
        return '%s[%d]@%x' % (self.name, self.size, self.base)


def f32(x):
    return struct.unpack('<f', struct.pack('<I', x))[0]


def f64(x):
    return struct.unpack('<d', struct.pack('<Q', x))[0]


def b32(x):
    try:
        return struct.unpack('<I', struct.pack('<f', x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def b64(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


class Machine(object):
    def __init__(self, mod, solver=None):
        self.mod = mod
        self.solver = solver
        self.pages = {}
        self.ptrbits = mod.ptrbits
        self.pmask = (1 << mod.ptrbits) - 1
        self.PB = mod.ptrbits // 8
        self.globaddr = {}
        self.addrfunc = {}
        self.funcaddr = {}
        self.heap = 0x20000000 if mod.ptrbits == 32 else 0x100000000
        self.stackp = 0x10000000 if mod.ptrbits == 32 else 0x80000000
        self.stackfree = {}
        self.ncode = 0x1000
        self.F = {}
        self.ext = {}
        self.garb = 0
        self.trace_mem = None
        self.merge = False
        self.merging = 0
        self.lines = 0
        self.nobj = 0
        self.stats = {'functions': set(), 'asm_blocks': 0, 'asm_insns': 0, 'blocks': 0}
        # path state
        self.prefix = []
        self.decisions = []
        self.pc = []
        self.pending_objs = []
        self.asmcache = {}
        self.align_check = True
        self.malloc_init = None
        self.on_atomic = None
        self.steps = 0
        self.max_steps = 50_000_000
        self.heap_objs = []
        self.logs = []
        from . import intrin
        self.intrin = intrin
        intrin.install(self)
        self.ext0 = dict(self.ext)
        self.extF = []
        self.globs = []
        self.heap0 = self.heap
        self.gheap = self.heap
        self.heap = self.heap0 + (1 << 24)

    # ---------------------------------------------------------------- memory
    def newobj(self, size, name, kind='heap', align=16, init=None, off=None):
        if self.merging and kind != 'global':
            raise MergeFail()
        o = Obj()
        o.size = size
        o.name = name
        o.kind = kind
        o.live = True
        o.ro = False
        o.seq = self.nobj = self.nobj + 1
        if kind == 'stack':
            npg = ((size + 64 + align) >> PG) + 1
            fl = self.stackfree.get(npg)
            if fl:
                pg = fl.pop()
            else:
                pg = self.stackp
                self.stackp += (npg + 1) << PG
        else:
            npg = ((size + 64 + 2 * align) >> PG) + 1
            pg = self.heap
            self.heap += (npg + 1) << PG
        # aligned to exactly `align`, not to the next power of two
        if off is None:
            base = pg + (align if align < 4096 else 0)
            if align >= 4096:
                base = (pg + align - 1) // align * align
                self.heap = max(self.heap, base + size + 8192) >> PG << PG
        else:
            base = pg + off
        o.base = base
        o.pg = pg
        o.npg = npg
        o.data = [None] * size if init is None else init
        pages = self.pages
        for k in range(base >> PG, ((base + max(size, 1) - 1) >> PG) + 1):
            pages[k] = o
        return o

    def freeobj(self, o):
        if self.merging:
            raise MergeFail()
        o.live = False
        if o.kind == 'stack':
            self.stackfree.setdefault(o.npg, []).append(o.pg)
            for k in range(o.base >> PG, ((o.base + max(o.size, 1) - 1) >> PG) + 1):
                self.pages.pop(k, None)

    def find(self, addr, n, what):
        if addr.__class__ is N:
            if addr.lo == addr.hi:
                addr = addr.lo
            else:
                addr = self.concretize(addr)
        addr &= self.pmask
        o = self.pages.get(addr >> PG)
        if o is None:
            raise Fault('memory', '%s of %d bytes at wild address 0x%x' % (what, n, addr))
        off = addr - o.base
        if off < 0 or off + n > o.size:
            raise Fault('memory', '%s of %d bytes outside %s (offset %d of %d)' % (what, n, o.name, off, o.size))
        if not o.live:
            raise Fault('memory', '%s of %d bytes in freed %s' % (what, n, o.name))
        return o, off

    def concretize(self, n):
        raise Unsupported('symbolic address %r' % (n,))

    def garbage(self, o, i):
        self.garb += 1
        v = T.var('garbage_%s_%d' % (o.name, i), 8)
        o.data[i] = v
        return v

    def ld(self, addr, n):
        try:
            o = self.pages[addr >> PG]
            off = addr - o.base
            if off < 0 or off + n > o.size or not o.live:
                raise KeyError
        except (KeyError, TypeError):
            o, off = self.find(addr, n, 'read')
        if self.trace_mem is not None:
            self.trace_mem(0, o, off, n)
        d = o.data
        c = d[off]
        if n == 1:
            if c.__class__ is int or c.__class__ is N:
                return c
            if c is None:
                return self.garbage(o, off)
            return T.extract(c[0], 8 * c[2], 8)
        if c.__class__ is tuple:
            v = c[0]
            if c[2] == 0 and c[1] == n:
                for i in range(1, n):
                    x = d[off + i]
                    if x.__class__ is not tuple or x[0] is not v or x[2] != i:
                        break
                else:
                    return v
        else:
            try:
                return int.from_bytes(bytes(d[off:off + n]), 'little')
            except TypeError:
                pass
        return self.gather(o, off, n)

    def gather(self, o, off, n):
        d = o.data
        parts = []
        i = 0
        while i < n:
            x = d[off + i]
            if x.__class__ is int:
                parts.append((x, 8))
                i += 1
            elif x.__class__ is N:
                parts.append((T.uns(x, 8), 8))
                i += 1
            elif x is None:
                parts.append((self.garbage(o, off + i), 8))
                i += 1
            else:
                v, vn, idx = x
                k = 1
                while i + k < n and idx + k < vn:
                    y = d[off + i + k]
                    if y.__class__ is tuple and y[0] is v and y[2] == idx + k:
                        k += 1
                    else:
                        break
                parts.append((T.extract(v, 8 * idx, 8 * k), 8 * k))
                i += k
        return T.cat(parts)

    def st(self, addr, v, n):
        try:
            o = self.pages[addr >> PG]
            off = addr - o.base
            if off < 0 or off + n > o.size or not o.live:
                raise KeyError
        except (KeyError, TypeError):
            o, off = self.find(addr, n, 'write')
        if o.ro:
            raise Fault('memory', 'write to read-only %s' % o.name)
        if self.trace_mem is not None:
            self.trace_mem(1, o, off, n)
        if v.__class__ is int:
            if n == 1:
                o.data[off] = v
            else:
                o.data[off:off + n] = v.to_bytes(n, 'little')
        elif n == 1:
            o.data[off] = T.trunc(v, 8)
        elif v.__class__ is N and v.op == 'cat':
            pos = 0
            for p, w in v.args[0]:
                if w & 7:
                    break
            else:
                for p, w in v.args[0]:
                    k = min(w // 8, n - pos)
                    if k <= 0:
                        break
                    if p.__class__ is int:
                        o.data[off + pos:off + pos + k] = (p & ((1 << 8 * k) - 1)).to_bytes(k, 'little')
                    elif w == 8:
                        o.data[off + pos] = p
                    else:
                        o.data[off + pos:off + pos + k] = [(p, w // 8, i) for i in range(k)]
                    pos += k
                if pos < n:
                    o.data[off + pos:off + n] = [0] * (n - pos)
                return
            o.data[off:off + n] = [(v, n, i) for i in range(n)]
        else:
            o.data[off:off + n] = [(v, n, i) for i in range(n)]

    def ldv(self, addr, cnt, n):
        """vector load: cnt lanes of n bytes."""
        addr &= self.pmask
        o = self.pages.get(addr >> PG)
        if o is None or not o.live or addr < o.base or addr - o.base + cnt * n > o.size:
            o, off = self.find(addr, cnt * n, 'read')
        ld = self.ld
        return [ld(addr + i * n, n) for i in range(cnt)]

    def stv(self, addr, vals, n):
        o, off = self.find(addr, len(vals) * n, 'write')
        st = self.st
        addr &= self.pmask
        for i, v in enumerate(vals):
            st(addr + i * n, v, n)

    def chkalign(self, addr, a):
        if addr.__class__ is int and addr % a:
            raise Fault('memory', 'misaligned %d-byte-aligned vector access at 0x%x' % (a, addr))

    def memcpy(self, d, s, n):
        if n.__class__ is N:
            raise Unsupported('symbolic memcpy length')
        if n == 0:
            return
        so, soff = self.find(s, n, 'read')
        do, doff = self.find(d, n, 'write')
        if self.trace_mem is not None:
            self.trace_mem(0, so, soff, n)
            self.trace_mem(1, do, doff, n)
        if do.ro:
            raise Fault('memory', 'write to read-only %s' % do.name)
        do.data[doff:doff + n] = so.data[soff:soff + n]

    def memset(self, d, v, n):
        if n.__class__ is N:
            raise Unsupported('symbolic memset length')
        if n == 0:
            return
        do, doff = self.find(d, n, 'write')
        if do.ro:
            raise Fault('memory', 'write to read-only %s' % do.name)
        if self.trace_mem is not None:
            self.trace_mem(1, do, doff, n)
        if v.__class__ is int:
            v &= 255
        do.data[doff:doff + n] = [v] * n

    def cstr(self, addr):
        out = bytearray()
        while True:
            c = self.ld(addr, 1)
            if c.__class__ is not int or c == 0:
                break
            out.append(c)
            addr += 1
        return out.decode('latin1')

    # --------------------------------------------------------------- globals
    def gaddr(self, name):
        a = self.globaddr.get(name)
        if a is not None:
            return a
        mod = self.mod
        if name in mod.aliases:
            return self.gaddr(mod.aliases[name])
        if name in mod.funcs or name in mod.decls:
            a = self.ncode
            self.ncode += 16
            self.globaddr[name] = a
            self.addrfunc[a] = name
            return a
        g = mod.globals.get(name)
        if g is None:
            raise Unsupported('global ' + name)
        ty, init, const, al = g
        size = mod.size(ty)
        sv, self.heap = self.heap, self.gheap
        o = self.newobj(size, name, 'global', max(al or 16, 1))
        self.gheap, self.heap = self.heap, sv
        self.globs.append(o)
        self.globaddr[name] = o.base
        if init is not None:
            p = P(mod, init)
            self.initmem(o, 0, ty, p.value(ty))
        else:
            # external data (e.g. vtables of libstdc++): zero
            o.data = [0] * size
        o.init = list(o.data)
        return o.base

    def initmem(self, o, off, ty, v):
        mod = self.mod
        k = v[0]
        if k == 'z':
            n = mod.size(ty)
            o.data[off:off + n] = [0] * n
        elif k == 'u':
            pass
        elif k == 's':
            o.data[off:off + len(v[1])] = list(v[1])
        elif k == 'a':
            if ty.k == 'struct':
                mod.size(ty)
                for i, (t, e) in enumerate(v[2]):
                    self.initmem(o, off + ty.offs[i], t, e)
                # padding defined as zero
                for i in range(off, off + mod.size(ty)):
                    if o.data[i] is None:
                        o.data[i] = 0
            else:
                es = mod.size(ty.e)
                for i, (t, e) in enumerate(v[2]):
                    self.initmem(o, off + i * es, t, e)
        else:
            val = self.const(ty, v)
            n = mod.size(ty)
            o.data[off:off + n] = list((val & ((1 << 8 * n) - 1)).to_bytes(n, 'little'))

    def const(self, ty, v):
        """evaluate a constant descriptor to a runtime value."""
        k = v[0]
        if k == 'k':
            return v[1]
        if k == 'g':
            return self.gaddr(v[1])
        if k == 'z':
            return self.zero(ty)
        if k == 'u':
            return self.undef(ty)
        if k == 'a':
            return [self.const(t, e) for t, e in v[2]]
        if k == 's':
            return list(v[1])
        if k == 'gep':
            return self.gepconst(v[1], v[2])
        if k == 'cast':
            _, op, t, a, t2 = v
            x = self.const(t, a)
            if op in ('ptrtoint', 'inttoptr', 'trunc', 'zext', 'bitcast'):
                return x & ((1 << self.mod.bits(t2)) - 1) if x.__class__ is int else x
            if op == 'sext':
                return T.sgn(x, t.n) & ((1 << t2.n) - 1)
        if k == 'bin':
            _, op, t, a, b = v
            x, y = self.const(t, a), self.const(t, b)
            m = (1 << t.n) - 1
            if op == 'add':
                return (x + y) & m
            if op == 'sub':
                return (x - y) & m
            if op == 'mul':
                return (x * y) & m
            if op == 'and':
                return x & y
            if op == 'or':
                return x | y
            if op == 'xor':
                return x ^ y
            if op == 'shl':
                return (x << y) & m
            if op == 'lshr':
                return x >> y
        raise Unsupported('constant %r' % (v,))

    def gepconst(self, st, ops):
        addr = self.const(*ops[0])
        t = st
        first = True
        for ty, v in ops[1:]:
            i = T.sgn(self.const(ty, v), ty.n)
            if first:
                addr += i * self.mod.size(t)
                first = False
            elif t.k == 'struct':
                self.mod.size(t)
                addr += t.offs[i]
                t = t.fields[i]
            else:
                addr += i * self.mod.size(t.e)
                t = t.e
        return addr & self.pmask

    def zero(self, ty):
        if ty.k == 'vec' or ty.k == 'arr':
            return [self.zero(ty.e) for _ in range(ty.n)]
        if ty.k == 'struct':
            return [self.zero(f) for f in ty.fields]
        return 0

    def undef(self, ty):
        if ty.k == 'vec' or ty.k == 'arr':
            return [self.undef(ty.e)] * ty.n
        if ty.k == 'struct':
            return [self.undef(f) for f in ty.fields]
        if ty.k == 'ptr':
            return 0
        w = self.mod.bits(ty)
        return T.var('undef%d' % w, w)

    # ------------------------------------------------------------- decisions
    def decide(self, c):
        """branch on a symbolic boolean."""
        if c.__class__ is int:
            return c & 1
        c = T.uns(c, 1)
        if c.__class__ is int:
            return c
        neg = c.op == 'not'
        key = c.args[0] if neg else c
        # already decided on this path?
        for k, pol in self.pc:
            if k is key:
                return pol ^ neg
        nc = T.bnot(key)
        for k, pol in self.pc:
            if k is nc:
                return (1 - pol) ^ neg
        i = len(self.decisions)
        if i < len(self.prefix):
            pol = self.prefix[i]
            self.decisions.append(pol)
            self.pc.append((key, pol))
            return pol ^ neg
        ft = self.solver.feasible(self.pc, (key, 1))
        ff = self.solver.feasible(self.pc, (key, 0)) if ft else True
        if ft and ff and self.merging:
            raise MergeFail()
        if ft and ff:
            pol = 1
            self.todo.append(self.decisions + [0])
            self.decisions.append(1)
            self.pc.append((key, 1))
        elif ft:
            pol = 1
            self.decisions.append(1)
            self.pc.append((key, 1))
        else:
            pol = 0
            self.decisions.append(0)
            self.pc.append((key, 0))
        return pol ^ neg

    # -------------------------------------------- merging of the two sides of a branch
    def mbegin(self, c):
        """start executing the side where c holds; None when the branch is not to be merged."""
        if not self.merge:
            return None
        c = T.uns(c, 1)
        if c.__class__ is int:
            return None
        neg = c.op == 'not'
        key = c.args[0] if neg else c
        for k, pol in self.pc:
            if k is key:
                return None
        old = self.trace_mem
        snap = {}

        def tr(w, o, off, n):
            if w and id(o) not in snap:
                snap[id(o)] = (o, list(o.data))
            if old is not None:
                old(w, o, off, n)
        mg = [c, key, neg, old, snap, len(self.pc), len(self.decisions), None, len(self.logs), len(self.todo) if hasattr(self, 'todo') else 0]
        self.trace_mem = tr
        self.merging += 1
        self.pc.append((key, 1 ^ neg))
        return mg

    def mhalf(self, mg):
        snap = mg[4]
        if len(self.logs) != mg[8] or len(self.decisions) != mg[6]:
            raise MergeFail()
        mg[7] = {k: o.data for k, (o, d) in snap.items()}
        for k, (o, d) in snap.items():
            o.data = list(d)
        del self.pc[mg[5]:]
        self.pc.append((mg[1], mg[2]))

    def mend(self, mg):
        c, first, snap = mg[0], mg[7], mg[4]
        if len(self.logs) != mg[8] or len(self.decisions) != mg[6]:
            raise MergeFail()
        self.trace_mem = mg[3]
        for k, (o, d0) in snap.items():
            d2 = o.data
            d1 = first.get(k, d0)
            n = len(d2)
            i = 0
            res = list(d2)
            while i < n:
                a, b = d1[i], d2[i]
                if a is b or (a.__class__ is not N and b.__class__ is not N and a == b):
                    i += 1
                    continue
                w = 1
                for x in (a, b):
                    if x.__class__ is tuple and x[2] == 0:
                        w = max(w, x[1])
                w = min(w, n - i)
                o.data = d1
                v1 = self.gather(o, i, w)
                o.data = d2
                v2 = self.gather(o, i, w)
                v = T.ite(c, T.uns(v1, 8 * w), T.uns(v2, 8 * w))
                if v.__class__ is int:
                    res[i:i + w] = v.to_bytes(w, 'little')
                elif w == 1:
                    res[i] = v
                else:
                    res[i:i + w] = [(v, w, j) for j in range(w)]
                i += w
            o.data = res
        del self.pc[mg[5]:]
        self.merging -= 1

    def mabort(self, mg):
        for k, (o, d) in mg[4].items():
            o.data = d
        self.trace_mem = mg[3]
        del self.pc[mg[5]:]
        del self.decisions[mg[6]:]
        del self.logs[mg[8]:]
        self.merging -= 1

    def switchval(self, v, w, cases):
        if v.__class__ is int:
            return v
        for c in cases:
            if self.decide(T.eq(v, c, w)):
                return c
        return None

    def assume(self, c):
        if c.__class__ is int:
            if not c & 1:
                raise PathEnd()
            return
        c = T.uns(c, 1)
        if c.__class__ is int:
            return self.assume(c)
        if c.op == 'not':
            self.pc.append((c.args[0], 0))
        else:
            self.pc.append((c, 1))

    # ----------------------------------------------------------------- calls
    def call(self, name, args):
        f = self.F.get(name)
        if f is None:
            f = self.getfunc(name)
        return f(*args)

    def getfunc(self, name):
        f = self.F.get(name)
        if f is not None:
            return f
        mod = self.mod
        n = name
        if n in mod.aliases:
            n = mod.aliases[n]
        bare = n[1:].strip('"')
        e = self.ext.get(bare)
        if e is not None:
            f = e
            self.extF.append(name)
        elif n in mod.funcs:
            fn = mod.funcs[n]
            f = CodeGen(self, fn).compile()
            self.stats['functions'].add(bare)
        else:
            raise Unsupported('external function ' + bare)
        self.F[name] = f
        return f

    def icall(self, addr, args):
        if addr.__class__ is N:
            raise Unsupported('symbolic call target')
        name = self.addrfunc.get(addr)
        if name is None:
            raise Fault('memory', 'call through bad function pointer 0x%x' % addr)
        return self.call(name, args)

    def reset(self):
        """back to the initial state, keeping the compiled functions."""
        for k in [k for k, o in self.pages.items() if o.kind != 'global']:
            del self.pages[k]
        for o in self.globs:
            o.data = list(o.init)
            o.live = True
        for n in self.extF:
            self.F.pop(n, None)
        self.extF = []
        self.ext = dict(self.ext0)
        self.stackfree = {}
        self.stackp = 0x10000000 if self.ptrbits == 32 else 0x80000000
        # addresses must not depend on what ran before: restart the heap above the globals
        self.heap = self.heap0 + (1 << 24)
        self.garb = 0
        self.trace_mem = None
        self.merge = False
        self.merging = 0
        self.prefix = []
        self.decisions = []
        self.pc = []
        self.align_check = True
        self.malloc_init = None
        self.on_atomic = None
        self.steps = 0
        self.heap_objs = []
        self.logs = []
        self.stats = {'functions': set(), 'asm_blocks': 0, 'asm_insns': 0, 'blocks': 0}
        for n in self.F:
            self.stats['functions'].add(n[1:].strip('"'))


# -------------------------------------------------------------------- codegen
def sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def op_add(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a + b) & T._M[w]
        a = sg(a, w)
    elif b.__class__ is int:
        b = sg(b, w)
    return norm(T.add(a, b), w)


def norm(v, w):
    """canonical if concrete"""
    if v.__class__ is int:
        return v & T._M[w]
    return v


def op_sub(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a - b) & T._M[w]
        a = sg(a, w)
    elif b.__class__ is int:
        b = sg(b, w)
    return norm(T.sub(a, b), w)


def op_mul(a, b, w):
    if a.__class__ is int:
        if b.__class__ is int:
            return (a * b) & T._M[w]
        a = sg(a, w)
    elif b.__class__ is int:
        b = sg(b, w)
    if w == 1:
        return T.bitop('and', a, b, 1)
    return norm(T.mul(a, b), w)


def op_and(a, b, w):
    return norm(T.bitop('and', a, b, w), w)


def op_or(a, b, w):
    return norm(T.bitop('or', a, b, w), w)


def op_xor(a, b, w):
    return norm(T.bitop('xor', a, b, w), w)


def op_shl(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return T.var('undef%d' % w, w)
        if a.__class__ is int:
            return (a << b) & T._M[w]
        return T.mul(a, 1 << b)
    return T.shiftv('shl', a, b, w)


def op_lshr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return T.var('undef%d' % w, w)
        if a.__class__ is int:
            return a >> b
        return T.shr(T.uns(a, w), b)
    return T.shiftv('lshr', a, b, w)


def op_ashr(a, b, w):
    if b.__class__ is int:
        if b >= w:
            return T.var('undef%d' % w, w)
        if a.__class__ is int:
            return (sg(a, w) >> b) & T._M[w]
        return norm(T.shr(T.sgn(a, w), b), w)
    return T.shiftv('ashr', a, b, w)


def op_udiv(a, b, w):
    return divx('udiv', T.uns(a, w), T.uns(b, w), w)


def op_urem(a, b, w):
    return divx('urem', T.uns(a, w), T.uns(b, w), w)


def op_sdiv(a, b, w):
    return divx('sdiv', T.sgn(a, w), T.sgn(b, w), w)


def op_srem(a, b, w):
    return divx('srem', T.sgn(a, w), T.sgn(b, w), w)


CUR = [None]


def divx(op, a, b, w):
    if b.__class__ is int:
        if b == 0:
            raise Fault('arith', 'division by zero')
    elif b.lo <= 0 <= b.hi:
        m = CUR[0]
        if m.decide(T.eq(b, 0, w)):
            raise Fault('arith', 'division by zero')
    return norm(T.divop(op, a, b, w), w)


BIN = {'add': op_add, 'sub': op_sub, 'mul': op_mul, 'and': op_and, 'or': op_or, 'xor': op_xor,
       'shl': op_shl, 'lshr': op_lshr, 'ashr': op_ashr, 'udiv': op_udiv, 'sdiv': op_sdiv,
       'urem': op_urem, 'srem': op_srem}


def icmp(p, a, b, w):
    if p == 'eq':
        return T.eq(a, b, w)
    if p == 'ne':
        return T.bnot(T.eq(a, b, w))
    if p[0] == 'u':
        a, b = T.uns(a, w), T.uns(b, w)
    else:
        a, b = T.sgn(a, w), T.sgn(b, w)
    q = p[1:]
    if q == 'lt':
        return T.lt(a, b)
    if q == 'le':
        return T.le(a, b)
    if q == 'gt':
        return T.lt(b, a)
    return T.le(b, a)


def sel(c, a, b):
    if c.__class__ is int:
        return a if c & 1 else b
    c = T.uns(c, 1)
    if c.__class__ is int:
        return a if c & 1 else b
    if a.__class__ is list:
        return [sel(c, x, y) for x, y in zip(a, b)]
    return T.ite(c, a, b)


def msel(c, a, b, ptr):
    if a is b or (a.__class__ is int and b.__class__ is int and a == b):
        return a
    if ptr or a is None or b is None:
        raise MergeFail()
    return sel(c, a, b)


def selv(c, a, b):
    return [sel(x, y, z) for x, y, z in zip(c, a, b)]


def zext(v, w):
    return T.uns(v, w)


def sext(v, w, w2):
    if v.__class__ is int:
        return sg(v & T._M[w], w) & T._M[w2]
    return T.sgn(v, w)


def fbin(op, a, b, w):
    if a.__class__ is int and b.__class__ is int:
        x, y = (f32(a), f32(b)) if w == 32 else (f64(a), f64(b))
        try:
            if op == 'fadd':
                r = x + y
            elif op == 'fsub':
                r = x - y
            elif op == 'fmul':
                r = x * y
            elif op == 'fdiv':
                if y == 0:
                    r = float('nan') if x == 0 or x != x else float('inf') * (1 if (x > 0) == (struct.pack('<d', y)[7] < 128) else -1)
                else:
                    r = x / y
            elif op == 'frem':
                import math
                r = math.fmod(x, y)
            else:
                raise Unsupported(op)
        except OverflowError:
            r = float('inf')
        return b32(r) if w == 32 else b64(r)
    return T.uf(op + str(w), ((a, w), (b, w)), w)


def fcmp(p, a, b, w):
    if p == 'true':
        return 1
    if p == 'false':
        return 0
    if a.__class__ is int and b.__class__ is int:
        x, y = (f32(a), f32(b)) if w == 32 else (f64(a), f64(b))
        un = x != x or y != y
        if p == 'ord':
            return 0 if un else 1
        if p == 'uno':
            return 1 if un else 0
        if un:
            return 1 if p[0] == 'u' else 0
        q = p[1:]
        r = {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[q]
        return 1 if r else 0
    return T.uf('fcmp_%s%d' % (p, w), ((a, w), (b, w)), 1)


def sitofp(v, w, fw, signed):
    if v.__class__ is int:
        x = float(sg(v, w) if signed else v)
        return b32(x) if fw == 32 else b64(x)
    v = T.sgn(v, w) if signed else T.uns(v, w)
    return T.uf('sitofp%d' % fw, ((v, w + 1),), fw)


def fptosi(v, fw, w, signed):
    if v.__class__ is int:
        x = f32(v) if fw == 32 else f64(v)
        if x != x or abs(x) >= 2.0 ** 70:
            return T.var('undef%d' % w, w)
        return int(x) & T._M[w]
    return T.uf('fpto%s%d_%d' % ('si' if signed else 'ui', fw, w), ((v, fw),), w)


def fpext(v):
    if v.__class__ is int:
        return b64(f32(v))
    return T.uf('fpext', ((v, 32),), 64)


def fptrunc(v):
    if v.__class__ is int:
        return b32(f64(v))
    return T.uf('fptrunc', ((v, 64),), 32)


def ufconc(name, args, w):
    """concrete value of a floating-point operation."""
    m = re.match(r'^(f(?:add|sub|mul|div))(32|64)$', name)
    if m:
        return fbin(m.group(1), args[0] & T._M[w], args[1] & T._M[w], w)
    if name.startswith('sitofp'):
        return b32(float(args[0])) if w == 32 else b64(float(args[0]))
    m = re.match(r'^fpto[su]i(32|64)_(\d+)$', name)
    if m:
        r = fptosi(args[0], int(m.group(1)), w, True)
        return r if r.__class__ is int else 0
    m = re.match(r'^fcmp_(\w\w\w?)(32|64)$', name)
    if m:
        return fcmp(m.group(1), args[0], args[1], int(m.group(2)))
    if name == 'fpext':
        return fpext(args[0])
    if name == 'fptrunc':
        return fptrunc(args[0])
    raise Unsupported('concrete ' + name)


def fneg(v, w):
    return norm(T.bitop('xor', v, 1 << (w - 1), w), w)


def bitcast(v, n1, w1, n2, w2):
    """lanes n1 x w1 bits -> n2 x w2 bits; n == 0 means scalar."""
    if n1 == 0:
        v = [v]
    if w1 == w2:
        return v if n2 else v[0]
    if w1 > w2:
        k = w1 // w2
        out = []
        for x in v:
            if x.__class__ is int:
                m = T._M[w2]
                for i in range(k):
                    out.append((x >> (i * w2)) & m)
            else:
                for i in range(k):
                    out.append(T.extract(x, i * w2, w2))
    else:
        k = w2 // w1
        out = []
        for i in range(0, len(v), k):
            out.append(T.cat([(x, w1) for x in v[i:i + k]]))
    return out if n2 else out[0]


class CodeGen(object):
    def __init__(self, m, fn):
        self.m = m
        self.fn = fn
        self.mod = m.mod
        self.names = {}
        self.consts = {}
        self.env = {}
        self.nc = 0

    def reg(self, name):
        r = self.names.get(name)
        if r is None:
            r = self.names[name] = 'v%d' % len(self.names)
        return r

    def k(self, obj):
        n = 'K%d' % self.nc
        self.nc += 1
        self.env[n] = obj
        return n

    def opnd(self, ty, v):
        if v[0] == 'r':
            return self.reg(v[1]), False
        c = self.m.const(ty, v)
        if c.__class__ is int:
            return repr(c), True
        return self.k(c), True

    def compile(self):
        fn = self.fn
        blocks = fn.blocks()
        self.labels = dict((lab, i) for i, (lab, _) in enumerate(blocks))
        # parse phis first
        self.phis = []
        insts = []
        for lab, lines in blocks:
            ph = []
            rest = []
            for s in lines:
                if ' = phi ' in s:
                    ph.append(self.parse_phi(s))
                else:
                    rest.append(s)
            self.phis.append(ph)
            insts.append(rest)
        self.has_alloca = any(' = alloca ' in s for r in insts for s in r)
        self.insts = insts
        self.mcount = self.mdepth = 0
        self.minit = set()
        self.postdoms(insts)
        bodies = []
        for bi, rest in enumerate(insts):
            self.cur = bi
            out = []
            for s in rest:
                self.inst(s, out)
            bodies.append(out)
        params = [self.reg(nm) for _, nm, _ in fn.params]
        src = ['def fn(%s):' % ', '.join(params + (['*va'] if fn.vararg else []))]
        ind = ' '
        if self.has_alloca:
            src.append(' SA = []')
            src.append(' try:')
            ind = '  '
        # byval params need a copy
        for t, nm, a in fn.params:
            if a and 'byval' in a:
                r = self.reg(nm)
                sz = self.mod.size(a['byval'])
                src.append(ind + '%s = byval(%s, %d)' % (r, r, sz))
        for q in sorted(self.minit - set(params)):
            src.append(ind + q + ' = None')
        if len(bodies) == 1:
            for l in bodies[0]:
                src.append(ind + l)
        else:
            src.append(ind + 'b = 0')
            src.append(ind + 'while 1:')
            self.tree(src, bodies, 0, len(bodies), ind + ' ')
        if self.has_alloca:
            src.append(' finally:')
            src.append('  for o in SA: freeobj(o)')
        text = '\n'.join(src)
        env = self.env
        m = self.m
        env.update(dict(m=m, ld=m.ld, st=m.st, ldv=m.ldv, stv=m.stv, op_add=op_add, op_sub=op_sub, op_mul=op_mul,
                        op_and=op_and, op_or=op_or, op_xor=op_xor, op_shl=op_shl, op_lshr=op_lshr,
                        op_ashr=op_ashr, op_udiv=op_udiv, op_sdiv=op_sdiv, op_urem=op_urem, op_srem=op_srem,
                        icmp=icmp, sel=sel, selv=selv, zext=zext, sext=sext, T=T, fbin=fbin, fcmp=fcmp, decide=m.decide,
                        freeobj=m.freeobj, newobj=m.newobj, call=m.call, F=m.F, getfunc=m.getfunc,
                        icall=m.icall, bitcast=bitcast, sitofp=sitofp, fptosi=fptosi, fpext=fpext,
                        fptrunc=fptrunc, fneg=fneg, Fault=Fault, gepidx=gepidx, chkalign=m.chkalign,
                        byval=self.byval, mbegin=m.mbegin, mhalf=m.mhalf, mend=m.mend, mabort=m.mabort, msel=msel,
                        MergeFail=MergeFail, Unsupported=Unsupported, trunc=T.trunc, PM=m.pmask, switchval=m.switchval, step=self.stepfn))
        try:
            code = compile(text, fn.name, 'exec')
        except (SyntaxError, RecursionError, MemoryError) as e:
            raise Unsupported('codegen %s: %s' % (fn.name, e))
        exec(code, env)
        fn.src = text
        return env['fn']

    def stepfn(self):
        m = self.m
        m.steps += 1
        if m.steps > m.max_steps:
            raise Unsupported('step budget exceeded (loop bound)')

    def byval(self, a, sz):
        m = self.m
        o = m.newobj(sz, 'byval', 'heap')
        m.memcpy(o.base, a, sz)
        return o.base

    def tree(self, src, bodies, lo, hi, ind):
        if hi - lo == 1:
            for l in bodies[lo]:
                src.append(ind + l)
            return
        if hi - lo <= 3:
            for i in range(lo, hi):
                src.append('%s%s b == %d:' % (ind, 'if' if i == lo else 'elif', i))
                for l in bodies[i]:
                    src.append(ind + ' ' + l)
            return
        mid = (lo + hi) // 2
        src.append('%sif b < %d:' % (ind, mid))
        self.tree(src, bodies, lo, mid, ind + ' ')
        src.append('%selse:' % ind)
        self.tree(src, bodies, mid, hi, ind + ' ')

    def parse_phi(self, s):
        name, rest = s.split(' = phi ', 1)
        p = P(self.mod, TOK.findall(rest))
        while p.peek() in ('fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'):
            p.next()
        ty = p.type()
        inc = {}
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            lab = p.next()
            p.expect(']')
            inc[lab] = v
            if not p.accept(','):
                break
        return (name, ty, inc)

    def goto(self, lab, out, ind=''):
        t = self.labels[lab]
        curlab = self.curlab()
        dst, srcs = [], []
        for name, ty, inc in self.phis[t]:
            o, _ = self.opnd(ty, inc[curlab])
            d = self.reg(name)
            if d != o:
                dst.append(d)
                srcs.append(o)
        if dst:
            out.append('%s%s = %s' % (ind, ', '.join(dst), ', '.join(srcs)))
        if t <= self.cur:
            out.append(ind + 'step()')
        out.append('%sb = %d' % (ind, t))

    def curlab(self):
        for l, i in self.labels.items():
            if i == self.cur:
                return l

    FLAGS = {'nuw', 'nsw', 'exact', 'disjoint', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn',
             'reassoc', 'nneg', 'inbounds', 'samesign', 'nusw'}

    def inst(self, s, out):
        dest = None
        toks = TOK.findall(s)
        p = P(self.mod, toks)
        if toks[0][0] == '%' and toks[1] == '=':
            dest = self.reg(toks[0])
            p.i = 2
        op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()
        h = getattr(self, 'i_' + op, None)
        if h is not None:
            h(p, dest, out, s)
            return
        if op in BIN:
            self.i_bin(op, p, dest, out)
            return
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            while p.peek() in self.FLAGS:
                p.next()
            ty = p.type()
            a, _ = self.opnd(ty, p.value(ty))
            p.expect(',')
            b, _ = self.opnd(ty, p.value(ty))
            if ty.k == 'vec':
                out.append('%s = [fbin(%r, x, y, %d) for x, y in zip(%s, %s)]' % (dest, op, ty.e.n, a, b))
            else:
                out.append('%s = fbin(%r, %s, %s, %d)' % (dest, op, a, b, ty.n))
            return
        raise Unsupported('instruction ' + s[:100])

    def i_bin(self, op, p, dest, out):
        flags = set()
        while p.peek() in self.FLAGS:
            flags.add(p.next())
        ty = p.type()
        a, ac = self.opnd(ty, p.value(ty))
        p.expect(',')
        b, bc = self.opnd(ty, p.value(ty))
        if op == 'or' and 'disjoint' in flags:
            op = 'add'
        if ty.k == 'vec':
            w = ty.e.n
            out.append('%s = [op_%s(x, y, %d) for x, y in zip(%s, %s)]' % (dest, op, w, a, b))
            return
        w = ty.n
        M = (1 << w) - 1
        fast = None
        if op in ('add', 'sub', 'mul'):
            fast = '(%s %s %s) & %d' % (a, {'add': '+', 'sub': '-', 'mul': '*'}[op], b, M)
        elif op in ('and', 'or', 'xor'):
            fast = '%s %s %s' % (a, {'and': '&', 'or': '|', 'xor': '^'}[op], b)
        elif op == 'shl' and bc and int(b) < w:
            fast = '(%s << %s) & %d' % (a, b, M)
        elif op == 'lshr' and bc and int(b) < w:
            fast = '%s >> %s' % (a, b)
        slow = 'op_%s(%s, %s, %d)' % (op, a, b, w)
        if fast:
            conds = ['%s.__class__ is int' % x for x, c in ((a, ac), (b, bc)) if not c]
            if conds:
                out.append('%s = %s if %s else %s' % (dest, fast, ' and '.join(conds), slow))
                return
        out.append('%s = %s' % (dest, slow))

    def i_icmp(self, p, dest, out, s):
        while p.peek() in self.FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a, ac = self.opnd(ty, p.value(ty))
        p.expect(',')
        b, bc = self.opnd(ty, p.value(ty))
        if ty.k == 'vec':
            out.append('%s = [icmp(%r, x, y, %d) for x, y in zip(%s, %s)]' % (dest, pred, ty.e.n, a, b))
            return
        w = ty.n
        conds = ['%s.__class__ is int' % x for x, c in ((a, ac), (b, bc)) if not c]
        o = {'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred if pred in ('eq', 'ne') else pred[1:]]
        if pred[0] == 's':
            H = 1 << (w - 1)
            fa = str(int(a) ^ H) if ac else '(%s ^ %d)' % (a, H)
            fb = str(int(b) ^ H) if bc else '(%s ^ %d)' % (b, H)
        else:
            fa, fb = a, b
        fast = '(1 if %s %s %s else 0)' % (fa, o, fb)
        slow = 'icmp(%r, %s, %s, %d)' % (pred, a, b, w)
        if conds:
            out.append('%s = %s if %s else %s' % (dest, fast, ' and '.join(conds), slow))
        else:
            out.append('%s = %s' % (dest, slow))

    def i_fcmp(self, p, dest, out, s):
        while p.peek() in self.FLAGS:
            p.next()
        pred = p.next()
        ty = p.type()
        a, _ = self.opnd(ty, p.value(ty))
        p.expect(',')
        b, _ = self.opnd(ty, p.value(ty))
        if ty.k == 'vec':
            out.append('%s = [fcmp(%r, x, y, %d) for x, y in zip(%s, %s)]' % (dest, pred, ty.e.n, a, b))
        else:
            out.append('%s = fcmp(%r, %s, %s, %d)' % (dest, pred, a, b, ty.n))

    def i_select(self, p, dest, out, s):
        while p.peek() in self.FLAGS:
            p.next()
        ct = p.type()
        c, _ = self.opnd(ct, p.value(ct))
        p.expect(',')
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        p.expect(',')
        t = p.type()
        b, _ = self.opnd(t, p.value(t))
        out.append('%s = %s(%s, %s, %s)' % (dest, 'selv' if ct.k == 'vec' else 'sel', c, a, b))

    def i_freeze(self, p, dest, out, s):
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        out.append('%s = %s' % (dest, a))

    def i_fneg(self, p, dest, out, s):
        while p.peek() in self.FLAGS:
            p.next()
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        if t.k == 'vec':
            out.append('%s = [fneg(x, %d) for x in %s]' % (dest, t.e.n, a))
        else:
            out.append('%s = fneg(%s, %d)' % (dest, a, t.n))

    # casts
    def cast(self, p):
        while p.peek() in self.FLAGS:
            p.next()
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        p.expect('to')
        t2 = p.type()
        return t, a, t2

    def vmap(self, t, a, dest, out, f):
        if t.k == 'vec':
            out.append('%s = [%s for x in %s]' % (dest, f % 'x', a))
        else:
            out.append('%s = %s' % (dest, f % a))

    def i_trunc(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        w2 = (t2.e if t2.k == 'vec' else t2).n
        if t.k == 'vec':
            out.append('%s = [trunc(x, %d) for x in %s]' % (dest, w2, a))
        else:
            out.append('%s = %s & %d if %s.__class__ is int else trunc(%s, %d)' % (dest, a, (1 << w2) - 1, a, a, w2))

    def i_zext(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        w = (t.e if t.k == 'vec' else t).n
        self.vmap(t, a, dest, out, 'zext(%%s, %d)' % w)

    def i_sext(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        w = (t.e if t.k == 'vec' else t).n
        w2 = (t2.e if t2.k == 'vec' else t2).n
        self.vmap(t, a, dest, out, 'sext(%%s, %d, %d)' % (w, w2))

    def i_ptrtoint(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        w2 = (t2.e if t2.k == 'vec' else t2).n
        self.vmap(t, a, dest, out, 'trunc(%%s, %d)' % w2)

    def i_inttoptr(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        self.vmap(t, a, dest, out, 'zext(%%s, %d)' % min(t.n, self.m.ptrbits))

    def i_bitcast(self, p, dest, out, s):
        t, a, t2 = self.cast(p)

        def d(t):
            if t.k == 'vec':
                return t.n, self.mod.bits(t.e)
            return 0, self.mod.bits(t)
        n1, w1 = d(t)
        n2, w2 = d(t2)
        if w1 == w2 and (n1 == n2):
            out.append('%s = %s' % (dest, a))
        else:
            out.append('%s = bitcast(%s, %d, %d, %d, %d)' % (dest, a, n1, w1, n2, w2))

    def i_sitofp(self, p, dest, out, s, signed=True):
        t, a, t2 = self.cast(p)
        e, e2 = (t.e, t2.e) if t.k == 'vec' else (t, t2)
        self.vmap(t, a, dest, out, 'sitofp(%%s, %d, %d, %r)' % (e.n, e2.n, signed))

    def i_uitofp(self, p, dest, out, s):
        self.i_sitofp(p, dest, out, s, False)

    def i_fptosi(self, p, dest, out, s, signed=True):
        t, a, t2 = self.cast(p)
        e, e2 = (t.e, t2.e) if t.k == 'vec' else (t, t2)
        self.vmap(t, a, dest, out, 'fptosi(%%s, %d, %d, %r)' % (e.n, e2.n, signed))

    def i_fptoui(self, p, dest, out, s):
        self.i_fptosi(p, dest, out, s, False)

    def i_fpext(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        self.vmap(t, a, dest, out, 'fpext(%s)')

    def i_fptrunc(self, p, dest, out, s):
        t, a, t2 = self.cast(p)
        self.vmap(t, a, dest, out, 'fptrunc(%s)')

    # memory
    def i_alloca(self, p, dest, out, s):
        if p.peek() == 'inalloca':
            p.next()
        t = p.type()
        n = 1
        al = self.mod.align(t)
        cnt = None
        while p.accept(','):
            if p.peek() == 'align':
                p.next()
                al = int(p.next())
            elif p.peek() == 'addrspace':
                p.i += 4
            else:
                ct = p.type()
                cnt, _ = self.opnd(ct, p.value(ct))
        sz = self.mod.size(t)
        e = str(sz) if cnt is None else '%d * %s' % (sz, cnt)
        out.append('o = newobj(%s, "stack", "stack", %d); SA.append(o); %s = o.base' % (e, max(al, 1), dest))

    def i_load(self, p, dest, out, s):
        atomic = False
        while p.peek() in ('atomic', 'volatile'):
            if p.next() == 'atomic':
                atomic = True
        t = p.type()
        p.expect(',')
        pt = p.type()
        a, _ = self.opnd(pt, p.value(pt))
        if atomic:
            order = [x for x in p.t[p.i:] if x in ORDERS][0]
            out.append('%s = m.atomic("load", %s, %d, %r)' % (dest, a, self.mod.size(t), order))
            return
        al = 1
        for i in range(p.i, len(p.t)):
            if p.t[i] == 'align':
                al = int(p.t[i + 1])
        self.gen_load(t, a, dest, out, al)

    def gen_load(self, t, a, dest, out, al=1):
        k = t.k
        if k == 'vec':
            w = self.mod.bits(t.e)
            if al >= 16 and self.m.align_check:
                out.append('chkalign(%s, %d)' % (a, al))
            if w % 8:
                raise Unsupported('vector of i%d in memory' % w)
            out.append('%s = ldv(%s, %d, %d)' % (dest, a, t.n, w // 8))
        elif k == 'arr':
            tmp = []
            es = self.mod.size(t.e)
            for i in range(t.n):
                d = '%s_%d' % (dest, i)
                self.gen_load(t.e, '(%s + %d)' % (a, i * es), d, out)
                tmp.append(d)
            out.append('%s = [%s]' % (dest, ', '.join(tmp)))
        elif k == 'struct':
            self.mod.size(t)
            tmp = []
            for i, f in enumerate(t.fields):
                d = '%s_%d' % (dest, i)
                self.gen_load(f, '(%s + %d)' % (a, t.offs[i]), d, out)
                tmp.append(d)
            out.append('%s = [%s]' % (dest, ', '.join(tmp)))
        else:
            b = self.mod.bits(t)
            out.append('%s = ld(%s, %d)' % (dest, a, (b + 7) // 8))
            if b % 8:
                out.append('%s = trunc(%s, %d)' % (dest, dest, b))

    def i_store(self, p, dest, out, s):
        atomic = False
        while p.peek() in ('atomic', 'volatile'):
            if p.next() == 'atomic':
                atomic = True
        t = p.type()
        v, _ = self.opnd(t, p.value(t))
        p.expect(',')
        pt = p.type()
        a, _ = self.opnd(pt, p.value(pt))
        if atomic:
            order = [x for x in p.t[p.i:] if x in ORDERS][0]
            out.append('m.atomic("store", %s, %d, %r, %s)' % (a, self.mod.size(t), order, v))
            return
        al = 1
        for i in range(p.i, len(p.t)):
            if p.t[i] == 'align':
                al = int(p.t[i + 1])
        self.gen_store(t, v, a, out, al)

    def gen_store(self, t, v, a, out, al=1):
        k = t.k
        if k == 'vec':
            w = self.mod.bits(t.e)
            if al >= 16 and self.m.align_check:
                out.append('chkalign(%s, %d)' % (a, al))
            if w % 8:
                raise Unsupported('vector of i%d in memory' % w)
            out.append('stv(%s, %s, %d)' % (a, v, w // 8))
        elif k == 'arr':
            es = self.mod.size(t.e)
            for i in range(t.n):
                self.gen_store(t.e, '%s[%d]' % (v, i), '(%s + %d)' % (a, i * es), out)
        elif k == 'struct':
            self.mod.size(t)
            for i, f in enumerate(t.fields):
                self.gen_store(f, '%s[%d]' % (v, i), '(%s + %d)' % (a, t.offs[i]), out)
        else:
            b = self.mod.bits(t)
            if b % 8:
                out.append('st(%s, zext(%s, %d), %d)' % (a, v, b, (b + 7) // 8))
            else:
                out.append('st(%s, %s, %d)' % (a, v, b // 8))

    def i_getelementptr(self, p, dest, out, s):
        while p.peek() in self.FLAGS:
            p.next()
        st = p.type()
        p.expect(',')
        pt = p.type()
        base, _ = self.opnd(pt, p.value(pt))
        if pt.k == 'vec':
            raise Unsupported('vector gep')
        off = 0
        terms = []
        t = st
        first = True
        while p.accept(','):
            it = p.type()
            v = p.value(it)
            if it.k == 'vec':
                raise Unsupported('vector gep')
            if first:
                es = self.mod.size(t)
                first = False
            elif t.k == 'struct':
                i = self.m.const(it, v)
                self.mod.size(t)
                off += t.offs[i]
                t = t.fields[i]
                continue
            else:
                es = self.mod.size(t.e)
                t = t.e
            o, c = self.opnd(it, v)
            if c:
                off += T.sgn(int(o), it.n) * es
            else:
                terms.append((o, it.n, es))
        if not terms:
            out.append('%s = %s + %d if %s.__class__ is int else T.add(%s, %d)' % (dest, base, off, base, base, off))
            return
        e = base
        for o, w, es in terms:
            out.append('%s = gepidx(%s, %s, %d, %d, PM)' % (dest, e, o, w, es))
            e = dest
        if off:
            out.append('%s = T.add(%s, %d)' % (dest, dest, off))

    def i_extractelement(self, p, dest, out, s):
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        p.expect(',')
        it = p.type()
        i, _ = self.opnd(it, p.value(it))
        out.append('%s = %s[%s]' % (dest, a, i))

    def i_insertelement(self, p, dest, out, s):
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        p.expect(',')
        et = p.type()
        e, _ = self.opnd(et, p.value(et))
        p.expect(',')
        it = p.type()
        i, _ = self.opnd(it, p.value(it))
        out.append('%s = list(%s)' % (dest, a))
        out.append('%s[%s] = %s' % (dest, i, e))

    def i_shufflevector(self, p, dest, out, s):
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        p.expect(',')
        t2 = p.type()
        b, _ = self.opnd(t2, p.value(t2))
        p.expect(',')
        mt = p.type()
        mv = p.value(mt)
        if mv[0] == 'a':
            idx = [None if e[0] == 'u' else e[1] for _, e in mv[2]]
        elif mv[0] == 'z':
            idx = [0] * mt.n
        else:
            idx = [None] * mt.n
        n = t.n
        parts = []
        for i in idx:
            if i is None:
                parts.append(self.k(self.m.undef(t.e)))
            elif i < n:
                parts.append('%s[%d]' % (a, i))
            else:
                parts.append('%s[%d]' % (b, i - n))
        out.append('%s = [%s]' % (dest, ', '.join(parts)))

    def i_extractvalue(self, p, dest, out, s):
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        ix = ''
        while p.accept(','):
            ix += '[%s]' % p.next()
        out.append('%s = %s%s' % (dest, a, ix))

    def i_insertvalue(self, p, dest, out, s):
        t = p.type()
        a, _ = self.opnd(t, p.value(t))
        p.expect(',')
        et = p.type()
        e, _ = self.opnd(et, p.value(et))
        ix = []
        while p.accept(','):
            ix.append(p.next())
        out.append('%s = list(%s)' % (dest, a))
        cur = dest
        for i in ix[:-1]:
            out.append('%s[%s] = list(%s[%s])' % (cur, i, cur, i))
            cur = '%s[%s]' % (cur, i)
        out.append('%s[%s] = %s' % (cur, ix[-1], e))

    # control
    def i_ret(self, p, dest, out, s):
        t = p.type()
        if t.k == 'void':
            out.append('return None')
        else:
            a, _ = self.opnd(t, p.value(t))
            out.append('return %s' % a)

    def i_br(self, p, dest, out, s):
        if p.peek() == 'label':
            p.next()
            self.goto(p.next(), out)
            out.append('continue')
            return
        t = p.type()
        c, k = self.opnd(t, p.value(t))
        p.expect(',')
        p.expect('label')
        l1 = p.next()
        p.expect(',')
        p.expect('label')
        l2 = p.next()
        self.merged(c, l1, l2, out)
        out.append('if (%s if %s.__class__ is int else decide(%s)):' % (c, c, c))
        self.goto(l1, out, ' ')
        out.append('else:')
        self.goto(l2, out, ' ')
        out.append('continue')

    def region(self, l1, l2):
        """(join block, blocks between the branch and the join) of an acyclic two-sided branch, or None."""
        J = self.ipdom.get(self.cur)
        if J is None:
            return None
        seen = set()
        st = [self.labels[l1], self.labels[l2]]
        while st:
            x = st.pop()
            if x == J or x in seen:
                continue
            if x == self.cur:
                return None
            seen.add(x)
            if len(seen) > 10:
                return None
            st.extend(self.succ[x])
        # acyclic
        color = {}

        def dfs(x):
            color[x] = 1
            for y in self.succ[x]:
                if y in seen:
                    if color.get(y) == 1 or (y not in color and not dfs(y)):
                        return False
            color[x] = 2
            return True
        for x in seen:
            if x not in color and not dfs(x):
                return None
        return J, seen

    def merged(self, c, l1, l2, out):
        r = self.region(l1, l2) if self.mdepth < 3 else None
        if r is None:
            return
        J, blocks = r
        self.mcount += 1
        n = self.mcount
        phis = [(self.reg(name), ty) for name, ty, inc in self.phis[J]]
        self.minit.update(q for q, _ in phis)
        regs = ''.join(q + ', ' for q, _ in phis)
        inner = []
        cur = self.cur
        self.mdepth += 1
        bodies = {}
        for x in sorted(blocks):
            self.cur = x
            o = []
            for s in self.insts[x]:
                self.inst(s, o)
            bodies[x] = o
        self.cur = cur
        self.mdepth -= 1

        def side(lab, ind):
            self.goto(lab, out, ind)
            out.append('%swhile b != %d:' % (ind, J))
            if not bodies:
                out.append(ind + ' pass')
            for i, (x, ls) in enumerate(bodies.items()):
                out.append('%s %s b == %d:' % (ind, 'if' if i == 0 else 'elif', x))
                for l in ls:
                    out.append(ind + '  ' + l)
        out.append('mg%d = mbegin(%s) if %s.__class__ is not int else None' % (n, c, c))
        out.append('if mg%d is not None:' % n)
        if regs:
            out.append(' mo%d = (%s)' % (n, regs))
        out.append(' try:')
        side(l1, '  ')
        if regs:
            out.append('  ms%d = (%s)' % (n, regs))
            out.append('  %s = mo%d' % (regs, n))
        out.append('  mhalf(mg%d)' % n)
        side(l2, '  ')
        for i, (q, ty) in enumerate(phis):
            out.append('  %s = msel(%s, ms%d[%d], %s, %d)' % (q, c, n, i, q, 1 if ty.k == 'ptr' else 0))
        out.append('  mend(mg%d)' % n)
        out.append('  continue')
        out.append(' except (MergeFail, Fault, Unsupported):')
        out.append('  mabort(mg%d)' % n)
        if regs:
            out.append('  %s = mo%d' % (regs, n))

    def postdoms(self, insts):
        """immediate post-dominators and successors of the blocks."""
        n = len(insts)
        succ = []
        for rest in insts:
            t = rest[-1].strip() if rest else ''
            k = len(rest) - 1
            text = t
            # a switch may span several lines
            while k > 0 and not re.match(r'(br|switch|ret|unreachable|invoke|resume|indirectbr)\b', text.strip()) and '= invoke' not in text:
                k -= 1
                text = rest[k] + ' ' + text
            succ.append([self.labels[l] for l in re.findall(r'label (%[-\w.$]+|%"[^"]*")', text) if l in self.labels])
        self.succ = succ
        full = set(range(n + 1))
        pd = [set(full) for _ in range(n)] + [{n}]
        ex = [s or [n] for s in succ]
        # blocks that abort do not count as exits: the join is the one of the normal paths
        dead = set(i for i, rest in enumerate(insts) if rest and rest[-1].strip().startswith('unreachable'))
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                ss = [x for x in ex[i] if x not in dead] or ex[i]
                new = set.intersection(*[pd[x] for x in ss]) | {i}
                if new != pd[i]:
                    pd[i] = new
                    ch = True
        self.ipdom = {}
        for i in range(n):
            c = pd[i] - {i, n}
            for x in c:
                if all(x == y or y in pd[x] for y in c):
                    self.ipdom[i] = x

    def i_switch(self, p, dest, out, s):
        t = p.type()
        v, _ = self.opnd(t, p.value(t))
        p.expect(',')
        p.expect('label')
        dflt = p.next()
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = self.m.const(ct, p.value(ct))
            p.expect(',')
            p.expect('label')
            cases.append((cv, p.next()))
        kk = self.k([c for c, _ in cases])
        out.append('sv = switchval(%s, %d, %s)' % (v, t.n, kk))
        first = True
        for cv, lab in cases:
            out.append('%s sv == %d:' % ('if' if first else 'elif', cv))
            first = False
            self.goto(lab, out, ' ')
        if first:
            out.append('if 0: pass')
        out.append('else:')
        self.goto(dflt, out, ' ')
        out.append('continue')

    def i_unreachable(self, p, dest, out, s):
        out.append('raise Fault("abort", "unreachable executed in %s")' % self.fn.name.replace('"', ''))

    def i_fence(self, p, dest, out, s):
        order = [x for x in p.t if x in ORDERS]
        out.append('m.atomic("fence", 0, 0, %r)' % (order[0] if order else 'seq_cst'))

    def i_atomicrmw(self, p, dest, out, s):
        if p.peek() == 'volatile':
            p.next()
        op = p.next()
        pt = p.type()
        a, _ = self.opnd(pt, p.value(pt))
        p.expect(',')
        t = p.type()
        v, _ = self.opnd(t, p.value(t))
        order = [x for x in p.t[p.i:] if x in ORDERS][0]
        out.append('%s = m.atomic("rmw_%s", %s, %d, %r, %s)' % (dest, op, a, self.mod.size(t), order, v))

    def i_cmpxchg(self, p, dest, out, s):
        while p.peek() in ('volatile', 'weak'):
            p.next()
        pt = p.type()
        a, _ = self.opnd(pt, p.value(pt))
        p.expect(',')
        t = p.type()
        v, _ = self.opnd(t, p.value(t))
        p.expect(',')
        t = p.type()
        v2, _ = self.opnd(t, p.value(t))
        order = [x for x in p.t[p.i:] if x in ORDERS][0]
        out.append('%s = m.atomic("cmpxchg", %s, %d, %r, (%s, %s))' % (dest, a, self.mod.size(t), order, v, v2))

    CC = {'fastcc', 'coldcc', 'ccc', 'x86_intrcc', 'arm_aapcscc', 'arm_aapcs_vfpcc'}

    def i_call(self, p, dest, out, s):
        while p.peek() in self.FLAGS or p.peek() in self.CC:
            p.next()
        p.attrs()
        rt = p.type()
        # optional function type
        if p.peek() == '(':
            d = 0
            while True:
                x = p.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        callee = p.next()
        if callee == 'asm':
            self.call_asm(p, rt, dest, out)
            return
        p.expect('(')
        args = []
        atys = []
        if not p.accept(')'):
            while True:
                t = p.type()
                p.attrs()
                if t.k == 'metadata':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    args.append('None')
                else:
                    a, _ = self.opnd(t, p.value(t))
                    args.append(a)
                atys.append(t)
                if p.accept(')'):
                    break
                p.expect(',')
        pre = '%s = ' % dest if dest else ''
        if callee[0] == '%':
            out.append('%sicall(%s, (%s))' % (pre, self.reg(callee), ''.join(a + ', ' for a in args)))
            return
        bare = callee[1:].strip('"')
        if bare.startswith('llvm.'):
            h = self.m.intrin.lookup(self.m, bare, rt, atys)
            if h is None:
                return
            out.append('%s%s(%s)' % (pre, self.k(h), ', '.join(args)))
            return
        m = self.m
        nm = callee
        kk = 'C%d' % self.nc
        self.nc += 1
        self.env[kk] = None
        out.append('%s(F.get(%r) or getfunc(%r))(%s)' % (pre, nm, nm, ', '.join(args)))

    i_invoke = None

    def call_asm(self, p, rt, dest, out):
        flags = []
        while p.peek()[0] != '"':
            flags.append(p.next())
        text = llir.unescape(p.next()[1:-1]).decode('latin1')
        p.expect(',')
        cons = p.next()[1:-1]
        p.expect('(')
        args = []
        atys = []
        if not p.accept(')'):
            while True:
                t = p.type()
                at = p.attrs() or {}
                a, _ = self.opnd(t, p.value(t))
                args.append(a)
                atys.append((t, at.get('elementtype')))
                if p.accept(')'):
                    break
                p.expect(',')
        from . import asm
        h = asm.compile_asm(self.m, text, cons, rt, atys)
        if h is None:
            return
        out.append('%s%s([%s])' % ('%s = ' % dest if dest else '', self.k(h), ', '.join(args)))


del CodeGen.i_invoke
ORDERS = {'unordered', 'monotonic', 'acquire', 'release', 'acq_rel', 'seq_cst'}


def gepidx(base, i, w, es, pm):
    if i.__class__ is int:
        if i >> (w - 1):
            i -= 1 << w
        if base.__class__ is int:
            return (base + i * es) & pm
        return T.add(base, i * es)
    return T.add(base, T.mul(T.sgn(i, w), es))


def atomic_default(self, kind, addr, n, order, v=None):
    if self.on_atomic is not None:
        return self.on_atomic(kind, addr, n, order, v)
    if kind == 'load':
        return self.ld(addr, n)
    if kind == 'store':
        self.st(addr, v, n)
        return
    if kind == 'fence':
        return
    old = self.ld(addr, n)
    w = 8 * n
    if kind == 'cmpxchg':
        exp, new = v
        e = T.eq(old, exp, w)
        if self.decide(e):
            self.st(addr, new, n)
            return [old, 1]
        return [old, 0]
    op = kind[4:]
    if op == 'add':
        r = op_add(old, v, w)
    elif op == 'sub':
        r = op_sub(old, v, w)
    elif op == 'xchg':
        r = v
    elif op in ('and', 'or', 'xor'):
        r = norm(T.bitop(op, old, v, w), w)
    else:
        raise Unsupported(kind)
    self.st(addr, r, n)
    return old


Machine.atomic = atomic_default
