"""C21: matrix and vector views address the entries they describe."""
from vp import term as T, smt, lia
from vp.case import Case, Buf
from vp import oblig
from .common import *

LEVEL = 'other'
ASSUMPTIONS = TRUST
EXPLAIN = ('MatrixMap, VectorMap and VectorDup executed symbolically with symbolic sizes, strides, positions and block bounds (blocks of blocks included); z3 decides that every address, size '
           'and value is the described one.')
ESZ = {'u8': 1, 's16': 2, 's32': 4}


def BOUNDS(tier):
    return {'configurations': ALL, 'sizes, strides, positions': '0..2^15-1 each, blocks inside their matrix', 'scalars': 'uint8, int16, int32', 'orders': 'row- and column-major'}


def i64(res, k):
    return int.from_bytes(res[0][8 * k:8 * k + 8], 'little', signed=True)


def go(rec, cfg, entry, ints, nout, pre, want, seed):
    case = Case('maps.cc', cfg, entry, ints, [Buf('out', [0] * (8 * nout), 8)])
    label = '%s %s' % (cfg, entry)

    def setup(m):
        for p in pre:
            m.assume(p)
    n = 0
    for p in case.explore(setup, max_paths=64, solver=lia.PathSolver()):
        n += 1
        rec.absorb(case.m)
        if case.fault:
            rec.obligations += 1
            oblig.report_fault(rec, case, label, seed)
            return
        claims = []
        for k, nm, t, f in want:
            claims.append((nm, T.eq(T.sgn(case.got(0, 8 * k, 8), 64), t, 64), lambda q, i, k=k, f=f: i64(q, k) == f(i)))
        oblig.holds(rec, case, claims, label, timeout=60, seed=seed, arith=True)
    if not n:
        rec.problem(label + ': no feasible path')
    rec.samples.append('%s: %d paths' % (label, n))


def mat(rec, cfg, seed):
    for sc, sz in sorted(ESZ.items()):
        for o in 'rc':
            names = ['rows', 'cols', 'stride', 'i', 'j', 'r0', 'c0', 'br', 'bc', 'r1', 'c1', 'cr', 'cc', 'k', 'l']
            v = {n: smt.rvar(n, 32, 0, (1 << 15) - 1) for n in names}
            pre = [T.lt(v['i'], v['rows']), T.lt(v['j'], v['cols']),
                   T.le(T.add(v['r0'], v['br']), v['rows']), T.le(T.add(v['c0'], v['bc']), v['cols']),
                   T.le(T.add(v['r1'], v['cr']), v['br']), T.le(T.add(v['c1'], v['cc']), v['bc']),
                   T.lt(v['k'], v['cr']), T.lt(v['l'], v['cc'])]

            def at(i, j, s, o=o, sz=sz):
                return T.mul(T.add(T.mul(i, s), j) if o == 'r' else T.add(i, T.mul(j, s)), sz)

            def pa(i, j, s, o=o, sz=sz):
                return (i * s + j if o == 'r' else i + j * s) * sz
            P = dict(zip(names, range(15)))
            a3 = lambda *xs: T.add(T.add(xs[0], xs[1]), xs[2])
            pk = v['cols'] if o == 'r' else v['rows']
            want = [(0, 'data(i,j) is the address of entry (i,j)', at(v['i'], v['j'], v['stride']), lambda x: pa(x[3], x[4], x[2])),
                    (1, 'operator() of a copy is entry (i,j)', at(v['i'], v['j'], v['stride']), lambda x: pa(x[3], x[4], x[2])),
                    (2, 'a map without stride is packed', at(v['i'], v['j'], pk), lambda x: pa(x[3], x[4], x[1] if o == 'r' else x[0])),
                    (3, 'a block starts at its first entry', at(v['r0'], v['c0'], v['stride']), lambda x: pa(x[5], x[6], x[2])),
                    (4, 'block rows', v['br'], lambda x: x[7]), (5, 'block columns', v['bc'], lambda x: x[8]), (6, 'block stride', v['stride'], lambda x: x[2]),
                    (7, 'an entry of a block of a block is the entry of the matrix', at(a3(v['r0'], v['r1'], v['k']), a3(v['c0'], v['c1'], v['l']), v['stride']),
                     lambda x: pa(x[5] + x[9] + x[13], x[6] + x[10] + x[14], x[2])),
                    (8, 'inner block rows', v['cr'], lambda x: x[11]), (9, 'inner block columns', v['cc'], lambda x: x[12]),
                    (10, 'rows', v['rows'], lambda x: x[0]), (11, 'cols', v['cols'], lambda x: x[1]), (12, 'stride', v['stride'], lambda x: x[2]),
                    (13, 'rows_stride', v['stride'] if o == 'r' else 1, lambda x: x[2] if o == 'r' else 1),
                    (14, 'cols_stride', 1 if o == 'r' else v['stride'], lambda x: 1 if o == 'r' else x[2]),
                    (15, 'stride of a packed map', pk, lambda x: x[1] if o == 'r' else x[0])]
            go(rec, cfg, 'mat_%s_%s' % (sc, o), [v[n] for n in names], 16, pre, want, seed)


def vec(rec, cfg, seed):
    for e, sz in (('vec_col', 4), ('vec_row', 1)):
        names = ['size', 'i', 's0', 'len', 's1', 'len1', 'k']
        v = {n: smt.rvar(n, 32, 0, (1 << 28) - 1) for n in names}
        pre = [T.lt(v['i'], v['size']), T.le(T.add(v['s0'], v['len']), v['size']), T.le(T.add(v['s1'], v['len1']), v['len']), T.lt(v['k'], v['len1'])]
        want = [(0, 'entry i', T.mul(v['i'], sz), lambda x, sz=sz: x[1] * sz),
                (1, 'entry of a block of a block', T.mul(T.add(T.add(v['s0'], v['s1']), v['k']), sz), lambda x, sz=sz: (x[2] + x[4] + x[6]) * sz),
                (2, 'size', v['size'], lambda x: x[0]), (3, 'block size', v['len'], lambda x: x[3]), (4, 'inner block size', v['len1'], lambda x: x[5])]
        go(rec, cfg, e, [v[n] for n in names], 5, pre, want, seed)
    for e in ('dup_col', 'dup_row'):
        names = ['value', 'size', 'i', 's0', 'len', 'k']
        v = {n: smt.rvar(n, 32, 0, (1 << 28) - 1) for n in names}
        v['value'] = T.var('value', 32)
        pre = [T.lt(v['i'], v['size']), T.le(T.add(v['s0'], v['len']), v['size']), T.lt(v['k'], v['len'])]
        s = lambda x: (x & 0xffffffff) - ((x & 0x80000000) << 1)
        want = [(0, 'entry i is the value', T.sgn(v['value'], 32), lambda x: s(x[0])), (1, 'entry of a block is the value', T.sgn(v['value'], 32), lambda x: s(x[0])),
                (2, 'size', v['size'], lambda x: x[1]), (3, 'block size', v['len'], lambda x: x[4])]
        go(rec, cfg, e, [v[n] for n in names], 4, pre, want, seed)


def jobs(tier, seed):
    return [('%s/mat' % c, mat, dict(cfg=c, seed=seed)) for c in ALL] + [('%s/vec' % c, vec, dict(cfg=c, seed=seed)) for c in ALL]
