"""Inline assembly: parse constraints, then hand the template to the target's interpreter."""
import re
from . import term as T
from .execu import Unsupported, Fault


def compile_asm(m, text, cons, rt, atys):
    stripped = re.sub(r'[\s;]', '', text)
    cl = split_cons(cons)
    outs = []
    ins = []
    for c in cl:
        if c.startswith('~'):
            continue
        if c.startswith('='):
            outs.append(c[1:])
        elif c.startswith('!') or c.startswith('#'):
            continue
        else:
            ins.append(c)
    if stripped == '' and not [o for o in outs if '*' not in o] :
        return None          # compiler barrier
    m.stats['asm_blocks'] += 1
    ops = []       # operand list: dict(kind, ...)
    ai = 0
    direct = []
    for o in outs:
        if o.startswith('*'):
            ops.append({'c': o, 'mem': True, 'arg': ai, 'ty': atys[ai][1], 'out': True})
            ai += 1
        else:
            ops.append({'c': o, 'mem': False, 'out': True, 'arg': None})
            direct.append(len(ops) - 1)
    for c in ins:
        if c.startswith('*'):
            ops.append({'c': c, 'mem': True, 'arg': ai, 'ty': atys[ai][1], 'out': False})
        else:
            d = {'c': c, 'mem': False, 'out': False, 'arg': ai, 'ty': atys[ai][0]}
            mm = re.match(r'^(\d+)$', c)
            if mm:
                d['tied'] = int(mm.group(1))
            ops.append(d)
        ai += 1
    # output types
    if rt.k == 'void':
        otys = []
    elif rt.k == 'struct' and len(direct) != 1:
        otys = rt.fields
    elif rt.k == 'struct':
        otys = rt.fields
    else:
        otys = [rt]
    for k, i in enumerate(direct):
        ops[i]['ty'] = otys[k]
    tr = m.mod.triple
    if tr.startswith('x86_64'):
        from . import x86 as tgt
    elif tr.startswith('aarch64'):
        from . import a64 as tgt
    else:
        from . import a32 as tgt
    prog = tgt.assemble(m, text, ops)
    multi = rt.k == 'struct'

    def run(args):
        res = prog(args)
        if rt.k == 'void':
            return None
        return res if multi else res[0]
    return run


def split_cons(s):
    out = []
    cur = ''
    d = 0
    for ch in s:
        if ch == '{':
            d += 1
        elif ch == '}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out
