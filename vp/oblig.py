"""Obligations on a Case, with native confirmation of counterexamples."""
import random
from . import smt, build, lia
from . import term as T
from .term import N
from .case import Case, Buf, decide, decide_each, collect, rand_env, guess
from .execu import Fault, Unsupported


def val(t, env, memo=None):
    return T.evaluate(t, env, memo) if t.__class__ is N else t


def fault_env(case, seed):
    pc = case.m.pc
    if not pc:
        names = collect([x for b in case.bufs for x in b.content if x.__class__ is N])
        return rand_env(names, random.Random(seed))
    r = smt.check(smt.pcnodes(pc), timeout=60, som=False)
    if r.verdict != 'sat':
        return None
    return dict(r.model)


def report_fault(rec, case, label, seed=1, key=None):
    """the executed code faulted on the current path: confirm natively."""
    f = case.fault
    env = fault_env(case, seed)
    if env is None:
        rec.problem('%s: %s, but no model of its path condition' % (label, f))
        return
    conf = confirm_crash(case, env)
    if conf:
        rec.violation('%s: %s [%s]' % (label, f, conf), dict(case.describe(env), fault=str(f), confirmed=conf), key=key or 'fault:' + f.kind)
    else:
        rec.problem('%s: %s; not reproduced natively' % (label, f))


def confirm_crash(case, env):
    for guard in ('high', 'low'):
        for hg in (False, True):
            st, res, logs, err = case.native(env, guard, heapguard=hg)
            if st != 0 and st not in (97, 98):
                return 'native run ends with %s (guard=%s heapguard=%s) %s' % (st, guard, hg, err.strip()[:200])
    if case.cfg.startswith('x86'):
        try:
            st, res, logs, err = case.native(env, 'high', sanitize='address,undefined')
            if st != 0 and st not in (97, 98):
                return 'sanitizer run ends with %s: %s' % (st, err.strip()[:300])
        except build.BuildError:
            pass
    return None


def equal(rec, case, spec, label, timeout=90, seed=1, som=True, fp=False, key=None, chunk=None):
    """spec: [(buf, off, nbytes, term[, cond])]: the bytes written there equal the term, for every input on this path
    (for which cond holds).  Returns True when discharged."""
    rec.obligations += 1
    ok = True
    by = {}
    for s in spec:
        by.setdefault(s[2], []).append(s)
    for n, ss in by.items():
        groups = [ss] if not chunk else [ss[i:i + chunk] for i in range(0, len(ss), chunk)]
        for g in groups:
            pairs = [(case.got(s[0], s[1], n), s[3]) for s in g]
            conds = [s[4] if len(s) > 4 else 1 for s in g]
            out = decide(pairs, 8 * n, case.m.pc, timeout=timeout, seed=seed, som=som, fp=fp)
            if out.verdict != 'unsat' and any(c.__class__ is N for c in conds):
                # the stronger claim (without the side condition) fails or is open: decide the actual one
                pairs = [(a, T.ite(c, T.uns(t, 8 * n), T.uns(a, 8 * n))) for (a, t), c in zip(pairs, conds)]
                out = decide(pairs, 8 * n, case.m.pc, timeout=timeout, seed=seed, som=som, fp=fp)
            if out.verdict == 'unsat':
                continue
            ok = False
            if out.verdict != 'sat':
                rec.problem('%s: solver answered %s (%s)' % (label, out.verdict, out.detail))
                break
            confirm_values(rec, case, spec, out.env, label, key)
            break
    if ok:
        rec.discharged += 1
    return ok


def equal_each(rec, case, spec, label, timeout=60, seed=1, fp=False, key=None, cache=None):
    """like equal, one query per structurally distinct entry (for non-linear obligations)."""
    rec.obligations += 1
    by = {}
    for s in spec:
        by.setdefault(s[2], []).append(s)
    for n, ss in by.items():
        tr = [(case.got(s[0], s[1], n), s[3], s[4] if len(s) > 4 else 1) for s in ss]
        out = decide_each(tr, 8 * n, case.m.pc, timeout=timeout, seed=seed, fp=fp, cache=cache)
        if out.verdict == 'unsat':
            continue
        if out.verdict == 'sat':
            confirm_values(rec, case, spec, out.env, label, key)
        else:
            rec.problem('%s: solver answered %s (%s)' % (label, out.verdict, out.detail))
        return False
    rec.discharged += 1
    return True


def confirm_values(rec, case, spec, env, label, key=None):
    """replay env natively and compare the outputs with the specification."""
    fills = [None, 0, 255, 0x5a]
    for fill in fills:
        st, res, logs, err = case.native(env, 'high', fill=fill)
        if st != 0:
            rec.violation('%s: native run ends with %s on the counterexample: %s' % (label, st, err.strip()[:200]),
                          dict(case.describe(env), status=st), key=key)
            return True
        memo = {}
        for s in spec:
            b, o, n, t = s[:4]
            if len(s) > 4 and not val(s[4], env, memo):
                continue
            want = val(t, env, memo) & T._M[8 * n]
            got = int.from_bytes(res[b][o:o + n], 'little')
            if want != got:
                rec.violation('%s: %s byte %d: got %d, specified %d' % (label, case.bufs[b].name, o, got, want),
                              dict(case.describe(env), fill=fill, buffer=case.bufs[b].name, offset=o, nbytes=n, got=got, want=want), key=key)
                return True
    rec.problem('%s: counterexample of the encoding does not reproduce natively' % label)
    return False


def validate(rec, case, outs, seed, runs=1):
    """encoding validation: the symbolic results evaluated at random inputs equal a native run.
    outs: [(buf, off, nbytes)]"""
    names = collect([x for b in case.bufs for x in b.content if x.__class__ is N] +
                    [v for v in case.ints if v.__class__ is N])
    rng = random.Random(seed)
    for k in range(runs):
        env = rand_env(names, rng, k % 3)
        st, res, logs, err = case.native(env)
        if st != 0:
            rec.problem('validation run of %s on %s ends with %s %s' % (case.entry, case.cfg, st, err[:200]))
            return False
        memo = {}
        for b, o, n in outs:
            x = val(case.got(b, o, n), env, memo) & T._M[8 * n]
            y = int.from_bytes(res[b][o:o + n], 'little')
            if x != y:
                rec.problem('encoding of %s on %s disagrees with the native run at %s+%d: %d, native %d' % (
                    case.entry, case.cfg, case.bufs[b].name, o, x, y))
                return False
        rec.validated += 1
    return True


def untouched(rec, case, b, keep, label, key=None):
    """the bytes of buffer b at offsets in keep have their initial value (the same term)."""
    o = case.obj[b]
    init = case.bufs[b].content
    spec = []
    for i in keep:
        d = o.data[i]
        if d is init[i] or (d.__class__ is int and d == init[i]):
            continue
        spec.append((b, i, 1, init[i]))
    rec.obligations += 1
    if not spec:
        rec.discharged += 1
        return True
    rec.obligations -= 1
    return equal(rec, case, spec, label, key=key)


def holds(rec, case, claims, label, timeout=90, seed=1, key=None, extra_pc=(), arith=False):
    """claims: [(name, boolean term, python predicate(result buffers, concrete ints))]: each term holds for every input
    on this path; a counterexample is replayed natively and judged by the predicate."""
    pc = list(case.m.pc) + list(extra_pc)
    ask = (lambda fs: lia.check(fs, timeout)) if arith else (lambda fs: smt.check(fs, timeout=timeout, som=False))
    for name, t, fn in claims:
        rec.obligations += 1
        if t.__class__ is not N:
            if t & 1:
                rec.discharged += 1
                continue
            r = ask(smt.pcnodes(pc))
        else:
            r = ask(smt.pcnodes(pc) + [T.bnot(t)])
        if r.verdict == 'unsat':
            rec.discharged += 1
            continue
        if r.verdict != 'sat':
            rec.problem('%s: %s: solver answered %s' % (label, name, r.verdict))
            continue
        env = dict(r.model)
        for n in collect([x for b in case.bufs for x in b.content if x.__class__ is N] + [v for v in case.ints if v.__class__ is N]):
            env.setdefault(n, 0)
        st, res, logs, err = case.native(env)
        ints, _ = case.concrete(env)
        if st != 0:
            rec.violation('%s: %s: native run ends with %s on %s: %s' % (label, name, st, ints, err.strip()[:200]), dict(case.describe(env), status=st), key=key)
        elif not fn(res, ints):
            rec.violation('%s: not %s for arguments %s' % (label, name, ints), case.describe(env), key=key)
        else:
            rec.problem('%s: %s: counterexample %s does not reproduce natively' % (label, name, ints))


def subterms(t, seen, out):
    st = [t]
    while st:
        n = st.pop()
        if n.__class__ is not N or n.id in seen:
            continue
        seen.add(n.id)
        out.append(n)
        for a in n.args:
            if a.__class__ is N:
                st.append(a)
            elif a.__class__ is tuple:
                for y in a:
                    y = y[0] if y.__class__ is tuple and y else y
                    if y.__class__ is N:
                        st.append(y)


def modular(root, w, subs):
    """ids of the subterms that root uses only modulo 2**w"""
    exact = set()
    for n in sorted(subs, key=lambda x: -x.id):
        a, op = n.args, n.op
        ex = n.id in exact
        if op == 'ite':
            ch = [(a[0], False), (a[1], ex), (a[2], ex)]
        elif op in ('add', 'mul'):
            ch = [(x, ex) for x in a]
        elif op in ('wrapu', 'wraps'):
            ch = [(a[1], a[0] > w)]
        elif op == 'slice':
            ch = [(a[0], a[1] + a[2] > w)]
        elif op == 'cat':
            ch = [(x, k > w) for x, k in a[0]]
        elif op in ('and', 'or', 'xor', 'eq'):
            ch = [(a[0], a[2] > w), (a[1], a[2] > w)]
        elif op == 'uf':
            ch = [(x, k > w) for x, k in a[1]]
        else:
            ch = [(x, True) for x in a]
        for x, e in ch:
            if e and x.__class__ is N:
                exact.add(x.id)
    return set(n.id for n in subs if n.id not in exact)


def equal_via(rec, case, items, label, w=32, timeout=60, seed=1, key=None, runs=3):
    """items (buf, off, nbytes, S, mk, S2, mk2, ...): the output equals mk(value of S as a signed w-bit number) = (term, condition).
    Proof in two steps: the subterms of the output that compute S (found by evaluation) are proved equal to S and then
    replaced by a free variable, for which the rest is decided.  Without such subterms the whole is decided at once."""
    pc = case.m.pc
    rng = random.Random(seed)
    outs = [case.got(*i[:3]) for i in items]
    names = collect([x for x in outs if x.__class__ is N] + [x for i in items for x in i[3::2] if x.__class__ is N])
    envs = [rand_env(names, rng, (0, 2, 0)[k % 3]) for k in range(runs)]
    memos = [{} for _ in envs]
    M = T._M[w]
    eqs, residual, whole = [], [], []
    have = {}
    picked = []
    for t, it in zip(outs, items):
        b, o, n = it[:3]
        alts = it[3:]
        S, mk = alts[0], alts[1]
        full = mk(T.sgn(S, w))
        whole.append((b, o, n) + tuple(full))
        got = None
        if t.__class__ is N:
            for e, m in zip(envs, memos):
                T.evaluate(t, e, m)
            subs = []
            subterms(t, set(), subs)
            mod = modular(t, w, subs)
            for S, mk in zip(alts[::2], alts[1::2]):
                if S.__class__ is not N:
                    continue
                sv = [T.evaluate(S, e, m) & M for e, m in zip(envs, memos)]
                rep = {}
                for c in subs:
                    if c.op in ('lt', 'le', 'eq', 'not', 'var'):
                        continue
                    if (c.id in mod or c.lo >= -(1 << (w - 1)) and c.hi < 1 << (w - 1) or c.lo >= 0 and c.hi <= M) and \
                            all(m.get(c.id, 0) & M == v for m, v in zip(memos, sv)):
                        x = T.var('cut', w)
                        rep[c.id] = T.uns(x, w) if c.lo >= 0 and c.hi > M >> 1 else T.sgn(x, w)
                        if (c.id, S.id) not in have:
                            have[c.id, S.id] = 1
                            eqs.append((c, S))
                if rep:
                    sp = mk(T.sgn(T.var('cut', w), w))
                    got = (T.rename(t, lambda v: v, dict(rep)), sp[0], sp[1], n)
                    break
        picked.append(S)
        residual.append(got or (t, full[0], full[1], n))
    if eqs:
        rec.obligations += 1
        r = decide(eqs, w, pc, timeout=timeout, seed=seed)
        if r.verdict == 'unsat':
            rec.discharged += 1
        elif r.verdict == 'sat':
            # agreeing on the sampled inputs but not in general
            if confirm_values(rec, case, whole, r.env, label, key):
                return False
            return False
        else:
            rec.problem('%s: accumulator: solver answered %s' % (label, r.verdict))
            return False
    rec.obligations += 1
    for n in sorted(set(r[3] for r in residual)):
        tr = [r[:3] for r in residual if r[3] == n]
        r = decide_each(tr, 8 * n, pc, timeout=timeout, seed=seed)
        if r.verdict == 'unsat':
            continue
        if r.verdict != 'sat':
            rec.problem('%s: solver answered %s' % (label, r.verdict))
            return False
        env = dict(r.env)
        i = r.index if r.index is not None else 0
        item, res = [(it, q) for it, q in zip(picked, residual) if q[3] == n][i]
        env2 = env
        if 'cut' in env:
            # inputs that produce this accumulator
            pins = []
            for nm, wd in collect([x for x in res[:3] if x.__class__ is N]).items():
                if nm != 'cut':
                    pins.append(T.eq(smt.rvar(nm, wd, *smt.RANGES[nm][:2]) if nm in smt.RANGES else T.var(nm, wd), env[nm], wd))
            q = smt.check(smt.pcnodes(pc) + [p for p in pins if p.__class__ is N] + [T.eq(item, env['cut'], w)], timeout=timeout, som=False)
            if q.verdict == 'sat':
                env2 = dict(q.model)
        for nm in names:
            env2.setdefault(nm, env.get(nm, 0))
        confirm_values(rec, case, whole, env2, label, key)
        return False
    rec.discharged += 1
    return True
