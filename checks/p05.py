"""P05: equality, order, zero, parity, sign tests of the field types."""
import time

import z3

import lindom
import llcheck as L
import symex
from common import Check, run_jobs, res
from llbuild import le
from llcheck import F, Multi, linval

NAMES = ['eq', 'ne', 'lt', 'le', 'gt', 'ge', 'cmp', 'pcmp']


def pair_laws(v, a_eq_b, mx, mn, a, b):
    """v: dict of results; generic over z3 terms and python values"""
    I, A, N, O = (z3.Implies, z3.And, z3.Not, z3.Or) if not isinstance(a_eq_b, bool) else (
        lambda x, y: (not x) or y, lambda *x: all(x), lambda x: not x, lambda *x: any(x))
    one = lambda k: v[k] == 1
    return [
        ('== is equality of the residue', one('eq') == a_eq_b),
        ('!= negates ==', one('ne') == N(a_eq_b)),
        ('cmp is Equal exactly on equal elements', (v['cmp'] == 1) == a_eq_b),
        ('partial_cmp agrees with cmp', v['pcmp'] == v['cmp']),
        ('< agrees with cmp', one('lt') == (v['cmp'] == 0)),
        ('<= agrees with cmp', one('le') == N(v['cmp'] == 2)),
        ('> agrees with cmp', one('gt') == (v['cmp'] == 2)),
        ('>= agrees with cmp', one('ge') == N(v['cmp'] == 0)),
        ('cmp yields an ordering', O(v['cmp'] == 0, v['cmp'] == 1, v['cmp'] == 2)),
        ('cmp is antisymmetric', A((v['cmp'] == 0) == (v['rcmp'] == 2), (v['cmp'] == 2) == (v['rcmp'] == 0))),
        ('max is the greater operand', A(I(v['cmp'] == 0, mx == b), I(v['cmp'] == 2, mx == a))),
        ('min is the lesser operand', A(I(v['cmp'] == 0, mn == a), I(v['cmp'] == 2, mn == b))),
    ]


def pair(f, p):
    def build(M):
        v = {k: M.byte(M.call('%s_%s' % (f, k), [0, 1])[0]) for k in NAMES}
        v['rcmp'] = M.byte(M.call('%s_cmp' % f, [1, 0])[0])
        a, b = M.cat(M.vals[0]), M.cat(M.vals[1])
        mx = M.cat(M.call(f + '_max', [0, 1], ('p', 4), False)[1])
        mn = M.cat(M.call(f + '_min', [0, 1], ('p', 4), False)[1])
        return pair_laws(v, a == b, mx, mn, a, b)

    def native(many):
        out = []
        calls = []
        for a, b in many:
            A, B = le(a, 32), le(b, 32)
            calls += [('%s_%s' % (f, k), [A, B], 0, True) for k in NAMES] + [(f + '_cmp', [B, A], 0, True), (f + '_max', [A, B], 32, False), (f + '_min', [A, B], 32, False)]
        r = L.NAT.batch(calls)
        n = len(NAMES) + 3
        for k, (a, b) in enumerate(many):
            x = r[k * n:(k + 1) * n]
            if any(isinstance(y, str) for y in x):
                out.append([('no panic', False)])
                continue
            v = {nm: y[0] for nm, y in zip(NAMES + ['rcmp'], x)}
            out.append(pair_laws(v, a == b, int.from_bytes(x[-2][1], 'little'), int.from_bytes(x[-1][1], 'little'), a, b))
        return out
    return L.laws(f, [F(p), F(p)], build, native)


def triple(f, p):
    def build(M):
        c = [M.byte(M.call(f + '_cmp', ix)[0]) for ix in ([0, 1], [1, 2], [0, 2])]
        return [('cmp is transitive', z3.Implies(z3.And(z3.Not(c[0] == 2), z3.Not(c[1] == 2)), z3.Not(c[2] == 2))),
                ('strict order is transitive', z3.Implies(z3.And(c[0] == 0, c[1] == 0), c[2] == 0))]

    def native(many):
        out = []
        for a, b, c in many:
            r = [x[0] if not isinstance(x, str) else 9 for x in L.NAT.batch([(f + '_cmp', [le(x, 32), le(y, 32)], 0, True) for x, y in ((a, b), (b, c), (a, c))])]
            out.append([('cmp is transitive', not (r[0] != 2 and r[1] != 2) or r[2] != 2), ('strict order is transitive', not (r[0] == 0 and r[1] == 0) or r[2] == 0)])
        return out
    return L.laws(f + ' triples', [F(p)] * 3, build, native)


def zero(f, p):
    def build(M):
        return [('is_zero exactly on the zero element', (M.byte(M.call(f + '_is_zero', [0])[0]) == 1) == (M.cat(M.vals[0]) == 0))]

    def native(many):
        r = L.NAT.batch([(f + '_is_zero', [le(a, 32)], 0, True) for a, in many])
        return [[('is_zero exactly on the zero element', not isinstance(x, str) and (x[0] == 1) == (a == 0))] for (a,), x in zip(many, r)]
    return L.laws(f, [F(p)], build, native)


def linflag(name, fn, f, p, kind):
    """fn returns 1 exactly when the canonical value (as given by to_bytes, decided exact by P02/P03) is odd / large"""
    t0 = time.time()
    note = ''
    tot = dict(queries=0, solver_s=0.0, functions=[])
    Ri = pow(L.R256, -1, p)
    truth = (lambda v: (v * Ri % p) & 1) if kind == 'odd' else (lambda v: int(v * Ri % p > (p - 1) // 2))
    ob = L.Ob(name, fn, [F(p)], None, lambda v: (truth(v[0]), None), ret=True)
    cex = []
    try:
        d = lindom.LinDom()
        M = Multi(name, d, [F(p)])
        _, bs = M.call(f + '_to_bytes', [0], ('b', 32), False)
        r, _ = M.call(fn, [0])
        V = linval(d, bs, 8)
        a = linval(d, M.vals[0])
        r = d.lin(r)
        q0 = bs[0]
        if kind == 'odd':
            lo = d.lin(d.trunc(d.lin(q0), 8, 1))
            E = d.add(r, lo, -1)
            q = L.LinQ(d)
            rs = [q.check([E, a, r], [q.tm(a) <= p - 1, z3.Or(q.tm(E) >= 1, q.tm(E) <= -1)], 60)]
        else:
            q = L.LinQ(d)
            rs = [q.check([V, a, r], [q.tm(a) <= p - 1, q.tm(r) >= 1, q.tm(V) <= (p - 1) // 2], 60),
                  q.check([V, a, r], [q.tm(a) <= p - 1, q.tm(r) <= 0, q.tm(V) >= (p + 1) // 2], 60)]
        w, _ = q.check([V, a, r], [q.tm(a) <= p - 1], 60)
        tot = dict(queries=q.queries, solver_s=q.solver_s, functions=M.functions(), steps=M.ex.steps)
        if all(x[0] == z3.unsat for x in rs) and w != z3.unsat:
            return res(name, 'proved', replayed=L.validate(ob, tot), **tot)
        note = 'solver: %s' % [str(x[0]) for x in rs]
        for r_, m in rs:
            if m is not None:
                v = 0
                for j, x in enumerate(M.vals[0]):
                    (i, _), = x.t.items()
                    mv = m.eval(q.V[i], model_completion=True)
                    v += int(mv.as_fraction() if not z3.is_int_value(mv) else mv.as_long()) << (64 * j)
                cex.append((v,))
    except Exception as e:
        note = 'engine: %s: %s' % (type(e).__name__, e)
    Rm = L.R256 % p
    h = ob.hunt(extra=cex + [(k * Rm % p,) for k in (0, 1, 2, 3, (p - 1) // 2, (p + 1) // 2, p - 1, p - 2)])
    if h:
        return ob.violation(h[0], h[1], note, **tot)
    return res(name, 'undecided', note=note, **tot)


def run(pid):
    c = Check(pid)
    c.bounds = ['every pair / triple of canonical elements of Fq and Fr at full width']
    c.outside = ['FftField::is_even / mod_2_pow_k / mods_2_pow_k, which are defined on the raw limbs']
    c.assumptions = ['for canonical limbs equality of limb vectors is equality of residues (Montgomery form is a bijection, P02)']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py, bvdom.py, lindom.py', 'z3']
    L.setup()
    jobs = []
    for f, p in (('fq', L.FQ), ('fr', L.FR)):
        jobs += [(f + ' pairs', pair, (f, p)), (f + ' triples', triple, (f, p)), (f + ' zero', zero, (f, p)),
                 (f + '_ff_is_odd', linflag, (f + ': ff is_odd is the parity of the value', f + '_ff_is_odd', f, p, 'odd'))]
    jobs.append(('fr_is_odd', linflag, ('fr: is_odd is the parity of the value', 'fr_is_odd', 'fr', L.FR, 'odd')))
    jobs.append(('fq_lexl', linflag, ('fq: lexicographically_largest is value > (q-1)/2', 'fq_lexl', 'fq', L.FQ, 'large')))
    c.add(run_jobs(jobs, timeout=400))
    return c.finish()
