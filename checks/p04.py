"""P04: every operator form of the field types."""
import llcheck as L
from common import Check, run_jobs
from llcheck import F, In, Ob, linval, linprod, lin_exact

R = L.R256


def job(ob, op, p):
    if op == 'mul':
        def target(d, v):
            T = linprod(d, v[0], v[1])
            return T, [(T, (p - 1) ** 2)]
        return lin_exact(ob, target, p, R)
    if op in ('add', 'sub'):
        return lin_exact(ob, lambda d, v: (d.add(linval(d, v[0]), linval(d, v[1]), 1 if op == 'add' else -1), []), p, 1)
    if op == 'neg':
        return lin_exact(ob, lambda d, v: (d.scale(linval(d, v[0]), -1), []), p, 1)
    if op in ('zero', 'one'):
        return lin_exact(ob, lambda d, v: (d.lin(0 if op == 'zero' else R % p), []), p, 1)
    raise AssertionError(op)


def run(pid):
    c = Check(pid)
    c.bounds = ['every operator form (value/reference/mixed/assign) of + - * and unary -, for every pair of canonical operands; '
                'iterator sum and product over two elements (the fold step); neutral-element constants']
    c.outside = ['division forms are decided by P08', 'iterator sums of more than two elements (each step is the same fold)']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py and engine/lindom.py', 'z3']
    L.setup()
    jobs = []
    for f, p in (('fq', L.FQ), ('fr', L.FR)):
        Ri = pow(R, -1, p)
        spec = {'add': lambda v, p=p: (None, (v[0] + v[1]) % p), 'sub': lambda v, p=p: (None, (v[0] - v[1]) % p),
                'mul': lambda v, p=p, Ri=Ri: (None, v[0] * v[1] * Ri % p)}
        for op in ('add', 'sub', 'mul'):
            for form, txt in (('rr', '&a%s&b'), ('rv', '&a%sb'), ('vr', 'a%s&b'), ('av', 'a%s=b'), ('ar', 'a%s=&b')):
                n = '%s_%s_%s' % (f, op, form)
                nm = '%s: %s' % (f, txt % {'add': '+', 'sub': '-', 'mul': '*'}[op])
                jobs.append((nm, job, (Ob(nm, n, [F(p), F(p)], ('p', 4), spec[op]), op, p)))
        jobs.append((f + ': iter().sum()', job, (Ob(f + ': iter().sum()', f + '_sum', [F(p), F(p)], ('p', 4), spec['add']), 'add', p)))
        jobs.append((f + ': iter().product()', job, (Ob(f + ': iter().product()', f + '_prod', [F(p), F(p)], ('p', 4), spec['mul']), 'mul', p)))
        jobs.append((f + ': -&a', job, (Ob(f + ': -&a', f + '_neg_r', [F(p)], ('p', 4), lambda v, p=p: (None, -v[0] % p)), 'neg', p)))
        for n, op in (('zero', 'zero'), ('one', 'one'), ('one_c', 'one'), ('aid', 'zero'), ('mid', 'one')):
            nm = '%s: %s' % (f, {'zero': 'zero()', 'one': 'Ring::one()', 'one_c': 'one()', 'aid': 'ADDITIVE_IDENTITY', 'mid': 'MULTIPLICATIVE_IDENTITY'}[n])
            val = 0 if op == 'zero' else R % p
            jobs.append((nm, job, (Ob(nm, '%s_%s' % (f, n), [], ('p', 4), lambda v, val=val: (None, val)), op, p)))
    c.add(run_jobs(jobs, timeout=400))
    return c.finish()
