"""P02: multiplication, squaring and Montgomery conversion."""
import llcheck as L
from common import Check, run_jobs
from llcheck import F, In, Ob, linval, linprod, lin_exact

MOD = {'fq': (L.FQ, 4), 'fr': (L.FR, 4), 'jj': (L.JJ, 4), 'blr': (L.BLR, 4), 'blq': (L.BLQ, 6)}


def job(ob, op, p, n):
    R = 1 << (64 * n)
    if op == 'mul':
        def target(d, v):
            T = linprod(d, v[0], v[1])
            return T, [(T, (p - 1) ** 2)]
        return lin_exact(ob, target, p, R)
    if op == 'sq':
        def target(d, v):
            T = linprod(d, v[0], v[0])
            return T, [(T, (p - 1) ** 2)]
        return lin_exact(ob, target, p, R)
    if op == 'mont':      # value * R^-1 for any double-width value below p*R
        return lin_exact(ob, lambda d, v: (linval(d, v[0]), []), p, R)
    if op == 'tomont':    # value * R for any value below p
        return lin_exact(ob, lambda d, v: (linval(d, v[0]), []), p, pow(R, -1, p))
    if op == 'reduce':
        return lin_exact(ob, lambda d, v: (linval(d, v[0]), []), p, R)


def run(pid):
    c = Check(pid)
    c.bounds = ['every pair of canonical limb vectors (256-bit: 4 limbs, 384-bit: 6 limbs); Montgomery reduction: every double-width value below p*R; conversion: every 4-limb value below p']
    c.outside = ['non-canonical operands', 'moduli other than the five listed in DESIGN.md']
    c.assumptions = ['a limb product is encoded as an integer atom with its exact range; the solver also gets sum of products <= (p-1)^2, '
                     'which follows from both operands being at most p-1']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py and engine/lindom.py', 'z3']
    L.setup()
    jobs = []
    for f, (p, n) in MOD.items():
        Ri = pow(1 << (64 * n), -1, p)
        R = 1 << (64 * n)
        ms = ['%s_mul' % f]
        ss = ['%s_square' % f] + (['%s_square_assign' % f] if f in ('fq', 'fr') else [])
        for fn in ms:
            if 1: jobs.append((fn, job, (Ob(fn, fn, [F(p, n), F(p, n)], ('p', n), lambda v, p=p, Ri=Ri: (None, v[0] * v[1] * Ri % p)), 'mul', p, n)))
        for fn in ss:
            jobs.append((fn, job, (Ob(fn, fn, [F(p, n)], ('p', n), lambda v, p=p, Ri=Ri: (None, v[0] * v[0] * Ri % p)), 'sq', p, n)))
        if f in ('blr', 'blq'):
            fn = f + '_mont'
            jobs.append((fn, job, (Ob(fn, fn, [In('p', 2 * n, p * R)], ('p', n), lambda v, p=p, Ri=Ri: (None, v[0] * Ri % p)), 'mont', p, n)))
        if f in ('fq', 'fr'):
            fn = f + '_to_mont'
            jobs.append((fn, job, (Ob(fn, fn, [In('p', n, p)], ('p', n), lambda v, p=p, R=R: (None, v[0] * R % p)), 'tomont', p, n)))
    fn = 'fr_reduce'
    jobs.append((fn, job, (Ob(fn, fn, [F(L.FR)], ('p', 4), lambda v: (None, v[0] * pow(L.R256, -1, L.FR) % L.FR)), 'reduce', L.FR, 4)))
    for k in ('fq', 'fr'):
        p = MOD[k][0]
        fn = k + '_to_bytes'
        jobs.append((fn + ' (out of Montgomery form)', job, (Ob(fn + ' (out of Montgomery form)', fn, [F(p)], ('b', 32), lambda v, p=p: (None, v[0] * pow(L.R256, -1, p) % p)), 'reduce', p, 4)))
    c.add(run_jobs(jobs, timeout=400))
    return c.finish()
