"""P01: addition, subtraction, negation, doubling (fields and exported limb arithmetic)."""
import z3

import llcheck as L
from common import Check, run_jobs
from llcheck import F, Ob, linval, lin_exact


def job(ob, op, p):
    def target(d, v):
        a = linval(d, v[0])
        if op == 'neg':
            return d.scale(a, -1), []
        if op == 'dbl':
            return d.scale(a, 2), []
        b = linval(d, v[1])
        return d.add(a, b, 1 if op == 'add' else -1), []
    r = lin_exact(ob, target, p, 1)
    if r['status'] == 'undecided':
        r = L.bv_decide(ob, lambda run, st, ret, ov: claims(run, ov, op, p), timeout=200)
    return r


def claims(run, ov, op, p):
    v = [z3.ZeroExt(8, run.cat(x)) for x in run.vals]
    P = z3.BitVecVal(p, v[0].size())
    if op == 'add':
        e = v[0] + v[1]
    elif op == 'dbl':
        e = v[0] + v[0]
    elif op == 'sub':
        e = v[0] + P - v[1]
    else:
        e = P - v[0]
    return [('value', z3.ZeroExt(8, run.cat(ov)) == z3.If(z3.UGE(e, P), e - P, e))]


SPEC = {'add': lambda p: lambda v: (None, (v[0] + v[1]) % p), 'sub': lambda p: lambda v: (None, (v[0] - v[1]) % p),
        'neg': lambda p: lambda v: (None, -v[0] % p), 'dbl': lambda p: lambda v: (None, 2 * v[0] % p)}
FNS = {'fq': [('fq_add', 'add'), ('fq_sub', 'sub'), ('fq_neg', 'neg'), ('fq_double', 'dbl'), ('fq_double_assign', 'dbl'), ('fq_add_const', 'add')],
       'fr': [('fr_add', 'add'), ('fr_sub', 'sub'), ('fr_neg', 'neg'), ('fr_double', 'dbl'), ('fr_double_assign', 'dbl'), ('fr_add_const', 'add')],
       'jj': [('jj_add', 'add'), ('jj_sub', 'sub'), ('jj_neg', 'neg'), ('jj_double', 'dbl')],
       'blr': [('blr_add', 'add'), ('blr_sub', 'sub'), ('blr_neg', 'neg'), ('blr_double', 'dbl')],
       'blq': [('blq_add', 'add'), ('blq_sub', 'sub'), ('blq_neg', 'neg'), ('blq_double', 'dbl')]}
MOD = {'fq': (L.FQ, 4), 'fr': (L.FR, 4), 'jj': (L.JJ, 4), 'blr': (L.BLR, 4), 'blq': (L.BLQ, 6)}


def run(pid):
    c = Check(pid)
    c.bounds = ['every pair of canonical limb vectors (all values below the modulus, 256-bit: 4 limbs, 384-bit: 6 limbs); no loop bound is cut']
    c.outside = ['inputs that are not reduced below the modulus', 'moduli other than BN254 q and r, the Jubjub and BLS12-381 scalar moduli (256-bit) and the BLS12-381 base modulus (384-bit)']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py and engine/lindom.py', 'z3']
    L.setup()
    jobs = []
    for f, fns in FNS.items():
        p, n = MOD[f]
        for fn, op in fns:
            ins = [F(p, n)] if op in ('neg', 'dbl') else [F(p, n), F(p, n)]
            ob = Ob(fn, fn, ins, ('p', n), SPEC[op](p))
            jobs.append((fn, job, (ob, op, p)))
    c.add(run_jobs(jobs, timeout=300))
    return c.finish()
