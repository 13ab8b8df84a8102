"""P06: integer-to-field conversions, wide reductions, conversions between the fields."""
import z3

import lindom
import llcheck as L
import symex
from common import Check, run_jobs
from llcheck import F, In, Ob, linval, lin_exact

R = L.R256


def canon_cut(p):
    """canonicity of the result with every call of bits_256::mul(x, c, p, inv), c a constant below p, replaced by an
    arbitrary canonical value; that such a call gives one for every 256-bit x is the obligation 'mul (any left operand)'"""
    def canon(ob, outmod, timeout, tot):
        d = lindom.LinDom(400)
        extra = []
        cut = []

        def hook(ex, st, args, name):
            def val(a):
                ws = [ex.read(st, a + 8 * j, 8) for j in range(4)]
                if any(type(w) is not int for w in ws):
                    raise symex.Unsupported('mul is called with a symbolic second operand')
                return sum(w << (64 * j) for j, w in enumerate(ws))
            if val(args[3]) != p or val(args[2]) >= p or args[4] * p % 2**64 != 2**64 - 1:
                raise symex.Unsupported('mul is called with other parameters')
            k = len(cut)
            vs = [d.var('m%d_%d' % (k, j), 64) for j in range(4)]
            for j, v in enumerate(vs):
                ex.write(st, args[0] + 8 * j, 8, v)
            cut.append(linval(d, vs))
            return None
        run = L.Run(ob, d, hooks=[(r'bits_256::.*\bmul$', hook)])
        outs = run.go()
        if not cut or run.ex.panics:
            raise symex.Unsupported('no call of mul was cut')
        r = z3.unsat
        for st, ret, ov in outs:
            Rv = linval(d, ov)
            q = L.LinQ(d)
            pcs = [c for c in st.pc if type(c) is not int]
            r2, _ = q.check([Rv] + cut + pcs, [q.tm(e) <= p - 1 for e in cut] + [q.tm(c) == 1 for c in pcs] + [q.tm(Rv) >= outmod], timeout)
            tot['queries'] += q.queries
            tot['solver_s'] += q.solver_s
            if r2 != z3.unsat:
                r = r2
        return r
    return canon


def wide(ob, p):
    try:
        r = lin_exact(ob, lambda d, v: (linval(d, v[0], 8), []), p, pow(R, -1, p), canon=canon_cut(p))
        if r['status'] != 'undecided':
            return r
    except Exception:
        pass
    return lin_exact(ob, lambda d, v: (linval(d, v[0], 8), []), p, pow(R, -1, p), timeout=150)


def mulany(ob, p):
    def target(d, v):
        T = L.linprod(d, v[0], v[1])
        return T, [(T, (R - 1) * (p - 1))]
    return lin_exact(ob, target, p, R)


def job(ob, p, w):
    # out is the Montgomery form of the integer: out * R^-1 == value (mod p)
    return lin_exact(ob, lambda d, v: (linval(d, v[0], w), []), p, pow(R, -1, p))


def conv(ob, src, psrc, pdst):
    def target(d, v):
        bs = L.call_in(d, src + '_to_bytes', v, [F(psrc)], ('b', 32))
        V = linval(d, bs, 8)
        return V, [(V, psrc - 1)]   # to_bytes is canonical (P02)
    return lin_exact(ob, target, pdst, pow(R, -1, pdst))


def run(pid):
    c = Check(pid)
    c.bounds = ['From<u64>: every u64; from_bytes_wide and from_hash: every 64-byte string (2^512 values); Fr->Fq and Fq->Fr: every canonical element; to_mont_form: every 256-bit limb vector']
    c.outside = ['Group::random, which feeds from_u512 with caller-supplied randomness', 'From<[u64;4]>, which takes raw limbs by definition']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py and engine/lindom.py', 'z3']
    L.setup()
    jobs = []
    for f, p in (('fq', L.FQ), ('fr', L.FR)):
        sp = lambda v, p=p: (None, v[0] * R % p)
        n = f + '_from_u64'
        jobs.append((n, job, (Ob(n, n, [In('w', 1)], ('p', 4), sp), p, 64)))
        n = f + '_wide'
        jobs.append((n, wide, (Ob(n, n, [In('b', 64)], ('p', 4), sp), p)))
        n = f + '_mul'
        nm = n + ' (any 256-bit left operand)'
        jobs.append((nm, mulany, (Ob(nm, n, [In('p', 4), F(p)], ('p', 4), lambda v, p=p: (None, v[0] * v[1] * pow(R, -1, p) % p)), p)))
        n = f + '_to_mont'
        nm = n + ' (any 256-bit value)'
        jobs.append((nm, job, (Ob(nm, n, [In('p', 4)], ('p', 4), sp), p, 64)))
    n = 'fr_from_hash'
    jobs.append((n, wide, (Ob(n, n, [In('b', 64)], ('p', 4), lambda v: (None, v[0] * R % L.FR)), L.FR)))
    for n, s, a, b in (('fr_to_fq', 'fr', L.FR, L.FQ), ('fq_to_fr', 'fq', L.FQ, L.FR)):
        jobs.append((n, conv, (Ob(n, n, [F(a)], ('p', 4), lambda v, a=a, b=b: (None, (v[0] * pow(R, -1, a) % a) * R % b)), s, a, b)))
    c.add(run_jobs(jobs, timeout=400))
    return c.finish()
