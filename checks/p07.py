"""P07: binary and non-adjacent expansions."""
import z3

import bvdom
import llcheck as L
import symex
from common import Check, TIER, run_jobs
from llcheck import F, In, Ob

PM = {'fq': L.FQ, 'fr': L.FR}


def val(vs, p):
    return vs[0] * pow(L.R256, -1, p) % p if p else vs[0]


def naf_ok(ds, v, lsb_first):
    d = [{0: 0, 1: 1, 2: -1}.get(x, 9) for x in ds]
    if not lsb_first:
        d = d[::-1]
    return all(abs(x) <= 1 for x in d) and sum(x << i for i, x in enumerate(d)) == v and all(not (d[i] and d[i + 1]) for i in range(len(d) - 1))


class NafOb(Ob):
    lsb = False
    p = 0

    def bad(self, vs, got):
        if isinstance(got, str):
            return True
        return not naf_ok(got[1], val(vs, self.p), self.lsb)


class BitOb(Ob):
    p = 0

    def bad(self, vs, got):
        if isinstance(got, str):
            return True
        b = got[1]
        n = self.ins[0].n * 64
        return len(b) != n or b != [(val(vs, self.p) >> i) & 1 for i in reversed(range(n))]


class Repr4(Ob):
    def bad(self, vs, got):
        if isinstance(got, str):
            return True
        v = val(vs, L.FR)
        w = []
        while v:
            w.append(v & 3)
            v >>= 2
        return got[1] != w[::-1]


def prep(n, p, lo, hi):
    """the expansion functions take the value out of Montgomery form first; that step (decided by P02) is replaced by
    a fresh canonical value V, the only input of the digit loop"""
    V = [z3.BitVec('V%d' % j, 64) for j in range(n)]

    def hook(ex, st, args, name):
        for j in range(n):
            ex.write(st, args[0] + 8 * j, 8, V[j])
        return None
    Vc = z3.Concat(*reversed(V))
    return V, Vc, [(r'bits_%d::.*\bmont$' % (64 * n), hook)]


def run1(ob, n, p, lo, hi, claims, timeout=100):
    """claims(Vc, digits) -> [(name, cond)] where Vc is the canonical value in [lo, hi)"""
    if p:
        V, Vc, hooks = prep(n, p, lo, hi)

        def pre(run):
            cs = [z3.ULT(Vc, z3.BitVecVal(p, 64 * n))]
            if hi is not None:
                cs += [z3.UGE(Vc, z3.BitVecVal(lo, 64 * n)), z3.ULT(Vc, z3.BitVecVal(hi, 64 * n))]
            return cs
        # on a counterexample for V the input is V in Montgomery form
        R = 1 << (64 * n)
        r = L.bv_decide(ob, lambda run, st, ret, ov: claims(Vc, ov), timeout=timeout, hooks=hooks, pre=pre, deadline=200 if TIER == "quick" else 1500,
                        cexmap=lambda m: (sum(m.eval(v, model_completion=True).as_long() << (64 * j) for j, v in enumerate(V)) * R % p,))
        return r

    def pre(run):
        Vc = run.cat(run.vals[0])
        return [] if hi is None else [z3.UGE(Vc, z3.BitVecVal(lo, 64 * n)), z3.ULT(Vc, z3.BitVecVal(hi, 64 * n))] if hi < 1 << (64 * n) else [z3.UGE(Vc, z3.BitVecVal(lo, 64 * n))]
    return L.bv_decide(ob, lambda run, st, ret, ov: claims(run.cat(run.vals[0]), ov), timeout=timeout, pre=pre, deadline=200 if TIER == "quick" else 1500)


def b8(x):
    return z3.BitVecVal(x, 8) if type(x) is int else x


def bits_job(name, fn, n, p):
    ob = BitOb(name, fn, [In('p', n, p or None)], ('b', 64 * n), lambda v: (None, None), vec=1)
    ob.p = p

    def claims(Vc, ov):
        N = 64 * n
        if len(ov) != N:
            return [('length %d' % len(ov), False)]
        return [('bits', z3.And(*[b8(ov[N - 1 - i]) == z3.ZeroExt(7, z3.Extract(i, i, Vc)) for i in range(N)]))]
    return run1(ob, n, p, 0, None, claims)


def repr_job(name, fn, lo, hi):
    ob = Repr4(name, fn, [F(L.FR)], ('b', 1), lambda v: (None, None), vec=1)

    def claims(Vc, ov):
        k = len(ov)
        W = 272
        tot = z3.BitVecVal(0, W)
        cs = []
        for i, d in enumerate(reversed(ov)):
            cs.append(z3.ULE(b8(d), 3))
            tot = tot + (z3.ZeroExt(W - 8, b8(d)) << (2 * i))
        return [('digits', z3.And(*cs) if cs else True), ('value', tot == z3.ZeroExt(W - 256, Vc)), ('no leading zero', b8(ov[0]) != 0 if ov else True)]
    return run1(ob, 4, L.FR, lo, hi, claims)


def naf_job(name, fn, n, p, lo, hi, lsb):
    ob = NafOb(name, fn, [In('p', n, p or None)], ('b', 1), lambda v: (None, None), vec=1)
    ob.p, ob.lsb = p, lsb

    def claims(Vc, ov):
        d = [b8(x) for x in (ov if lsb else ov[::-1])]
        W = 64 * n + 8
        if not d:
            return [('value', Vc == 0)]
        if len(d) > W - 4:
            return [('length %d' % len(d), False)]
        plus = z3.Concat(*[z3.BitVecVal(0, W - len(d))] + [z3.If(x == 1, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in reversed(d)])
        minus = z3.Concat(*[z3.BitVecVal(0, W - len(d))] + [z3.If(x == 2, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x in reversed(d)])
        adj = [z3.Or(d[i] == 0, d[i + 1] == 0) for i in range(len(d) - 1)]
        return [('digits', z3.And(*[z3.ULE(x, 2) for x in d])), ('value', plus - minus == z3.ZeroExt(8, Vc)),
                ('non-adjacent', z3.And(*adj) if adj else True)]
    return run1(ob, n, p, lo, hi, claims, timeout=200)


def run(pid):
    c = Check(pid)
    c.bounds = ['every canonical field element (Fq, Fr); bits_256 / bits_384 digit functions: every 256-/384-bit value; value ranges are split by leading bit; bits_256 ranges together cover every value; quick covers the ranges named in the samples for Fq/Fr/bits_384 NAF (top, one middle, bottom), thorough all of them']
    c.outside = ['digit order is the documented one: bits and 256-bit NAF most significant first, 384-bit NAF least significant first']
    c.assumptions = ['leaving Montgomery form (function mont) is replaced by an arbitrary canonical value; its exactness is P02']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py and engine/bvdom.py', 'z3']
    L.setup()
    jobs = []
    for f in ('fq', 'fr'):
        jobs.append((f + '_bits', bits_job, (f + '_bits', f + '_bits', 4, PM[f])))
    jobs.append(('l4_bits', bits_job, ('bits_256::to_bits', 'l4_bits', 4, 0)))
    jobs.append(('l6_bits', bits_job, ('bits_384::to_bits', 'l6_bits', 6, 0)))

    def ranges(top, step):
        k = top
        while k > 0:
            yield (1 << max(0, k - step)) if k > step else 0, 1 << k
            k -= step
    full = TIER == 'thorough'

    def naf(name, fn, n, p, top, step, lsb, keep):
        rs = list(ranges(top, step))
        for k, (lo, hi) in enumerate(rs):
            if full or keep is None or k in keep or k - len(rs) in keep:
                jobs.append((name, naf_job, ('%s [2^%d..2^%d)' % (name, max(0, lo.bit_length() - 1), hi.bit_length() - 1), fn, n, p, lo, hi, lsb)))
    naf('bits_256::to_nafs', 'l4_nafs', 4, 0, 256, 8, False, None)
    naf('fq_nafs', 'fq_nafs', 4, L.FQ, 254, 8, False, (0, 9, -1))
    naf('fr_nafs', 'fr_nafs', 4, L.FR, 254, 8, False, (0, 9, -1))
    naf('bits_384::to_nafs', 'l6_nafs', 6, 0, 384, 12 if full else 3, True, (0, 60, -12, -3, -2, -1))
    for lo, hi in ranges(254, 16):
        jobs.append(('fr_repr4', repr_job, ('fr_repr4 [2^%d..2^%d)' % (max(0, lo.bit_length() - 1), hi.bit_length() - 1), 'fr_repr4', lo, hi)))
    c.add(run_jobs(jobs, timeout=700))
    return c.finish()
