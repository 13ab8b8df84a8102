"""P17: final exponentiation as an exponent computation over recorded steps; the cyclotomic squaring lemma."""
import math
import os
import time

import poly
import symcheck
import z3
from common import Check, res, run_jobs
from p16 import P, R, Odd, native
import paths

N = P ** 12 - 1
EASY = (P ** 6 - 1) * (P ** 2 + 1)


def chain(B, RB):
    name = 'final exponent'
    st = dict(functions=['Fq12::final_exp'])
    why = 'no symbolic build'
    if B:
        why = None
        run = poly.execute(os.path.join(B, 'pairing'), 'fe', {}, seed=1)
        s = z3.Solver()
        val = {}
        side = []
        try:
            if 'DONE' not in run.log:
                raise Odd('no result: %s' % [l for l in run.log if l.startswith('PANIC')][:1])
            var = {}

            def v(n):
                if n == 'one':
                    return z3.IntVal(0), 0
                if n not in var:
                    raise Odd('value of unknown origin')
                return var[n], val[n]
            r = None
            for l in run.log:
                w = l.split(' ')
                if w[0] == 'INPUT':
                    var[w[1]] = z3.Int(w[1])
                    val[w[1]] = 1
                    s.add(var[w[1]] == 1)
                elif w[0] in ('PATH', 'EVENT'):
                    raise Odd('the exponentiation looks at the value: ' + l)
                elif w[0] == 'RESULT':
                    r = w[1]
                elif w[0] == 'TOK':
                    op, t, a = w[1], w[2], w[3:]
                    x, e = v(a[0])
                    if op == 'mul':
                        y, f = v(a[1])
                        k, g = x + y, e + f
                    elif op == 'sqr':
                        k, g = 2 * x, 2 * e
                    elif op == 'cyc':
                        # allowed on the cyclotomic subgroup only: the exponent is a multiple of (p^6-1)(p^2+1)
                        side.append((x, e))
                        k, g = 2 * x, 2 * e
                    elif op == 'conj':
                        k, g = P ** 6 * x, P ** 6 * e
                    elif op == 'frob':
                        m = P ** (int(a[1]) % 12)
                        k, g = m * x, m * e
                    elif op == 'inv':
                        k, g = -x, -e
                    else:
                        raise Odd('operation %s' % op)
                    # reduce modulo p^12 - 1 with a given quotient
                    q = g // N
                    var[t] = z3.Int(t)
                    val[t] = g - q * N
                    s.add(var[t] == k - z3.IntVal(q) * z3.IntVal(N))
            x, e = v(r)
            M = N // R
            if e % M or math.gcd(e // M, R) != 1:
                why = 'final exponent is not a unit multiple of (p^12-1)/r'
            bad = [a for a, b in side if b % EASY]
            if bad:
                why = 'cyclotomic squaring applied to a value outside the cyclotomic subgroup'
            if not why:
                k = e // M
                inv = pow(k, -1, R)
                t0 = time.time()
                # exponents with their quotients and the Bezout identity, decided by the solver
                neg = [x != z3.IntVal(k) * z3.IntVal(M), z3.IntVal(k) * z3.IntVal(inv) + z3.IntVal((1 - k * inv) // R) * z3.IntVal(R) != 1]
                neg += [a != z3.IntVal(b // EASY) * z3.IntVal(EASY) for a, b in side]
                s.add(z3.Or(neg))
                ans = s.check()
                st.update(queries=1, solver_s=time.time() - t0, steps=len(run.log))
                if ans == z3.unsat:
                    return res(name, 'proved', note='exponent = %s... (p^12-1)/r, %d cyclotomic squarings' % (hex(k)[:12], len(side)), **st)
                why = 'solver: %s' % ans
        except Odd as e:
            why = str(e)
    return native(name, why, 'native_fe', RB, st)


def lemma(B, RB):
    name = 'cyclotomic squaring'
    st = dict(functions=['cyclotomic_square'])
    if not B:
        return native(name, 'no symbolic build', 'native_fe', RB, st)
    run = poly.execute(os.path.join(B, 'pairing'), 'cyclemma', {}, seed=1)
    out = {}
    for l in run.log:
        w = l.split(' ')
        if w[0] == 'OUT':
            out[w[2]] = int(w[1])
        if w[0] in ('PATH', 'EVENT', 'PANIC'):
            return native(name, l, 'native_fe', RB, st)
    if len(out) != 24:
        return native(name, 'the shortcut squaring is not used', 'native_fe', RB, st)
    S = poly.Sys(run, P)
    Rg = S.R

    def cm(a, b):
        return (Rg.add(Rg.mul(a[0], b[0]), Rg.mul(a[1], b[1]), -1), Rg.add(Rg.mul(a[0], b[1]), Rg.mul(a[1], b[0])))

    def ca(a, b):
        return (Rg.add(a[0], b[0]), Rg.add(a[1], b[1]))

    def k2(c):
        return (Rg.const(c[0]), Rg.const(c[1]))

    def pm(a, b):
        r = [({}, {}) for _ in range(6)]
        for i in range(6):
            for j in range(6):
                t = cm(a[i], b[j])
                if i + j >= 6:
                    t = cm(t, k2((9, 1)))
                r[(i + j) % 6] = ca(r[(i + j) % 6], t)
        return r
    from p16 import fq2pow

    def frob(a, e):
        g = fq2pow((9, 1), (P ** e - 1) // 6)
        f, r = (1, 0), []
        for i in range(6):
            c = a[i] if e % 2 == 0 else (a[i][0], Rg.neg(a[i][1]))
            r.append(cm(c, k2(f)))
            f = ((f[0] * g[0] - f[1] * g[1]) % P, (f[0] * g[1] + f[1] * g[0]) % P)
        return r
    x = [(S.poly(out['x%d_0' % i]), S.poly(out['x%d_1' % i])) for i in range(6)]
    one = [k2((1, 0))] + [({}, {})] * 5
    rel = []
    # x in the cyclotomic subgroup: x^(p^6) x = 1 and x^(p^4) x = x^(p^2)
    for l, r in ((pm(x, frob(x, 6)), one), (pm(x, frob(x, 4)), frob(x, 2))):
        for i in range(6):
            for k in range(2):
                rel.append(Rg.add(l[i][k], r[i][k], -1))
    S.hyps = [h for h in rel if h]
    sq = pm(x, x)
    t0 = time.time()
    goals = 0
    for i in range(6):
        for k in range(2):
            n = out['y%d_%d' % (i, k)]
            y = S.poly(n)
            d = Rg.add(y, sq[i][k], -1)
            c = S.lincomb(d)
            if c is None:
                st.update(queries=S.queries, solver_s=S.solver_s)
                return native(name, 'component %d.%d of the shortcut is not the square on the cyclotomic subgroup' % (i, k), 'native_fe', RB, st)
            # y = x^2 + sum c h, decided by the solver
            if not S.solve(n, [('node', n)], [({0: 1}, sq[i][k])] + c, None, 60):
                return res(name, 'undecided', note='solver', **st)
            goals += 1
    st.update(queries=S.queries, solver_s=S.solver_s)
    return res(name, 'proved', note='%d components, %d relations' % (goals, len(rel)), **st)


def run(pid):
    c = Check(pid)
    c.bounds = ['all nonzero elements of Fq12 (one exponent, independent of the element); all elements of the cyclotomic subgroup for the shortcut squaring']
    c.outside = ['the zero element (no result is promised)']
    c.assumptions = symcheck.ASSUME + ['Fq12 multiplication, inversion, conjugation and Frobenius maps are those of the field (P14, P15)']
    c.trusted += symcheck.TRUST
    B, RB, notes = symcheck.build(['pairing'], ['zkstd', 'bn254'])
    for n in notes:
        print('note: ' + n)
    c.add(run_jobs([('final exponent', chain, (B, RB)), ('cyclotomic squaring', lemma, (B, RB))], timeout=400, verbose=False))
    return c.finish()
