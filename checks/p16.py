"""P16: Miller loop. Step lemmas over symbolic points; the loop as a divisor computation over the recorded steps."""
import os
import time

import common
import paths
import poly
import symcheck
import z3
from common import Check, res, run_jobs
from p10 import FIELD
from symcheck import spec

P = FIELD['g1']
R = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
U = 4965661367192848881


class Odd(Exception):
    pass


def fq2pow(a, n):
    def mul(x, y):
        return ((x[0] * y[0] - x[1] * y[1]) % P, (x[0] * y[1] + x[1] * y[0]) % P)
    r = (1, 0)
    while n:
        if n & 1:
            r = mul(r, a)
        a = mul(a, a)
        n >>= 1
    return r


class Log:
    """reads a recorded loop: running points as multiples of Q, the accumulator as a divisor modulo vertical lines"""

    def __init__(self, run):
        self.run = run
        self.S = poly.Sys(run, P)
        self.pairs, self.pts, self.coef, self.q = {}, {}, {}, {}
        self.goals = 0
        self.tok = {'one': {}}
        self.fe = {}
        self.result = None
        self.cons = []
        self.S0 = z3.Solver()
        for l in run.log:
            self.line(l)

    def node(self, s):
        """polynomial of a logged coordinate"""
        if s[0] == 'n':
            return int(s[1:])
        return ('c', int(s, 16) * pow(1 << 256, -1, P) % P)

    def poly(self, s):
        n = self.node(s)
        return self.S.R.const(n[1]) if isinstance(n, tuple) else self.S.poly(n)

    def same(self, s, want):
        """coordinate s equals the polynomial, decided by the solver"""
        R_ = self.S.R
        a = self.poly(s)
        if R_.add(a, want, -1):
            return False
        self.goals += 1
        n = self.node(s)
        if isinstance(n, tuple):
            return True
        return self.S.solve(n, [('node', n)], [({0: 1}, want)] if want else [], None, 60)

    def const2(self, c, v, neg=False):
        """c * (v0 + u v1) or c * conj, as polynomials"""
        R_ = self.S.R
        a, b = R_.var(v[0]), R_.var(v[1])
        if neg:
            b = R_.neg(b)
        m = lambda k, x: R_.mul(R_.const(k), x)
        return (R_.add(m(c[0], a), m(-c[1] % P, b)), R_.add(m(c[0], b), m(c[1], a)))

    def index_of(self, k, xy):
        """multiple of Q_k (mod r) that the coordinates denote"""
        x, y = [c.split(',') for c in xy.split(';')]
        vx, vy = ['q%dx%d' % (k, i) for i in (0, 1)], ['q%dy%d' % (k, i) for i in (0, 1)]
        if not all(v in [nd[2] for nd in self.run.nodes if nd[0] == 'V'] for v in vx + vy):
            raise Odd('coordinates')
        for e in range(4):
            # pi^e: (conj^e x * xi^((p^e-1)/3), conj^e y * xi^((p^e-1)/2))
            cx, cy = fq2pow((9, 1), (P ** e - 1) // 3), fq2pow((9, 1), (P ** e - 1) // 2)
            X = self.const2(cx, vx, e % 2 == 1)
            for sg in (1, -1):
                Y = self.const2((cy[0] * sg % P, cy[1] * sg % P), vy, e % 2 == 1)
                if all(self.same(s, w) for s, w in zip(x + y, X + Y)):
                    return sg * pow(P, e, R) % R
        return None

    def line(self, l):
        w = l.split(' ')
        if w[0] == 'PAIR':
            self.pairs[w[2]] = int(w[1])
        elif w[0] == 'Q':
            self.cur = int(w[1])
        elif w[0] == 'PATH' or w[0] == 'EVENT':
            raise Odd('the loop looks at the points: ' + l)
        elif w[0] == 'STEP':
            T = w[2]
            if T not in self.pts:
                x, y, z = T.split(';')
                if not (self.same(z.split(',')[0], {0: 1}) and self.same(z.split(',')[1], {})):
                    raise Odd('running point of unknown origin')
                for k in range(8):
                    if 'q%dx0' % k not in [nd[2] for nd in self.run.nodes if nd[0] == 'V']:
                        continue
                    i = self.index_of(k, x + ';' + y)
                    if i is not None:
                        self.pts[T] = (k, i)
                        break
                else:
                    raise Odd('running point of unknown origin')
            k, n = self.pts[T]
            if w[1] == 'D':
                m = n
            else:
                m = self.index_of(k, w[3])
                if m is None:
                    raise Odd('added point is not a Frobenius image of Q')
                # the step lemma needs different abscissas
                if (n - m) % R == 0 or (n + m) % R == 0:
                    raise Odd('degenerate addition')
            if n % R == 0:
                raise Odd('degenerate step')
            s = (n + m) % R
            self.pts[w[4]] = (k, s)
            # divisor of the line: (n) + (m) - (n + m) - (O), modulo verticals
            self.coef[w[5]] = (k, n, m, s)
        elif w[0] == 'TOK':
            self.token(w[1:])
        elif w[0] == 'RESULT':
            self.result = w[1]

    def cls(self, n):
        """(class, sign): (-A) = -(A) + 2 (O) modulo verticals"""
        n %= R
        return (0, 1) if n == 0 else (n, 1) if n <= R // 2 else (R - n, -1)

    def token(self, w):
        op, r, args = w[0], w[1], w[2:]
        if op == 'sqr' or op == 'cyc':
            a = self.get(args[0])
            self.tok[r] = {k: 2 * v for k, v in a.items()}
        elif op == 'mul':
            a, b = self.get(args[0]), self.get(args[1])
            self.tok[r] = {k: a.get(k, 0) + b.get(k, 0) for k in set(a) | set(b)}
        elif op == 'line':
            a = dict(self.get(args[0]))
            if args[1] not in self.coef:
                raise Odd('line of unknown origin')
            if args[2] not in self.pairs:
                raise Odd('line evaluated at another point')
            k, n, m, s = self.coef[args[1]]
            p = self.pairs[args[2]]
            for x, c in ((n, 1), (m, 1), (s, -1), (0, -1)):
                t, sg = self.cls(x)
                a[(p, k, t)] = a.get((p, k, t), 0) + c * sg
                if sg < 0:
                    a[(p, k, 0)] = a.get((p, k, 0), 0) + 2 * c
            self.tok[r] = a
        elif op == 'fe':
            self.fe[r] = args[0]
        else:
            raise Odd('operation %s in the loop' % op)

    def get(self, n):
        if n not in self.tok:
            raise Odd('accumulator of unknown origin')
        return self.tok[n]

    def expect(self, live):
        e = {}
        a, b, c = (6 * U + 2) % R, P % R, -P * P % R
        s = (a + b + c) % R
        for k in live:
            for x, m in ((1, 6 * U + 2), (b, 1), (c, 1), (s, -1), (0, -(6 * U + 3))):
                t, sg = self.cls(x)
                e[(k, k, t)] = e.get((k, k, t), 0) + m * sg
                if sg < 0:
                    e[(k, k, 0)] = e.get((k, k, 0), 0) + 2 * m
        return e

    def verdict(self, name, live):
        """solver: the accumulated divisor is that of the optimal ate functions of the live pairs"""
        got = self.get(name)
        want = self.expect(live)
        s = z3.Solver()
        neq = []
        for i, k in enumerate(sorted(set(got) | set(want))):
            g, h = z3.Int('g%d' % i), z3.Int('h%d' % i)
            s.add(g == got.get(k, 0), h == want.get(k, 0))
            neq.append(g != h)
        s.add(z3.Or(neq) if neq else z3.BoolVal(False))
        t = time.time()
        r = s.check()
        return r == z3.unsat, time.time() - t


def loop(name, jb, arg, B, RB):
    st = dict(functions=[jb], queries=0, solver_s=0.0)
    why = None
    if not B:
        why = 'no symbolic build'
    else:
        run = poly.execute(os.path.join(B, 'pairing'), jb, {}, seed=1, args=[arg] if arg else [])
        try:
            if 'DONE' not in run.log:
                raise Odd('no result: %s' % [l for l in run.log if l.startswith('PANIC')][:1])
            L = Log(run)
            live = [i for i, k in enumerate(arg) if k == 'p']
            r = L.result
            if jb == 'pairing':
                if live:
                    if r not in L.fe:
                        raise Odd('the result is not a final exponentiation')
                    r = L.fe[r]
            if not live:
                if r != 'one':
                    raise Odd('value with identities is not one')
                ok, t = True, 0.0
            else:
                ok, t = L.verdict(r, live)
            st.update(queries=L.S.queries + 1, solver_s=L.S.solver_s + t, steps=len(run.log))
            if not ok:
                why = 'the accumulated divisor is not that of the pairing'
        except Odd as e:
            why = str(e)
    if why is None:
        return res(name, 'proved', note='divisor equals (6u+2)(Q)+(pi Q)+(-pi^2 Q)-(S)-(6u+3)(O) for every live pair', **st)
    return native(name, why, 'native', RB, st)


def native(name, why, jb, RB, st):
    """replay on the unmodified crates: a violation only when the guarantee itself fails there"""
    if RB:
        bad, text = paths.replay(os.path.join(RB, 'pairing'), jb, [], {}, timeout=300)
        if bad:
            return res(name, 'violation', note='%s; on the real crates: %s fails' % (why, text), job=jb, args=[], inputs={}, replayed=1, **st)
    return res(name, 'undecided', note=why, **st)


def run(pid):
    c = Check(pid)
    c.bounds = ['all points with symbolic coordinates; up to 3 pairs with every placement of identities (4^n placements up to n = 2, selected ones for n = 3)']
    c.outside = ['more than 3 pairs', 'points outside the order-r subgroup of the twist (running point degenerate)']
    c.assumptions = ['Vercauteren: a function with divisor (6u+2)(Q)+(pi Q)+(-pi^2 Q)-(S)-(6u+3)(O) modulo verticals, evaluated at P and raised to (p^12-1)/r, is the optimal ate pairing',
                     'pi acts on the order-r subgroup of the twist as multiplication by p', 'scalings by Fq2 and vertical lines vanish in the final exponentiation']
    S = [spec('tangent step', 'pairing', 'dbl', [], P, functions=['G2Projective::double_eval', 'Fq12::untwist']),
         spec('chord step', 'pairing', 'add', [], P, functions=['G2Projective::add_eval', 'Fq12::untwist']),
         spec('line product', 'pairing', 'mulline', [], P, functions=['Fq12::untwist', 'Fq12::mul_by_034'])]
    B, RB, notes = symcheck.build(['pairing'], ['zkstd', 'bn254'])
    for n in notes:
        print('note: ' + n)
    c.trusted += symcheck.TRUST
    c.assumptions += symcheck.ASSUME
    jobs = [(s['name'], symcheck.job, (s, B, RB)) for s in S]
    K = 'plrb'
    args = [''] + [a for a in K] + [a + b for a in K for b in K] + ['ppp', 'plp', 'ppr', 'lpp', 'rlp', 'pbp', 'plr', 'lrb']
    for a in args:
        jobs.append(('Miller loop [%s]' % a, loop, ('Miller loop [%s]' % a, 'loop', a, B, RB)))
    for a in K:
        jobs.append(('pairing [%s]' % a, loop, ('pairing [%s]' % a, 'pairing', a, B, RB)))
    c.add(run_jobs(jobs, timeout=300, verbose=False))
    return c.finish()
