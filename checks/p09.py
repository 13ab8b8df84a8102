"""P09: scalar multiplication."""
import os
import time

import z3

import common
import lindom
import llcheck as L
import symex
import tok
from common import Check, TIER, res, run_jobs
from p08 import words

FJ = 0x0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7
# curve: (coordinate field, extension degree, projective words, affine words, affine bytes, scalar modulus, kind)
CURVES = {
    'g1': dict(p=L.FQ, deg=1, pw=12, aw=8, ab=72, r=L.FR, ed=False, name='G1'),
    'g2': dict(p=L.FQ, deg=2, pw=24, aw=16, ab=136, r=L.FR, ed=False, name='G2'),
    'gr': dict(p=L.FR, deg=1, pw=12, aw=8, ab=72, r=L.FQ, ed=False, name='Grumpkin'),
    'jj': dict(p=L.BLR, deg=1, pw=16, aw=8, ab=64, r=L.BLR, ed=True, name='Jubjub'),
}
FORMS = {'pk': 'P * k', 'kp': 'k * P', 'ak': 'A * k', 'ka': 'k * A', 'rpk': '&P * &k', 'rkp': '&k * &P', 'rak': '&A * &k',
         'rka': '&k * &A', 'pa': 'P *= k'}


# ---- an independent concrete model of the curves (for candidates and replay) -----------------------------------
class Fp:
    pass


def fmul(c, a, b):
    p = c['p']
    if c['deg'] == 1:
        return (a[0] * b[0] % p,)
    return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)


def fadd(c, a, b, k=1):
    return tuple((x + k * y) % c['p'] for x, y in zip(a, b))


def finv(c, a):
    p = c['p']
    if c['deg'] == 1:
        return (pow(a[0], -1, p),)
    n = pow(a[0] * a[0] + a[1] * a[1], -1, p)
    return (a[0] * n % p, -a[1] * n % p)


def k(c, x):
    return (x % c['p'],) + (0,) * (c['deg'] - 1)


def cadd(c, P, Q):
    if c['ed']:
        p = c['p']
        d = c['d']
        (x1,), (y1,) = P
        (x2,), (y2,) = Q
        t = d * x1 * x2 * y1 * y2 % p
        return (((x1 * y2 + y1 * x2) * pow(1 + t, -1, p) % p,), ((y1 * y2 + x1 * x2) * pow(1 - t, -1, p) % p,))
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if fadd(c, P[1], Q[1]) == k(c, 0):
            return None
        m = fmul(c, fmul(c, k(c, 3), fmul(c, P[0], P[0])), finv(c, fadd(c, P[1], P[1])))
    else:
        m = fmul(c, fadd(c, Q[1], P[1], -1), finv(c, fadd(c, Q[0], P[0], -1)))
    x = fadd(c, fadd(c, fmul(c, m, m), P[0], -1), Q[0], -1)
    return (x, fadd(c, fmul(c, m, fadd(c, P[0], x, -1)), P[1], -1))


def cmul(c, n, P):
    R = ((0,), (1,)) if c['ed'] else None
    for b in bin(n)[2:] if n else '':
        R = cadd(c, R, R)
        if b == '1':
            R = cadd(c, R, P)
    return R


def base(c, which):
    if c['ed']:
        p = c['p']
        c['d'] = 0x2a9318e74bfa2b48f5fd9207e6bd7fd4292d7f6d37579d2601065fd6d6343eb1
        g = ((0x3fd2814c43ac65a6f1fbf02d0fd6cce62e3ebb21fd6c54ed4df7b7ffec7beaca,), (0x12,))
        return g
    if which == 'g1':
        return ((1,), (2,))
    if which == 'gr':
        p = c['p']
        return ((1,), (sqrt(p, (1 - 17) % p),))
    # a point of G2's curve: y^2 = x^3 + 3/(9+u); its order does not matter for scalars that are not reduced, but scalars
    # are below r, so any point will do
    b = fmul(c, k(c, 3), finv(c, (9, 1)))
    x = 1
    while True:
        X = (x, 1)
        y2 = fadd(c, fmul(c, X, fmul(c, X, X)), b)
        y = sqrt2(c, y2)
        if y is not None:
            return (X, y)
        x += 1


def sqrt(p, a):
    if p % 4 == 3:
        r = pow(a, (p + 1) // 4, p)
        return r if r * r % p == a else None
    # Tonelli-Shanks
    s, t = 0, p - 1
    while t % 2 == 0:
        s, t = s + 1, t // 2
    z = next(x for x in range(2, 100) if pow(x, (p - 1) // 2, p) == p - 1)
    m, c, tt, r = s, pow(z, t, p), pow(a, t, p), pow(a, (t + 1) // 2, p)
    while tt != 1:
        i, u = 0, tt
        while u != 1:
            u = u * u % p
            i += 1
            if i == m:
                return None
        b = pow(c, 1 << (m - i - 1), p)
        m, c, tt, r = i, b * b % p, tt * b * b % p, r * b % p
    return r if r * r % p == a else None


def sqrt2(c, a):
    p = c['p']
    n = sqrt(p, (a[0] * a[0] + a[1] * a[1]) % p)
    if n is None:
        return None
    for s in (n, -n):
        x = sqrt(p, (a[0] + s) * pow(2, -1, p) % p)
        if x:
            y = a[1] * pow(2 * x, -1, p) % p
            if fmul(c, (x, y), (x, y)) == a:
                return (x, y)
    return None


def enc(c, f, aff):
    R = L.R256
    m = lambda e: b''.join((x * R % c['p']).to_bytes(32, 'little') for x in e)
    x, y = f
    if aff:
        return (m(x) + m(y)).ljust(c['ab'], b'\0')
    if c['ed']:
        z = k(c, 7)     # a non-trivial projective representative
        return m(fmul(c, x, z)) + m(fmul(c, y, z)) + m(fmul(c, fmul(c, x, y), z)) + m(z)
    z = k(c, 7)
    return m(fmul(c, x, z)) + m(fmul(c, y, z)) + m(z)


def dec(c, b):
    Ri = pow(L.R256, -1, c['p'])
    vs = [int.from_bytes(b[32 * j:32 * j + 32], 'little') * Ri % c['p'] for j in range(len(b) // 32)]
    es = [tuple(vs[j:j + c['deg']]) for j in range(0, len(vs), c['deg'])]
    x, y, z = es[0], es[1], es[-1]
    if z == k(c, 0):
        return None
    zi = finv(c, z)
    return (fmul(c, x, zi), fmul(c, y, zi))


def hunt(cn, form, extra=()):
    """native results against the independent model; only used to confirm a solver counterexample"""
    c = CURVES[cn]
    G = base(c, cn)
    g = common.rng('P09', cn, form)
    r = c['r']
    ks = list(extra) + [0, 1, 2, 3, 5, 6, 7, 11, 13, 23, 27, 2**64 - 1, 2**64, 2**128 + 5, r - 1, r - 2, r // 2, r // 3] + [g.randrange(r) for _ in range(12)]
    calls = []
    aff = form.strip('r')[0:1] == 'a' or form in ('ka', 'rka')
    for s in ks:
        P = G
        calls.append((cn + '_' + form, [enc(c, P, aff), (s * L.R256 % r).to_bytes(32, 'little')], 8 * c['pw'], False))
    for s, got in zip(ks, L.NAT.batch(calls, timeout=20)):
        want = cmul(c, s, G)
        if isinstance(got, str):
            return s, got, want
        if dec(c, got[1]) != want:
            return s, dec(c, got[1]), want
    return None


# ---- tokens ----------------------------------------------------------------------------------------------------
class Mult(tok.LinSpace):
    """integer multiples of one symbolic point"""

    def same(self, a, b):
        if a is b:
            return True
        e = self.dom.add(a, b, -1)
        return not e.t and e.c == 0

    def symbolic(self, E):
        return True

    def ite(self, c, a, b):
        return self.dom.ite(c, a, b, 1024)

    def equal(self, a, b):
        return None

    def key(self, E):
        return E.key() if isinstance(E, lindom.Lin) else E


def job(cn, form, Ls):
    c = CURVES[cn]
    name = '%s: %s' % (c['name'], FORMS[form])
    fn = cn + '_' + form
    tot = dict(queries=0, solver_s=0.0, steps=0, paths=0, functions=[])
    fns = set()
    aff = form.strip('r')[0:1] == 'a' or form in ('ka', 'rka')
    R = L.R256
    p, r = c['p'], c['r']
    one = words(R % p, 4)
    z4 = (0,) * 4
    note = ''
    try:
        if fn not in L.PROG.funcs:
            raise symex.Unsupported('wrapper missing')
        used = set()
        for n in Ls:
            d = lindom.LinDom()
            ident = (z4 * c['deg'] + one + z4 * (c['deg'] - 1))
            ident += (z4 + one) if c['ed'] else z4 * c['deg']
            PS = Mult(d, c['pw'], {ident: 0})
            AS = Mult(d, c['aw'], {})
            digs = []
            kind = []

            def digits(ex, st, args, name_, bits=False):
                # a concrete scalar with exactly n digits gives the container; its digits are replaced by symbols
                kv = ((1 << (n - 1)) if n < 254 else (1 << n) // 3 + 5 if n == 254 else (1 << 253) * 7 // 5) if n else 0
                if bits:
                    kv = 1
                a = ex.new_obj(st, 32)
                for j in range(4):
                    ex.write(st, a + 8 * j, 8, (kv * R % r >> (64 * j)) & (2**64 - 1))
                outs = ex.exec_function(ex.prog.funcs[name_], st, [args[0], a])
                for s, ret in outs:
                    ws = [ex.read(s, args[0] + 8 * j, 8) for j in range(3)]
                    ptr = [w for w in ws if symex.is_addr(w)]
                    ln = min(w for w in ws if not symex.is_addr(w)) if ptr else 0
                    if not bits and ln != n:
                        raise symex.Unsupported('digit count %d instead of %d' % (ln, n))
                    if digs and len(digs) != ln:
                        raise symex.Unsupported('two digit lists')
                    if not digs:
                        for j in range(ln):
                            x = d.var('d%d' % j, 8)
                            d.atoms[-1].hi = 1 if bits else 2
                            digs.append(lindom.Lin(x.t, 0, 0, 1 if bits else 2))
                    for j in range(ln):
                        ex.write(s, ptr[0] + j, 1, digs[j])
                kind.append('bits' if bits else 'naf')
                return [(s, None) for s, ret in outs]

            def get(ex, st, a):
                w = ex.read(st, a, 8)
                if isinstance(w, tok.Tok) and w.sp is AS:
                    return AS.get(ex, st, a)
                return PS.get(ex, st, a)

            def add(ex, st, args, name_):
                PS.put(ex, st, args[0], d.fix(d.add(get(ex, st, args[1]), get(ex, st, args[2]))))
                used.add('add')

            def dbl(ex, st, args, name_):
                PS.put(ex, st, args[0], d.fix(d.scale(get(ex, st, args[1]), 2)))

            def neg(ex, st, args, name_):
                w = ex.read(st, args[1], 8)
                S = AS if isinstance(w, tok.Tok) and w.sp is AS else PS
                S.put(ex, st, args[0], d.fix(d.scale(S.get(ex, st, args[1]), -1)))
                if S is AS and c['ab'] > 8 * c['aw']:
                    ex.write(st, args[0] + 8 * c['aw'], 1, 0)

            def conv(ex, st, args, name_):
                PS.put(ex, st, args[0], get(ex, st, args[1]))
            mod = 'edwards' if c['ed'] else 'weierstrass'
            T = '(G1|G2|Jubjub)?(Affine|Projective|Extended)'
            hooks = [(r'points::%s::(add_projective_point|add_affine_point|add_mixed_point)$' % mod, add),
                     (r'points::%s::(double_projective_point|double_affine_point)$' % mod, dbl),
                     (r'%s as core::ops::arith::Neg>::neg$' % T, neg),
                     (r'::to_extended$', conv), (r'%s as core::convert::From<.*Affine>>::from$' % T, conv),
                     (r'PrimeField>::to_nafs$', digits), (r'PrimeField>::to_bits$', lambda *a: digits(*a, bits=True))]
            ex = symex.Executor(L.PROG, d, hooks=hooks, deadline=time.time() + 200)
            ex.tokspace = PS
            st = symex.State()
            S, nb = (AS, c['ab']) if aff else (PS, 8 * c['pw'])
            a = ex.new_obj(st, nb)
            for j in range(S.n):
                ex.write(st, a + 8 * j, 8, tok.Tok(S, 1, j))
            if nb > 8 * S.n:
                ex.write(st, a + 8 * S.n, 1, 0)
            kk = ex.new_obj(st, 32)
            for j in range(4):
                ex.write(st, kk + 8 * j, 8, d.var('k%d' % j))
            o = ex.new_obj(st, 8 * c['pw'])
            outs = ex.run(fn, st, [a, kk, o])
            if ex.panics or not kind:
                raise symex.Unsupported('panic: %s' % (ex.panics,) if ex.panics else 'no digit expansion was used')
            tot['steps'] += ex.steps
            tot['paths'] += len(outs)
            fns |= {L.PROG.demangle(x) for x in ex.called}
            W = d.lin(0)
            m = len(digs)
            for j, x in enumerate(digs):
                if kind[0] == 'bits':
                    W = d.add(W, x, 1 << (m - 1 - j))
                else:
                    W = d.add(W, d.icmp('eq', 8, x, 1), 1 << (m - 1 - j))
                    W = d.add(W, d.icmp('eq', 8, x, 2), -(1 << (m - 1 - j)))
            q = L.LinQ(d)
            for s, ret, in outs:
                E = PS.get(ex, s, o)
                D = d.add(E, W, -1)
                pcs = [x for x in s.pc if type(x) is not int]
                D = d.lin(D)
                goal = z3.Or(q.tm(D) >= 1, q.tm(D) <= -1)
                rr, mdl = q.check([D] + pcs, [q.tm(x) == 1 for x in pcs] + [goal], 60)
                if rr != z3.unsat:
                    raise symex.Unsupported('with %d digits the result differs from the digit sum: %s' % (n, rr))
            # vacuity: the digit vector can be anything
            if n == Ls[-1]:
                rr, mdl = q.check([W], [], 60)
                if rr != z3.sat:
                    raise symex.Unsupported('vacuous')
            tot['queries'] += q.queries
            tot['solver_s'] += q.solver_s
            if kind[0] == 'bits':
                break
        if hunt(cn, form) is None:
            return res(name, 'proved', functions=sorted(fns), replayed=30, note='%d digit counts' % len(Ls), **{k_: v for k_, v in tot.items() if k_ != 'functions'})
        note = 'a native result differs although the encoding agrees'
    except (symex.Unsupported, symex.Unmergeable, RecursionError, KeyError, AttributeError, z3.Z3Exception) as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        note = 'engine: %s: %s' % (type(e).__name__, e)
    h = hunt(cn, form)
    if h:
        return res(name, 'violation', note='%s; native %s with scalar %#x gives %s, required %s' % (note, fn, h[0], h[1], h[2]), inputs=[hex(h[0])], replayed=1)
    return res(name, 'undecided', note=note)


def run(pid):
    c = Check(pid)
    full = list(range(0, 256))
    few = [0, 1, 2, 3, 255]
    some = few[:-1] + [4, 5, 6, 7, 8, 31, 32, 64, 128, 254, 255]
    c.bounds = ['every point (an abstract group element) and every digit string of the stated lengths: lengths %s for P*k on G1 and Jubjub, '
                '%s for the other entry points (quick); every length 0..255 (thorough); a scalar has at most 255 digits' % (some, few)]
    c.outside = ['Pippenger and MSM (P22)', 'private endomorphism helpers']
    c.assumptions = ['point addition, doubling, negation and affine-to-projective conversion are the group operations (P10, P11, P12) and are replaced by them at the call boundary',
                     'the digits are those of the scalar (P07)']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py, engine/tok.py', 'z3']
    L.setup()
    J = []
    for cn in CURVES:
        for f in FORMS:
            if f == 'pk' and TIER != 'thorough' and cn in ('g1', 'jj'):
                J.append(('%s_%s' % (cn, f), job, (cn, f, some)))
            elif TIER == 'thorough':
                for a in range(0, 256, 32):
                    J.append(('%s_%s' % (cn, f), job, (cn, f, full[a:a + 32])))
            else:
                J.append(('%s_%s' % (cn, f), job, (cn, f, few)))
    c.add(run_jobs(J, timeout=500))
    return c.finish()
