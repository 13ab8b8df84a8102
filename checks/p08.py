"""P08: inversion, division, powers, square roots."""
import os
import time

import z3

import bvdom
import common
import lindom
import llcheck as L
import symex
import tok
from common import Check, TIER, res, run_jobs
from llcheck import F, In, Ob, linval

MOD = {'fq': (L.FQ, 4), 'fr': (L.FR, 4), 'blr': (L.BLR, 4), 'blq': (L.BLQ, 6)}
OPS = {4: 'bits_256', 6: 'bits_384'}


def words(v, n):
    return tuple((v >> (64 * j)) & (2**64 - 1) for j in range(n))


ZERO = 'zero'


# ---- exponent spaces ------------------------------------------------------------------------------------------
class PowLin(tok.LinSpace):
    """nonzero elements as powers of the operands; exponents are integer linear forms (symbolic exponents)"""

    def __init__(self, dom, p, n, base=None):
        R = 1 << (64 * n)
        super().__init__(dom, n, {words(R % p, n): 0, words(0, n): ZERO})
        if base is not None:
            self.consts[words(base * R % p, n)] = 1
        self.p = p

    def same(self, a, b):
        if a is b:
            return True
        if a == ZERO or b == ZERO:
            return False
        e = self.dom.add(a, b, -1)
        return not e.t and e.c == 0

    def symbolic(self, E):
        return isinstance(E, lindom.Lin)

    def ite(self, c, a, b):
        if isinstance(a, str) or isinstance(b, str):
            raise symex.Unmergeable('zero')
        r = self.dom.ite(c, a, b, 1024)
        return r

    def equal(self, a, b):
        if isinstance(a, str) != isinstance(b, str):
            return 0
        return None

    def key(self, E):
        return E.key() if isinstance(E, lindom.Lin) else E

    def mul(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return ZERO
        return self.dom.fix(self.dom.add(a, b))


class PowVec(tok.BVSpace):
    """products of powers of the nonzero operands, concrete exponents modulo p-1 (Fermat)"""

    def __init__(self, dom, p, n, k):
        R = 1 << (64 * n)
        super().__init__(dom, n, {words(R % p, n): (0,) * k, words(0, n): ZERO})
        self.p = p
        self.undecided_eq = 0

    def same(self, a, b):
        return a == b

    def ite(self, c, a, b):
        raise symex.Unmergeable('exponents')

    def equal(self, a, b):
        if a == ZERO or b == ZERO:
            return int(a == b)
        return None if a != b else 1

    def mul(self, a, b):
        if isinstance(a, str) or isinstance(b, str):
            return ZERO
        return tuple((x + y) % (self.p - 1) for x, y in zip(a, b))


class Sylow(tok.BVSpace):
    """elements of F_p^*, p-1 = 2^s t: (discrete logarithm modulo 2^s as a bit-vector, exponent of the operand modulo t).
    Products of the operand with 2-power roots of unity live here; comparisons are decided exactly."""

    def __init__(self, dom, p, n, s, root):
        R = 1 << (64 * n)
        self.p, self.s, self.t = p, s, (p - 1) >> s
        super().__init__(dom, n, {words(R % p, n): (z3.BitVecVal(0, s), 0)})
        self.root = root
        self.tab = {}
        x = 1
        # odd powers etc. of the root are recognised on demand
        for k in range(0, s):
            self.tab[pow(root, 1 << k, p) * R % p] = 1 << k
            self.consts[words(pow(root, 1 << k, p) * R % p, n)] = (z3.BitVecVal(1 << k, s), 0)
        self.zero = words(0, n)

    def unknown(self, ws):
        v = sum(w << (64 * j) for j, w in enumerate(ws))
        k = self.tab.get(v)
        if k is None:
            return None
        E = (z3.BitVecVal(k, self.s), 0)
        self.consts[ws] = E
        return E

    def same(self, a, b):
        return a[1] == b[1] and a[0].eq(b[0])

    def symbolic(self, E):
        return not z3.is_bv_value(E[0]) or E[1] != 0

    def ite(self, c, a, b):
        if a[1] != b[1]:
            raise symex.Unmergeable('odd part')
        return (z3.simplify(z3.If(c, a[0], b[0])), a[1])

    def equal(self, a, b):
        if a[1] != b[1]:
            return None
        return a[0] == b[0]

    def key(self, E):
        return (E[0].get_id(), E[1])

    def mul(self, a, b):
        return (z3.simplify(a[0] + b[0]), (a[1] + b[1]) % self.t)


def hooks(sp, p, n):
    R = 1 << (64 * n)

    def par(ex, st, pa, inv):
        ws = [ex.read(st, pa + 8 * j, 8) for j in range(n)]
        if tuple(ws) != words(p, n) or inv * p % 2**64 != 2**64 - 1:
            raise symex.Unsupported('modulus')

    def concrete(ex, st, a):
        ws = [ex.read(st, a + 8 * j, 8) for j in range(n)]
        return sum(w << (64 * j) for j, w in enumerate(ws)) if all(type(w) is int for w in ws) else None

    def putc(ex, st, a, v):
        for j, w in enumerate(words(v, n)):
            ex.write(st, a + 8 * j, 8, w)

    def mul(ex, st, args, name):
        par(ex, st, args[3], args[4])
        x, y = concrete(ex, st, args[1]), concrete(ex, st, args[2])
        if x is not None and y is not None:
            return putc(ex, st, args[0], x * y * pow(R, -1, p) % p)
        sp.put(ex, st, args[0], sp.mul(sp.get(ex, st, args[1]), sp.get(ex, st, args[2])))

    def square(ex, st, args, name):
        par(ex, st, args[2], args[3])
        x = concrete(ex, st, args[1])
        if x is not None:
            return putc(ex, st, args[0], x * x * pow(R, -1, p) % p)
        a = sp.get(ex, st, args[1])
        sp.put(ex, st, args[0], sp.mul(a, a))
    def ct_eq(ex, st, args, name):
        a, b = ex.read(st, args[0], 8), ex.read(st, args[1], 8)
        if not isinstance(a, tok.Tok) and not isinstance(b, tok.Tok):
            return NotImplemented
        r = tok.icmp(ex, 'eq', a, b)
        return r if type(r) is int else ex.dom.zext(r, 1, 8)
    return [(r'<u64 as subtle::ConstantTimeEq>::ct_eq$', ct_eq), (r'%s::.*\bmul$' % OPS[n], mul), (r'%s::.*\bsquare$' % OPS[n], square)]


def execute(ob, sp, dom, n, p, ins, deadline=300, merge_index=False, extra_hooks=()):
    """ins: per input an exponent (token), an int (concrete words) or ('sym', name)"""
    ex = symex.Executor(L.PROG, dom, hooks=hooks(sp, p, n) + list(extra_hooks), deadline=time.time() + deadline)
    ex.merge_index = merge_index
    ex.tokspace = sp
    st = symex.State()
    args, vals = [], []
    for i, x in zip(ob.ins, ins):
        if i.kind == 'w':
            v = dom.var(x[1]) if isinstance(x, tuple) and x[0] == 'sym' else x
            args.append(v)
            vals.append(v)
            continue
        a = ex.new_obj(st, i.size)
        if type(x) is int:
            for j in range(i.n):
                ex.write(st, a + 8 * j, 8, (x >> (64 * j)) & (2**64 - 1))
        elif isinstance(x, tuple) and x[0] == 'sym':
            vs = [dom.var('%s_%d' % (x[1], j), 64) for j in range(i.n)]
            for j, v in enumerate(vs):
                ex.write(st, a + 8 * j, 8, v)
            x = vs
        else:
            E = x[1]
            for j in range(i.n):
                ex.write(st, a + 8 * j, 8, tok.Tok(sp, E, j))
        args.append(a)
        vals.append(x)
    o = ex.new_obj(st, 8 * n)
    args.append(o)
    outs = ex.run(ob.fn, st, args)
    return ex, [(s, ret, o) for s, ret in outs], vals


def finish(ob, ok, note, tot, status='proved'):
    if ok:
        try:
            tot['replayed'] = L.validate(ob, tot) if tot.pop('validate', True) else 0
        except symex.Unsupported as e:
            ok, note = False, str(e)
    if ok:
        return res(ob.name, 'proved', key=ob.key, note=note, **tot)
    h = ob.hunt(extra=tot.pop('cex', []), n=300)
    if h is not None:
        return ob.violation(h[0], h[1], note, **tot)
    return res(ob.name, 'undecided', key=ob.key, note=note, **tot)


def guard(f):
    def g(ob, *a):
        tot = dict(queries=0, solver_s=0.0, steps=0, paths=0, functions=[])
        try:
            ok, note = f(ob, tot, *a)
        except (symex.Unsupported, symex.Unmergeable, RecursionError, KeyError, AttributeError, z3.Z3Exception) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            ok, note = False, 'engine: %s: %s' % (type(e).__name__, e)
        return finish(ob, ok, note, tot)
    g.__name__ = f.__name__
    return g


def count(tot, ex, outs):
    tot['steps'] += ex.steps
    tot['paths'] += len(outs)
    tot['functions'] = sorted(set(tot['functions']) | {L.PROG.demangle(x) for x in ex.called})


# ---- obligations ----------------------------------------------------------------------------------------------
@guard
def sympow(ob, tot, p, n, base, ew):
    """result == base^e for the symbolic exponent e of ew words; base None: any nonzero operand"""
    d = lindom.LinDom()
    sp = PowLin(d, p, n, base)
    e = ('sym', 'e')
    R = 1 << (64 * n)
    ins = [e] if base is not None else [('tok', 1), e] + ([R % p] if len(ob.ins) > 2 else [])
    ex, outs, vals = execute(ob, sp, d, n, p, ins)
    count(tot, ex, outs)
    ev = vals[0] if base is not None else vals[1]
    E = d.lin(ev) if ew == 1 else linval(d, ev)
    q = L.LinQ(d)
    facts = [q.tm(_sum(d, bs)) <= k for bs, k in d.extra]
    froots = [_sum(d, bs) for bs, k in d.extra]
    if ex.panics:
        for pc, why in ex.panics:
            r, m = q.check(froots + [c for c in pc if type(c) is not int], facts + [q.tm(c) == 1 for c in pc], 60)
            if r != z3.unsat:
                return False, 'panic: %s' % why
    wit = 0
    ok = True
    notes = []
    for st, ret, o in outs:
        got = sp.get(ex, st, o)
        pcs = [c for c in st.pc if type(c) is not int]
        roots = froots + pcs
        a = facts + [q.tm(c) == 1 for c in pcs]
        if got == ZERO:
            r, m = q.check(roots, a, 60)
            notes.append('zero result: %s' % r)
            ok &= r == z3.unsat
            continue
        D = d.add(got, E, -1)
        if not D.t and D.c == 0:
            kk = z3.Int('k')
            r, m = q.check(roots, a + [kk == 0, kk != 0], 60)
        else:
            r, m = q.check(roots + [D], a + [z3.Or(q.tm(D) >= 1, q.tm(D) <= -1)], 120)
        notes.append('exponent: %s' % r)
        ok &= r == z3.unsat
        if r != z3.unsat and os.environ.get('VERIF_DEBUG'):
            for i, cc in list(D.t.items())[:12]:
                a_ = d.atoms[i]
                print(i, a_.name, a_.kind, a_.lo, a_.hi, 'coef %x' % cc, a_.data and [getattr(x, 'key', lambda: x)() for x in (a_.data if isinstance(a_.data, tuple) else (a_.data,))])
            print(len(D.t), D.c)
        r, m = q.check(roots, a, 60)
        wit += r != z3.unsat
    tot['queries'] += q.queries
    tot['solver_s'] += q.solver_s
    return ok and wit > 0, '; '.join(notes)


def _sum(d, bs):
    r = d.lin(0)
    for b in bs:
        r = d.add(r, b)
    return r


def feas(d, st, tot, *more):
    s = z3.Solver()
    s.set('timeout', 120000)
    s.add(*d.assumptions)
    s.add(*[d.b(c) for c in st.pc])
    s.add(*more)
    t = time.time()
    r = s.check()
    tot['queries'] += 1
    tot['solver_s'] += time.time() - t
    return r


@guard
def cpow(ob, tot, p, n, k, want, extra_one):
    """every feasible path: success and exponents == want (mod p-1)"""
    d = bvdom.BVDom()
    sp = PowVec(d, p, n, k)
    unit = [tuple(int(i == j) for i in range(k)) for j in range(k)]
    R = 1 << (64 * n)
    ex, outs, vals = execute(ob, sp, d, n, p, [('tok', u) for u in unit] + ([R % p] if extra_one else []))
    count(tot, ex, outs)
    for pc, why in ex.panics:
        class S:
            pass
        S.pc = pc
        if feas(d, S, tot) != z3.unsat:
            return False, 'panic: %s' % why
    wit = 0
    notes = []
    ok = True
    for st, ret, o in outs:
        if feas(d, st, tot) == z3.unsat:
            continue
        if ob.ret:
            rr = ret if type(ret) is int else None
            if rr is None and feas(d, st, tot, d.bv(ret, 8) != 1) == z3.unsat:
                rr = 1
            if rr != 1:
                return False, 'a feasible path reports failure for nonzero operands'
        got = sp.get(ex, st, o)
        kk = z3.Int('k')
        E = z3.Int('E')
        # exponents agree modulo p-1
        for x, y in zip(got, want):
            s = z3.Solver()
            s.add(E == x - y, z3.Int('m') * (p - 1) == E + 0 * kk)
            if got == ZERO or (x - y) % (p - 1):
                ok = False
                notes.append('exponent %x instead of %x' % (x, y % (p - 1)))
            tot['queries'] += 1
        wit += 1
    # the zero operand, concretely
    if ok and wit:
        return True, 'exponents %s' % [hex(w % (p - 1)) for w in want]
    return False, '; '.join(notes) or 'vacuous'


@guard
def sqrt_sound(ob, tot, p, n):
    """reported roots square to the operand: on every path that returns a value x, the code has established x*x == a,
    or the exponents of x*x and a agree"""
    d = bvdom.BVDom()
    sp = PowVec(d, p, n, 1)
    ex, outs, vals = execute(ob, sp, d, n, p, [('tok', (1,))])
    count(tot, ex, outs)
    wit = 0
    for pc, why in ex.panics:
        return False, 'panic: %s' % why
    for st, ret, o in outs:
        ok1 = (ret == 1) if type(ret) is int else None
        if ok1 is False:
            continue
        more = [] if ok1 else [d.bv(ret, 8) == 1]
        if feas(d, st, tot, *more) == z3.unsat:
            continue
        x = sp.get(ex, st, o)
        sq = sp.mul(x, x)
        if sq != (1,):
            k = tuple(sorted((repr(sq), repr((1,)))))
            bs = sp.memo.get(k)
            if bs is None or feas(d, st, tot, *more, z3.Not(z3.And(*bs))) != z3.unsat:
                return False, 'a root is reported without its square being the operand'
        wit += 1
    return wit > 0, 'every reported root was compared with the operand'


@guard
def sqrt_complete(ob, tot, p, n):
    """operand b^2: a root is reported and its square is b^2 (p = 3 mod 4)"""
    d = bvdom.BVDom()
    sp = PowVec(d, p, n, 1)
    ex, outs, vals = execute(ob, sp, d, n, p, [('tok', (2,))])
    count(tot, ex, outs)
    for st, ret, o in outs:
        if feas(d, st, tot) == z3.unsat:
            continue
        if feas(d, st, tot, d.bv(ret, 8) != 1) != z3.unsat:
            return False, 'no root reported for a square'
        x = sp.get(ex, st, o)
        if sp.mul(x, x) != (2,):
            return False, 'wrong root'
    return bool(outs), 'root reported for every nonzero square'


@guard
def sqrt_sylow(ob, tot, p, n, s, root, square):
    """Tonelli-Shanks: the operand's 2-part is g^(2y) (a square) or g^(2y+1); y is symbolic"""
    d = bvdom.BVDom()
    sp = Sylow(d, p, n, s, root)
    y = z3.BitVec('y', s)
    if square is True:
        e = 2 * y
    elif square is False:
        e = 2 * y + 1
    else:
        # exact order 2^k (bounded slice): exponent odd * 2^(s-k)
        e = (2 * y + 1) << (s - square)
    ex, outs, vals = execute(ob, sp, d, n, p, [('tok', (e, 1))], merge_index=True, deadline=250)
    count(tot, ex, outs)
    for pc, why in ex.panics:
        return False, 'panic: %s' % why
    wit = 0
    for st, ret, o in outs:
        rv = d.bv(ret, 8)
        want = 0 if square is False else 1
        r = feas(d, st, tot, rv != want)
        if r != z3.unsat:
            return False, 'reported flag differs from %d: %s' % (want, r)
        if want:
            if feas(d, st, tot) != z3.unsat:
                x = sp.get(ex, st, o)
                if 2 * x[1] % sp.t != 1:
                    return False, 'odd part of the root'
                r = feas(d, st, tot, 2 * x[0] != e)
                if r != z3.unsat:
                    return False, 'root: %s' % r
                wit += 1
        else:
            wit += 1
    return wit > 0, 'operands with 2-part %s' % ('even' if square is True else 'odd' if square is False else 'of order 2^%d' % square)


@guard
def zero_op(ob, tot, p, n, ins, want_ret, want_val):
    """the zero operand (a single concrete input, executed by the encoding and natively)"""
    nat = ob.native([tuple(ins)])[0]
    if isinstance(nat, str):
        return False, nat
    run = L.Run(ob, bvdom.BVDom(), fixed=list(ins))
    (st, ret, ov), = run.go()
    tot['steps'] += run.ex.steps
    tot['paths'] += 1
    tot['functions'] = run.functions()
    v = L.tojoin(ov) if all(type(x) is int for x in ov) else None
    s = z3.Solver()
    s.add(z3.Int('r') == (ret if want_ret is not None else 0), z3.Int('r') != (want_ret or 0))
    tot['queries'] += 1
    if want_ret is not None and (s.check() != z3.unsat or nat[0] != want_ret):
        return False, 'returned %s' % ret
    if want_val is not None and (v != want_val or nat[1] != want_val):
        return False, 'value'
    return True, 'zero operand'


def run(pid):
    c = Check(pid)
    c.bounds = ['every nonzero operand (as an abstract element of the multiplicative group) and the zero operand; every exponent: '
                '256-bit for pow_vartime and the 256-bit limb pow, 384-bit for the 384-bit limb pow, 64-bit for pow and pow_of_2; '
                'square roots: every operand of Fq; Fr: soundness for every operand, completeness for every operand whose 2-part has the orders named in the samples']
    c.outside = ['division by zero', 'ff::Field::sqrt_ratio (generic code of the ff crate)']
    c.assumptions = ['limb multiplication and squaring are the group operation of F_p^* (P02) and are replaced by it at the call boundary',
                     'a^(p-1) = 1 for nonzero a (Fermat)', 'the moduli are prime']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py, engine/tok.py', 'z3']
    L.setup()
    J = []
    for f in ('fq', 'fr'):
        p, n = MOD[f]
        Ri = pow(L.R256, -1, p)
        R = L.R256
        inv = lambda v, p=p, Ri=Ri, R=R: (int(v[0] != 0), pow(v[0] * Ri % p, -1, p) * R % p if v[0] else None)
        for fn in (f + '_invert', f + '_ff_invert'):
            ob = Ob(fn, fn, [F(p)], ('p', 4), inv, ret=True)
            J.append((fn, cpow, (ob, p, 4, 1, (-1,), False)))
            J.append((fn, zero_op, (Ob(fn + '(0)', fn, [F(p)], ('p', 4), inv, ret=True), p, 4, [0], 0, None)))
        for fn in (f + '_div', f + '_div_assign'):
            dv = lambda v, p=p, R=R: (None, v[0] * pow(v[1], -1, p) * R % p if v[1] else None)
            J.append((fn, cpow, (Ob(fn, fn, [F(p), F(p)], ('p', 4), dv, pre=lambda v: v[1] != 0), p, 4, 2, (1, -1), False)))
            J.append((fn, zero_op, (Ob(fn + '(0/b)', fn, [F(p), F(p)], ('p', 4), dv, pre=lambda v: v[1] != 0), p, 4, [0, 5], None, 0)))
        fn = f + '_pow_of_2'
        J.append((fn, sympow, (Ob(fn, fn, [In('w', 1)], ('p', 4), lambda v, p=p, R=R: (None, pow(2, v[0], p) * R % p)), p, 4, 2, 1)))
        fn = f + '_pow_vartime'
        pw = lambda v, p=p, R=R, Ri=Ri: (None, pow(v[0] * Ri % p, v[1], p) * R % p)
        J.append((fn, sympow, (Ob(fn, fn, [F(p), In('p', 4)], ('p', 4), pw), p, 4, None, 4)))
        fn = f + '_sqrt'

        def sq(v, p=p, R=R, Ri=Ri):
            x = v[0] * Ri % p
            return (int(x == 0 or pow(x, (p - 1) // 2, p) == 1), None)

        class SqOb(Ob):
            pp = p

            def bad(self, vs, got):
                if isinstance(got, str):
                    return True
                x = vs[0] * pow(L.R256, -1, self.pp) % self.pp
                isq = x == 0 or pow(x, (self.pp - 1) // 2, self.pp) == 1
                if got[0] != int(isq):
                    return True
                r = (got[1] or 0) * pow(L.R256, -1, self.pp) % self.pp
                return bool(got[0]) and r * r % self.pp != x
        mk = lambda nm, p=p, fn=fn, sq=sq, C=SqOb: C(nm, fn, [F(p)], ('p', 4), sq, ret=True)
        if f == 'fq':
            J.append((fn, sqrt_sound, (mk(fn + ' (reported roots)'), p, 4)))
            J.append((fn, sqrt_complete, (mk(fn + ' (squares)'), p, 4)))
        else:
            J.append((fn, sqrt_sylow, (mk(fn + ' (non-squares)'), p, 4, 28, pow(7, (p - 1) >> 28, p), False)))
            for k in range(1, 9 if TIER == 'quick' else 28):
                J.append((fn, sqrt_sylow, (mk(fn + ' (2-part of order 2^%d)' % k), p, 4, 28, pow(7, (p - 1) >> 28, p), k)))
        J.append((fn, zero_op, (mk(fn + '(0)'), p, 4, [0], 1, 0)))
    p = L.FR
    pw = lambda v: (None, pow(v[0] * pow(L.R256, -1, L.FR) % L.FR, v[1], L.FR) * L.R256 % L.FR)
    J.append(('fr_pow', sympow, (Ob('fr_pow', 'fr_pow', [F(p), In('w', 1)], ('p', 4), pw), p, 4, None, 1)))
    for fn, f in (('blr_pow', 'blr'), ('blq_pow', 'blq')):
        p, n = MOD[f]
        R = 1 << (64 * n)
        one = R % p
        pw = lambda v, p=p, R=R: (None, pow(v[0] * pow(R, -1, p) % p, v[1], p) * R % p)
        nm = 'bits_%d::pow' % (64 * n)
        J.append((nm, sympow, (Ob(nm, fn, [F(p, n), In('p', n), F(p, n, fixed=one)], ('p', n), pw), p, n, None, n)))
    p, n = MOD['blq']
    R = 1 << 384
    inv = lambda v, p=p, R=R: (int(v[0] != 0), pow(v[0] * pow(R, -1, p) % p, -1, p) * R % p if v[0] else None)
    J.append(('bits_384::invert', cpow, (Ob('bits_384::invert', 'blq_invert', [F(p, 6), F(p, 6, fixed=R % p)], ('p', 6), inv, ret=True), p, 6, 1, (-1,), True)))
    c.add(run_jobs(J, timeout=300))
    return c.finish()
