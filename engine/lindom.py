"""Linear-integer value domain for symex: every machine word is an exact integer linear form over atoms
(input limbs, limb products, carries).  Wrap-around, shifts and truncation are expressed through
floor-division atoms whose defining constraints go to the solver; products of two limbs are opaque atoms
with their exact range.  The encoding keeps the mod-2^k semantics of the machine code."""
import z3

from symex import Unsupported


class Atom:
    __slots__ = ('i', 'name', 'lo', 'hi', 'kind', 'data')

    def __init__(self, i, name, lo, hi, kind, data=None):
        self.i, self.name, self.lo, self.hi, self.kind, self.data = i, name, lo, hi, kind, data

    @property
    def boolean(self):
        return self.lo >= 0 and self.hi <= 1


class Lin:
    __slots__ = ('t', 'c', 'lo', 'hi', 'base')

    def __init__(self, t, c, lo, hi, base=None):
        self.t = t      # dict atom index -> coefficient
        self.c = c
        self.lo = lo
        self.hi = hi
        self.base = base

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)


def tz(n):
    return (n & -n).bit_length() - 1 if n else 1 << 30


class LinDom:
    def __init__(self, ite_limit=400):
        self.ite_limit = ite_limit
        self.atoms = []
        self.memo = {}
        self.origin = {}
        self.queries = 0
        self.solver_s = 0.0
        self.extra = []

    # ---- construction
    def atom(self, name, lo, hi, kind, data=None):
        a = Atom(len(self.atoms), name, lo, hi, kind, data)
        self.atoms.append(a)
        return a

    def var(self, name, w=64):
        a = self.atom(name, 0, (1 << w) - 1, 'in')
        return Lin({a.i: 1}, 0, a.lo, a.hi)

    def of(self, a):
        return Lin({a.i: 1}, 0, a.lo, a.hi)

    def lin(self, v):
        if type(v) is int:
            return Lin({}, v, v, v)
        return v

    def fix(self, v):
        if isinstance(v, Lin) and not v.t:
            return v.c
        return v

    def add(self, x, y, k=1):
        """x + k*y exactly"""
        x, y = self.lin(x), self.lin(y)
        t = dict(x.t)
        for i, c in y.t.items():
            n = t.get(i, 0) + k * c
            if n:
                t[i] = n
            else:
                t.pop(i, None)
        lo, hi = (x.lo + k * y.lo, x.hi + k * y.hi) if k >= 0 else (x.lo + k * y.hi, x.hi + k * y.lo)
        r = Lin(t, x.c + k * y.c, lo, hi)
        if not t:
            r.lo = r.hi = r.c
        elif len(t) == 1:
            self.tight(r)
        return r

    def tight(self, r):
        lo = hi = r.c
        for i, c in r.t.items():
            a = self.atoms[i]
            if c > 0:
                lo += c * a.lo
                hi += c * a.hi
            else:
                lo += c * a.hi
                hi += c * a.lo
        r.lo = max(r.lo, lo)
        r.hi = min(r.hi, hi)

    def scale(self, x, k):
        x = self.lin(x)
        if k == 0:
            return Lin({}, 0, 0, 0)
        lo, hi = (x.lo * k, x.hi * k) if k > 0 else (x.hi * k, x.lo * k)
        return Lin({i: c * k for i, c in x.t.items()}, x.c * k, lo, hi)

    def neg_atom(self, e):
        """boolean atom: 1 iff e < 0"""
        if e.lo >= 0:
            return Lin({}, 0, 0, 0)
        if e.hi < 0:
            return Lin({}, 1, 1, 1)
        b = self.single_bool(e)
        if b is not None:
            return self.tab(b, lambda v: int(self.at(e, b, v) < 0))
        key = ('neg', e.key())
        a = self.memo.get(key)
        if a is None:
            a = self.memo[key] = self.atom('n%d' % len(self.atoms), 0, 1, 'neg', e)
        return self.of(a)

    def floordiv(self, e, k):
        """exact floor(e / 2^k)"""
        e = self.lin(e)
        if k == 0:
            return e
        m = 1 << k
        if not e.t:
            return self.lin(e.c >> k)
        g = min(min(tz(c) for c in e.t.values()), tz(e.c), k)
        if g:
            e = Lin({i: c >> g for i, c in e.t.items()}, e.c >> g, e.lo >> g, e.hi >> g)
            k -= g
            if k == 0:
                return e
            m = 1 << k
        o = self.origin.get(e.key())
        if o is not None and o[1]:
            # floor(floor(x / 2^j) / 2^k) = floor(x / 2^(j+k))
            return self.floordiv(o[0], o[1] + k)
        if e.lo >= 0 and e.hi < m:
            return self.lin(0)
        if e.lo >= -m and e.hi < m:
            return self.scale(self.neg_atom(e), -1)
        b = self.single_bool(e)
        if b is not None:
            return self.tab(b, lambda v: self.at(e, b, v) >> k)
        B = {i: c & (m - 1) for i, c in e.t.items() if c & (m - 1)}
        if B and len(B) < len(e.t) and not e.c & (m - 1):
            bl = Lin(B, 0, -(1 << 4000), 1 << 4000)
            if len(B) == 1 and list(B.values()) == [1] and self.atoms[list(B)[0]].kind == 'in':
                self.origin.setdefault(bl.key(), (bl, 0))
                self.tight(bl)
            if bl.key() in self.origin:
                # floor((2^k*A + floor(x/2^j)) / 2^k) = A + floor(x / 2^(j+k))
                o = self.origin[bl.key()]
                bl.lo, bl.hi = o[0].lo >> o[1], o[0].hi >> o[1]
                self.tight(bl)
                r = self.add(Lin({i: c >> k for i, c in e.t.items() if not c & (m - 1)}, e.c >> k, 0, 0), self.floordiv(bl, k))
                r.lo, r.hi = e.lo >> k, e.hi >> k
                return r
        if (e.hi >> k) - (e.lo >> k) <= 3:
            key = ('fs', e.key(), k)
            q = self.memo.get(key)
            if q is None:
                q = self.memo[key] = self.atom('s%d' % len(self.atoms), e.lo >> k, e.hi >> k, 'floor', (e, k))
            r = self.of(q)
            self.origin.setdefault(r.key(), (e, k))
            return r
        A = {}
        B = {}
        for i, c in e.t.items():
            q, r = c >> k, c & (m - 1)
            if q:
                A[i] = q
            if r:
                B[i] = r
        Ac, Bc = e.c >> k, e.c & (m - 1)
        if not B:
            # floor((2^k*A + Bc)/2^k) = A + Ac with Bc < 2^k
            return Lin(A, Ac, e.lo >> k, e.hi >> k)
        # constant can be folded when everything in B is a multiple of a larger power of two
        g = min(tz(c) for c in B.values())
        if g > 0:
            B = {i: c >> g for i, c in B.items()}
            Bc >>= g
            k2 = k - g
        else:
            k2 = k
        bl = Lin(B, Bc, -(1 << 4000), 1 << 4000)
        self.tight(bl)
        if bl.lo >= 0 and bl.hi < (1 << k2):
            q = None
        else:
            key = ('fl', bl.key(), k2)
            q = self.memo.get(key)
            if q is None:
                q = self.memo[key] = self.atom('q%d' % len(self.atoms), bl.lo >> k2, bl.hi >> k2, 'floor', (bl, k2))
        r = Lin(A, Ac, 0, 0)
        if q is not None:
            r.t[q.i] = r.t.get(q.i, 0) + 1
            if r.t[q.i] == 0:
                del r.t[q.i]
        r.lo, r.hi = e.lo >> k, e.hi >> k
        if r.t:
            self.origin.setdefault(r.key(), (e, k))
        return r

    def mk(self, e, w):
        m = 1 << w
        if not e.t:
            return e.c % m
        if e.lo >= 0 and e.hi < m:
            return e
        f = self.floordiv(e, w)
        r = self.add(e, f, -m)
        r.lo, r.hi = 0, m - 1
        if not r.t:
            return r.c
        r.base = e
        return r

    # ---- boolean tabulation
    def single_bool(self, *es):
        b = None
        for e in es:
            if type(e) is int:
                continue
            if len(e.t) > 1:
                return None
            for i in e.t:
                if not self.atoms[i].boolean:
                    return None
                if b is not None and b != i:
                    return None
                b = i
        return b

    def at(self, e, b, v):
        if type(e) is int:
            return e
        return e.c + e.t.get(b, 0) * v

    def tab(self, b, f):
        f0, f1 = f(0), f(1)
        if f0 == f1:
            return self.lin(f0)
        return Lin({b: f1 - f0}, f0, min(f0, f1), max(f0, f1))

    # ---- domain interface
    def binop(self, op, w, a, b):
        m = 1 << w
        if op == 'add':
            return self.fix(self.mk(self.add(a, b), w))
        if op == 'sub':
            return self.fix(self.mk(self.add(a, b, -1), w))
        sb = self.single_bool(a, b)
        if sb is not None:
            import symex
            ev = symex.Executor.binop
            return self.fix(self.tab(sb, lambda v: _conc(op, w, self.at(a, sb, v), self.at(b, sb, v))))
        if op == 'mul':
            return self.fix(self.mk(self.mul(a, b), w))
        if op == 'shl' and type(b) is int:
            return self.fix(self.mk(self.scale(a, 1 << b), w))
        if op == 'lshr' and type(b) is int:
            return self.fix(self.lshr(a, b, w))
        if op == 'udiv' and type(b) is int and b & (b - 1) == 0:
            return self.fix(self.lshr(a, b.bit_length() - 1, w))
        if op == 'urem' and type(b) is int and b & (b - 1) == 0:
            return self.trunc(a, w, b.bit_length() - 1)
        if op == 'and':
            if type(a) is int:
                a, b = b, a
            if type(b) is int:
                if b == 0:
                    return 0
                if b & (b + 1) == 0:
                    return self.trunc(a, w, b.bit_length())
                nb = b ^ (m - 1)
                if nb & (nb + 1) == 0:
                    k = nb.bit_length()
                    return self.fix(self.add(a, self.lin(self.trunc(a, w, k)), -1))
                x = self.lin(a)
                if len(x.t) == 1 and False:
                    pass
            else:
                # bool-mask & value
                for x, y in ((a, b), (b, a)):
                    i = self.single_bool(x)
                    if i is not None and self.at(x, i, 0) == 0 and self.at(x, i, 1) == m - 1:
                        r = self.mul(self.of(self.atoms[i]), y)
                        r.lo, r.hi = 0, m - 1
                        return self.fix(r)
        if op in ('or', 'xor', 'add'):
            for x, y in ((a, b), (b, a)):
                x, y = self.lin(x), self.lin(y)
                if y.lo >= 0:
                    k = y.hi.bit_length()
                    if all(c % (1 << k) == 0 for c in x.t.values()) and x.c % (1 << k) == 0:
                        return self.fix(self.mk(self.add(x, y), w))
            if op == 'xor':
                for x, y in ((a, b), (b, a)):
                    if type(y) is int and y == m - 1:
                        return self.fix(self.add(self.lin(m - 1), x, -1))
            if op == 'or' and w == 1:
                s = self.add(a, b)
                return self.bnot(self.cmp_lt(s, self.lin(1)))
        if op in ('or', 'and', 'xor') and w > 1:
            # sound bounds only: or: max <= v <= a+b; and: 0 <= v <= min; xor: |a-b| <= v <= a+b
            a, b = self.lin(a), self.lin(b)
            if a.lo >= 0 and b.lo >= 0:
                key = (op,) + tuple(sorted((a.key(), b.key())))
                x = self.memo.get(key)
                if x is None:
                    hi = min(a.hi, b.hi) if op == 'and' else (1 << max(a.hi.bit_length(), b.hi.bit_length())) - 1
                    x = self.memo[key] = self.atom('%s%d' % (op, len(self.atoms)), 0, hi, 'bitop', (op, a, b))
                return self.of(x)
        raise Unsupported('lin %s i%d' % (op, w))

    def lshr(self, a, k, w):
        a = self.lin(a)
        if a.base is not None and a.hi >> k > 3:
            f = self.floordiv(a.base, k)
            r = self.mk(f, w - k)
            return self.lin(r)
        r = self.floordiv(a, k)
        return r

    def mul(self, a, b):
        if type(a) is int:
            return self.scale(b, a)
        if type(b) is int:
            return self.scale(a, b)
        if len(a.t) * len(b.t) > 400:
            raise Unsupported('lin mul too large')
        t = {}
        c = a.c * b.c

        def acc(i, k):
            n = t.get(i, 0) + k
            if n:
                t[i] = n
            else:
                t.pop(i, None)
        for i, x in a.t.items():
            acc(i, x * b.c)
        for j, y in b.t.items():
            acc(j, y * a.c)
        for i, x in a.t.items():
            for j, y in b.t.items():
                acc(self.prod(i, j), x * y)
        cs = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        return Lin(t, c, min(cs), max(cs))

    def prod(self, i, j):
        if i > j:
            i, j = j, i
        A, B = self.atoms[i], self.atoms[j]
        if i == j and A.boolean:
            return i
        key = ('prod', i, j)
        a = self.memo.get(key)
        if a is None:
            cs = [A.lo * B.lo, A.lo * B.hi, A.hi * B.lo, A.hi * B.hi]
            a = self.memo[key] = self.atom('m_%s_%s' % (A.name, B.name), min(cs), max(cs), 'prod', (i, j))
        return a.i

    def cmp_lt(self, a, b):
        """boolean a < b"""
        e = self.add(a, b, -1)
        return self.fix(self.neg_atom(e))

    def icmp(self, pred, w, a, b):
        sb = self.single_bool(a, b)
        if sb is not None:
            return self.fix(self.tab(sb, lambda v: _cicmp(pred, w, self.at(a, sb, v), self.at(b, sb, v))))
        if pred == 'ult':
            return self.cmp_lt(a, b)
        if pred == 'ugt':
            return self.cmp_lt(b, a)
        if pred == 'uge':
            return self.bnot(self.cmp_lt(a, b))
        if pred == 'ule':
            return self.bnot(self.cmp_lt(b, a))
        if pred in ('eq', 'ne'):
            e = self.add(a, b, -1)
            if e.lo > 0 or e.hi < 0:
                return int(pred == 'ne')
            if e.lo >= -1 and e.hi <= 0 or e.lo >= 0 and e.hi <= 1:
                # a difference with two possible values: the comparison is linear
                r = self.add(self.lin(1), e, 1 if e.lo < 0 else -1)
                r.lo, r.hi = 0, 1
                r = self.fix(r)
                return r if pred == 'eq' else self.bnot(r)
            key = ('eq', e.key())
            x = self.memo.get(key)
            if x is None:
                x = self.memo[key] = self.atom('e%d' % len(self.atoms), 0, 1, 'eq', e)
            r = self.of(x)
            return r if pred == 'eq' else self.bnot(r)
        raise Unsupported('lin icmp ' + pred)

    def bnot(self, c):
        if type(c) is int:
            return 1 - c
        r = self.add(self.lin(1), c, -1)
        r.lo, r.hi = 0, 1
        return self.fix(r)

    def band(self, a, b):
        if type(a) is int or type(b) is int:
            return a & b if type(a) is int and type(b) is int else (self.fix(self.mul(a, b)))
        if a.key() == b.key():
            return a
        if len(a.t) * len(b.t) > (2 if self.ite_limit < 400 else 400):
            key = ('band',) + tuple(sorted((a.key(), b.key())))
            x = self.memo.get(key)
            if x is None:
                x = self.memo[key] = self.atom('and%d' % len(self.atoms), 0, 1, 'band', (a, b))
            return self.of(x)
        return self.fix(self.mul(a, b))

    def bor(self, a, b):
        s = self.add(a, b)
        p = self.lin(self.band(a, b))
        r = self.add(s, p, -1)
        r.lo, r.hi = 0, 1
        return self.fix(r)

    bor2 = bor

    def is_total(self, items, g):
        return type(g) is int and g == 1

    def feasible(self, pc, c):
        return c != 0 if type(c) is int else True

    def zext(self, v, fw, tw):
        return v if v.base is None else self.keepbase(v)

    def keepbase(self, v):
        r = Lin(v.t, v.c, v.lo, v.hi)
        return r

    def sext(self, v, fw, tw):
        if fw == 1:
            return self.fix(self.scale(v, (1 << tw) - 1))
        s = self.lin(self.lshr(v, fw - 1, fw))
        return self.fix(self.add(v, self.scale(s, (1 << tw) - (1 << fw))))

    def trunc(self, v, fw, tw):
        e = v.base if v.base is not None else v
        return self.fix(self.mk(e, tw))

    def byte(self, v, w, k):
        x = self.lin(self.lshr(v, 8 * k, w)) if k else v
        if type(x) is not int and x.t:
            return self.trunc(x, w, 8)
        return x.c & 0xff

    def concat(self, bs):
        r = self.lin(0)
        for k, b in enumerate(bs):
            r = self.add(r, b, 1 << (8 * k))
        return self.fix(r)

    def ite(self, c, a, b, w):
        d = self.add(a, b, -1)
        c = self.lin(c)
        if len(c.t) * len(d.t) > self.ite_limit:
            la, lb = self.lin(a), self.lin(b)
            key = ('ite', c.key(), la.key(), lb.key())
            x = self.memo.get(key)
            if x is None:
                x = self.memo[key] = self.atom('ite%d' % len(self.atoms), min(la.lo, lb.lo), max(la.hi, lb.hi), 'ite', (c, la, lb))
            return self.of(x)
        if not d.t:
            r = self.add(b, self.scale(c, d.c))
        else:
            r = self.add(b, self.mul(c, d))
        la, lb = self.lin(a), self.lin(b)
        r.lo, r.hi = min(la.lo, lb.lo), max(la.hi, lb.hi)
        return self.fix(r)

    def concretize(self, v):
        raise Unsupported('symbolic index')

    def with_overflow(self, sg, op, w, a, b):
        if sg != 'u':
            raise Unsupported('signed overflow')
        e = self.mul(a, b) if op == 'mul' else self.add(a, b, 1 if op == 'add' else -1)
        r = self.fix(self.mk(e, w))
        f = self.floordiv(e, w)
        if op == 'sub':
            return [r, self.fix(self.neg_atom(e))]
        return [r, self.bnot(self.cmp_lt(f, self.lin(1)))]

    def intrinsic(self, op, w, args):
        raise Unsupported('lin intrinsic ' + op)

    # ---- solver export
    def z3vars(self):
        return [z3.Int('%s_%d' % (a.name, a.i)) for a in self.atoms]

    def term(self, e, V):
        if type(e) is int:
            return z3.IntVal(e)
        xs = [z3.IntVal(e.c)] if e.c else []
        for i, c in e.t.items():
            xs.append(V[i] * z3.IntVal(c) if c != 1 else V[i])
        if not xs:
            return z3.IntVal(0)
        return xs[0] if len(xs) == 1 else z3.Sum(xs)

    def constraints(self, V, roots=None):
        """definitions of the atoms reachable from roots (all when None)"""
        need = None
        if roots is not None:
            need = set()
            wl = []
            for r in roots:
                if type(r) is not int:
                    wl.extend(r.t)
            while wl:
                i = wl.pop()
                if i in need:
                    continue
                need.add(i)
                a = self.atoms[i]
                if a.kind in ('neg', 'eq'):
                    wl.extend(a.data.t)
                elif a.kind == 'floor':
                    wl.extend(a.data[0].t)
                elif a.kind in ('band', 'ite'):
                    for x in a.data:
                        wl.extend(x.t)
                elif a.kind == 'bitop':
                    wl.extend(a.data[1].t)
                    wl.extend(a.data[2].t)
                elif a.kind == 'prod':
                    wl.extend(a.data)
        cs = []
        for a in self.atoms:
            if need is not None and a.i not in need:
                continue
            v = V[a.i]
            cs.append(v >= a.lo)
            cs.append(v <= a.hi)
            if a.kind == 'neg':
                e = self.term(a.data, V)
                cs.append(z3.If(v == 1, e < 0, e >= 0))
            elif a.kind == 'eq':
                e = self.term(a.data, V)
                cs.append(z3.If(v == 1, e == 0, e != 0))
            elif a.kind == 'floor':
                e = self.term(a.data[0], V)
                k = 1 << a.data[1]
                cs.append(e - k * v >= 0)
                cs.append(e - k * v <= k - 1)
            elif a.kind == 'prod':
                i, j = a.data
                for x, y in ((i, j), (j, i)):
                    if self.atoms[x].boolean:
                        cs.append(v == z3.If(V[x] == 1, V[y], 0))
                        break
        return cs


def _conc(op, w, a, b):
    M = (1 << w) - 1
    return {'and': lambda: a & b, 'or': lambda: a | b, 'xor': lambda: a ^ b, 'mul': lambda: (a * b) & M,
            'shl': lambda: (a << b) & M if b < w else 0, 'lshr': lambda: a >> b if b < w else 0,
            'udiv': lambda: a // b, 'urem': lambda: a % b,
            'ashr': lambda: ((a - (1 << w) if a >> (w - 1) else a) >> b) & M}[op]()


def _cicmp(pred, w, a, b):
    if pred[0] == 's':
        a = a - (1 << w) if a >> (w - 1) else a
        b = b - (1 << w) if b >> (w - 1) else b
    return int({'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[
        pred if pred in ('eq', 'ne') else pred[1:]])
