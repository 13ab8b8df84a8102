"""Roots of univariate polynomials over F_p or F_p(u), u^2 = -1; models of triangular systems (counterexample search only)."""
import random

from poly import W, MASK


class F:
    """elements are pairs (a, b) = a + b u; ext = False: b is 0"""

    def __init__(self, p, ext):
        self.p, self.ext = p, ext
        self.q = p * p if ext else p

    def add(self, a, b):
        return ((a[0] + b[0]) % self.p, (a[1] + b[1]) % self.p)

    def sub(self, a, b):
        return ((a[0] - b[0]) % self.p, (a[1] - b[1]) % self.p)

    def mul(self, a, b):
        p = self.p
        if not self.ext:
            return (a[0] * b[0] % p, 0)
        return ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)

    def inv(self, a):
        p = self.p
        n = pow(a[0] * a[0] + a[1] * a[1], -1, p)
        return (a[0] * n % p, -a[1] * n % p)

    def pow(self, a, n):
        r = (1, 0)
        while n:
            if n & 1:
                r = self.mul(r, a)
            a = self.mul(a, a)
            n >>= 1
        return r

    def rnd(self, g):
        return (g.randrange(self.p), g.randrange(self.p) if self.ext else 0)

    # dense polynomials, low degree first
    def trim(self, f):
        while f and f[-1] == (0, 0):
            f.pop()
        return f

    def divmod(self, a, b):
        a = list(a)
        iv = self.inv(b[-1])
        q = [(0, 0)] * max(0, len(a) - len(b) + 1)
        while len(a) >= len(b):
            c = self.mul(a[-1], iv)
            k = len(a) - len(b)
            q[k] = c
            for i, x in enumerate(b):
                a[i + k] = self.sub(a[i + k], self.mul(c, x))
            a.pop()
            self.trim(a)
        return q, a

    def gcd(self, a, b):
        while b:
            a, b = b, self.divmod(a, b)[1]
        iv = self.inv(a[-1])
        return [self.mul(x, iv) for x in a]

    def pmul(self, a, b, m):
        r = [(0, 0)] * (len(a) + len(b) - 1)
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                r[i + j] = self.add(r[i + j], self.mul(x, y))
        return self.divmod(self.trim(r), m)[1] or []

    def ppow(self, a, n, m):
        r = [(1, 0)]
        while n:
            if n & 1:
                r = self.pmul(r, a, m) if r and a else []
            a = self.pmul(a, a, m) if a else []
            n >>= 1
        return r

    def roots(self, f, g):
        f = self.trim(list(f))
        if len(f) <= 1:
            return []
        if len(f) > 30:
            return []
        if len(f) == 2:
            return [self.mul(self.sub((0, 0), f[0]), self.inv(f[1]))]
        x = self.ppow([(0, 0), (1, 0)], self.q, f)
        x = list(x) + [(0, 0)] * (2 - len(x))
        x[1] = self.sub(x[1], (1, 0))
        x = self.trim(x)
        h = self.gcd(f, x) if x else self.gcd(f, [])
        return self.split(h, g)

    def split(self, h, g):
        if len(h) == 1:
            return []
        if len(h) == 2:
            return [self.sub((0, 0), h[0])]
        for _ in range(60):
            t = self.ppow([self.rnd(g), (1, 0)], (self.q - 1) // 2, h)
            t = list(t) or [(0, 0)]
            t[0] = self.sub(t[0], (1, 0))
            t = self.trim(t)
            if not t:
                continue
            d = self.gcd(h, t)
            if 1 < len(d) < len(h):
                return self.split(d, g) + self.split(self.divmod(h, d)[0], g)
        return []


def model(S, ext, seed=0, tries=40, base=None):
    """values of all variables satisfying the triangular set and the nonzero facts, or None"""
    un = [S.reduce(u[0], False)[2] for u in getattr(S, 'unused', None) or []] + [S.reduce(u[0], False)[2] for u in S.lost]
    un = [h for h in un if h]
    if not un:
        return model1(S, ext, seed, tries, base, {})
    g = random.Random('u%d' % seed)
    main = {i for i, h, w in S.tri}
    for _ in range(12):
        extra = {}
        for h in un:
            vs = [i for i in S.R.vars_of(h) if i not in main and i not in extra and S.R.names[i] != 'u']
            if not vs:
                return None
            extra[g.choice(sorted(vs))] = h
        r = model1(S, ext, seed, 4, base, extra)
        if r is not None:
            return r
    return None


def model1(S, ext, seed, tries, base, extra):
    R = S.R
    K = F(S.p, ext)
    ui = R.idx.get('u')
    main = {i: h for i, h, w in S.tri}
    main.update(extra)
    order, seen = [], set()

    def visit(i, stack=()):
        if i in seen or i in stack:
            return
        if i in main:
            for j in R.vars_of(main[i]):
                if j != i:
                    visit(j, stack + (i,))
        seen.add(i)
        order.append(i)
    for i in range(len(R.names)):
        visit(i)
    g = random.Random('m%d' % seed)

    def ev(a, env):
        t = (0, 0)
        for m, c in a.items():
            v = (c, 0)
            i = 0
            while m:
                e = m & MASK
                if e:
                    v = K.mul(v, K.pow(env[i], e))
                m >>= W
                i += 1
            t = K.add(t, v)
        return t
    for n in range(tries):
        env = {}
        ok = True
        for i in order:
            if i == ui:
                env[i] = (0, 1)
            elif i in main:
                try:
                    co = R.coeffs(main[i], i)
                    f = [ev(co.get(d, {}), env) for d in range(max(co) + 1)]
                except KeyError:
                    return None
                if not any(c != (0, 0) for c in f):
                    env[i] = K.rnd(g)
                    continue
                r = K.roots(f, g)
                if not r:
                    ok = False
                    break
                env[i] = g.choice(r)
            elif base and n < 2 and R.names[i] in base:
                env[i] = base[R.names[i]]
            elif R.names[i].startswith('conv'):
                return None
            else:
                env[i] = K.rnd(g) if n % 3 else (g.randrange(1, 50), 0)
        if not ok:
            continue
        if any(ev(f, env) == (0, 0) for f in S.nz):
            continue
        if any(ev(h, env) != (0, 0) for h in main.values()):
            continue
        return {R.names[i]: v for i, v in env.items()}
    return None
