"""Polynomials over F_p, expression graphs of symbolic runs, triangular sets and their solver-checked certificates."""
import subprocess
import time

W = 12
MASK = (1 << W) - 1


class TooBig(Exception):
    pass


LIMIT = 400000


class Ring:
    """sparse polynomials: {packed exponents: coefficient mod p}; variables get 12-bit exponent fields"""

    def __init__(self, p):
        self.p = p
        self.names = []
        self.idx = {}

    def var_index(self, name):
        i = self.idx.get(name)
        if i is None:
            i = self.idx[name] = len(self.names)
            self.names.append(name)
        return i

    def var(self, name):
        return {1 << (W * self.var_index(name)): 1}

    def const(self, c):
        c %= self.p
        return {0: c} if c else {}

    def add(self, a, b, k=1):
        if not a and k == 1:
            return b
        if not b:
            return a
        r = dict(a)
        p = self.p
        for m, c in b.items():
            v = (r.get(m, 0) + k * c) % p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def neg(self, a):
        return {m: self.p - c for m, c in a.items()}

    def mul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 30 * LIMIT:
            raise TooBig('product of %d and %d terms' % (len(a), len(b)))
        if len(a) == 1:
            (m, c), = a.items()
            p = self.p
            return {m + n: c * d % p for n, d in b.items()}
        r = {}
        get = r.get
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                r[k] = get(k, 0) + c * d
        p = self.p
        out = {}
        for m, c in r.items():
            c %= p
            if c:
                out[m] = c
        if len(out) > LIMIT:
            raise TooBig('%d terms' % len(out))
        return out

    def pow(self, a, n):
        r = {0: 1}
        for _ in range(n):
            r = self.mul(r, a)
        return r

    def deg(self, a, i):
        s = W * i
        return max((m >> s & MASK for m in a), default=-1)

    def coeffs(self, a, i):
        """coefficients by power of variable i"""
        s = W * i
        out = {}
        for m, c in a.items():
            e = m >> s & MASK
            out.setdefault(e, {})[m - (e << s)] = c
        return out

    def vars_of(self, a):
        m = 0
        for k in a:
            m |= k
        return [i for i in range(len(self.names)) if m >> (W * i) & MASK]

    def is_const(self, a):
        return not a or (len(a) == 1 and 0 in a)

    def divexact(self, a, b):
        """a / b if it is a polynomial, else None (lexicographic division)"""
        if not b:
            return None
        lb = max(b)
        cb = pow(b[lb], -1, self.p)
        if len(b) == 1:
            q = {}
            for m, c in a.items():
                k = self.mdiv(m, lb)
                if k is None:
                    return None
                q[k] = c * cb % self.p
            return q
        import heapq
        r = dict(a)
        heap = [-m for m in r]
        heapq.heapify(heap)
        q = {}
        p = self.p
        while heap:
            m = -heapq.heappop(heap)
            c = r.pop(m, None)
            if c is None:
                continue
            k = self.mdiv(m, lb)
            if k is None:
                return None
            c = c * cb % p
            q[k] = c
            if len(q) > LIMIT:
                return None
            for n, d in b.items():
                if n == lb:
                    continue
                t = k + n
                v = r.get(t)
                if v is None:
                    r[t] = -c * d % p
                    heapq.heappush(heap, -t)
                else:
                    v = (v - c * d) % p
                    if v:
                        r[t] = v
                    else:
                        del r[t]
        return q

    def mdiv(self, m, n):
        if not n:
            return m
        i = 0
        mm, nn = m, n
        while nn:
            if (mm & MASK) < (nn & MASK):
                return None
            mm >>= W
            nn >>= W
        return m - n

    def prem(self, a, h, i):
        """pseudo-division of a by h in variable i: (k, q, r) with lc^k a = q h + r"""
        dh = self.deg(h, i)
        ch = self.coeffs(h, i)
        lc = ch[dh]
        unit = self.is_const(lc)
        q = {}
        k = 0
        inv = pow(lc[0], -1, self.p) if unit else None
        tail = {e: c for e, c in ch.items() if e != dh}
        while True:
            da = self.deg(a, i)
            if da < dh:
                return k, q, a
            ca = self.coeffs(a, i)
            top = ca.pop(da)
            s = 1 << (W * i)
            if unit:
                t = {m: c * inv % self.p for m, c in top.items()}
                a2 = {}
                for e, c in ca.items():
                    a2.update({m + e * s: v for m, v in c.items()})
                qadd = {m + (da - dh) * s: c for m, c in t.items()}
                q = self.add(q, qadd)
                for e, c in tail.items():
                    a2 = self.add(a2, {m + (da - dh + e) * s: v for m, v in self.mul(c, t).items()}, -1)
                a = a2
            else:
                k += 1
                a2 = {}
                for e, c in ca.items():
                    a2.update({m + e * s: v for m, v in c.items()})
                a2 = self.mul(a2, lc)
                q = self.mul(q, lc)
                q = self.add(q, {m + (da - dh) * s: c for m, c in top.items()})
                for e, c in tail.items():
                    a2 = self.add(a2, {m + (da - dh + e) * s: v for m, v in self.mul(c, top).items()}, -1)
                a = a2

    def eval(self, a, env):
        p = self.p
        t = 0
        for m, c in a.items():
            i = 0
            while m:
                e = m & MASK
                if e:
                    c = c * pow(env[i], e, p) % p
                m >>= W
                i += 1
            t += c
        return t % p

    def subst(self, a, i, b):
        out = {}
        pw = {0: {0: 1}}
        for e, c in sorted(self.coeffs(a, i).items()):
            if e not in pw:
                pw[e] = self.pow(b, e)
            out = self.add(out, self.mul(c, pw[e]))
        return out

    def show(self, a, n=6):
        out = []
        for m, c in sorted(a.items(), reverse=True)[:n]:
            if c > self.p // 2:
                c -= self.p
            t = '' if abs(c) == 1 and m else str(abs(c)) if abs(c) < 10**6 else hex(abs(c))[:10] + '..'
            i = 0
            mm = m
            while mm:
                e = mm & MASK
                if e:
                    t += ('*' if t else '') + self.names[i] + ('^%d' % e if e > 1 else '')
                mm >>= W
                i += 1
            out.append(('-' if c < 0 else '+') + t)
        return ' '.join(out) + (' ... %d terms' % len(a) if len(a) > n else '')


# ------------------------------------------------------------------------------------------------ runs
class Run:
    """the graph and log printed by one symbolic run"""

    def __init__(self, text):
        self.nodes = []
        self.fields = []
        self.log = []
        self.text = text
        for l in text.splitlines():
            w = l.split(' ')
            if w[0] == 'N':
                if w[2] == 'C':
                    self.nodes.append(('C', int(w[3]), int(w[4], 16), int(w[5], 16)))
                elif w[2] == 'V':
                    self.nodes.append(('V', int(w[3]), w[6], int(w[4], 16), int(w[5], 16)))
                else:
                    self.nodes.append((w[2], int(w[3]), int(w[4]), int(w[5])))
            elif w[0] == 'FIELD':
                self.fields.append(int(w[2], 16))
            else:
                self.log.append(l)

    def entries(self, *kinds):
        for l in self.log:
            k = l.split(' ', 1)[0]
            if k in kinds:
                yield l


def execute(binary, job, inputs=None, seed=1, args=(), timeout=120):
    s = '@seed %d\n' % seed
    for k, v in (inputs or {}).items():
        s += '%s %s\n' % (k, ' '.join('%x' % x for x in (v if isinstance(v, tuple) else (v,))))
    try:
        r = subprocess.run(['bash', '-c', 'ulimit -s 65536; ulimit -v 12000000; exec "$@"', '-', binary, job] + [str(a) for a in args], input=s.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return Run('PANIC did not finish in %d s' % timeout)
    return Run(r.stdout.decode() + ('' if r.returncode == 0 else 'PANIC exit status %d %s\n' % (r.returncode, r.stderr.decode()[-300:].replace('\n', ' '))))


class Sys:
    """polynomial view of one run (one field): node -> polynomial in its variables, hypotheses, certificates"""

    def __init__(self, run, p, solver='cvc5'):
        self.run = run
        self.R = Ring(p)
        self.p = p
        self.memo = {}
        self.tri = []       # (main variable, polynomial, why)
        self.nz = []        # polynomials known nonzero
        self.queries = 0
        self.solver_s = 0.0
        self.cut = {}       # node -> variable name (abstracted node)
        self.invs = []      # (variable index, node)
        self.usesu = False
        self.lost = []
        self.mono = []      # (monomial, polynomial): single terms known to be zero
        self.hyps = []
        self._ech = None
        self.derived = []
        self.extra_checked = 0
        self.alias = {}     # value -> (definition, replacement): nodes equal to an announced intermediate value
        self.shadows = {}
        self.announce()

    def announce(self):
        """CUT node name: the node becomes a variable.  ALIASED node / ALIAS node: the first is written as the second.
        Other nodes of the same value follow once their polynomial is the announced one (decided by the solver)."""
        last = None
        for l in self.run.log:
            w = l.split(' ')
            if w[0] not in ('CUT', 'ALIASED', 'ALIAS') or len(w) < 2 or not w[1].isdigit():
                continue
            n = int(w[1])
            if w[0] == 'ALIASED':
                last = n
                continue
            d, r = (n, None) if w[0] == 'CUT' else (last, n)
            if self.run.nodes[d][0] in 'CV':
                continue
            s = self.shadow(d)
            if s in self.alias:
                continue
            v = self.poly(d)
            if all(sum(m >> (W * i) & MASK for i in range(len(self.R.names))) < 2 for m in v):
                continue
            if not self.certify(d, v):
                continue
            rep = self.R.var('cut%d' % d) if w[0] == 'CUT' else self.poly(r)
            self.alias[s] = (v, rep)
            self.memo[d] = rep
            self.cut[d] = 'cut%d' % d

    def shadow(self, n):
        from paths import shadow
        return shadow(self.run, n, self.shadows)

    def certify(self, n, v):
        """solver: node n has polynomial v (modulo p)"""
        return self.solve(n, [('node', n)], [(self.R.const(1), v)], None, 60)

    def poly(self, n):
        """polynomial of node n; inverses become variables with their defining relation"""
        st = [n]
        memo = self.memo
        R = self.R
        while st:
            k = st[-1]
            if k in memo:
                st.pop()
                continue
            nd = self.run.nodes[k]
            if nd[0] == 'C':
                v = R.const(nd[2])
                if nd[3]:
                    v = R.add(v, R.mul(R.const(nd[3]), R.var('u')))
                    self.usesu = True
                memo[k] = v
            elif nd[0] == 'V':
                memo[k] = R.var(nd[2])
            elif nd[0] == 'I':
                if nd[2] not in memo:
                    st.append(nd[2])
                    continue
                name = 'inv%d' % k
                memo[k] = R.var(name)
                a = memo[nd[2]]
                i = R.var_index(name)
                self.invs.append((i, k))
                self.tri.append((i, R.add(R.mul(a, memo[k]), R.const(1), -1), 'inverse'))
                self.nz.append(a)
                self.nz.append(memo[k])
            elif nd[0] == 'E':
                if nd[2] not in memo:
                    st.append(nd[2])
                    continue
                memo[k] = memo[nd[2]]
            elif nd[0] == 'X':
                memo[k] = R.var('conv%d' % k)
            else:
                a, b = nd[2], nd[3]
                if a not in memo or b not in memo:
                    if a not in memo:
                        st.append(a)
                    if b not in memo:
                        st.append(b)
                    continue
                if nd[0] == '+':
                    v = R.add(memo[a], memo[b])
                elif nd[0] == '-':
                    v = R.add(memo[a], memo[b], -1)
                else:
                    v = R.mul(memo[a], memo[b])
                    if self.usesu:
                        v = self.ured(v)
                memo[k] = v
                if self.alias and v:
                    a = self.alias.get(self.shadow(k))
                    if a and a[0] == v and a[1] != v and self.certify(k, v):
                        memo[k] = a[1]
                        self.cut[k] = 'cut'
        return memo[n]

    def ured(self, v):
        """u^2 = -1"""
        i = self.R.idx.get('u')
        if i is None or self.R.deg(v, i) < 2:
            return v
        s = W * i
        out = {}
        p = self.p
        for m, c in v.items():
            e = m >> s & MASK
            if e > 1:
                m -= (e - (e & 1)) << s
                if (e // 2) & 1:
                    c = p - c
            x = (out.get(m, 0) + c) % p
            if x:
                out[m] = x
            else:
                out.pop(m, None)
        return out

    # ---- reduction by the triangular set
    def reduce(self, a, mono=True):
        """(factors, cofactors, remainder): prod(lc^k) a = sum q_j h_j + remainder"""
        lcs, qs = [], []
        R = self.R
        for turn in range(60):
            again = False
            for i, h, why in reversed(self.tri):
                d = R.deg(h, i)
                if R.deg(a, i) < d:
                    continue
                again = True
                k, q, r = R.prem(a, h, i)
                lc = R.coeffs(h, i)[d]
                if k:
                    f = R.pow(lc, k)
                    qs = [(R.mul(x, f), y) for x, y in qs]
                    lcs.append((lc, k))
                qs.append((q, h))
                a = self.ured(r)
            if not again:
                break
        for m, h in self.mono if mono else ():
            iv = pow(h[m], -1, self.p)
            q = {}
            for t in list(a):
                k = R.mdiv(t, m)
                if k is not None:
                    q[k] = a[t] * iv % self.p
            if q:
                a = {t: c for t, c in a.items() if R.mdiv(t, m) is None}
                qs.append((q, h))
        return lcs, qs, a

    def monomials(self, left):
        """equalities the triangular set could not take: those with a single term are used as such"""
        for o, why in left:
            l, q, a = self.reduce(o)
            used, a = self.strip(a)
            if len(a) == 1 and not self.unit(a):
                self.derived.append((o, l, q, used, a))
                self.mono.append((next(iter(a)), a))

    def strip(self, a):
        """divide a by every known nonzero polynomial as often as possible: (powers, rest)"""
        R = self.R
        used = []
        go = True
        while go and not R.is_const(a):
            go = False
            for f in self.nz:
                if R.is_const(f) or len(f) > len(a) * 4 + 50:
                    continue
                q = R.divexact(a, f)
                if q is not None:
                    used.append(f)
                    a = q
                    go = True
        return used, a

    def assume_zero(self, a, why=''):
        """add a = 0; False when it contradicts what is known, None when it could not be used"""
        todo = [(a, why)]
        first = True
        res = True
        steps = 0
        while todo:
            steps += 1
            if steps > 200:
                return None
            a, why = todo.pop(0)
            r = self.insert(a, why, todo)
            if r is False:
                return False
            if r is None:
                if first:
                    res = None
                else:
                    self.lost.append((a, why))
            first = False
        return res

    def insert(self, a, why, todo):
        R = self.R
        orig = a
        l, q, a = self.reduce(a)
        if not a:
            return True
        used, a = self.strip(a)
        self.derived.append((orig, l, q, used, a))
        if self.unit(a):
            return False
        best = None
        mains = {i: R.deg(h, i) for i, h, w in self.tri}
        for i in reversed(R.vars_of(a)):
            if R.names[i] == 'u':
                continue
            d = R.deg(a, i)
            lc = R.coeffs(a, i)[d]
            if (i in mains and mains[i] <= d) or not self.nonzero(lc):
                continue
            key = (d, len(lc), -i)
            if best is None or key < best[0]:
                best = (key, i)
        if best is None:
            return None
        i = best[1]
        d = best[0][0]
        keep = []
        for j, h, w in self.tri:
            if j == i or R.deg(h, i) >= d:
                todo.append((h, w))
            else:
                keep.append((j, h, w))
        # members whose main variable occurs in a must be reduced first: they come later in the list
        self.tri = [(i, a, why)] + keep
        # differences with other members often factor
        for j, h, w in keep:
            if j != i and R.deg(h, i) <= 0 and d > 1 and R.deg(h, j) == d:
                g = R.add(a, h, -1)
                if not g:
                    continue
                u, g2 = self.strip(g)
                if u and not R.is_const(g2):
                    todo.append((g, why))
        more = []
        for f in self.nz:
            if R.deg(f, i) > 0:
                l, q, g = self.reduce(f)
                self.derived.append((f, l, q, [], g))
                if not g:
                    return False
                if g not in self.nz and not R.is_const(g):
                    more.append(g)
        self.nz += more
        return True

    def reduce_by(self, a, tri):
        o, self.tri = self.tri, tri
        try:
            return self.reduce(a)
        finally:
            self.tri = o

    def assume_nonzero(self, a):
        """False when a is identically zero under the hypotheses"""
        l, q, r = self.reduce(a)
        self.derived.append((a, l, q, [], r))
        if not r:
            return False
        if not self.R.is_const(a) and a not in self.nz:
            self.nz.append(a)
        if not self.R.is_const(r) and r not in self.nz:
            self.nz.append(r)
        return True

    def nonzero(self, a):
        """certified nonzero: a product of known nonzero polynomials (and a constant)"""
        if not a:
            return False
        if self.unit(a):
            return True
        u, r = self.strip(a)
        if self.unit(r):
            return True
        l, q, r = self.reduce(a)
        if not r:
            return False
        u, r = self.strip(r)
        return self.unit(r)

    def unit(self, a):
        """a nonzero constant (of F_p, or of F_p(u) with u^2 = -1)"""
        return bool(a) and (0 in a and len(a) == 1 or all(self.R.names[i] == 'u' for i in self.R.vars_of(a)))

    def check_derived(self, timeout=60):
        """every step that built the triangular set and the nonzero facts, decided by the solver"""
        for orig, l, q, used, res in self.derived[self.extra_checked:]:
            if not q and not l and not used:
                continue
            if not self.solve_poly(orig, l, q, used, res, timeout):
                return False
        self.extra_checked = len(self.derived)
        return True

    def solve_poly(self, a, lcs, qs, used, res, timeout):
        """prod(lc^k) a = sum q h + res * prod(used) modulo p (and u^2+1)"""
        lhs = [('poly', a)]
        for lc, k in lcs:
            lhs += [('poly', lc)] * k
        return self.solve(None, lhs, qs, (used, res), timeout)

    # ---- certificates
    def prove_zero(self, n, poly=None, timeout=60):
        """node n is zero under the hypotheses: certificate found here, decided by the solver"""
        a = self.poly(n) if poly is None else poly
        l, q, r = self.reduce(a)
        if r:
            # a factor known to be nonzero may be in the way
            u, r2 = self.strip(r)
            if r2:
                for b, l2, q2 in ((a, [], []), (r, l, q)):
                    c = self.lincomb(b)
                    if c is not None:
                        return self.check_identity(n, a, l2, q2 + c, None, timeout), None
                return False, r2
        return self.check_identity(n, a, l, q, None, timeout), None

    def lincomb(self, a):
        """a as a combination of the hypotheses with constant coefficients, or None: [(coefficient, hypothesis)]"""
        R = self.R
        p = self.p
        if not self.hyps:
            return None
        if self._ech is None or self._ech[0] != len(self.hyps):
            rows = []   # (pivot monomial, polynomial, combination)
            for j, h in enumerate(self.hyps):
                h, c = dict(self.ured(h)), {j: 1}
                for m, r, d in rows:
                    k = h.get(m)
                    if k:
                        h = R.add(h, r, -k)
                        for x, y in d.items():
                            c[x] = (c.get(x, 0) - k * y) % p
                if h:
                    m = max(h)
                    iv = pow(h[m], -1, p)
                    rows.append((m, {x: y * iv % p for x, y in h.items()}, {x: y * iv % p for x, y in c.items()}))
            self._ech = (len(self.hyps), rows)
        c = {}
        a = self.ured(a)
        for m, r, d in self._ech[1]:
            k = a.get(m)
            if k:
                a = R.add(a, r, -k)
                for x, y in d.items():
                    c[x] = (c.get(x, 0) + k * y) % p
        if a:
            return None
        return [({0: v}, self.hyps[j]) for j, v in c.items() if v]

    def prove_nonzero(self, n, timeout=60):
        a = self.poly(n)
        l, q, r = [], [], a
        u, c = self.strip(a)
        if not self.unit(c):
            l, q, r = self.reduce(a)
            u, c = self.strip(r)
        if not self.unit(c):
            return False, c
        return self.check_identity(n, a, l, q, (u, c), timeout), None

    def check_identity(self, n, a, lcs, qs, nzfac, timeout=60):
        """solver: prod(lc) * graph(n) = sum q h + const * prod(nonzero factors), modulo p"""
        R = self.R
        lhs = [('node', n)]
        L = a
        for lc, k in lcs:
            L = R.mul(L, R.pow(lc, k))
            lhs += [('poly', lc)] * k
        rhs = {}
        for q, h in qs:
            rhs = R.add(rhs, R.mul(q, h))
        if nzfac:
            t = dict(nzfac[1])
            for f in nzfac[0]:
                t = R.mul(t, f)
            rhs = R.add(rhs, t)
        if self.usesu:
            # u^2+1 as one more hypothesis: bring its multiple to the right-hand side through reduction of both sides
            D = self.ured(R.add(L, rhs, -1))
            if D:
                return False
        else:
            if R.add(L, rhs, -1):
                return False
        return self.solve(n, lhs, qs, nzfac, timeout)

    def sym(self, c):
        return c - self.p if c > self.p // 2 else c

    def smt_poly(self, a):
        if not a:
            return '0'
        out = []
        for m, c in a.items():
            c = self.sym(c)
            f = [] if c == 1 and m else [str(c) if c >= 0 else '(- %d)' % -c]
            i = 0
            while m:
                e = m & MASK
                f += [self.vn(i)] * e
                m >>= W
                i += 1
            out.append(f[0] if len(f) == 1 else '(* %s)' % ' '.join(f))
        return out[0] if len(out) == 1 else '(+ %s)' % ' '.join(out)

    def vn(self, i):
        return 'v%d' % i

    def smt_nodes(self, roots):
        """define-fun lines (over the integers) for every node below the roots"""
        need, st, order = set(), list(roots), []
        while st:
            k = st.pop()
            if k < 0:
                order.append(~k)
                continue
            if k in need:
                continue
            need.add(k)
            st.append(~k)
            nd = self.run.nodes[k]
            if k in self.cut or nd[0] in 'CVXI':
                if nd[0] == 'I':
                    self.poly(k)
                continue
            if nd[0] == 'E':
                st.append(nd[2])
            else:
                st += [nd[2], nd[3]]
        lines = []
        for k in order:
            nd = self.run.nodes[k]
            if k in self.cut or nd[0] in 'VXIC':
                e = self.smt_poly(self.poly(k))
            elif nd[0] == 'E':
                e = 'n%d' % nd[2]
            elif nd[0] == '+' and nd[2] == nd[3]:
                e = '(* 2 n%d)' % nd[2]   # doubling chains stay small
            else:
                e = '(%s n%d n%d)' % (nd[0], nd[2], nd[3])
            lines.append('(define-fun n%d () Int %s)' % (k, e))
        return lines

    def solve(self, n, lhs, qs, nzfac, timeout):
        lines = self.smt_nodes([n]) if n is not None else []
        # quotient by p and by u^2+1 over the integers: computed exactly
        ls = ' '.join('n%d' % x[1] if x[0] == 'node' else self.smt_poly(x[1]) for x in lhs)
        L = '(* 1 %s)' % ls
        rs = ['(* %s %s)' % (self.smt_poly(q), self.smt_poly(h)) for q, h in qs]
        if nzfac:
            rs.append('(* %s)' % ' '.join([self.smt_poly(nzfac[1]), '1'] + [self.smt_poly(f) for f in nzfac[0]]))
        Z = IntPoly(self)
        D = Z.node(n) if n is not None else Z.lift(lhs[0][1])
        for x in lhs[1:]:
            D = Z.mul(D, Z.lift(x[1]))
        for q, h in qs:
            D = Z.add(D, Z.mul(Z.lift(q), Z.lift(h)), -1)
        if nzfac:
            t = Z.lift(nzfac[1])
            for f in nzfac[0]:
                t = Z.mul(t, Z.lift(f))
            D = Z.add(D, t, -1)
        Q, U = Z.split(D)
        if Q is None:
            return False
        if Q:
            rs.append('(* %d %s)' % (self.p, self.smt_int(Q)))
        if U:
            u = self.vn(self.R.idx['u'])
            rs.append('(* (+ 1 (* %s %s)) %s)' % (u, u, self.smt_int(U)))
        decl = ['(declare-const %s Int)' % self.vn(i) for i in range(len(self.R.names))]
        rhs = '(+ 0 0 %s)' % ' '.join(rs)
        q = '(set-logic QF_NIA)\n' + '\n'.join(decl + lines) + '\n(assert (not (= %s %s)))\n(check-sat)\n' % (L, rhs)
        t = time.time()
        r = ask(q, timeout)
        self.queries += 1
        self.solver_s += time.time() - t
        return r == 'unsat'

    def smt_int(self, a):
        out = []
        for m, c in a.items():
            f = [str(c) if c >= 0 else '(- %d)' % -c]
            i = 0
            while m:
                f += [self.vn(i)] * (m & MASK)
                m >>= W
                i += 1
            out.append(f[0] if len(f) == 1 else '(* %s)' % ' '.join(f))
        return out[0] if len(out) == 1 else '(+ %s)' % ' '.join(out)


class IntPoly:
    """integer polynomials of the graph with symmetric constants (to find the multiple of p)"""

    def __init__(self, S):
        self.S = S
        self.memo = {}

    def lift(self, a):
        return {m: self.S.sym(c) for m, c in a.items()}

    def add(self, a, b, k=1):
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def mul(self, a, b):
        if len(a) * len(b) > 30 * LIMIT:
            raise TooBig('product of %d and %d terms' % (len(a), len(b)))
        r = {}
        for m, c in a.items():
            for n, d in b.items():
                k = m + n
                r[k] = r.get(k, 0) + c * d
        return {m: c for m, c in r.items() if c}

    def node(self, n):
        st = [n]
        S = self.S
        while st:
            k = st[-1]
            if k in self.memo:
                st.pop()
                continue
            nd = S.run.nodes[k]
            if k in S.cut or nd[0] in 'CVXI':
                self.memo[k] = self.lift(S.poly(k))
                continue
            kids = [nd[2]] if nd[0] == 'E' else [nd[2], nd[3]]
            todo = [x for x in kids if x not in self.memo]
            if todo:
                st += todo
                continue
            if nd[0] == 'E':
                self.memo[k] = self.memo[nd[2]]
            elif nd[0] == '*':
                self.memo[k] = self.mul(self.memo[nd[2]], self.memo[nd[3]])
            else:
                self.memo[k] = self.add(self.memo[nd[2]], self.memo[nd[3]], 1 if nd[0] == '+' else -1)
        return self.memo[n]

    def split(self, D):
        """D = p Q + (u^2+1) U"""
        i = self.S.R.idx.get('u')
        U = {}
        if i is not None:
            s = W * i
            while True:
                top = [(m, c) for m, c in D.items() if (m >> s & MASK) >= 2]
                if not top:
                    break
                for m, c in top:
                    k = m - (2 << s)
                    U[k] = U.get(k, 0) + c
                    del D[m]
                    v = D.get(k, 0) - c
                    if v:
                        D[k] = v
                    else:
                        D.pop(k, None)
        Q = {}
        for m, c in D.items():
            if c % self.S.p:
                return None, None
            Q[m] = c // self.S.p
        return Q, {m: c for m, c in U.items() if c}


def ask(q, timeout=60, solver=None):
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout * 1000), '-'], input=q.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout + 10)
        return r.stdout.decode().strip().split('\n')[-1]
    except subprocess.TimeoutExpired:
        return 'timeout'
