"""Gadgets over bits: the constraints of one run of the real gadget, decided for every assignment of field elements.

The rows are concrete.  (1) Wires whose constraints force them into {0, 1} are found row by row, by the roots of each row in
one unknown wire for every value of its boolean ones.  (2) Each row over boolean wires becomes the set of its satisfying
combinations, and z3 decides the statements about the integer the bits spell."""
import itertools
import os
import random
import time

import z3

import paths
from common import res
from poly import execute

P = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
ONE = 'instance:0'


class Bad(Exception):
    pass


def parse(run):
    rows, nodes, gaps, bits, x = [], {}, [], [], None
    for l in run.log:
        w = l.split(' ')
        if w[0] == 'ROW':
            r = []
            for part in w[1:4]:
                d = {}
                if part != '-':
                    for t in part.split('+'):
                        wire, c = t.split('*')
                        d[wire] = (d.get(wire, 0) + int(c, 16)) % P
                r.append({k: v for k, v in d.items() if v})
            rows.append(tuple(r))
        elif w[0] == 'OUT' and w[2] == 'gap':
            gaps.append(int(w[1]))
        elif w[0] == 'OUT':
            nodes[w[2]] = int(w[1])
        elif w[0] == 'BITS':
            bits = [b for b in w[1:] if b]
        elif w[0] == 'XWIRE':
            x = w[1]
    return rows, nodes, gaps, bits, x


def quad(row, sub):
    """the row as a polynomial {monomial tuple: coefficient}, wires replaced by linear forms"""
    def lin(d):
        o = {}
        for w, c in d.items():
            if w == ONE:
                o[()] = (o.get((), 0) + c) % P
            else:
                for m, e in sub.get(w, {(w,): 1}).items():
                    o[m] = (o.get(m, 0) + c * e) % P
        return o
    a, b, c = (lin(d) for d in row)
    o = {}
    for m, x in a.items():
        for n, y in b.items():
            k = tuple(sorted(m + n))
            o[k] = (o.get(k, 0) + x * y) % P
    for m, x in c.items():
        o[m] = (o.get(m, 0) - x) % P
    return {m: x for m, x in o.items() if x}


def vars_of(q):
    return sorted({w for m in q for w in m})


def value(q, env):
    t = 0
    for m, c in q.items():
        for w in m:
            c = c * env[w] % P
        t = (t + c) % P
    return t


def roots(a, b, c):
    """roots of a v^2 + b v + c, or None for all of them"""
    if a == 0:
        if b == 0:
            return None if c == 0 else []
        return [(-c * pow(b, -1, P)) % P]
    d = (b * b - 4 * a * c) % P
    if d and pow(d, (P - 1) // 2, P) != 1:
        return []
    s = sqrt(d)
    i = pow(2 * a, -1, P)
    return sorted({(-b + s) * i % P, (-b - s) * i % P})


def sqrt(d):
    if d == 0:
        return 0
    q, s = P - 1, 0
    while q % 2 == 0:
        q //= 2
        s += 1
    z = 5
    while pow(z, (P - 1) // 2, P) == 1:
        z += 1
    m, c, t, r = s, pow(z, q, P), pow(d, q, P), pow(d, (q + 1) // 2, P)
    while t != 1:
        i, u = 0, t
        while u != 1:
            u = u * u % P
            i += 1
        b = pow(c, 1 << (m - i - 1), P)
        m, c, t, r = i, b * b % P, t * b * b % P, r * b % P
    return r


def analyse(rows, domain=()):
    """(rows as polynomials after elimination, boolean wires, linear forms of eliminated wires, wide rows)"""
    sub = {}
    # tiny linear rows fix wires: w = constant or w = w'
    for turn in range(3):
        for r in rows:
            q = quad(r, sub)
            if all(len(m) <= 1 for m in q) and 1 <= len(vars_of(q)) <= 2:
                for w in vars_of(q)[::-1]:
                    if w in domain:
                        continue
                    i = pow(-q[(w,)], -1, P)
                    f = {m: c * i % P for m, c in q.items() if m != (w,)}
                    sub[w] = f
                    for o in list(sub):
                        if o != w and (w,) in sub[o]:
                            g = dict(sub[o])
                            c = g.pop((w,))
                            for m, e in f.items():
                                g[m] = (g.get(m, 0) + c * e) % P
                            sub[o] = {m: e for m, e in g.items() if e}
                    break
    qs = [quad(r, sub) for r in rows]
    qs = [q for q in qs if q]
    boolean = set(domain)
    again = True
    while again:
        again = False
        for q in qs:
            vs = vars_of(q)
            un = [w for w in vs if w not in boolean]
            if len(un) != 1 or len(vs) > 7:
                continue
            v = un[0]
            ok, free = True, False
            ks = [w for w in vs if w != v]
            for t in itertools.product((0, 1), repeat=len(ks)):
                env = dict(zip(ks, t))
                co = [0, 0, 0]
                for m, c in q.items():
                    d = m.count(v)
                    for w in m:
                        if w != v:
                            c = c * env[w] % P
                    co[d] = (co[d] + c) % P
                rs = roots(co[2], co[1], co[0])
                if rs is None or any(r not in (0, 1) for r in rs):
                    ok = False
                    break
            if ok:
                boolean.add(v)
                again = True
    return qs, boolean, sub


def table(q, B):
    """z3 formula: the row holds"""
    vs = vars_of(q)
    if not vs:
        return z3.BoolVal(not q)
    bad = []
    for t in itertools.product((0, 1), repeat=len(vs)):
        if value(q, dict(zip(vs, t))) != 0:
            bad.append(z3.Or([B(w) != bool(x) for w, x in zip(vs, t)]))
    return z3.And(bad) if bad else z3.BoolVal(True)


def number(bs):
    """bit vector of a list of z3 booleans, most significant first"""
    o = [z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for b in bs]
    return o[0] if len(o) == 1 else z3.Concat(*o)


class Query:
    def __init__(self):
        self.n, self.t = 0, 0.0

    def ask(self, fs, timeout=60):
        s = z3.Solver()
        s.set('timeout', timeout * 1000)
        s.add(fs)
        t0 = time.time()
        r = s.check()
        self.t += time.time() - t0
        self.n += 1
        return str(r), (s.model() if r == z3.sat else None)


def soundness(run, g, n, bound, Q):
    """None when every assignment satisfying the rows has the promised bits, or a reason"""
    rows, nodes, gaps, bits, x = parse(run)
    qs, boolean, sub = analyse(rows)
    zb = {}
    B = lambda w: zb.setdefault(w, z3.Bool(w))
    small = [q for q in qs if all(w in boolean for w in vars_of(q)) and len(vars_of(q)) <= 7]
    fs = [table(q, B) for q in small]

    def form(w):
        """a wire as a z3 boolean"""
        f = sub.get(w, {(w,): 1})
        if not f:
            return z3.BoolVal(False)
        if f == {(): 1}:
            return z3.BoolVal(True)
        if len(f) == 1 and list(f.values()) == [1] and list(f)[0] and list(f)[0][0] in boolean:
            return B(list(f)[0][0])
        raise Bad('wire %s is not forced to be a bit' % w)
    ob = [form(b) for b in bits]
    if g != 'to':
        if not ob:
            return None
        v = number(ob)
        w = v.size() + 2
        if bound.bit_length() > v.size():
            return None
        r, m = Q.ask(fs + [z3.UGT(v, z3.BitVecVal(bound, v.size()))])
        if r == 'sat':
            return ('the constraints allow a value above the bound', {str(d): bool(z3.is_true(m[d])) for d in m.decls()})
        return None if r == 'unsat' else 'solver: ' + r
    # x = sum of all bits: one row, linear, powers of two, over bits
    for q in qs:
        if all(len(m) <= 1 for m in q) and (x,) in q:
            i = pow(-q[(x,)], -1, P)
            f = {m: c * i % P for m, c in q.items() if m != (x,)}
            pw = {pow(2, k, P): k for k in range(256)}
            if () in f or any(c not in pw for c in f.values()) or any(m[0] not in boolean for m in f) or len(set(f.values())) != len(f):
                continue
            # powers of two above the size of the field coincide with no smaller one: the integer sum is what is bounded
            at = {pw[c]: B(m[0]) for m, c in f.items()}
            v = number([at.get(k, z3.BoolVal(False)) for k in range(255, -1, -1)])
            r, m = Q.ask(fs + [z3.UGE(v, z3.BitVecVal(P, 256))])
            if r == 'sat':
                return ('the constraints allow a second expansion', {str(d): bool(z3.is_true(m[d])) for d in m.decls()})
            if r != 'unsat':
                return 'solver: ' + r
            if len(ob) != n:
                return 'number of bits'
            r, m = Q.ask(fs + [z3.Or([o != at.get(n - 1 - i, z3.BoolVal(False)) for i, o in enumerate(ob)])])
            return None if r == 'unsat' else 'the bits returned are not the bits constrained'
    raise Bad('nothing ties the bits to the value')


def completeness(run, g, n, bound, Q):
    """None when the honest assignment satisfies every row for every value, or a reason"""
    rows, nodes, gaps, bits, x = parse(run)
    atoms = {}     # key -> z3 boolean
    memo = {}

    def prod(a, b):
        if a == b or not b:
            return a
        if not a:
            return b
        # products of bits as sorted pairs of atom keys
        k = ('and',) + tuple(sorted((a, b), key=repr))
        if k not in atoms:
            atoms[k] = z3.And(atoms[a], atoms[b])
        return k

    def lin(n0):
        st = [n0]
        while st:
            m = st[-1]
            if m in memo:
                st.pop()
                continue
            nd = run.nodes[m]
            if nd[0] == 'C':
                memo[m] = {(): nd[2] % P} if nd[2] % P else {}
                continue
            if nd[0] == 'V':
                k = ('v', nd[2])
                if k not in atoms:
                    atoms[k] = z3.Bool(nd[2])
                memo[m] = {k: 1}
                continue
            if nd[0] not in '+-*':
                raise Bad('operation %s' % nd[0])
            todo = [c for c in (nd[2], nd[3]) if c not in memo]
            if todo:
                st += todo
                continue
            a, b = memo[nd[2]], memo[nd[3]]
            o = {}
            if nd[0] == '*':
                if len(a) * len(b) > 3000:
                    raise Bad('product of long forms')
                for k1, c1 in a.items():
                    for k2, c2 in b.items():
                        k = prod(k1, k2)
                        o[k] = (o.get(k, 0) + c1 * c2) % P
            else:
                o = dict(a)
                for k, c in b.items():
                    o[k] = (o.get(k, 0) + (c if nd[0] == '+' else -c)) % P
            memo[m] = {k: c for k, c in o.items() if c}
        return memo[n0]
    if g == 'to':
        tok = {}
        for w, nd in nodes.items():
            d = run.nodes[nd]
            if d[0] == 'V' and d[2].startswith('bit'):
                tok[int(d[2].split('_')[1])] = d[2]
        V = [z3.Bool(tok[k]) if k in tok else z3.Bool('unused%d' % k) if k >= 2 else z3.BoolVal(False) for k in range(256)]
        hyp = z3.ULT(number(V), z3.BitVecVal(P, 256))
        xs = {('v', tok[k]): pow(2, 255 - k, P) for k in tok}
        for k, c in xs.items():
            atoms[k] = z3.Bool(k[1])
    else:
        V = []
        for b in bits:
            f = lin(nodes[b])
            V.append(atoms[list(f)[0]])
        hyp = z3.BoolVal(True)
        if V:
            L = len(V) + 2 + bound.bit_length()
            hyp = z3.ULE(z3.ZeroExt(L - len(V), number(V)), z3.BitVecVal(bound, L))
    bad = []
    for gp in gaps:
        f = lin(gp)
        if g == 'to' and ('v', 'x') in f:
            # the value is the number its bits spell
            f = dict(f)
            c = f.pop(('v', 'x'))
            if len(tok) < 254:
                raise Bad('not all bits of the value are used')
            for k, e in xs.items():
                f[k] = (f.get(k, 0) + c * e) % P
            f = {k: c for k, c in f.items() if c}
        if not f:
            continue
        ks = [k for k in f if k]
        if len(ks) > 8:
            raise Bad('long row')
        for t in itertools.product((0, 1), repeat=len(ks)):
            if (f.get((), 0) + sum(c * f[k] for k, c in zip(ks, t))) % P:
                bad.append(z3.And([atoms[k] == bool(c) for k, c in zip(ks, t)]))
    if bad:
        r, m = Q.ask([hyp, z3.Or(bad)])
        if r == 'sat':
            return ('an honest value violates a constraint', {str(d): bool(z3.is_true(m[d])) for d in m.decls()})
        if r != 'unsat':
            return 'solver: ' + r
    if g == 'to':
        if len(bits) != n:
            return ('number of bits', {})
        for i, b in enumerate(bits):
            k = 256 - n + i
            f = lin(nodes[b])
            want = {('v', tok[k]): 1} if k in tok else {}
            if k >= 2 and k not in tok or f != want:
                return ('bit %d of the output' % i, {})
    return None


def complete(rows, env):
    """propagate an assignment through the rows; None when one is violated"""
    env = dict(env)
    env[ONE] = 1
    for turn in range(len(rows) + 2):
        ch = False
        for r in rows:
            vs = {w for d in r for w in d}
            un = [w for w in vs if w not in env]
            ev = lambda d: sum(c * env[w] for w, c in d.items()) % P
            if not un:
                if (ev(r[0]) * ev(r[1]) - ev(r[2])) % P:
                    return None
            elif len(un) == 1 and un[0] in r[2] and un[0] not in r[0] and un[0] not in r[1]:
                v = un[0]
                rest = sum(c * env[w] for w, c in r[2].items() if w != v)
                env[v] = (ev(r[0]) * ev(r[1]) - rest) * pow(r[2][v], -1, P) % P
                ch = True
        if not ch:
            break
    return env


def candidates(run, g, n, bound):
    """assignments that satisfy the rows although the bits are wrong, tried on the real code"""
    rows, nodes, gaps, bits, x = parse(run)
    rg = random.Random(5)
    nw = 1 + max([int(w.split(':')[1]) for w in nodes if w.startswith('witness')] + [-1])
    outs = []
    ins = [w for w in nodes if run.nodes[nodes[w]][0] == 'V' and w != x]
    for k in range(12):
        if g == 'to':
            v = rg.randrange(P) if k % 2 else rg.randrange(1 << 20)
            env = {}
            for w in ins:
                b = int(run.nodes[nodes[w]][2].split('_')[1])
                env[w] = v >> (255 - b) & 1
            env[x] = v
            for w in nodes:
                if run.nodes[nodes[w]][0] == 'C' and w.startswith('witness'):
                    env.setdefault(w, run.nodes[nodes[w]][2])
        else:
            v = [0, 1, bound, bound + 1, (1 << len(bits)) - 1][k % 5] if k < 5 else rg.randrange(1 << len(bits))
            env = {b: v >> (len(bits) - 1 - i) & 1 for i, b in enumerate(bits)}
        vs = [dict(env)]
        if g == 'to':
            vs.append(dict(env, **{x: (v + 1) % P}))
            vs.append(dict(env, **{x: 0}))
        for b in (bits if len(bits) < 20 else rg.sample(bits, 10)):
            e = dict(env)
            e[b] = 2
            if g == 'to':
                for t in (0, 1):
                    f = dict(e)
                    f[x] = (v + (2 - env[b]) * (1 << (len(bits) - 1 - bits.index(b)))) % P if t else v
                    vs.append(f)
                f = dict(env)
                f[b] = 1 - env[b]
                vs.append(f)
            vs.append(e)
        for e in vs:
            r = complete(rows, e)
            if r is not None:
                outs.append({'W%d' % i: r.get('witness:%d' % i, 0) for i in range(nw)})
    return outs


def job(name, what, g, n, c, ln, B, RB):
    """what: sound or honest"""
    Q = Query()
    if not B:
        return res(name, 'undecided', note='no symbolic build')
    args = [g, str(n), c or '-', str(ln)]
    run = execute(os.path.join(B, 'r1cs'), 'bits', {}, args=args)
    fns = ['FieldAssignment::' + {'to': 'to_bits', 'rc': 'range_check', 'rcb': 'range_check_bits'}[g]]
    if g == 'rc':
        bound = int(c, 2)
    else:
        bound = (1 << n) - 1
    why, inps = None, []
    if 'DONE' not in run.log:
        why = [l for l in run.log if l.startswith('PANIC')] or ['no result']
        why = why[0]
        inps = [{'x': random.Random(1).randrange(P)}]
    else:
        try:
            why = (soundness if what == 'sound' else completeness)(run, g, n, bound, Q)
        except Bad as e:
            why = str(e)
    kw = dict(queries=Q.n, solver_s=Q.t, functions=fns, steps=len(run.nodes), paths=1)
    if why is None:
        rows = [l for l in run.log if l.startswith('ROW')]
        return res(name, 'proved', note='%d rows' % len(rows), **kw)
    reps = 0
    if RB:
        model = why[1] if isinstance(why, tuple) else {}
        if what == 'honest':
            if g == 'to':
                v = sum(1 << (255 - int(k.split('_')[1])) for k, b in model.items() if b and k.startswith('bit'))
                inps += [{'x': v}] + [{'x': y} for y in (0, 1, 2, P - 1, P - 2, 1 << 253, (1 << 128) - 1, 0x1234567890abcdef1234567890abcdef1234567890abcdef)]
            else:
                L = ln
                f = lambda v: {'a%d' % i: v >> (L - 1 - i) & 1 for i in range(L)}
                inps += [{'a%d' % i: int(bool(model.get('a%d' % i))) for i in range(L)}] + [f(v) for v in {0, 1, bound, max(bound - 1, 0), bound // 2} if v < (1 << L)]
        elif 'DONE' in run.log:
            rows = parse(run)[0]
            env = {k: int(v) for k, v in model.items()}
            inps += candidates(run, g, n, bound)
            if env:
                x = parse(run)[4]
                for b in parse(run)[3]:
                    env.setdefault(b, 0)
                r = complete(rows, env)
                if r is not None:
                    nw = 1 + max(int(w.split(':')[1]) for w in parse(run)[1] if w.startswith('witness'))
                    inps.insert(0, {'W%d' % i: r.get('witness:%d' % i, 0) for i in range(nw)})
        for inp in inps[:60]:
            bad, text = paths.replay(os.path.join(RB, 'r1cs'), 'bitsv', args + [what], inp)
            reps += 1
            if bad:
                return res(name, 'violation', note='%s (%s)' % (text, why if isinstance(why, str) else why[0]), replayed=reps, job='bitsv', args=args + [what], inputs={k: hex(v) for k, v in inp.items() if v}, **kw)
    return res(name, 'undecided', note=str(why)[:200], replayed=reps, **kw)


def group(jobs, B, RB):
    return [job(*j, B, RB) for j in jobs]
