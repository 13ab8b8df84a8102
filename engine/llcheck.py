"""Obligations decided by symbolic execution of the LLVM IR (engine A)."""
import os
import re
import time
import traceback

import z3

import bvdom
import common
import ir
import lindom
import llbuild
import symex
from common import res

FQ = 21888242871839275222246405745257275088696311157297823662689037894645226208583
FR = 21888242871839275222246405745257275088548364400416034343698204186575808495617
JJ = 0x0e7db4ea6533afa906673b0101343b00a6682093ccc81082d0970e5ed6f72cb7
BLR = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
BLQ = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
R256 = 1 << 256
R384 = 1 << 384

PROG = None
NAT = None


def setup(name='ll', prepare=None):
    global PROG, NAT
    fs, so = llbuild.build(name, prepare)
    PROG = symex.Program(fs)
    NAT = llbuild.Native(so)
    return PROG, NAT


def limbs(x, n):
    return [(x >> (64 * i)) & (2 ** 64 - 1) for i in range(n)]


def tojoin(ls):
    return sum(v << (64 * i) for i, v in enumerate(ls))


class In:
    """an input: kind 'p' (limbs behind a pointer), 'b' (bytes behind a pointer), 'w' (u64 by value); bound: exclusive
    upper bound on its integer value (None: any); fixed: concrete value"""

    def __init__(self, kind, n, bound=None, fixed=None, name=None, mont=None):
        self.kind, self.n, self.bound, self.fixed, self.name = kind, n, bound, fixed, name

    @property
    def size(self):
        return {'p': 8 * self.n, 'b': self.n, 'w': 8}[self.kind]

    def enc(self, v):
        return v if self.kind == 'w' else llbuild.le(v, self.size)


def F(p, n=4, **k):
    return In('p', n, p, **k)


class Ob:
    """one obligation about one wrapper function.
    ins: [In]; out: (kind, n) of the out pointer or None; ret: bool (the function returns a byte);
    spec(vals) -> (ret | None, outvalue | None): the value demanded for concrete inputs (outvalue None = unspecified);
    pre(vals): extra precondition"""

    def __init__(self, name, fn, ins, out, spec, ret=False, pre=None, key=None, what=None, vec=None, veclen=32):
        self.name, self.fn, self.ins, self.out, self.spec, self.ret, self.pre = name, fn, ins, out, spec, ret, pre
        self.key = key or name
        self.what = what
        self.veclen = veclen
        self.vec = vec  # element size for Vec results

    def osize(self):
        if self.vec:
            return -1
        return 0 if self.out is None else (8 * self.out[1] if self.out[0] == 'p' else self.out[1])

    def native(self, many):
        calls = [(self.fn, [i.enc(v) for i, v in zip(self.ins, vs)], self.osize(), self.vec or self.ret) for vs in many]
        out = []
        for r in NAT.batch(calls, timeout=20):
            if isinstance(r, str):
                out.append(r)
            elif self.vec:
                out.append((None, list(r[1])))
            else:
                out.append((r[0], int.from_bytes(r[1], 'little') if self.out else None))
        return out

    def bad(self, vs, got):
        """does the native result contradict the specification?"""
        if self.pre and not self.pre(vs):
            return False
        for i, v in zip(self.ins, vs):
            if i.bound is not None and v >= i.bound or i.fixed is not None and v != i.fixed:
                return False
        if isinstance(got, str):
            return True
        want = self.spec(vs)
        if want[0] is not None and want[0] != got[0]:
            return True
        return want[1] is not None and want[1] != got[1]

    # concrete candidates: boundary values and structured/random ones
    def candidates(self, n=300, extra=()):
        g = common.rng(self.name)
        pools = []
        for i in self.ins:
            w = i.size * 8
            top = i.bound if i.bound is not None else 1 << w
            if i.fixed is not None:
                pools.append([i.fixed])
                continue
            xs = {0, 1, 2, 3, top - 1, top - 2, top // 2, top // 2 + 1, top // 2 - 1, R256 % top, (R256 * R256) % top}
            for k in range(0, w, 64):
                for d in (-1, 0, 1):
                    xs.add(((1 << k) + d) % (1 << w))
                    xs.add((top - (1 << k) + d) % (1 << w))
            for p in (FQ, FR):
                for d in (-1, 0, 1):
                    xs.add(p + d)
                    xs.add(2 * p + d)
            pools.append([x for x in sorted(xs) if 0 <= x < min(top, 1 << w)])
        seen = []
        import itertools
        tot = 1
        for p in pools:
            tot *= len(p)
        if tot <= 1500:
            seen.extend(itertools.product(*pools))
        else:
            for _ in range(1200):
                seen.append(tuple(g.choice(p) for p in pools))
        for _ in range(n):
            vs = []
            for i, p in zip(self.ins, pools):
                w = i.size * 8
                top = i.bound if i.bound is not None else 1 << w
                if i.fixed is not None:
                    vs.append(i.fixed)
                    continue
                m = g.random()
                if m < 0.3:
                    vs.append(g.choice(p))
                elif m < 0.5:
                    vs.append(tojoin([g.choice((0, 2 ** 64 - 1, g.getrandbits(64), 1, 2 ** 63)) for _ in range((i.size + 7) // 8)]) % min(top, 1 << w))
                else:
                    vs.append(g.randrange(top))
            if g.random() < 0.15 and len(vs) == 2 and self.ins[0].size == self.ins[1].size:
                vs[1] = vs[0]
            seen.append(tuple(vs))
        if len(pools) == 2 and self.ins[0].size == self.ins[1].size:
            for x in pools[0]:
                seen.append((x, x))
                if self.ins[0].bound:
                    seen.append((x, (self.ins[0].bound - x) % self.ins[0].bound))
        return list(extra) + seen

    def hunt(self, extra=(), n=300):
        """-> violating input or None (used to turn a solver counterexample into a concrete one, never to decide)"""
        cs = self.candidates(n, extra)
        for vs, got in zip(cs, self.native(cs)):
            if self.bad(vs, got):
                return vs, got
        return None

    def violation(self, vs, got, how, **kw):
        want = self.spec(vs) if not isinstance(got, str) else None
        return res(self.name, 'violation', key=self.key, replayed=1,
                   note='%s: native %s(%s) = %s, required %s' % (how, self.fn, ', '.join(hex(v) for v in vs),
                                                               show(got), show(want)), inputs=[hex(v) for v in vs],
                   fn=self.fn, got=show(got), want=show(want), **kw)


def show(x):
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show(y) for y in x)
    return hex(x) if isinstance(x, int) else str(x)


class Run:
    """symbolic run of one obligation's function in a value domain"""

    def __init__(self, ob, dom, fixed=None, hooks=(), deadline=240, bits=64):
        self.ob, self.dom = ob, dom
        self.ex = symex.Executor(PROG, dom, hooks=hooks, deadline=time.time() + deadline)
        st = symex.State()
        self.vals = []
        args = []
        lin = isinstance(dom, lindom.LinDom)
        for k, i in enumerate(ob.ins):
            fx = i.fixed if i.fixed is not None else (fixed[k] if fixed else None)
            if i.kind == 'w':
                if fx is not None:
                    v = fx
                else:
                    v = dom.var('x%d' % k) if lin else z3.BitVec('x%d' % k, 64)
                args.append(v)
                self.vals.append([v])
                continue
            a = self.ex.new_obj(st, i.size)
            w = 8 if i.kind == 'p' else 1
            n = i.n
            if fx is not None:
                vs = [(fx >> (8 * w * j)) & ((1 << 8 * w) - 1) for j in range(n)]
            elif lin:
                vs = [dom.var('x%d_%d' % (k, j), 8 * w) for j in range(n)]
            else:
                vs = [z3.BitVec('x%d_%d' % (k, j), 8 * w) for j in range(n)]
            for j, v in enumerate(vs):
                self.ex.write(st, a + w * j, w, v)
            args.append(a)
            self.vals.append(vs)
        self.o = None
        if ob.vec:
            self.o = self.ex.new_obj(st, 24)
            args = [self.o] + args
        elif ob.out:
            self.o = self.ex.new_obj(st, ob.osize())
            args.append(self.o)
        self.st0 = st
        self.args = args
        if not lin:
            for i, vs in zip(ob.ins, self.vals):
                if i.bound is not None and not all(type(v) is int for v in vs):
                    dom.assume(z3.ULT(self.cat(vs), z3.BitVecVal(i.bound, i.size * 8)))

    def cat(self, vs):
        w = 64 if not self.ob or True else 8
        xs = []
        for v in vs:
            xs.append(v)
        ws = [x.size() for x in xs if not type(x) is int]
        w = ws[0] if ws else 64
        xs = [self.dom.bv(x, w) for x in xs]
        return z3.Concat(*reversed(xs)) if len(xs) > 1 else xs[0]

    def go(self):
        if self.ob.fn not in PROG.funcs:
            raise symex.Unsupported('wrapper %s missing' % self.ob.fn)
        rs = self.ex.run(self.ob.fn, self.st0, self.args)
        out = []
        for st, ret in rs:
            ov = None
            if self.ob.vec:
                w = [self.ex.read(st, self.o + 8 * j, 8) for j in range(3)]
                ptr = [x for x in w if symex.is_addr(x)]
                ln = min(x for x in w if not symex.is_addr(x))
                ov = [self.ex.read(st, ptr[0] + self.ob.vec * j, self.ob.vec) for j in range(ln)] if ln else []
            elif self.o is not None:
                w = 8 if self.ob.out[0] == 'p' else 1
                ov = [self.ex.read(st, self.o + w * j, w) for j in range(self.ob.out[1])]
            out.append((st, ret, ov))
        return out

    def functions(self):
        return sorted({PROG.demangle(n) for n in self.ex.called})


# ---------------------------------------------------------------- LIN back end
class LinQ:
    def __init__(self, dom, mixed=True):
        self.d = dom
        self.mixed = mixed
        self.V = [(z3.Int if (not mixed or a.hi - a.lo <= 64) else z3.Real)('%s_%d' % (a.name, a.i)) for a in dom.atoms]
        self.queries = 0
        self.solver_s = 0.0

    def tm(self, e):
        if type(e) is int:
            return z3.RealVal(e) if self.mixed else z3.IntVal(e)
        if self.mixed:
            xs = [z3.RealVal(e.c)]
            for i, c in e.t.items():
                v = self.V[i]
                xs.append((z3.ToReal(v) if v.sort() == z3.IntSort() else v) * z3.RealVal(c))
        else:
            xs = [z3.IntVal(e.c)] + [self.V[i] * z3.IntVal(c) for i, c in e.t.items()]
        return z3.Sum(xs)

    def defs(self, roots):
        d, V, tm = self.d, self.V, self.tm
        need = set()
        wl = []
        for r in roots:
            if type(r) is not int:
                wl.extend(r.t)
        while wl:
            i = wl.pop()
            if i in need:
                continue
            need.add(i)
            a = d.atoms[i]
            if a.kind in ('neg', 'eq'):
                wl.extend(a.data.t)
            elif a.kind == 'floor':
                wl.extend(a.data[0].t)
            elif a.kind in ('band', 'ite'):
                for x in a.data:
                    wl.extend(x.t)
            elif a.kind == 'bitop':
                wl.extend(a.data[1].t)
                wl.extend(a.data[2].t)
            elif a.kind == 'prod':
                if d.atoms[a.data[0]].boolean or d.atoms[a.data[1]].boolean:
                    wl.extend(a.data)
        cs = []
        for i in sorted(need):
            a = d.atoms[i]
            v = V[i]
            cs += [v >= a.lo, v <= a.hi]
            if a.kind == 'neg':
                e = tm(a.data)
                cs += [z3.Implies(v == 1, e <= -1), z3.Implies(v == 0, e >= 0)]
            elif a.kind == 'eq':
                e = tm(a.data)
                cs += [z3.Implies(v == 1, e == 0), z3.Implies(v == 0, z3.Or(e <= -1, e >= 1))]
            elif a.kind == 'floor':
                e = tm(d.add(a.data[0], d.of(a), -(1 << a.data[1])))
                cs += [e >= 0, e <= (1 << a.data[1]) - 1]
            elif a.kind in ('band', 'ite'):
                va = z3.ToReal(v) if self.mixed and v.sort() == z3.IntSort() else v
                if a.kind == 'band':
                    A, B = tm(a.data[0]), tm(a.data[1])
                    cs += [va <= A, va <= B, va >= A + B - 1]
                else:
                    c, A, B = [tm(x) for x in a.data]
                    cs += [z3.Implies(c >= 1, va == A), z3.Implies(c <= 0, va == B)]
            elif a.kind == 'bitop':
                op, ea, eb = a.data
                va = z3.ToReal(v) if self.mixed and v.sort() == z3.IntSort() else v
                A, B = tm(ea), tm(eb)
                if op == 'or':
                    cs += [va >= A, va >= B, va <= A + B]
                elif op == 'and':
                    cs += [va <= A, va <= B]
                else:
                    cs += [va <= A + B, va >= A - B, va >= B - A]
            elif a.kind == 'prod':
                x, y = a.data
                if d.atoms[y].boolean:
                    x, y = y, x
                if d.atoms[x].boolean:
                    # v = x*y with x boolean
                    Y = V[y]
                    cs += [z3.Implies(V[x] == 1, v == Y if v.sort() == Y.sort() else
                                      (v if v.sort() == z3.RealSort() else z3.ToReal(v)) ==
                                      (Y if Y.sort() == z3.RealSort() else z3.ToReal(Y))),
                           z3.Implies(V[x] == 0, v == 0)]
        return cs

    def check(self, roots, asserts, timeout):
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000))
        s.add(*self.defs(roots))
        s.add(*asserts)
        t = time.time()
        r = s.check()
        self.solver_s += time.time() - t
        self.queries += 1
        return r, (s.model() if r == z3.sat else None)


def linval(d, vs, w=64):
    r = d.lin(0)
    for j, v in enumerate(vs):
        r = d.add(r, v, 1 << (w * j))
    return r


def linprod(d, xs, ys, w=64):
    r = d.lin(0)
    for i, x in enumerate(xs):
        for j, y in enumerate(ys):
            r = d.add(r, d.mul(d.lin(x), d.lin(y)), 1 << (w * (i + j)))
    return r


def model_inputs(q, model, run):
    vs = []
    for vals in run.vals:
        tot = 0
        w = 8 if len(vals) and run.ob.ins[len(vs)].kind == 'b' else 64
        for j, v in enumerate(vals):
            if type(v) is int:
                x = v
            else:
                (i, _), = v.t.items()
                m = model.eval(q.V[i], model_completion=True)
                x = m.as_long() if z3.is_int_value(m) else int(m.as_fraction())
            tot += (x & ((1 << w) - 1)) << (w * j)
        vs.append(tot)
    return tuple(vs)


def lin_exact(ob, *a, **k):
    """lin_exact1 with if-then-else expanded into products first, then as solver-level implications"""
    r = lin_exact1(ob, *a, **k, last=False)
    if r['status'] == 'undecided':
        q, t = r.get('queries', 0), r.get('solver_s', 0)
        r = lin_exact1(ob, *a, **k, ite_limit=6)
        r['queries'] = r.get('queries', 0) + q
        r['solver_s'] = r.get('solver_s', 0) + t
    return r


def lin_exact1(ob, target, mod, scale, outmod=None, timeout=60, flag=None, deadline=200, ite_limit=400, last=True, canon=None):
    """Decides by LIN: for all inputs in bounds, out < outmod (default mod) and out*scale == target (mod mod).
    target(d, vals) -> (Lin, [(Lin, bound)])  with upper bounds implied by the input bounds (e.g. products).
    flag(d, vals) -> (Lin, bound): the returned byte must be 1 exactly when that value is < bound, and the claim about
    the output is made for flag 1 only.  mod 0: out must equal target as an integer."""
    outmod = outmod or mod
    t0 = time.time()
    d = lindom.LinDom(ite_limit)
    tot = dict(queries=0, solver_s=0.0, steps=0, paths=0, functions=[])

    def fin(status, **kw):
        return res(ob.name, status, key=ob.key, **{**tot, **kw})
    cex = []
    try:
        run = Run(ob, d, deadline=deadline)
        outs = run.go()
        tot['steps'] = run.ex.steps
        tot['paths'] = len(outs)
        tot['functions'] = run.functions()
        q = LinQ(d)
        base0 = []
        roots0 = []
        for i, vs in zip(ob.ins, run.vals):
            e = linval(d, vs, 8 if i.kind == 'b' else 64)
            if i.bound is not None and type(e) is not int and e.t:
                base0.append((e, i.bound - 1))
        T, bounds = target(d, run.vals)
        base0 += bounds
        FL = flag(d, run.vals) if flag else None
        q = LinQ(d)
        status = {}
        ok = True
        wit = False

        def ask(nm, roots, asserts, keep=True):
            nonlocal ok
            r, m = q.check(roots, asserts, timeout)
            status[nm] = str(r)
            if keep and r != z3.unsat:
                ok = False
                if m is not None:
                    cex.append(model_inputs(q, m, run))
            return r

        def lt(e, b):
            return q.tm(e) <= b - 1

        def ge(e, b):
            return q.tm(e) >= b
        base = [q.tm(e) <= b for e, b in base0]
        roots0 = [e for e, _ in base0] + [T]
        for k, (pc, why) in enumerate(run.ex.panics):
            ask('panic%d' % k, roots0 + list(pc), base + [q.tm(c) == 1 for c in pc])
            if not ok:
                status['panic'] = why
        for k, (st, ret, ov) in enumerate(outs):
            sx = '' if len(outs) == 1 else str(k)
            bs = base + [q.tm(c) == 1 for c in st.pc if type(c) is not int]
            rt = roots0 + [c for c in st.pc if type(c) is not int]
            fl = None
            if FL:
                fe, fb = FL
                rt = rt + [fe]
                if type(ret) is int:
                    if ret:
                        ask('accepts-only' + sx, rt, bs + [ge(fe, fb)])
                    else:
                        ask('rejects-only' + sx, rt, bs + [lt(fe, fb)])
                        if ok and q.check(rt, bs, timeout)[0] != z3.unsat:
                            wit = wit or len(outs) > 1 and k > 0
                        continue
                else:
                    rt = rt + [ret]
                    ask('accepts-only' + sx, rt, bs + [q.tm(ret) >= 1, ge(fe, fb)])
                    ask('rejects-only' + sx, rt, bs + [q.tm(ret) <= 0, lt(fe, fb)])
                    bs = bs + [q.tm(ret) == 1]
                bs = bs + [lt(fe, fb)]
            if any(v is symex.UNDEF for v in ov):
                raise symex.Unsupported('undefined output')
            if ob.vec and len(ov) != ob.veclen:
                ok = False
                status['length'] = len(ov)
                continue
            Rv = linval(d, ov, 64 if ob.out[0] == 'p' else 8)
            rt = rt + [Rv]
            if ask('witness' + sx, rt, bs, keep=False) != z3.unsat:
                wit = True
            if mod:
                if canon is not None:
                    r = canon(ob, outmod, timeout, tot)
                    status['canonical'] = str(r)
                    if r != z3.unsat:
                        ok = False
                elif Rv.t:
                    ask('canonical' + sx, rt, bs + [ge(Rv, outmod)])
                elif Rv.c >= outmod:
                    ok = False
                    status['canonical'] = hex(Rv.c)
                E = d.add(T, Rv, -scale)
                E = lindom.Lin({i: centre(c, mod) for i, c in E.t.items() if c % mod}, E.c % mod, 0, 0)
                if not E.t:
                    if E.c:
                        ok = False
                        status['exact' + sx] = 'constant off by %x' % E.c
                    else:
                        kk = z3.Int('k')
                        r, _ = q.check([], [z3.IntVal(0) == kk * mod, kk != 0], timeout)
                        status['exact' + sx] = 'identity ' + str(r)
                else:
                    qq, rr = z3.Int('q'), z3.Int('r')
                    ask('exact' + sx, rt + [E], bs + [q.tm(E) == z3.ToReal(qq) * mod + z3.ToReal(rr), rr >= 1, rr <= mod - 1])
            else:
                E = d.add(T, Rv, -scale)
                ask('exact' + sx, rt + [E], bs + [z3.Or(q.tm(E) >= 1, q.tm(E) <= -1)])
        tot['queries'] += q.queries
        tot['solver_s'] += q.solver_s
        if ok and wit:
            # translator validation: the encoding of a few concrete inputs equals the native result
            n = validate(ob, tot)
            return fin('proved', note=str(status), replayed=n, wall=round(time.time() - t0, 2))
        note = 'solver: %s' % status
    except Exception as e:
        note = 'engine: %s: %s' % (type(e).__name__, e)
    h = ob.hunt(extra=cex, n=600)
    if h is None and cex and last and not flag and mod:
        h = refine(ob, target, mod, scale, outmod, timeout)
    if h is not None:
        return ob.violation(h[0], h[1], note, **{k: v for k, v in tot.items()})
    return fin('undecided', note=note)


def centre(c, m):
    c %= m
    return c - m if c > m // 2 else c


def validate(ob, tot, n=3):
    """run the symbolic executor on concrete inputs and compare with the native library"""
    cs = [c for c in (tuple(i.fixed if i.fixed is not None else v for i, v in zip(ob.ins, c)) for c in ob.candidates(6)) if not (ob.pre and not ob.pre(c))]
    g = common.rng('v', ob.name)
    g.shuffle(cs)
    cs = cs[:n]
    nat = ob.native(cs)
    ok = 0
    for vs, got in zip(cs, nat):
        run = Run(ob, bvdom.BVDom(), fixed=vs)
        o = run.go()
        st, ret, ov = o[0]
        sym = (ret if ob.ret else None, None)
        if ob.vec:
            sym = (None, [b if type(b) is int else b for b in ov])
            if ob.vec > 1:
                got = (None, [int.from_bytes(bytes(got[1][k:k + ob.vec]), 'little') for k in range(0, len(got[1]), ob.vec)])
        elif ob.out:
            w = 64 if ob.out[0] == 'p' else 8
            if any(type(v) is not int for v in ov):
                ov = [0 if v is symex.UNDEF else v for v in ov]
            sym = (sym[0], tojoin(ov) if w == 64 else sum(v << (8 * j) for j, v in enumerate(ov)))
        if got == 'crash' or isinstance(got, str):
            raise symex.Unsupported('native %s on %s' % (got, vs))
        if sym[0] is not None and (sym[0] & 0xff) != got[0]:
            raise symex.Unsupported('translator mismatch (flag) on %s' % (vs,))
        if sym[1] is not None and sym[1] != got[1] and not (ob.ret and ret == 0):
            raise symex.Unsupported('translator mismatch on %s' % (vs,))
        ok += 1
    return ok


def refine(ob, target, mod, scale, outmod, timeout):
    """a mixed-encoding counterexample did not replay: fix all inputs but one and solve over the integers"""
    g = common.rng('refine', ob.name)
    if len(ob.ins) < 2:
        return None
    t0 = time.time()
    for k in range(12):
        if time.time() - t0 > 2 * timeout:
            break
        keep = k % len(ob.ins)
        fixed = []
        for j, i in enumerate(ob.ins):
            top = i.bound or 1 << (8 * i.size)
            fixed.append(None if j == keep else (top - 1 if k < 2 else g.randrange(top)))
        try:
            d = lindom.LinDom()
            run = Run(ob, d, fixed=fixed)
            (st, ret, ov), = run.go()
            Rv = linval(d, ov, 64 if ob.out[0] == 'p' else 8)
            T, bounds = target(d, run.vals)
            q = LinQ(d, mixed=False)
            base = []
            for i, vs in zip(ob.ins, run.vals):
                e = linval(d, vs, 8 if i.kind == 'b' else 64)
                if i.bound is not None and type(e) is not int and e.t:
                    base.append(q.tm(e) <= i.bound - 1)
            E = d.add(T, Rv, -scale)
            E = lindom.Lin({i: centre(c, mod) for i, c in E.t.items() if c % mod}, E.c % mod, 0, 0)
            for roots, a in (([Rv, T], [q.tm(Rv) >= outmod]),
                             ([Rv, T, E], [q.tm(E) == z3.Int('q') * mod + z3.Int('r'), z3.Int('r') >= 1, z3.Int('r') <= mod - 1])):
                r, m = q.check(roots, base + a, 15)
                if m is not None:
                    vs = model_inputs(q, m, run)
                    got = ob.native([vs])[0]
                    if ob.bad(vs, got):
                        return vs, got
        except (symex.Unsupported, ValueError):
            return None
    return None


# ---------------------------------------------------------------- BV back end
def bv_decide(ob, claims, timeout=120, hooks=(), deadline=240, pre=None, cexmap=None):
    """Decides by bit-vectors: claims(run, st, ret, out) -> [(name, z3 Bool that must hold)] for every path."""
    t0 = time.time()
    d = bvdom.BVDom()
    tot = dict(queries=0, solver_s=0.0, steps=0, paths=0, functions=[])

    def fin(status, **kw):
        return res(ob.name, status, key=ob.key, **{**tot, **kw})
    cex = []
    note = ''
    try:
        run = Run(ob, d, deadline=deadline, hooks=hooks)
        if pre is not None:
            for c in pre(run):
                d.assume(c)
        outs = run.go()
        tot.update(steps=run.ex.steps, paths=len(outs), functions=run.functions())
        bad = None
        if run.ex.panics:
            for pc, why in run.ex.panics:
                s = z3.Solver()
                s.set('timeout', int(timeout * 1000))
                s.add(*d.assumptions)
                s.add(*pc)
                r = s.check()
                if r != z3.unsat:
                    bad = 'a path panics (%s): %s' % (r, why)
                    if r == z3.sat:
                        cex.append(cexmap(s.model()) if cexmap else bv_inputs(s.model(), run))
        wit = 0
        for st, ret, ov in outs:
            s = z3.Solver()
            s.set('timeout', int(timeout * 1000))
            s.add(*d.assumptions)
            s.add(*st.pc)
            for nm, c in claims(run, st, ret, ov):
                if c is True:
                    continue
                if c is False:
                    c = z3.BoolVal(False)
                s.push()
                s.add(z3.Not(c))
                t = time.time()
                r = s.check()
                tot['solver_s'] += time.time() - t
                tot['queries'] += 1
                if r != z3.unsat:
                    bad = '%s: %s' % (nm, r)
                    if r == z3.sat:
                        cex.append(cexmap(s.model()) if cexmap else bv_inputs(s.model(), run))
                s.pop()
                if bad:
                    break
            if bad:
                break
            if wit == 0:
                t = time.time()
                if s.check() != z3.unsat:
                    wit += 1
                tot['solver_s'] += time.time() - t
                tot['queries'] += 1
        tot['queries'] += d.queries
        tot['solver_s'] += d.solver_s
        if bad is None and wit:
            n = validate(ob, tot)
            return fin('proved', replayed=n, wall=round(time.time() - t0, 2))
        note = bad or 'vacuous'
    except Exception as e:
        note = 'engine: %s: %s' % (type(e).__name__, e)
    h = ob.hunt(extra=cex, n=600)
    if h is not None:
        return ob.violation(h[0], h[1], note, **tot)
    return fin('undecided', note=note)


def bv_inputs(m, run):
    vs = []
    for i, vals in zip(run.ob.ins, run.vals):
        w = 8 if i.kind == 'b' else 64
        tot = 0
        for j, v in enumerate(vals):
            x = v if type(v) is int else m.eval(v, model_completion=True).as_long()
            tot += x << (w * j)
        vs.append(tot)
    return tuple(vs)


# ---------------------------------------------------------------- several functions over the same symbolic inputs
class Multi:
    def __init__(self, name, dom, ins, deadline=200):
        self.name, self.dom, self.ins = name, dom, ins
        self.lin = isinstance(dom, lindom.LinDom)
        self.vals = []
        self.ex = symex.Executor(PROG, dom, deadline=time.time() + deadline)
        self.fns = []
        for k, i in enumerate(ins):
            w = 8 if i.kind == 'b' else 64
            n = 1 if i.kind == 'w' else i.n
            vs = [dom.var('x%d_%d' % (k, j), w) if self.lin else z3.BitVec('x%d_%d' % (k, j), w) for j in range(n)]
            self.vals.append(vs)
            if i.bound is not None and not self.lin:
                dom.assume(z3.ULT(self.cat(vs), z3.BitVecVal(i.bound, w * n)))

    def cat(self, vs):
        ws = [x.size() for x in vs if type(x) is not int]
        w = ws[0] if ws else 64
        xs = [self.dom.bv(x, w) for x in vs]
        return z3.Concat(*reversed(xs)) if len(xs) > 1 else xs[0]

    def call(self, fn, idx, out=None, ret=True):
        """-> (ret, out words) joined over paths"""
        st = symex.State()
        args = []
        for k in idx:
            i = self.ins[k] if type(k) is int else None
            if i.kind == 'w':
                args.append(self.vals[k][0])
                continue
            w = 1 if i.kind == 'b' else 8
            a = self.ex.new_obj(st, i.size)
            for j, v in enumerate(self.vals[k]):
                self.ex.write(st, a + w * j, w, v)
            args.append(a)
        o = None
        if out:
            o = self.ex.new_obj(st, 8 * out[1] if out[0] == 'p' else out[1])
            args.append(o)
        if fn not in PROG.funcs:
            raise symex.Unsupported('wrapper %s missing' % fn)
        self.fns.append(fn)
        np = len(self.ex.panics)
        rs = self.ex.run(fn, st, args)
        if len(self.ex.panics) > np:
            raise symex.Unsupported('%s may panic: %s' % (fn, self.ex.panics[-1][1]))
        res_ = []
        for s, r in rs:
            ov = None
            if out:
                w = 8 if out[0] == 'p' else 1
                ov = [self.ex.read(s, o + w * j, w) for j in range(out[1])]
            res_.append((s.pc, r, ov))
        pc, r, ov = res_[0]
        for pc2, r2, ov2 in res_[1:]:
            if self.lin:
                raise symex.Unsupported('unmerged paths')
            g = z3.And(*pc2) if len(pc2) > 1 else pc2[0]
            if ret:
                r = z3.If(g, self.dom.bv(r2, 8), self.dom.bv(r, 8))
            if out:
                w = 64 if out[0] == 'p' else 8
                ov = [z3.If(g, self.dom.bv(x2, w), self.dom.bv(x, w)) for x, x2 in zip(ov, ov2)]
        return r, ov

    def byte(self, r):
        return self.dom.bv(r, 8) if type(r) is int else r

    def inputs(self, m):
        vs = []
        for i, vals in zip(self.ins, self.vals):
            w = 8 if i.kind == 'b' else 64
            vs.append(sum((m.eval(v, model_completion=True).as_long()) << (w * j) for j, v in enumerate(vals)))
        return tuple(vs)

    def functions(self):
        return sorted({PROG.demangle(n) for n in self.ex.called})


def laws(name, ins, build, native, timeout=120):
    """build(Multi) -> [(law name, z3 Bool)]; native(values) -> [(law name, bool)] evaluated on the real code"""
    t0 = time.time()
    tot = dict(queries=0, solver_s=0.0, steps=0, paths=1, functions=[])
    out = []
    try:
        d = bvdom.BVDom()
        M = Multi(name, d, ins)
        ls = build(M)
        tot['functions'] = M.functions()
        s = z3.Solver()
        s.set('timeout', timeout * 1000)
        s.add(*d.assumptions)
        if s.check() != z3.sat:
            raise symex.Unsupported('vacuous assumptions')
        for nm, c in ls:
            s.push()
            s.add(z3.Not(c))
            t = time.time()
            r = s.check()
            dt = time.time() - t
            full = '%s: %s' % (name, nm)
            if r == z3.unsat:
                out.append(res(full, 'proved', queries=1, solver_s=dt, paths=1, steps=M.ex.steps // max(1, len(ls)), functions=tot['functions']))
            else:
                bad = None
                if r == z3.sat:
                    vs = M.inputs(s.model())
                    bad = [x for x in native([vs])[0] if x[0] == nm and not x[1]]
                if bad:
                    out.append(res(full, 'violation', key=full, queries=1, solver_s=dt, replayed=1, inputs=[hex(v) for v in vs],
                                   note='law fails natively on %s' % ', '.join(hex(v) for v in vs)))
                else:
                    out.append(res(full, 'undecided', queries=1, solver_s=dt, note='solver: %s' % r))
            s.pop()
        return out
    except Exception as e:
        note = '%s: %s' % (type(e).__name__, e)
    # engine could not encode: look for a concrete counterexample so that a real break is still reported
    ob = Ob(name, '', ins, None, None)
    cands = ob.candidates(400)
    for vs, lw in zip(cands, native(cands)):
        for nm, okk in lw:
            if not okk:
                full = '%s: %s' % (name, nm)
                return [res(full, 'violation', key=full, replayed=1, inputs=[hex(v) for v in vs],
                            note='law fails natively on %s (engine: %s)' % (', '.join(hex(v) for v in vs), note), **tot)]
    return [res(name, 'undecided', note=note, **tot)]


def call_in(d, fn, vals, ins, out):
    """run another function on the same symbolic inputs in the same domain -> out words"""
    M = Multi(fn, d, [])
    M.ins = ins
    M.vals = vals
    return M.call(fn, list(range(len(ins))), out, False)[1]
