"""z3 bit-vector value domain for symex.  i1 values are z3 Bools; wider ones are BitVecs."""
import time
import z3

from symex import Unsupported, Unmergeable, is_addr


class BVDom:
    def __init__(self, timeout_ms=60000):
        self.timeout = timeout_ms
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.stack = []
        self.queries = 0
        self.solver_s = 0.0
        self.assumptions = []

    def assume(self, c):
        self.assumptions.append(c)
        self.reset()

    def reset(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout)
        for a in self.assumptions:
            self.solver.add(a)
        self.stack = []

    # -- helpers
    def bv(self, v, w):
        if type(v) is int:
            return z3.BitVecVal(v, w)
        if z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    def simp(self, v):
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        if z3.is_true(v):
            return 1
        if z3.is_false(v):
            return 0
        return v

    def b(self, v):
        if type(v) is int:
            return z3.BoolVal(bool(v))
        if z3.is_bool(v):
            return v
        return v != 0

    def bnot(self, c):
        if type(c) is int:
            return 1 - c
        return z3.Not(c)

    def band(self, a, b):
        return z3.And(self.b(a), self.b(b))

    def bor(self, a, b):
        return z3.Or(self.b(a), self.b(b))

    def bor2(self, a, b):
        if type(a) is int:
            return 1 if a else b
        if type(b) is int:
            return 1 if b else a
        return z3.Or(self.b(a), self.b(b))

    def is_total(self, items, g):
        return g is not None and z3.is_true(z3.simplify(g))

    def feasible(self, pc, c):
        if type(c) is int:
            return bool(c)
        s = z3.simplify(c)
        if z3.is_false(s):
            return False
        if z3.is_true(s):
            return True
        k = 0
        while k < len(pc) and k < len(self.stack) and pc[k] is self.stack[k]:
            k += 1
        while len(self.stack) > k:
            self.solver.pop()
            self.stack.pop()
        for x in pc[k:]:
            self.solver.push()
            self.solver.add(x)
            self.stack.append(x)
        t = time.time()
        self.queries += 1
        r = self.solver.check(c)
        self.solver_s += time.time() - t
        return r != z3.unsat

    # -- ops
    def binop(self, op, w, a, b):
        if w == 1:
            a, b = self.b(a), self.b(b)
            if op in ('xor', 'add', 'sub'):
                return self.simp(z3.Xor(a, b))
            if op == 'and' or op == 'mul':
                return self.simp(z3.And(a, b))
            if op == 'or':
                return self.simp(z3.Or(a, b))
            raise Unsupported('i1 ' + op)
        # cheap identities
        if type(b) is int:
            if b == 0:
                if op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                    return a
                if op in ('and', 'mul'):
                    return 0
            if op == 'and' and b == (1 << w) - 1:
                return a
            if op == 'urem' and b & (b - 1) == 0 and b:
                return self.binop('and', w, a, b - 1)
            if op == 'udiv' and b & (b - 1) == 0 and b:
                return self.binop('lshr', w, a, b.bit_length() - 1)
            if op in ('shl', 'lshr', 'ashr') and b >= w:
                raise Unsupported('oversized shift')
        elif type(a) is int and a == 0:
            if op in ('add', 'or', 'xor'):
                return b
            if op in ('and', 'mul', 'shl', 'lshr', 'udiv', 'urem'):
                return 0
        x, y = self.bv(a, w), self.bv(b, w)
        r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y,
             'or': lambda: x | y, 'xor': lambda: x ^ y, 'shl': lambda: x << y, 'lshr': lambda: z3.LShR(x, y),
             'ashr': lambda: x >> y, 'udiv': lambda: z3.UDiv(x, y), 'urem': lambda: z3.URem(x, y),
             'sdiv': lambda: x / y, 'srem': lambda: z3.SRem(x, y)}[op]()
        return self.simp(r)

    def icmp(self, pred, w, a, b):
        if w == 1:
            a, b = self.b(a), self.b(b)
            if pred == 'eq':
                return self.simp(a == b)
            if pred == 'ne':
                return self.simp(z3.Xor(a, b))
            a = z3.If(a, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            b = z3.If(b, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        x, y = self.bv(a, w), self.bv(b, w)
        r = {'eq': lambda: x == y, 'ne': lambda: x != y, 'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y),
             'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y), 'slt': lambda: x < y, 'sle': lambda: x <= y,
             'sgt': lambda: x > y, 'sge': lambda: x >= y}[pred]()
        return self.simp(r)

    def zext(self, v, fw, tw):
        if fw == 1:
            return self.simp(z3.If(self.b(v), z3.BitVecVal(1, tw), z3.BitVecVal(0, tw)))
        return self.simp(z3.ZeroExt(tw - fw, v))

    def sext(self, v, fw, tw):
        if fw == 1:
            return self.simp(z3.If(self.b(v), z3.BitVecVal(-1, tw), z3.BitVecVal(0, tw)))
        return self.simp(z3.SignExt(tw - fw, v))

    def trunc(self, v, fw, tw):
        if tw == 1:
            return self.simp(z3.Extract(0, 0, self.bv(v, fw)) == 1)
        return self.simp(z3.Extract(tw - 1, 0, self.bv(v, fw)))

    def byte(self, v, w, k):
        return self.simp(z3.Extract(8 * k + 7, 8 * k, self.bv(v, w)))

    def concat(self, bs):
        return self.simp(z3.Concat(*[self.bv(b, 8) for b in reversed(bs)]))

    def ite(self, c, a, b, w):
        if type(a) is not int:
            w = 1 if z3.is_bool(a) else a.size()
        elif type(b) is not int:
            w = 1 if z3.is_bool(b) else b.size()
        if w == 1:
            return self.simp(z3.If(c, self.b(a), self.b(b)))
        return self.simp(z3.If(c, self.bv(a, w), self.bv(b, w)))

    def concretize(self, v):
        raise Unsupported('symbolic index')

    def with_overflow(self, sg, op, w, a, b):
        x, y = self.bv(a, w), self.bv(b, w)
        ext = z3.SignExt if sg == 's' else z3.ZeroExt
        k = w if op == 'mul' else 1
        X, Y = ext(k, x), ext(k, y)
        e = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[op]
        r = z3.Extract(w - 1, 0, e)
        return [self.simp(r), self.simp(ext(k, r) != e)]

    def intrinsic(self, op, w, args):
        a = args[0]
        if op == 'ctpop':
            r = z3.BitVecVal(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a))
            return r
        if op == 'ctlz':
            r = z3.BitVecVal(w, w)
            for i in range(w):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
            return r
        if op == 'cttz':
            r = z3.BitVecVal(w, w)
            for i in reversed(range(w)):
                r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
            return r
        if op == 'bswap':
            return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, a) for k in range(w // 8)])
        raise Unsupported('intrinsic ' + op)

