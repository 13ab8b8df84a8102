"""Group-element tokens for symex: an object of n machine words (a field element, a point) stands for an element of an
abstract group, described by an exponent/index E; the group operations of the code are replaced at their call boundary
by the corresponding operation on E."""
import z3

import symex
from symex import Unmergeable, Unsupported


class Tok:
    __slots__ = ('sp', 'E', 'j')

    def __init__(self, sp, E, j):
        self.sp, self.E, self.j = sp, E, j

    def merge(self, ex, c, other):
        sp = self.sp
        if isinstance(other, Tok):
            if other.j != self.j:
                raise Unmergeable('token')
            E2 = other.E
        else:
            E2 = sp.word_const(self.j, other)
            if E2 is None:
                raise Unmergeable('token with a constant')
        if sp.same(self.E, E2):
            return self
        return Tok(sp, sp.ite(c, self.E, E2), self.j)


class Space:
    """n words per element; consts: {words tuple: E}"""

    def __init__(self, dom, n, consts):
        self.dom, self.n, self.consts = dom, n, dict(consts)
        self.facts = []      # boolean facts introduced for comparisons: list of (kind, bools, ...)
        self.memo = {}

    # to be provided: same(a,b), ite(c,a,b), equal(a,b) -> int | cond | None
    def word_const(self, j, w):
        if type(w) is not int:
            return None
        hits = [E for ws, E in self.consts.items() if ws[j] == w]
        return hits[0] if len(hits) == 1 else None

    def merge_words(self, c, a, b):
        """two different constant words that can only be the j-th words of two known elements"""
        hits = []
        for wa, ea in self.consts.items():
            for wb, eb in self.consts.items():
                if wa is not wb:
                    hits += [(ea, eb, j) for j in range(self.n) if wa[j] == a and wb[j] == b]
        if len(hits) != 1 or a < 4096 and b < 4096:
            return None
        ea, eb, j = hits[0]
        if isinstance(ea, str) or isinstance(eb, str):
            return None
        return Tok(self, self.ite(c, ea, eb), j)

    def words(self, ex, st, a, n=None):
        return [ex.read(st, a + 8 * j, 8) for j in range(n or self.n)]

    def get(self, ex, st, a):
        ws = self.words(ex, st, a)
        if all(isinstance(w, Tok) and w.j == j for j, w in enumerate(ws)):
            E = ws[0].E
            if all(w.E is E or self.same(w.E, E) for w in ws):
                return E
        elif all(type(w) is int for w in ws):
            E = self.consts.get(tuple(ws))
            if E is None:
                E = self.unknown(tuple(ws))
            if E is not None:
                return E
        elif all(type(w) is int or isinstance(w, Tok) and w.j == j for j, w in enumerate(ws)):
            # a token whose words partly coincide with a constant after a merge
            t = [w for w in ws if isinstance(w, Tok)]
            raise Unsupported('mixed element')
        raise Unsupported('not an abstract element: %s' % (ws[:2],))

    def unknown(self, ws):
        return None

    def put(self, ex, st, a, E):
        for ws, E2 in self.consts.items():
            if E2 is E or (not self.symbolic(E) and not self.symbolic(E2) and self.same(E, E2)):
                for j, w in enumerate(ws):
                    ex.write(st, a + 8 * j, 8, w)
                return
        for j in range(self.n):
            ex.write(st, a + 8 * j, 8, Tok(self, E, j))

    def symbolic(self, E):
        return False

    # word comparison: exact when the elements are certainly equal, otherwise one unknown bit per word with the fact
    # that all words agree exactly when the elements are equal
    def cmp(self, ex, a, b):
        j = a.j if isinstance(a, Tok) else b.j
        if isinstance(a, Tok) and isinstance(b, Tok):
            if a.j != b.j:
                raise Unsupported('comparison of different words')
            ea, eb, kb = a.E, b.E, self.key(b.E)
            if self.same(ea, eb):
                return 1
        else:
            t, w = (a, b) if isinstance(a, Tok) else (b, a)
            ea = t.E
            if type(w) is not int:
                raise Unsupported('comparison with a symbolic word')
            hits = [(ws, E) for ws, E in self.consts.items() if ws[j] == w]
            if len(hits) != 1:
                raise Unsupported('comparison with an unknown constant %x' % w)
            eb, kb = hits[0][1], ('c',) + hits[0][0]
        k = tuple(sorted((repr(self.key(ea)), repr(kb))))
        bs = self.memo.get(k)
        if bs is None:
            bs = self.memo[k] = self.bools(len(self.memo))
            self.facts.append((bs, ea, eb))
            self.fact(bs, self.equal(ea, eb))
        return bs[j]

    def key(self, E):
        return E


def icmp(ex, pred, a, b):
    t = a if isinstance(a, Tok) else b
    r = t.sp.cmp(ex, a, b)
    if pred == 'eq':
        return r
    return 1 - r if type(r) is int else ex.dom.bnot(r)


symex.TOK = Tok
symex.tok_icmp = icmp


class BVSpace(Space):
    """comparisons as z3 booleans"""

    def bools(self, k):
        return [z3.Bool('tokeq%d_%d' % (k, j)) for j in range(self.n)]

    def fact(self, bs, eq):
        if eq is None:
            eq = z3.Bool('tokeq_all_%s' % bs[0])
        self.dom.assume(z3.And(*bs) == (z3.BoolVal(bool(eq)) if type(eq) in (int, bool) else eq))


class LinSpace(Space):
    def bools(self, k):
        return [self.dom.var('tokeq%d_%d' % (k, j), 1) for j in range(self.n)]

    def fact(self, bs, eq):
        if eq == 0:
            self.dom.extra.append((bs, self.n - 1))     # sum of the bits is at most n-1
        elif eq == 1:
            raise Unsupported('equal tokens')
        elif eq is not None:
            raise Unsupported('symbolic equality')
