"""P25: folding preserves satisfaction and openings; prover and verifier fold alike; the challenge binds what it absorbs."""
import novajobs as n
from common import Check


def run(pid):
    c = Check(pid)
    c.bounds = ['systems of 0 to 4 rows over listed wire patterns with symbolic coefficients, 0 to 2 public inputs, up to 3 witness values, on both sides of the cycle',
                'all assignments (satisfying or not), error vectors, commitment keys (as abstract group elements) and challenges']
    c.outside = ['vectors longer than the commitment key (commit cuts them off)', 'dependence of the challenge on the second instance (the code does not absorb it; its own test fixes that)',
                 'collision resistance of the hash: the random oracle is a fresh symbol per absorbed sequence']
    c.assumptions = ['the curves are groups of prime order (P09-P13); the sponge is a function of the absorbed sequence (P28)']
    S = []
    for t, x, w in n.systems():
        S += n.both('fold', t, x, w, **n.GENERIC)
    for x in (0, 1, 2):
        S += n.both('binding', x, **n.GENERIC)
    return n.run(c, S)
