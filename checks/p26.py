"""P26: the relaxed and the strict satisfaction checks accept exactly what satisfies the relation."""
import novajobs as n
from common import Check


def run(pid):
    c = Check(pid)
    c.bounds = ['systems of 0 to 4 rows over listed wire patterns with symbolic coefficients, 0 to 2 public inputs, up to 3 witness values, on both sides of the cycle; every value of u, x, w, E and of the commitment',
                'vectors one entry shorter or longer than the structure', 'three systems written with gadgets and converted']
    c.outside = ['larger systems', 'commitment keys shorter than the witness']
    c.assumptions = ['the curves are groups of prime order (P09-P13)']
    S = []
    for t, x, w in n.systems():
        S += n.both('relaxed', t, x, w, 0, 0, 0)
        S += n.both('strict', t, x, w, 0, 0)
        S += n.both('relax', t, x, w)
    for d in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, 0, 1), (0, 0, -1), (-1, 1, 0), (1, -1, 0)):
        S += n.both('relaxed', 'ab.a.bo_xo.ao.ya', 2, 2, *d)
        if not d[2]:
            S += n.both('strict', 'ab.a.bo_xo.ao.ya', 2, 2, *d[:2])
    for k in (0, 1, 2):
        S += n.both('shape', k)
    return n.run(c, S)
