"""P27: a commitment is the combination of the generators; generated keys have a generator of their own for every entry."""
import novajobs as n
from common import Check


def run(pid):
    c = Check(pid)
    c.bounds = ['keys of 0 to 9 generators (all of them symbolic group elements), vectors up to the key length, both curves', 'generated keys for n = 0 to 3, all random draws symbolic']
    c.outside = ['vectors longer than the key (cut off by the code)', 'longer vectors', 'hardness of finding relations between generators']
    c.assumptions = ['the curves are groups of prime order and scalar multiplication and addition are the group operations (P09-P13)']
    S = []
    for g, k in ((0, 0), (1, 0), (1, 1), (2, 1), (2, 2), (3, 3), (4, 2), (5, 5), (9, 8), (9, 9)):
        S += n.both('pedersen', g, k)
    for g, k, i in ((1, 1, 0), (3, 3, 0), (3, 3, 1), (3, 3, 2), (5, 4, 3), (9, 9, 8)):
        S += n.both('pedersen_bind', g, k, i)
    for k in (0, 1, 2, 3):
        S += n.both('pedersen_key', k)
    return n.run(c, S)
