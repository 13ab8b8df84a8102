"""P12: twisted Edwards addition, doubling, conversion."""
import symcheck
from common import Check
from symcheck import spec

FR = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
ADD = {'fadd_pp': 'pp', 'fadd_aa': 'aa', 'fadd_ap': 'ap', 'p+p': 'pp', 'a+p': 'ap', 'p+a': 'pa', 'a+a': 'aa'}
ONE = {'fdbl_p': 'p', 'fdbl_a': 'a', 'dbl_p': 'p', 'dbl_a': 'a', 'to_affine': 'p', 'from_p': 'p', 'to_extended': 'a', 'from_a': 'a', 'from_xy': 'a'}
G = {'p': 'ei', 'a': 'ai'}


def run(pid):
    c = Check(pid)
    c.bounds = ['all points of a curve -x^2 + y^2 = 1 + d x^2 y^2 (the Jubjub parameters of zkstd/tests), all extended representatives (x z, y z, x y z, z) with z != 0, identities included']
    c.outside = ['other twisted Edwards parameters', 'extended quadruples with an inconsistent t']
    c.assumptions = ['1 + d x1 x2 y1 y2 and 1 - d x1 x2 y1 y2 are nonzero for curve points (d is not a square, checked numerically)']
    d = -10240 * pow(10241, -1, FR) % FR
    assert pow(d, (FR - 1) // 2, FR) == FR - 1
    S = []
    for j, k in ADD.items():
        for x in G[k[0]]:
            for y in G[k[1]]:
                S.append(spec('%s %s%s' % (j, x, y), 'edwards', j, [x + y], FR, functions=[j]))
    for j, k in ONE.items():
        for x in G[k]:
            S.append(spec('%s %s' % (j, x), 'edwards', j, [x], FR, functions=[j]))
    symcheck.run(c, S, ['edwards'], ['zkstd', 'bn254'])
    return c.finish()
