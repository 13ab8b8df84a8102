"""P10: addition and doubling of the Weierstrass curves."""
import symcheck
from common import Check
from symcheck import spec

Q = 0x30644e72e131a029b85045b68181585d97816a916871ca8d3c208c16d87cfd47
R = 0x30644e72e131a029b85045b68181585d2833e84879b9709143e1f593f0000001
FIELD = {'g1': Q, 'g2': Q, 'gr': R}
WHAT = {'g1': 'BN254 G1', 'g2': 'BN254 G2', 'gr': 'Grumpkin'}
ADD = ('fadd_pp', 'fadd_aa', 'fadd_ap', 'p+p', 'a+a', 'a+p', 'p+a')
DBL = ('fdbl_p', 'fdbl_a', 'dbl_p', 'dbl_a')


def kinds(job):
    """kinds of the operands that a form can take"""
    l, r = ('p', 'p')
    if job.startswith('fadd_'):
        l, r = job[5], job[6]
    elif '+' in job or '-' in job[1:]:
        t = [x for x in job if x in 'pa']
        l, r = t[0], t[1]
    g = {'p': 'poi', 'a': 'ai'}
    return [a + b for a in g[l] for b in g[r]]


def run(pid):
    c = Check(pid)
    c.bounds = ['all coordinates, all projective representatives with z != 0, all representatives (0 : y : 0) and the canonical one of the identity; '
                'every combination of equal, opposite, distinct and identity operands']
    c.outside = ['points that do not satisfy the curve equation', 'points of order two (the three curves have odd order: y != 0 on every finite point)']
    S = []
    for cv in FIELD:
        for j in ADD:
            for k in kinds(j):
                S.append(spec('%s %s %s' % (WHAT[cv], j, k), 'curves', j, [cv, k], FIELD[cv], functions=['%s %s' % (cv, j)]))
        for j in DBL:
            for k in ('poi' if j.endswith('p') else 'ai'):
                S.append(spec('%s %s %s' % (WHAT[cv], j, k), 'curves', j, [cv, k], FIELD[cv], functions=['%s %s' % (cv, j)]))
    symcheck.run(c, S, ['curves'], ['zkstd', 'bn254', 'grumpkin'], features=['grum'])
    return c.finish()
