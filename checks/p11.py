"""P11: conversions, equality, membership, generators of the Weierstrass curves."""
import symcheck
from common import Check
from p10 import FIELD, WHAT
from p12 import FR
from symcheck import spec


def run(pid):
    c = Check(pid)
    c.bounds = ['all points, all projective representatives; membership for all coordinates']
    c.outside = ['is_torsion_free (no property claimed)', 'equality on triples that are not representatives of points']
    S = []
    for cv in FIELD:
        for j, ks in (('to_affine', 'poi'), ('to_extended', 'ai'), ('round', 'ai'), ('from_a', 'ai'), ('from_p', 'poi'), ('isid', 'ai'), ('isid', 'poi'),
                      ('eq_p', [a + b for a in 'poi' for b in 'poi']), ('eq_a', [a + b for a in 'ai' for b in 'ai'])):
            for k in ks:
                S.append(spec('%s %s %s' % (WHAT[cv], j, k), 'curves', j, [cv, k], FIELD[cv], functions=['%s %s' % (cv, j)]))
        for j in ('mem_a', 'mem_p', 'coords', 'consts'):
            S.append(spec('%s %s' % (WHAT[cv], j), 'curves', j, [cv], FIELD[cv], functions=['%s %s' % (cv, j)]))
    for j, k in (('eq_p', ('ee', 'ei', 'ie', 'ii')), ('eq_a', ('aa', 'ai', 'ia', 'ii')), ('isid', ('e', 'a', 'i'))):
        for x in k:
            S.append(spec('Edwards %s %s' % (j, x), 'edwards', j, [x], FR, functions=['edwards ' + j]))
    for j in ('mem_a', 'mem_p', 'mem_p0', 'consts'):
        S.append(spec('Edwards %s' % j, 'edwards', j, [], FR, functions=['edwards ' + j]))
    symcheck.run(c, S, ['curves', 'edwards'], ['zkstd', 'bn254', 'grumpkin'], features=['grum'])
    return c.finish()
