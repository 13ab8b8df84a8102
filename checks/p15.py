"""P15: inversion, conjugation, Frobenius of the tower."""
import symcheck
from common import Check
from p10 import FIELD
from symcheck import spec


def run(pid):
    c = Check(pid)
    c.bounds = ['all nonzero elements (inversion, division), all elements (conjugation, Frobenius powers 0..12 for frobenius_maps and the single map)']
    c.outside = ['Frobenius powers above 12 (the code reduces the power modulo 2, 6, 12)']
    c.assumptions = ['the inverse one level below is cut: any t with N t = 1 (decided at its own level)',
                     'Fq2, Fq6, Fq12 are fields: -1 is a non-residue modulo q and 9 + u is neither a square nor a cube in Fq2 (checked numerically below)']
    q = FIELD['g1']
    ok = q % 4 == 3
    # (9+u)^((q^2-1)/2) != 1, (9+u)^((q^2-1)/3) != 1

    def mul(a, b):
        return ((a[0] * b[0] - a[1] * b[1]) % q, (a[0] * b[1] + a[1] * b[0]) % q)

    def pw(a, n):
        r = (1, 0)
        while n:
            if n & 1:
                r = mul(r, a)
            a = mul(a, a)
            n >>= 1
        return r
    ok = ok and pw((9, 1), (q * q - 1) // 2) != (1, 0) and pw((9, 1), (q * q - 1) // 3) != (1, 0) and (q - 1) % 6 == 0
    assert ok
    S = []
    for f in ('fq2', 'fq6', 'fq12'):
        for j in ('inv', 'div', 'inv0'):
            S.append(spec('%s %s' % (f, j), 'tower', j, [f], FIELD['g1'], functions=['%s %s' % (f, j)]))
    for j in ['conj2', 'conj12', 'model'] + ['%s:%d' % (f, k) for f in ('frob2', 'frob6', 'frob12') for k in range(13)]:
        S.append(spec(j, 'tower', j, [], FIELD['g1'], functions=[j]))
    symcheck.run(c, S, ['tower'], ['zkstd', 'bn254'], size=3)
    return c.finish()
