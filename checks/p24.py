"""P24: the Groth16 verifier accepts exactly when the verification equation holds."""
import gadgets
import symcheck
from common import Check, TIER
from symcheck import spec


def run(pid):
    n = 4 if TIER == 'quick' else 9
    c = Check(pid)
    c.bounds = ['keys with 0 to %d public inputs, every key, every proof, every list of 0 to %d inputs' % (n - 1, n - 1)]
    c.outside = ['points outside the subgroup of order r (P11)', 'pairing itself (P16, P17): an abstract bilinear map here']
    c.assumptions = ['the curves are groups of order r and the pairing is bilinear and non-degenerate (P09-P17)']
    S = []
    for i in range(n):
        for j in range(n):
            S.append(spec('verify %d %d' % (i, j), 'snark', 'verify', [str(i), str(j)], gadgets.R, inputs=[{}] if i != j else []))
        for w in 'abc':
            S.append(spec('tamper %d %s' % (i, w), 'snark', 'tamperp', [str(i), w], gadgets.R))
        for j in range(i):
            S.append(spec('tamper %d %d' % (i, j), 'snark', 'tamper', [str(i), str(j)], gadgets.R))
    symcheck.run(c, S, ['snark'], ['zkstd', 'bn254', 'grumpkin', 'groth16'], features=('grum', 'groth'), size=2)
    return c.finish()
