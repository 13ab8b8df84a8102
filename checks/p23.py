"""P23: Groth16 proofs of satisfied statements verify; the reference string and the blinding have the documented form."""
import gadgets
import symcheck
from common import Check
from symcheck import spec

CIRCUITS = ['empty', 'square', 'private', 'readme', 'five', 'inputs']


def run(pid):
    c = Check(pid)
    c.bounds = ['six circuits with 0 to 6 constraints (domains of 2, 4 and 8 elements; 0 to 3 public inputs), every assignment that satisfies them, all trapdoors and all prover randomness symbolic']
    c.outside = ['trapdoors on which an intermediate coefficient happens to vanish (such as tau in the evaluation domain), beyond the instances found and followed', 'larger circuits',
                 'knowledge soundness, which is an assumption about the group and not a property of the code']
    c.assumptions = ['the curves are groups of order r and the pairing is bilinear (P09-P17); sums of multiples (P22)']
    S = []
    for w in CIRCUITS:
        for j in ('complete', 'crs', 'fresh'):
            S.append(spec('%s %s' % (w, j), 'snark', j, [w], gadgets.R, inputs=[{}], generic=True))
    symcheck.run(c, S, ['snark'], ['zkstd', 'bn254', 'grumpkin', 'groth16'], features=('grum', 'groth'), size=1)
    return c.finish()
