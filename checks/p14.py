"""P14: ring arithmetic of Fq2, Fq6, Fq12."""
import symcheck
from common import Check
from p10 import FIELD
from symcheck import spec


def run(pid):
    c = Check(pid)
    c.bounds = ['all elements of Fq2, Fq6, Fq12 (every coordinate a variable over Fq)']
    c.outside = ['order of extension-field elements', 'conversions that the code leaves unimplemented']
    S = []
    for f in ('fq2', 'fq6', 'fq12'):
        for j in ('x+x', 'x-x', 'x*x', '-x', 'double', 'square', 'consts', 'eq', 'is_zero'):
            S.append(spec('%s %s' % (f, j), 'tower', j, [f], FIELD['g1'], functions=['%s %s' % (f, j)]))
    for j in ('nonres2', 'nonres6', 'by1', 'by01', 'by034'):
        S.append(spec(j, 'tower', j, [], FIELD['g1'], functions=[j]))
    symcheck.run(c, S, ['tower'], ['zkstd', 'bn254'], size=3)
    return c.finish()
