"""P19: gadgets accept honest assignments and output the right value."""
import gadgets
from common import Check
from gadgets import R
from symcheck import spec


def run(pid):
    c = Check(pid)
    c.bounds = ['all values of every operand; operands that are witnesses, public inputs, constants (also zero and one), sums, differences; points in every projective representative and the identity',
                'to_bits for the listed output lengths, all field elements; range checks for the listed constants and lengths, all bit strings up to the bound']
    c.outside = ['bits that are not 0 or 1',
                 'range checks of fewer bits than the constant has (the code returns at once)']
    S = [spec('%s %s' % (g, k), 'r1cs', 'honest', [g, k], R, functions=[g]) for g, k in gadgets.operands() if not gadgets.contradictory(g, k)]
    gadgets.run(c, S, gadgets.bits('honest'), scalar=True)
    return c.finish()
