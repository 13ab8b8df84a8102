"""P20: gadgets admit no assignment with a wrong output."""
import gadgets
from common import Check
from gadgets import R
from symcheck import spec


def run(pid):
    c = Check(pid)
    c.bounds = ['every assignment of field elements to all wires of the gadget (input bits 0 or 1, input points on the curve)',
                'to_bits for the listed output lengths; range checks for the listed constants and lengths']
    c.outside = ['input bits that are not 0 or 1 (BinaryAssignment::witness adds no constraint), input points off the curve (PointAssignment::witness adds no constraint)',
                 'range checks of fewer bits than the constant has (the code returns at once)']
    S = [spec('%s %s' % (g, k), 'r1cs', 'sound', [g, k], R, empty_ok=True, functions=[g]) for g, k in gadgets.operands() if g not in ('p_witness', 'p_instance')]
    gadgets.run(c, S, gadgets.bits('sound'), scalar=True)
    return c.finish()
