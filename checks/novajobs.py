"""Jobs of the symbolic binary nova shared by P25, P26, P27 and P29."""
import symcheck
from common import Check
from p10 import FIELD
from symcheck import spec

FIELDS = {'bn': FIELD['gr'], 'grum': FIELD['g1']}
CRATES = ['zkstd', 'bn254', 'grumpkin', 'groth16', 'nova']
FEATURES = ('grum', 'groth', 'nova')
NAME = {'bn': 'BN254 cycle side', 'grum': 'Grumpkin cycle side'}
# systems: rows "A.B.C" of wires o (one), x, y (instance), a, b, c (witness); instance and witness lengths
SYSTEMS = [('-', 0, 1), ('-', 1, 1), ('a.a.o', 0, 1), ('ab.a.bo', 2, 2), ('a..b_.x.o', 1, 2), ('.._ab.xo.by', 2, 2), ('ab.a.bo_xo.ao.ya', 2, 2), ('oxyabc.oxyabc.oxyabc', 2, 3),
           ('o.o.o_x.x.x_a.a.a_y.b.ob', 2, 2), ('a.b.c_b.c.a_c.a.b', 0, 3)]
THOROUGH = [('ab.a.bo_xo.ao.ya_abc.xyo.abcxyo', 2, 3), ('oxyabc.oxyabc.oxyabc_oxyabc.oxyabc.oxyabc_oxyabc.oxyabc.oxyabc', 2, 3), ('a.a.b_b.b.c_c.c.x_x.x.y_y.y.o', 2, 3)]


def systems():
    from common import TIER
    return SYSTEMS + (THOROUGH if TIER != 'quick' else THOROUGH[:1])


def both(job, *args, **opts):
    for c in ('bn', 'grum'):
        yield spec('%s %s %s' % (NAME[c], job, ' '.join(str(a) for a in args)), 'nova', job, [c] + [str(a) for a in args], FIELDS[c], **opts)


def run(c, specs):
    symcheck.run(c, specs, ['nova'], CRATES, features=FEATURES, size=1)
    return c.finish()


GENERIC = dict(inputs=[{}], generic=True)
