"""P29: incremental computation - honest steps verify, altered proofs do not, the step circuit says what it should."""
import novajobs
from common import Check, TIER
from novajobs import GENERIC, both

PARTS = ['z0p', 'z0s', 'zip', 'zis', 'sx', 'sw', 'px', 'pw', 'pe', 'qx', 'qw', 'qe']
SIZE = dict(z0p=1, z0s=1, zip=1, zis=1, sx=2, sw=3, px=2, pw=3, pe=1, qx=2, qw=3, qe=1)


def specs():
    out = []
    o = dict(empty_ok=True, max_paths=200)
    texts = [('-', 'a.a.b'), ('a.a.o', 'ab.a.bo'), ('ax.by.c', 'by.ao.c')]
    if TIER != 'quick':
        texts += [('ax.by.c_a.b.x', 'by.ao.c'), ('ax.by.c_a.b.x', 'by.ao.c_b.b.y_c.a.o'), ('abcxyo.abcxyo.abcxyo', 'abcxyo.abcxyo.abcxyo')]
    for a, b in texts:
        out += both('verify', a, b, **o)
    for w in ('i', 'i-'):
        for j in (0, 1) if TIER == 'quick' else (0, 1, 2):
            out += both('tamper', w, j, 0, **GENERIC)
    for w in ('scw', 'pcw', 'pce', 'pu', 'qcw', 'qce', 'qu'):
        out += both('tamper', w, 0, 0, **GENERIC)
    for w in PARTS:
        for j in range(SIZE[w]):
            out += both('tamper', w, j, 0, **GENERIC)
        for d in (1, -1, -2, 2):
            out += both('tamper', w, 0, d, **GENERIC)
    for w in ('resplitp', 'resplits'):
        for j in (0, 2):
            out += both('tamper', w, j, 0, **GENERIC)
    for primary in (0, 1):
        for i in (0, 1, 2, 5) + ((3, 77, (1 << 32) + 1, (1 << 63) - 1) if TIER != 'quick' else ()):
            for honest in (0, 1):
                out += both('augmented', primary, i, honest, slow=120, **GENERIC)
    for n in (1, 2, 3, 4) + ((6, 8) if TIER != 'quick' else ()):
        out += both('steps', n, slow=500, **GENERIC)
    for nx in (0, 1, 2):
        for nz in (0, 1, 2):
            out += both('digest', nx, nz, **GENERIC)
    return out


def run(pid):
    c = Check(pid)
    c.bounds += ['verify: every instance, witness, state and deviation symbolic over constraint systems of %d to %d rows with 3 witness and 2 public values, step counter 3; both orders of the cycle' % ((0, 1) if TIER == 'quick' else (0, 3)),
                 'alterations: each component replaced by any other value, lengthened, shortened, cleared; counters below and above; states moved between start and current vector',
                 'step circuit: all inputs symbolic, counters 0, 1, 2, 5%s; step function z^2 + z + 5' % ('' if TIER == 'quick' else ' and larger ones'),
                 'honest runs: 1 to %d steps from symbolic start states, with the real setup, init, prove_step, circuits and verify' % (4 if TIER == 'quick' else 8)]
    c.outside += ['constraint systems of the real size (their gadgets are P19, P20, P28 and P30)', 'wrapping of a field element into the other field of the cycle (modelled as the same value)', 'more steps, other step functions and states of several elements']
    c.assumptions += ['both fields of the cycle are one field of the model and values cross between them unchanged', 'the sponge is an oracle: equal inputs give equal digests, different inputs independent ones',
                      'points are their discrete logarithms; point and big-integer gadgets compute the group law and arithmetic they stand for', 'decisions at random points are generic (accidental zeros of random values are not followed)']
    return novajobs.run(c, specs())

