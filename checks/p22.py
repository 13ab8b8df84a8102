"""P22: multiscalar multiplication equals the sum of the multiples."""
import itertools
import os
import re

import z3

import common
import gadgets
import llcheck as L
import symcheck
from common import Check, TIER, res, run_jobs
from llcheck import In, Ob
from symcheck import spec

WRAP = '''
#[no_mangle]
pub extern "C" fn msm_digit(b: &[u8; 32], i: u64, c: u64, o: &mut u64) {
    *o = get_at(i as usize, c as usize, *b) as u64;
}
'''


def prepare(d):
    src = open(os.path.join(common.REPO, 'groth16/src/msm.rs')).read()
    src = re.split(r'^#\[cfg\(test\)\]\s*\nmod ', src, flags=re.M)[0]
    common.put(os.path.join(d, 'src/msm.rs'), (src + WRAP).encode())


def width(n):
    return 1 if n < 4 else 3 if n < 32 else n.bit_length() * 69 // 100 + 2


def digit(i, c):
    n = 'digit %d of width %d' % (i, c)
    ob = Ob(n, 'msm_digit', [In('b', 32), In('w', 1, fixed=i), In('w', 1, fixed=c)], ('p', 1), lambda v: (None, (v[0] >> (i * c)) & ((1 << c) - 1)))

    def claims(run, st, ret, ov):
        v = z3.Concat(*[run.vals[0][k] for k in reversed(range(32))])
        want = z3.Extract(63, 0, z3.LShR(z3.ZeroExt(64, v), i * c)) & ((1 << c) - 1)
        o = ov[0]
        return [('the digit', (z3.BitVecVal(o, 64) if type(o) is int else o) == want)]
    return L.bv_decide(ob, claims, timeout=60, deadline=60)


def digits(cs):
    return [digit(i, c) for c, i in cs]


def hexs(xs):
    return ['%x' % x for x in xs]


def scalars():
    g = common.rng('msm')
    r = L.FR
    out = []
    rnd = lambda n: [g.randrange(r) for _ in range(n)]
    for k in (0, 1, 2, 3, 5, 7, 8, r - 1, r - 2, 1 << 253, (1 << 253) - 1, (1 << 128) - 1, 1 << 64):
        out.append(('edge %x' % k, [k]))
    out.append(('none', []))
    for n in (1, 2, 3):
        for j in range(2):
            out.append(('random %d' % n, rnd(n)))
    out += [('zeros', [0] * 5), ('ones', [1] * 6), ('maximal', [r - 1] * 4), ('mixed', [0, r - 1, 1, 0, 2]), ('equal', rnd(1) * 7)]
    # four bases: every vector of four 3-bit digits occurs in some window of some run
    vecs = list(itertools.product(range(8), repeat=4))
    g.shuffle(vecs)
    step = 84
    for k in range(0, len(vecs), step):
        part = vecs[k:k + step]
        out.append(('digits %d' % (k // step), [sum(v[j] << (3 * w) for w, v in enumerate(part)) for j in range(4)]))
    sizes = [5, 8, 15, 31, 32, 33, 63, 64, 100, 127, 128] if TIER == 'quick' else list(range(5, 34)) + [63, 64, 65, 100, 127, 128, 255, 256, 400]
    for n in sizes:
        out.append(('random %d' % n, rnd(n)))
    out.append(('top digits', [(r - 1) - (k << 200) for k in range(9)]))
    return out


def run(pid):
    c = Check(pid)
    c.bounds = ['every vector of bases (discrete logarithms symbolic), for the listed scalars: 1 to 3 bases (digit width 1), 4 bases with every vector of four 3-bit digits in some window, edge scalars (0, 1, r-1, powers of two), '
                'and sizes up to %d with pseudo-random scalars (all digit widths up to %d)' % ((128, width(128)) if TIER == 'quick' else (400, width(400))),
                'the digit extraction is decided for every 32-byte string, every window and every digit width up to 2^20 bases', 'unequal lengths and identity bases']
    c.outside = ['scalars other than the listed ones are covered through the digit lemma only: the contribution of a window depends on the digits of that window']
    c.assumptions = ['the curve operations are those of a group of order r (P09-P13); to_raw_bytes is little endian (P03)']
    jobs = []
    try:
        L.setup('msm', prepare)
        ws = sorted({1, 3} | {width(1 << k) for k in range(5, 21)})
        todo = [(w, i) for w in ws for i in range(256 // w + 1)]
        for k in range(0, len(todo), 40):
            jobs.append(('digits %d' % k, digits, (todo[k:k + 40],)))
        c.trusted.append('engine/symex.py, z3 (digit lemma)')
    except (common.BuildError, Exception) as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        c.add([res('digit extraction', 'undecided', note='no harness: %s' % str(e)[-300:])])
    c.add(run_jobs(jobs, timeout=300, verbose=False))
    S = []
    for k, (n, ks) in enumerate(scalars()):
        for gr in ('g1', 'g2') if len(ks) < 9 and not n.startswith('digits') or len(ks) in (31, 32) else ('g1',):
            S.append(spec('%s: %s (%d)' % (gr, n, k), 'snark', 'msm', [gr, str(len(ks))] + hexs(ks), gadgets.R, inputs=[{}], generic=True))
    g = common.rng('msm len')
    for nb, nk in ((0, 2), (1, 3), (3, 1), (5, 4), (4, 6), (9, 5), (40, 8)):
        S.append(spec('lengths %d and %d' % (nb, nk), 'snark', 'msm', ['g1', str(nb)] + hexs([g.randrange(L.FR) for _ in range(nk)]), gadgets.R, inputs=[{}], generic=True))
    for nb, pos in ((1, 0), (3, 1), (6, 0), (6, 5), (33, 7)):
        S.append(spec('identity at %d of %d' % (pos, nb), 'snark', 'msm_id', [str(nb), str(pos)], gadgets.R, inputs=[{}], generic=True))
    symcheck.run(c, S, ['snark'], ['zkstd', 'bn254', 'grumpkin', 'groth16'], features=('grum', 'groth'))
    return c.finish()
