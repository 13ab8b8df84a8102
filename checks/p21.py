"""P21: discrete Fourier transform and polynomials."""
import symcheck
from common import TIER, Check
from gadgets import R
from symcheck import spec

CRATES = ['zkstd', 'bn254', 'grumpkin', 'groth16']
FEATURES = ('grum', 'groth')


def run(pid):
    c = Check(pid)
    c.bounds = ['all coefficients and points; domains of 2^k elements, k = 1..5 (transform of every operand length up to the domain for k <= 3); inverse transforms of arbitrary points for k <= 3 '
                '(larger k: the inverse composed with the transform is the identity)', 'polynomials and point vectors of length 0..4 in every combination; products that fit the domain']
    c.outside = ['operands longer than the domain (they are truncated)', 'Coefficients::degree of a polynomial with leading zero coefficients', 'larger domains']
    c.trusted.append("sequential stand-in for rayon (join and parallel iterators run in order)")
    S = []
    F = dict(functions=['Fft'])
    for k in range(1, 6):
        n = 1 << k
        lens = range(n + 1) if k <= 3 else (1, n // 2 + 1, n)
        for l in lens:
            for m in ('dft', 'coset_dft'):
                S.append(spec('%s 2^%d, %d coefficients' % (m, k, l), 'groth', 'fft', [str(k), str(l), m], R, **F))
        S.append(spec('vanishing polynomial 2^%d' % k, 'groth', 'fft', [str(k), str(n), 'z'], R, **F))
        if k <= 3:
            for l in range(n + 1):
                for m in ('idft', 'coset_idft'):
                    if k < 3 or l in (0, 1, 5, 8) and m == 'idft' or l in (1, 4):
                        S.append(spec('%s 2^%d, %d points' % (m, k, l), 'groth', 'fft', [str(k), str(l), m], R, **F))
        if k <= 4:
            S.append(spec('round trip 2^%d' % k, 'groth', 'fft', [str(k), str(n), 'round'], R, **F))
        if k <= 3:
            for l in (1, n // 2, n):
                inp = [dict({'c%d' % i: 0 for i in range(j, l)}, **{'b%d' % i: 0 for i in range(h, n + 1 - l)}) for j in range(l, -1, -1) for h in range(n + 1 - l, -1, -1)]
                S.append(spec('product in 2^%d, %d coefficients' % (k, l), 'groth', 'fft', [str(k), str(l), 'mul'], R, inputs=inp, **F))
    if TIER == 'thorough':
        S.append(spec('round trip 2^5', 'groth', 'fft', ['5', '32', 'round'], R, **F))
        for l in (32, 64):
            S.append(spec('dft 2^6, %d coefficients' % l, 'groth', 'fft', ['6', str(l), 'dft'], R, **F))
    G = dict(functions=['Coefficients', 'PointsValue'])
    N = 5
    for op in ('add', 'sub', 'sum', 'psub', 'pmul'):
        for a in range(N):
            for b in range(N):
                if op != 'sum' or max(a, b) < 4:
                    S.append(spec('%s lengths %d, %d' % (op, a, b), 'groth', 'poly', [op, str(a), str(b)], R, max_paths=400, **G))
    for op in ('scale', 'format', 'evaluate', 'divide', 't'):
        for a in range(N + (8 if op in ('t', 'divide', 'evaluate') else 0)):
            S.append(spec('%s length %d' % (op, a), 'groth', 'poly', [op, str(a), '0'], R, max_paths=400, **G))
    for b in range(3):
        for a in range(b + 1, 6):
            S.append(spec('blind length %d, hiding degree %d' % (a, b), 'groth', 'poly', ['blind', str(a), str(b)], R, **G))
        for a in range(N):
            S.append(spec('commit length %d, domain %d' % (a, a + b), 'groth', 'poly', ['commit', str(a), str(b)], R, **G))
    for a in range(5):
        S.append(spec('setup %d' % a, 'groth', 'poly', ['setup', str(a)], R, **G))
    symcheck.run(c, S, ['groth'], CRATES, None, FEATURES, size=6)
    return c.finish()
