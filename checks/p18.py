"""P18: constraint systems and linear combinations."""
import gadgets
from common import Check
from gadgets import R
from symcheck import spec

ROWS = ['', '1', 'a', 'p', '1a', 'ap', 'pq', '1ap', 'pa', 'bp']


def run(pid):
    c = Check(pid)
    c.bounds = ['all coefficient values and all assignments; linear combinations of up to 3 terms over the constant, 3 public and 3 private wires, overlapping and disjoint, any order of the terms',
                'systems of up to 3 constraints; vectors of length 0..4']
    c.outside = ['rows holding two coefficients for one wire (SparseRow::new with repeated wires is not a linear form in the code base; none of the operators produces one from rows without)']
    S = []
    for op in ('+', '-'):
        for a in ROWS:
            for b in ROWS:
                if len(a) + len(b) <= 4:
                    S.append(spec('row %s: %s, %s' % (op, a or 'empty', b or 'empty'), 'r1cs', 'lc', [op, a, b], R, max_paths=400, functions=['SparseRow %s' % op]))
        for a, b in (('1ap', 'p'), ('pa1', 'a'), ('apq', 'q'), ('a', 'pa1'), ('bpq', 'b')):
            S.append(spec('row %s: %s, %s' % (op, a, b), 'r1cs', 'lc', [op, a, b], R, max_paths=400, functions=['SparseRow %s' % op]))
    for op in ('*', 'neg', 'new', 'const'):
        for a in ROWS:
            S.append(spec('row %s: %s' % (op, a or 'empty'), 'r1cs', 'lc', [op, a, ''], R, max_paths=400, functions=['SparseRow %s' % op]))
    for n in range(5):
        S.append(spec('vectors of length %d' % n, 'r1cs', 'vecs', [str(n)], R, functions=['DenseVectors']))
    SYS = ['', 'p,1,q', 'p,p,a', '1ap,q,b', ',p,q', 'p,,q', 'p,q,', ',,', 'p,q,a;a,1,p', 'ap,1q,pq;p,p,q', 'p,p,q;q,q,p;1,a,b', 'p,1,a;q,1,b;p,q,ab', ';p,q,1', 'r,1,b;p,1a,q']
    for s in SYS:
        S.append(spec('system %s' % (s or 'empty'), 'r1cs', 'sat', [s, '2', '3'], R, max_paths=400, functions=['R1cs']))
    for nx, nw, s in ((0, 0, '1,1,1'), (0, 1, 'p,1,1'), (1, 0, 'a,a,1'), (0, 0, '')):
        S.append(spec('system %s with %d public, %d private' % (s or 'empty', nx, nw), 'r1cs', 'sat', [s, str(nx), str(nw)], R, max_paths=400, functions=['R1cs']))
    for g in ('mul', 'add', 'sub', 'equal'):
        for t in (('p', 'q', 'a'), ('1', 'p', 'q'), ('ap', 'p', 'q'), ('1a', 'pq', 'b'), ('p', 'p', 'p'), ('', 'p', 'a'), ('p', '', 'a'), ('p', 'a', ''), ('a', 'b', '1')):
            S.append(spec('%s gate %s' % (g, ' '.join(x or 'empty' for x in t)), 'r1cs', 'gate', [g] + list(t), R, max_paths=400, functions=['R1cs::%s_gate' % g]))
    gadgets.run(c, S, [])
    return c.finish()
