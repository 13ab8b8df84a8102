"""P13: every operator form of points and extension fields."""
import symcheck
from common import Check
from p10 import FIELD, WHAT
from p12 import FR
from symcheck import spec

PT = [l + o + r for o in '+-' for l in ('p', '&p', 'a', '&a') for r in ('p', '&p', 'a', '&a')] + \
     ['p%s=%s' % (o, r) for o in '+-' for r in ('p', '&p', 'a', '&a')] + ['-p', '-a', 'p.invert', 'a.invert', 'from_a', 'from_p']
EXT = ['x%sx', '&x%s&x', 'x%s&x', '&x%sx', 'x%s=x', 'x%s=&x']


def kinds(j):
    t = [x for x in j.replace('from_a', 'a').replace('from_p', 'p').replace('invert', '') if x in 'pa']
    g = {'p': 'poi', 'a': 'ai'}
    return [a + (b if len(t) > 1 else '') for a in g[t[0]] for b in (g[t[1]] if len(t) > 1 else ' ')]


def run(pid):
    c = Check(pid)
    c.bounds = ['all coordinates and representatives of the operands, identities included; all elements of Fq2, Fq6, Fq12']
    c.outside = ['scalar multiplication forms (P09)', 'operator forms of the prime fields (P04)']
    S = []
    for cv in FIELD:
        for j in PT:
            for k in kinds(j):
                S.append(spec('%s %s %s' % (WHAT[cv], j, k), 'curves', j, [cv, k], FIELD[cv], functions=['%s %s' % (cv, j)]))
        S.append(spec('%s &p+=p' % WHAT[cv], 'curves', '&p+=p', [cv, 'pp'], FIELD[cv], run_timeout=10))
    for j in PT:
        if j.startswith('from'):
            continue
        for k in kinds(j):
            if 'o' in k:
                continue
            S.append(spec('Edwards %s %s' % (j, k), 'edwards', j, [k.replace('p', 'e').strip()], FR, functions=['edwards ' + j]))
    for f in ('fq2', 'fq6', 'fq12'):
        for o in '+-*':
            for e in EXT:
                if o == '*' and e == '&x%sx':
                    continue
                S.append(spec('%s %s' % (f, e % o), 'tower', e % o, [f], FIELD['g1'], functions=['%s %s' % (f, e % o)]))
        S.append(spec('%s -x' % f, 'tower', '-x', [f], FIELD['g1'], functions=['%s -x' % f]))
    for j in ['x%sx', '&x%s&x', 'x%s&x', '&x%sx', 'x%s=x', 'x%s=&x']:
        for o in '+-':
            S.append(spec('gt ' + j % o, 'tower', 'gt:' + j % o, ['gt'], FIELD['g1'], functions=['gt ' + j % o]))
    for j in ('-x', 'x*x', 'double', 'eq', 'id'):
        S.append(spec('gt ' + j, 'tower', 'gt:' + j, ['gt'], FIELD['g1'], functions=['gt ' + j]))
    symcheck.run(c, S, ['curves', 'tower', 'edwards'], ['zkstd', 'bn254', 'grumpkin'], features=['grum'])
    return c.finish()
