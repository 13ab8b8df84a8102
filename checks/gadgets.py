"""Jobs of the symbolic binary r1cs shared by P18, P19, P20."""
import os
import time

import z3

import paths
import r1bool
import symcheck
from common import res, run_jobs
from p10 import FIELD
from poly import execute
from symcheck import spec

R = FIELD['gr']
OPS = 'wiczksm'
FEATURES = ['grum']
CRATES = ['zkstd', 'bn254', 'grumpkin']


def operands():
    """(gadget, kinds of the operands)"""
    pairs = ['ww', 'wi', 'iw', 'ii', 'wc', 'cw', 'cc', 'wz', 'zw', 'zz', 'wk', 'kw', 'ws', 'sw', 'ss', 'wm', 'mw', 'mm', 'sm', 'ms', 'cm', 'mc', 'sc', 'ic', 'ci', 'kk', 'zk']
    for g in ('mul', 'add', '&+', '&-'):
        for p in pairs:
            yield g, p
    for g in ('neg', 'square', 'inputize'):
        for o in OPS:
            yield g, o
    for g in ('is_eq', 'is_neq'):
        for p in ['ww', 'wi', 'ii', 'wc', 'cw', 'wz', 'zw', 'ws', 'ss', 'wm', 'mm', 'ic', 'wk']:
            yield g, p
    for p in ['ww', 'wi', 'wc', 'cw', 'cc', 'wz', 'zw', 'wk', 'ws', 'mm', 'sm', 'ii']:
        for c in '01ny':
            yield 'select', p + c
    for g in ('not', 'of_bit'):
        for c in '01ny':
            yield g, c
    for a in '01ny':
        for b in '01ny':
            yield 'and', a + b
    for p in ['ww', 'wi', 'wc', 'cw', 'wz', 'ws', 'mm', 'sm']:
        yield 'enforce_eq', p
        for c in '01ny':
            yield 'cond_eq', p + c
    for p in ['wc', 'wz', 'wk', 'ic', 'sc', 'mc']:
        yield 'enforce_const', p
    for a in '01':
        for b in '01':
            for c in '01':
                yield 'cond_eq_bits', a + b + c
    for p in ('ny0', 'nn1', 'y0y', '0n1'):
        yield 'cond_eq_bits', p
    for bits in ('', '0', '1', '01', '10', '110', '1011', '0110', 'y0n1', '111111'):
        for o in 'wis':
            yield 'enforce_bits', o + bits
    for a in 'paoi':
        for b in 'paoi':
            yield 'p_add', a + b
            yield 'p_public', a + b
            for c in '01':
                yield 'p_cond', a + b + c
        yield 'p_double', a
        yield 'p_descale', a
        for c in '01ny':
            yield 'p_selid', a + c
    for a in 'ao':
        yield 'p_witness', a
        yield 'p_instance', a


def contradictory(g, ks):
    """operands for which an honest assignment does not exist"""
    if g == 'cond_eq_bits':
        v = ['1y'.find(c) >= 0 for c in ks]
        return v[2] and v[0] != v[1]
    return False


def bits(what):
    """decomposition and range checks: (name, what, gadget, number of bits, constant, length)"""
    p = bin(R - 1)[2:]
    out = [('to_bits %d' % n, what, 'to', n, None, 0) for n in (256, 255, 254, 250, 128, 64, 8, 1, 0)]
    for c in ['0', '1', '10', '11', '100', '101', '110', '111', '1000', '1001', '1011', '1101', '1110', '1111', '10110', '110010110', '1' + '0' * 40, '1' * 40, '10' * 60, p, bin(R - 2)[2:], bin((R - 1) // 2)[2:]]:
        n = 0 if c == '0' else len(c)
        for extra in (0, 1, 3):
            if n + extra and n + extra <= 256:
                out.append(('range_check %s in %d bits' % (hex(int(c, 2)), n + extra), what, 'rc', 0, c, n + extra))
    for n in (0, 1, 2, 4, 8, 31, 64, 128, 253):
        for extra in (0, 1, 2):
            if n + extra:
                out.append(('range_check_bits %d in %d bits' % (n, n + extra), what, 'rcb', n, None, n + extra))
    return out


def scalar_point(B, RB):
    """the scalar multiplication gadget as a composition: sum of 2^(255-i) bit_i P, for all bits"""
    name = 'scalar_point'
    fns = ['PointAssignment::scalar_point']
    if not B:
        return res(name, 'undecided', note='no symbolic build')
    run = execute(os.path.join(B, 'r1cs'), 'scalar_tokens', {})
    why = None
    t0 = time.time()
    nq = 0
    if 'DONE' not in run.log:
        why = ([l for l in run.log if l.startswith('PANIC')] or ['no result'])[0]
    else:
        ident = 'instance:0*0/instance:0*1/instance:0*0'
        val, bits, base, result, trues = {ident: {}}, [], None, None, True
        try:
            for l in run.log:
                w = l.split(' ')
                if w[0] == 'BITS':
                    bits = w[1:]
                elif w[0] == 'BASE':
                    base = w[1]
                    val[base] = {None: 1}
                elif w[0] == 'RESULT':
                    result = val[w[1]]
                elif w[0] == 'GOALT' and w[1] != '1':
                    trues = False
                elif w[0] == 'TOK':
                    if w[2] == 'double':
                        v = {k: 2 * c for k, c in val[w[3]].items()}
                    elif w[2] == 'add':
                        v = dict(val[w[3]])
                        for k, c in val[w[4]].items():
                            v[k] = v.get(k, 0) + c
                    elif w[2] == 'select':
                        v = val[w[4]]
                        if set(v) - {None}:
                            raise KeyError('product of bits')
                        v = {w[3]: v[None]} if v else {}
                    else:
                        raise KeyError('step ' + w[2])
                    val[w[1]] = v
        except KeyError as e:
            why = 'unexpected composition: %s' % e
        if why is None:
            if not trues:
                why = 'constraints besides the decomposition and the point operations'
            else:
                B_ = {b: z3.Bool(b) for b in bits}
                k0 = result.pop(None, 0)
                if set(result) - set(bits):
                    why = 'bits that are not those of the scalar'
                else:
                    f = lambda cs: z3.Sum([z3.IntVal(0)] + [z3.If(B_[b], z3.IntVal(c), z3.IntVal(0)) for b, c in cs.items()])
                    s = z3.Solver()
                    s.set('timeout', 60000)
                    s.add(f(result) + k0 != f({b: 1 << (len(bits) - 1 - i) for i, b in enumerate(bits)}))
                    nq += 1
                    r = str(s.check())
                    if r != 'unsat' or len(bits) != 256:
                        why = 'a multiple other than the scalar (%s)' % r
    kw = dict(queries=nq, solver_s=time.time() - t0, functions=fns, steps=len(run.nodes), paths=1)
    if why is None:
        return res(name, 'proved', note='%d point operations' % sum(l.startswith('TOK') for l in run.log), **kw)
    reps = 0
    for x in (0, 1, 2, 3, 5, 1 << 253, R - 1, R - 2, (1 << 200) + 12345, 0x1234567890abcdef1234567890abcdef1234567890abcdef1234567890abcdef % R):
        if not RB:
            break
        bad, text = paths.replay(os.path.join(RB, 'r1cs'), 'scalar_native', [], {'x': x})
        reps += 1
        if bad:
            return res(name, 'violation', note='%s for scalar %x (%s)' % (text, x, why), replayed=reps, job='scalar_native', inputs={'x': hex(x)}, **kw)
    return res(name, 'undecided', note=why, replayed=reps, **kw)


def bit_group(js, B, RB):
    return [r1bool.job(*j, B, RB) for j in js]


def run(c, specs, bit_jobs, size=12, scalar=False):
    B, RB, notes = symcheck.build(['r1cs'], CRATES, None, FEATURES)
    for n in notes:
        print('note: ' + n)
    c.trusted += symcheck.TRUST
    c.assumptions += symcheck.ASSUME
    jobs = [('scalar_point', scalar_point, (B, RB))] if scalar else []
    for i in range(0, len(bit_jobs), 6):
        g = bit_jobs[i:i + 6]
        jobs.append((g[0][0] + '...', bit_group, (g, B, RB)))
    for i in range(0, len(specs), size):
        g = specs[i:i + size]
        jobs.append((g[0]['name'] + '...', symcheck.group, (g, B, RB)))
    c.add(run_jobs(jobs, timeout=300, verbose=False))
