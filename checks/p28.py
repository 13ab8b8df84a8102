"""P28: the hash is the specified permutation in the specified sponge mode, natively and in the circuit."""
import hashlib
import os
import re
import time

import z3

import common
import lindom
import llcheck as L
import novajobs as n
import symcheck
import symex
import tok
from common import Check, TIER, res, run_jobs
from p09 import Mult

ORDER = {'bn': n.FIELDS['bn'], 'grum': n.FIELDS['grum']}
BASE = {'bn': ORDER['grum'], 'grum': ORDER['bn']}
ROUNDS = 46


def constants(p):
    """round constants: a BLAKE2b chain with the personalisation "mimc"; each constant is a digest read as a little-endian integer"""
    h = hashlib.blake2b(digest_size=64, person=b'mimc')
    out = []
    for _ in range(ROUNDS):
        h.update(h.digest())
        out.append(int.from_bytes(h.digest(), 'little') % p)
    return out


def files():
    d = os.path.join(common.WORK, 'mimc')
    os.makedirs(d, exist_ok=True)
    out = {}
    for c in BASE:
        out[c] = os.path.join(d, c)
        common.put(out[c], ''.join('%x\n' % v for v in constants(BASE[c])).encode())
    return out


# ---------------------------------------------------------------- truncation and conversion (engine A)
HASH = '''
macro_rules! squeeze_of {
    ($n:ident, $d:ty, $b:ty) => {
        #[no_mangle]
        pub extern "C" fn $n(k: &[u64; 4], n: u64, o: &mut [u64; 4]) {
            let key: $b = unsafe { core::mem::transmute(*k) };
            let r = MimcRO::<0, $d> { hasher: Mimc { constants: [] }, state: Vec::default(), key }.squeeze(n as usize);
            *o = unsafe { core::mem::transmute(r) };
        }
    };
}
squeeze_of!(squeeze_bn, crate::driver::Bn254Driver, bn_254::Fq);
squeeze_of!(squeeze_grum, crate::driver::GrumpkinDriver, bn_254::Fr);
'''
DRIVER = '''
macro_rules! convert_of {
    ($n:ident, $f:ident, $d:ty, $a:ty) => {
        #[no_mangle]
        pub extern "C" fn $n(k: &[u64; 4], _n: u64, o: &mut [u64; 4]) {
            let x: $a = unsafe { core::mem::transmute(*k) };
            *o = unsafe { core::mem::transmute($f::<$d>(x)) };
        }
    };
}
convert_of!(s2b_bn, scalar_as_base, Bn254Driver, Fr);
convert_of!(s2b_grum, scalar_as_base, GrumpkinDriver, Fq);
convert_of!(b2s_bn, base_as_scalar, Bn254Driver, Fq);
convert_of!(b2s_grum, base_as_scalar, GrumpkinDriver, Fr);
'''


def prepare(d):
    for f, more in (('driver.rs', DRIVER), ('hash.rs', HASH), ('hash/helper.rs', '')):
        src = open(os.path.join(common.REPO, 'nova/src', f)).read()
        src = re.split(r'^#\[cfg\(test\)\]\s*\nmod ', src, flags=re.M)[0]
        common.put(os.path.join(d, 'src', f), (src + more).encode())


def words(v):
    return tuple((v >> (64 * j)) & (2**64 - 1) for j in range(4))


def low_bits(fn, p, r, nbits):
    """wrapper fn maps an element of F_p to the element of F_r spelled by its low nbits bits"""
    name = '%s: low %d bits' % (fn, nbits)
    R = 1 << 256
    note = ''
    st_ = dict(queries=0, solver_s=0.0, steps=0, paths=0)
    try:
        d = lindom.LinDom()
        A = Mult(d, 4, {})
        S = Mult(d, 4, {words(R % r): 1, words(0): 0})
        S.consts.update({words((1 << k) * R % r): 1 << k for k in range(1, 256)})
        key = d.var('key')
        digs, calls = [], []

        def bits(ex, st, args, fname):
            E = A.get(ex, st, args[1])
            if not A.same(E, key):
                raise symex.Unsupported('bits of another value')
            a = ex.new_obj(st, 32)
            for j, w in enumerate(words(R % p)):
                ex.write(st, a + 8 * j, 8, w)
            outs = ex.exec_function(ex.prog.funcs[fname], st, [args[0], a])
            for s, ret in outs:
                ws = [ex.read(s, args[0] + 8 * j, 8) for j in range(3)]
                ptr = [w for w in ws if symex.is_addr(w)]
                ln = min(w for w in ws if not symex.is_addr(w))
                if ln != 256:
                    raise symex.Unsupported('%d bits' % ln)
                if calls:
                    raise symex.Unsupported('bits taken twice')
                for j in range(ln):
                    x = d.var('d%d' % j, 8)
                    d.atoms[-1].hi = 1
                    digs.append(lindom.Lin(x.t, 0, 0, 1))
                    ex.write(s, ptr[0] + j, 1, digs[j])
                calls.append(1)
            return [(s, None) for s, ret in outs]

        def arith(f):
            def h(ex, st, args, fname):
                k = len(args) - 1
                ws = [ex.read(st, args[k] + 8 * j, 8) for j in range(4)]
                if tuple(ws) != words(r):
                    raise symex.Unsupported('modulus')
                S.put(ex, st, args[0], d.fix(f(*[S.get(ex, st, a) for a in args[1:k]])))
            return h
        hooks = [(r'PrimeField>::to_bits$', bits), (r'bits_256::.*\badd$', arith(lambda a, b: d.add(a, b))), (r'bits_256::.*\bdouble$', arith(lambda a: d.scale(a, 2))),
                 (r'bits_256::.*\bsub$', arith(lambda a, b: d.add(a, b, -1)))]
        ex = symex.Executor(L.PROG, d, hooks=hooks, deadline=time.time() + 200)
        ex.tokspace = S
        st = symex.State()
        a = ex.new_obj(st, 32)
        for j in range(4):
            ex.write(st, a + 8 * j, 8, tok.Tok(A, key, j))
        o = ex.new_obj(st, 32)
        if fn not in L.PROG.funcs:
            raise symex.Unsupported('wrapper missing')
        outs = ex.run(fn, st, [a, nbits, o])
        if ex.panics or not calls:
            raise symex.Unsupported('panic %s' % (ex.panics,) if ex.panics else 'no bits taken')
        W = d.lin(0)
        for j in range(nbits):
            W = d.add(W, digs[255 - j], 1 << j)
        q = L.LinQ(d)
        for s, ret in outs:
            D = d.lin(d.add(S.get(ex, s, o), W, -1))
            pcs = [x for x in s.pc if type(x) is not int]
            rr, mdl = q.check([D] + pcs, [q.tm(x) == 1 for x in pcs] + [z3.Or(q.tm(D) >= 1, q.tm(D) <= -1)], 60)
            if rr != z3.unsat:
                raise symex.Unsupported('differs from the spelled integer: %s' % rr)
        rr, mdl = q.check([W], [], 60)
        if rr != z3.sat:
            raise symex.Unsupported('vacuous')
        st_ = dict(queries=q.queries, solver_s=q.solver_s, steps=ex.steps, paths=len(outs))
        fns = sorted({L.PROG.demangle(x) for x in ex.called})
        proved = True
    except (symex.Unsupported, symex.Unmergeable, RecursionError, KeyError, AttributeError, ValueError, z3.Z3Exception) as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        proved, note, fns = False, 'engine: %s: %s' % (type(e).__name__, e), []
    g = common.rng(name)
    xs = [0, 1, 2, p - 1, p - 2, min(p, r) - 1, min(p, r), (1 << 253) + 5, 1 << nbits if nbits < 253 else 7, (1 << min(nbits, 253)) - 1] + [g.randrange(p) for _ in range(12)]
    outs = L.NAT.batch([(fn, [(x % p * R % p).to_bytes(32, 'little'), nbits], 32, 0) for x in xs], timeout=30) if L.NAT else []
    for x, got in zip(xs, outs):
        want = (x % p % (1 << nbits)) % r * R % r
        if got in ('crash', 'timeout') or int.from_bytes(got[1], 'little') != want:
            return res(name, 'violation', note='%s; %s of %#x (%d bits) gives %s, required %#x' % (note, fn, x % p, nbits, got if isinstance(got, str) else got[1].hex(), want), inputs=[hex(x % p)], replayed=1, **st_)
    return res(name, 'proved' if proved else 'undecided', note=note, functions=fns, replayed=len(outs), **st_)


def lows(todo):
    return [low_bits(*t) for t in todo]


KINDS = [('_', 252), ('w', 252), ('i', 128), ('c', 252), ('s', 0), ('m', 1), ('v', 254), ('ow', 252), ('p', 128), ('smi', 2), ('www', 252), ('wcw', 128)]
MORE = [('wp', 252), ('wo', 252), ('pp', 128), ('vpw', 252), ('wwwwww', 252), ('pm', 256), ('icws', 252), ('oo', 7)]


def run(pid):
    c = Check(pid)
    c.bounds = ['every input of the permutation (46 rounds) on both fields, and every round constant',
                'sponges over sequences of up to %d elements: witnesses, public wires, constants, sums and multiples of wires, points and the identity point; %s bits squeezed' % ((3, '0 to 254') if TIER == 'quick' else (6, '0 to 256')),
                'truncation of a digest to 0..256 bits and the conversion between the fields for every field element']
    c.outside = ['longer sequences: every absorbed element is processed by the same loop body', 'collision resistance']
    c.assumptions = ['bit decomposition (native P07, in the circuit P19 and P20: the bits of the decomposition are free variables here)']
    c.trusted = ['hashlib.blake2b (round constants)', 'engine/symex.py, z3 (truncation)']
    F = files()
    jobs = []
    try:
        L.setup('hash', prepare)
        ns = [0, 1, 2, 127, 128, 129, 250, 251, 252, 253, 254, 255, 256] if TIER == 'quick' else list(range(257))
        todo = [('squeeze_' + k, BASE[k], ORDER[k], nb) for k in BASE for nb in ns]
        todo += [('s2b_' + k, ORDER[k], BASE[k], 256) for k in BASE] + [('b2s_' + k, BASE[k], ORDER[k], 256) for k in BASE]
        jobs = [('truncation %d' % k, lows, (todo[k:k + 6],)) for k in range(0, len(todo), 6)]
    except (common.BuildError, Exception) as e:
        if os.environ.get('VERIF_DEBUG'):
            raise
        c.add([res('truncation', 'undecided', note='no harness: %s' % str(e)[-300:])])
    c.add(run_jobs(jobs, timeout=300, verbose=False))
    S = []
    for k in BASE:
        S.append(symcheck.spec('%s permutation' % n.NAME[k], 'nova', 'perm', [k, F[k]], BASE[k], **n.GENERIC))
        for kinds, nb in KINDS + (MORE if TIER != 'quick' else MORE[:1]):
            S.append(symcheck.spec('%s sponge %s to %d bits' % (n.NAME[k], kinds, nb), 'nova', 'sponge', [k, F[k], kinds, str(nb)], BASE[k], events=('concretized',), **n.GENERIC))
    return n.run(c, S)
