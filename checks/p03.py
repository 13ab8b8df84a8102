"""P03: every byte codec of the field types."""
import llcheck as L
from common import Check, run_jobs
from llcheck import F, In, Ob, linval, lin_exact

R = L.R256


def enc_job(ob, p, raw):
    # integer equality through the congruence: bytes denote value*R^-1 mod p, canonical
    if raw:
        return lin_exact(ob, lambda d, v: (linval(d, v[0]), []), 0, 1)
    return lin_exact(ob, lambda d, v: (linval(d, v[0]), []), p, R)


def dec_job(ob, p, raw):
    def target(d, v):
        return linval(d, v[0], 8), []

    def flag(d, v):
        return linval(d, v[0], 8), p
    return lin_exact(ob, target, p, 1 if raw else pow(R, -1, p), flag=flag)


def bl(x):
    return list(x.to_bytes(32, 'little'))


def run(pid):
    c = Check(pid)
    c.bounds = ['encoders: every canonical element; decoders: every 32-byte string (all 2^256); codecs: SigUtils to_bytes/from_bytes, to_raw_bytes, ff::PrimeField to_repr/from_repr, SCALE Encode/Decode']
    c.outside = ['serde (de)serialisation', 'byte strings of another length (the API takes fixed arrays)']
    c.trusted = ['rustc front end up to LLVM IR (no optimisation passes)', 'engine/symex.py and engine/lindom.py', 'z3']
    L.setup()
    jobs = []
    for f, p in (('fq', L.FQ), ('fr', L.FR)):
        Ri = pow(R, -1, p)
        for fn in ('to_bytes', 'to_repr'):
            n = '%s_%s' % (f, fn)
            jobs.append((n, enc_job, (Ob(n, n, [F(p)], ('b', 32), lambda v, p=p, Ri=Ri: (None, v[0] * Ri % p)), p, False)))
        n = f + '_raw_bytes'
        jobs.append((n, enc_job, (Ob(n, n, [F(p)], ('b', 32), lambda v, p=p, Ri=Ri: (None, bl(v[0] * Ri % p)), vec=1), p, False)))
        n = f + '_encode'
        jobs.append((n, enc_job, (Ob(n, n, [F(p)], ('b', 32), lambda v: (None, bl(v[0])), vec=1), p, True)))
        for fn in ('from_bytes', 'from_repr'):
            n = '%s_%s' % (f, fn)
            jobs.append((n, dec_job, (Ob(n, n, [In('b', 32)], ('p', 4), lambda v, p=p: (1, v[0] * R % p) if v[0] < p else (0, None), ret=True), p, False)))
        n = f + '_decode'
        jobs.append((n, dec_job, (Ob(n, n, [In('b', 32)], ('p', 4), lambda v, p=p: (1, v[0]) if v[0] < p else (0, None), ret=True), p, True)))
    c.add(run_jobs(jobs, timeout=400))
    return c.finish()
