"""Checks on Engine B: jobs of the symbolic harness, explored path by path, counterexamples replayed on the real crates."""
import os

import common
import overlay
import paths
from common import res, run_jobs

TRUST = ['rustc (the overlay is the working tree compiled with symbolic field elements underneath)', 'engine/overlay.py (field operations, equality and zero tests of a field become events; '
         'justified by P01, P02, P05)', 'engine/poly.py (polynomial bookkeeping; every identity used is decided by cvc5)', 'cvc5']
ASSUME = ['field operations compute in the field (P01-P08)']


class Spec(dict):
    """name, bin, job, args, field and options of paths.explore"""


def spec(name, bin, job, args, field, **kw):
    return Spec(name=name, bin=bin, job=job, args=list(args), field=field, opt=kw)


def build(bins, crates, extra=None, features=(), plain_extra=None):
    """(directory of the symbolic binaries or None, directory of the replay binaries or None, notes)"""
    notes = []
    out = []
    for plain in (False, True):
        try:
            out.append(overlay.build(bins, crates, extra, features, plain))
        except (overlay.Overlay, common.BuildError) as e:
            if os.environ.get('VERIF_DEBUG'):
                raise
            notes.append('%s build: %s' % ('replay' if plain else 'symbolic', str(e)[-600:]))
            out.append(None)
    return out[0], out[1], notes


def job(sp, B, RB):
    name = sp['name']
    o = dict(sp['opt'])
    pre = o.pop('replay', True)
    fns = o.pop('functions', ())
    slow = o.pop('slow', None)  # seconds one native run may need
    inputs = o.pop('inputs', None) or []
    reps = 0
    if B:
        r = paths.explore(os.path.join(B, sp['bin']), sp['job'], sp['args'], inputs, sp['field'], **o)
    else:
        r = dict(status='undecided', note='no symbolic build')
    kw = {k: r[k] for k in ('paths', 'queries', 'solver_s') if k in r}
    kw['steps'] = r.get('nodes', 0)
    cands = [r['inputs']] if r['status'] == 'cex' else []
    cands += r.get('witness', [])[:1 if slow else 4]
    if not B:
        cands += [{}] * (1 if slow else 3)
    if RB and pre:
        for k, inp in enumerate(cands):
            bad, text = paths.replay(os.path.join(RB, sp['bin']), sp['job'], sp['args'], inp, timeout=slow or o.get('run_timeout', 120), seed=1 + k, slow=bool(slow))
            reps += 1
            if bad and not B and ('PANIC' in text or 'no result' in text):
                break  # nothing shows which inputs the job needs
            if bad:
                return res(name, 'violation', note=text, replayed=reps, functions=fns, job=sp['job'], args=sp['args'],
                           inputs={k_: [hex(x) for x in (v if isinstance(v, tuple) else (v,))] for k_, v in inp.items()}, **kw)
    if r['status'] == 'cex':
        return res(name, 'undecided', note='counterexample did not replay: %s' % r.get('note'), replayed=reps, functions=fns, **kw)
    note = '%s goals, %s infeasible branches' % (r.get('goals'), r.get('infeasible'))
    if r.get('degenerate'):
        note += '; %d accidental zeros without an instance' % r['degenerate']
    if r.get('note'):
        note += '; ' + r['note']
    return res(name, 'proved' if r['status'] == 'proved' else 'undecided', note=note, replayed=reps, functions=fns, **kw)


def group(sps, B, RB):
    return [job(s, B, RB) for s in sps]


def run(c, specs, bins, crates, extra=None, features=(), timeout=300, size=8):
    """build, explore all specs, add the results to the check"""
    B, RB, notes = build(bins, crates, extra, features)
    for n in notes:
        print('note: ' + n)
    for t in TRUST:
        if t not in c.trusted:
            c.trusted.append(t)
    for t in ASSUME:
        if t not in c.assumptions:
            c.assumptions.append(t)
    jobs = []
    for i in range(0, len(specs), size):
        g = specs[i:i + size]
        jobs.append((g[0]['name'] + '...', group, (g, B, RB)))
    c.add(run_jobs(jobs, timeout=timeout, verbose=False))
