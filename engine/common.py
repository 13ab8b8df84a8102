"""Shared driver: builds, job pool, results, evidence, known findings, verdicts."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KOG_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
TOOLCHAIN = '+nightly-2022-11-14'
VENDOR = ['--offline', '--config', 'source.crates-io.replace-with="vp-vendor"',
          '--config', 'source.vp-vendor.directory="/opt/vp/vendor"']
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = float(os.environ.get('VERIF_BUDGET', '780' if TIER == 'quick' else '7200'))


def left():
    return BUDGET - (time.time() - T0)


class BuildError(Exception):
    pass


def cargo(cwd, args, rustflags='', env=None, timeout=600):
    e = dict(os.environ)
    e['RUSTFLAGS'] = rustflags
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('CARGO_TARGET_DIR', None)
    if env:
        e.update(env)
    r = subprocess.run(['cargo', TOOLCHAIN] + args[:1] + VENDOR + args[1:], cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout, text=True)
    if r.returncode != 0:
        raise BuildError('cargo %s in %s failed:\n%s' % (' '.join(args), cwd, r.stdout[-6000:]))
    return r.stdout


def sync(src, dst, skip=()):
    """mirror src into dst, keeping dst/target; only changed files are rewritten"""
    os.makedirs(dst, exist_ok=True)
    keep = set()
    for root, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d not in ('target', '.git')]
        rel = os.path.relpath(root, src)
        for f in files:
            p = os.path.normpath(os.path.join(rel, f))
            keep.add(p)
            if p in skip:
                continue
            put(os.path.join(dst, p), open(os.path.join(root, f), 'rb').read())
    for root, dirs, files in os.walk(dst):
        if os.path.relpath(root, dst).split(os.sep)[0] == 'target':
            dirs[:] = []
            continue
        for f in files:
            p = os.path.normpath(os.path.join(os.path.relpath(root, dst), f))
            if p not in keep and p not in ('Cargo.lock', '.lock'):
                os.remove(os.path.join(root, f))


def put(path, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.exists(path) and open(path, 'rb').read() == data:
        return
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(data)


class lock:
    """one builder at a time"""

    def __init__(self, name):
        os.makedirs(WORK, exist_ok=True)
        self.p = os.path.join(WORK, name + '.lck')

    def __enter__(self):
        import fcntl
        self.f = open(self.p, 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


# ---------------------------------------------------------------- job pool
class Result(dict):
    """status: proved | violation | undecided | error"""


def res(name, status, **kw):
    r = Result(name=name, status=status)
    r.update(kw)
    return r


def _child(fn, args, conn, mem):
    try:
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    import threading
    threading.stack_size(512 * 1024 * 1024)
    box = []

    def go():
        try:
            box.append(fn(*args))
        except Exception as e:  # noqa
            box.append(res(getattr(fn, '__name__', '?'), 'undecided',
                           note='%s: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-1500:]))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    try:
        conn.send(box[0] if box else None)
    except Exception as e:
        conn.send(res('?', 'undecided', note='result not picklable: %s' % e))
    conn.close()
    os._exit(0)


def run_jobs(jobs, nproc=None, timeout=None, verbose=True, mem=None, on_result=None):
    """jobs: list of (name, fn, args[, timeout]); each in its own forked process. -> list of results (flat)"""
    nproc = nproc or int(os.environ.get('VERIF_NPROC', '8'))
    ctx = mp.get_context('fork')
    pend = list(jobs)
    run = []
    out = []

    def emit(r):
        rs = r if isinstance(r, list) else [r]
        for x in rs:
            out.append(x)
            if verbose:
                print('  [%6.1fs] %-10s %s%s' % (time.time() - T0, x['status'], x['name'],
                                               ('  -- ' + str(x.get('note'))[:300]) if x['status'] not in ('proved', 'ok') else ''),
                      flush=True)
            if on_result:
                on_result(x)
    while pend or run:
        while pend and len(run) < nproc:
            j = pend.pop(0)
            a, b = ctx.Pipe(False)
            sys.stdout.flush()
            p = ctx.Process(target=_child, args=(j[1], j[2], b, mem))
            p.start()
            b.close()
            lim = j[3] if len(j) > 3 and j[3] else timeout
            run.append((j, p, a, time.time(), lim))
        nr = []
        for (j, p, a, t, lim) in run:
            done = None
            if a.poll(0):
                try:
                    done = a.recv()
                except EOFError:
                    done = res(j[0], 'undecided', note='worker died')
                if done is None:
                    done = res(j[0], 'undecided', note='no result')
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                done = res(j[0], 'undecided', note='worker died (exit %s)' % p.exitcode)
            elif (lim and time.time() - t > lim) or left() < 0:
                p.kill()
                p.join()
                done = res(j[0], 'undecided', note='time limit')
            if done is None:
                nr.append((j, p, a, t, lim))
            else:
                a.close()
                if isinstance(done, dict) and done.get('name') in (None, '?', 'go') or (
                        isinstance(done, dict) and done['status'] == 'undecided' and 'trace' in done):
                    done['name'] = j[0]
                emit(done)
        run = nr
        if run:
            time.sleep(0.02)
    return out


# ---------------------------------------------------------------- known findings
def known():
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        return json.load(open(p))
    return {'findings': [], 'fixed': []}


class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid = pid
        self.level = level
        self.results = []
        self.functions = {}
        self.bounds = []
        self.outside = []
        self.trusted = []
        self.assumptions = []
        self.samples = []
        self.extra = {}
        self.validated = 0

    def add(self, rs):
        if isinstance(rs, dict):
            rs = [rs]
        self.results.extend(rs)

    def fn(self, names):
        for n in names:
            self.functions[n] = self.functions.get(n, 0) + 1

    def finish(self):
        kn = {f['key']: f for f in known().get('findings', []) if f['property'] == self.pid}
        viol = []
        seen = set()
        os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
        for r in self.results:
            self.fn(r.pop('functions', []))
            if r['status'] == 'violation':
                if r.get('key', r['name']) in kn:
                    r['status'] = 'known-finding'
                    seen.add(r.get('key', r['name']))
                else:
                    viol.append(r)
        for k in sorted(seen):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kn[k]['what']))
        for k in kn:
            if k not in seen:
                print('note: known finding %s was not observed in this run' % k)
        n = lambda s: sum(1 for r in self.results if r['status'] == s)
        und = [r for r in self.results if r['status'] in ('undecided', 'error')]
        for r in und:
            print('UNDECIDED: property=%s %s: %s' % (self.pid, r['name'], str(r.get('note'))[:400]))
        for k, r in enumerate(viol):
            p = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (self.pid, k))
            with open(p, 'w') as f:
                json.dump({'property': self.pid, **r}, f, indent=1, default=str)
            print('  violated: %s: %s' % (r['name'], str(r.get('note'))[:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, p))
        queries = sum(int(r.get('queries', 0)) for r in self.results)
        solver_s = sum(float(r.get('solver_s', 0)) for r in self.results)
        cov = {
            'states': sum(int(r.get('paths', 1)) for r in self.results),
            'transitions': sum(int(r.get('steps', 0)) for r in self.results),
            'traces_validated_against_impl': sum(int(r.get('replayed', 0)) for r in self.results) + self.validated,
            'obligations': len(self.results),
            'discharged': n('proved'),
            'known_findings_observed': n('known-finding'),
            'undecided': [{'name': r['name'], 'note': str(r.get('note'))[:300]} for r in und],
            'solver_queries': queries,
            'solver_seconds': round(solver_s, 2),
            'functions_encoded': sorted(self.functions),
            'bounds': self.bounds,
            'outside_the_claim': self.outside,
            'checker_cmd': 'python3-vt run.py %s' % self.pid,
            'trusted_base': self.trusted,
            'samples': (self.samples + [{k: v for k, v in r.items() if k in ('name', 'status', 'queries', 'solver_s', 'paths', 'steps', 'note')}
                        for r in self.results])[:60],
            'explanation': 'states = symbolic paths explored; transitions = IR instructions / DAG operations executed '
                           'symbolically; traces_validated_against_impl = concrete runs of the natively compiled code '
                           'compared with the encoding (translator validation and counterexample replay).',
        }
        cov.update(self.extra)
        ev = {'property': self.pid, 'tier': TIER, 'seed': SEED, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        print('%s: %d obligations, %d discharged, %d known, %d undecided, %d violated; %d queries, %.1fs solver, %.1fs wall'
              % (self.pid, len(self.results), n('proved'), n('known-finding'), len(und), len(viol), queries, solver_s,
                 time.time() - T0))
        sys.stdout.flush()
        return 1 if viol else 0


def rng(*tag):
    return random.Random(hashlib.sha256(('%d/' % SEED + '/'.join(map(str, tag))).encode()).digest())
