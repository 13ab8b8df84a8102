"""Path exploration over symbolic runs: every path of a job is either decided or shown infeasible."""
import time

import common
import poly
from poly import Run, Sys, execute, TooBig


class Outcome(dict):
    pass


def entry(l):
    w = l.split(' ', 2)
    return w[0], (int(w[1]) if len(w) > 1 and w[1].isdigit() else None), (w[2] if len(w) > 2 else '')


def system(run, upto, field, flip=None, facts=None, extra_nz=()):
    """(Sys, status) of all hypotheses and decisions in log[:upto], the decision at index `flip` inverted"""
    S = Sys(run, field)
    pend = []
    if facts:
        facts(S)
    # nonzero facts first, then equalities
    seq = []
    for k, l in enumerate(run.log[:upto]):
        kind, n, rest = entry(l)
        if kind == 'HYPN':
            seq.append((n, False, 'given'))
        elif kind == 'HYP0':
            seq.append((n, True, rest))
        elif kind == 'PATH':
            z = (l.split(' ')[2] == '1') != (k == flip)
            seq.append((n, z, 'path'))
    ps = [(S.poly(n), z, w) for n, z, w in seq]
    S.hyps = [a for (a, z, w) in ps if z and w != 'path']
    for a, z, w in ps:
        if not z:
            if not S.assume_nonzero(a):
                return S, False
    left = [(a, w) for a, z, w in ps if z]
    while left:
        again = []
        n0 = len(left)
        for a, w in left:
            r = S.assume_zero(a, w)
            if r is False:
                return S, False
            if r is None:
                again.append((a, w))
        if len(again) == n0:
            S.unused = again
            S.hyps = S.hyps + [a for a, w in again if w == 'path']
            S.monomials(again)
            break
        left = again
    # nonzero facts must survive the equalities
    for a, z, w in ps:
        if not z and not S.assume_nonzero(a):
            return S, False
    return S, True


def explore(binary, job, args, inputs, field, facts=None, concrete=None, timeout=300, solver_timeout=60, events=(), allow_panic=False, max_paths=60, run_timeout=120, empty_ok=False, generic=False):
    """inputs: list of assignments (dicts) to start from -> dict(status, note, ...)"""
    t0 = time.time()
    st = dict(paths=0, queries=0, solver_s=0.0, goals=0, infeasible=0, nodes=0)
    seen = {}
    todo = list(inputs)
    problems = []
    covered = set()   # prefixes (tuples of (node, outcome)) that some run follows
    runs = []
    if not todo:
        run = execute(binary, job, {}, seed=1, args=args, timeout=run_timeout)
        hyp = Run('\n'.join(l for l in run.text.splitlines() if l.split(' ', 1)[0] in ('N', 'FIELD', 'HYP0', 'HYPN')))
        S, ok = system(hyp, len(hyp.log), field, facts=facts)
        if ok is False and empty_ok and S.check_derived(solver_timeout):
            # the hypotheses contradict each other: nothing satisfies them
            return dict(status='proved', note='no solution', **dict(st, goals=1, queries=S.queries, solver_s=S.solver_s))
        import roots
        e = any(nd[0] in 'CV' and nd[1] >= 100 for nd in run.nodes)
        for sd in range(3):
            mdl = roots.model(S, e, seed=sd) if ok else None
            if mdl is None:
                break
            todo.append({k_: v for k_, v in mdl.items() if k_ in full(run, {})})
        if not todo:
            todo.append({})
    for k, inp in enumerate(todo):
        run = execute(binary, job, inp, seed=1 + k, args=args, timeout=run_timeout)
        sig = tuple((n, l.split(' ')[2]) for l in run.log for kind, n, rest in [entry(l)] if kind == 'PATH')
        if sig in seen:
            continue
        seen[sig] = inp
        runs.append((run, sig, inp))
        for i in range(len(sig) + 1):
            covered.add(sig[:i])
    ext = False
    while runs:
        run, sig, inp = runs.pop(0)
        ext = ext or any(nd[0] == 'V' and nd[4] or nd[0] in 'CV' and nd[1] >= 100 for nd in run.nodes)
        if time.time() - t0 > timeout:
            return dict(status='undecided', note='time', **st)
        st['paths'] += 1
        st['nodes'] = max(st['nodes'], len(run.nodes))
        bad = [l for l in run.log if l.startswith('PANIC')]
        evs = [l for l in run.log if l.startswith('EVENT') and not any(l.startswith('EVENT ' + e) for e in events)]
        if evs:
            problems.append('the run looks at a symbolic value bitwise: %s' % evs[0])
        S, ok = system(run, len(run.log), field, facts=facts)
        if any(kd in ('HYP0', 'HYPN') and (shadow(run, n_) == (0, 0)) != (kd == 'HYP0') for l_ in run.log for kd, n_, r_ in [entry(l_)]):
            problems.append('a start input does not satisfy the hypotheses')
            continue
        if 'DONE' not in run.log:
            if bad and 'kogsym' in bad[0]:
                problems.append(bad[0])
            elif not allow_panic:
                return dict(status='cex', inputs=full(run, inp), note='%s' % (bad[0] if bad else 'no result'), goal='panic', run=run, **st)
        if not ok:
            # the concrete run is on this path: the system must be satisfiable
            problems.append('inconsistent system on an executed path')
            continue
        if getattr(S, 'unused', None):
            st['unused'] = len(S.unused)
        for l in run.log:
            kind, n, rest = entry(l)
            if kind == 'GOALT':
                st['goals'] += 1
                if n != 1 and rest.startswith('distinct: ') and st['paths'] > 1:
                    continue  # a statement about independent randomness, judged at a random point
                if n != 1:
                    return dict(status='cex', inputs=full(run, inp), note='%s' % rest, goal=rest, run=run, **st)
            elif kind in ('GOAL0', 'GOALN'):
                st['goals'] += 1
                v = shadow(run, n)
                if (v == (0, 0)) != (kind == 'GOAL0'):
                    return dict(status='cex', inputs=full(run, inp), note='%s' % rest, goal=rest, run=run, **st)
                try:
                    ok, r = (S.prove_zero if kind == 'GOAL0' else S.prove_nonzero)(n, timeout=solver_timeout)
                except TooBig as e:
                    ok, r = False, None
                    rest += ' (too big: %s)' % e
                if not ok:
                    problems.append('%s %s not decided%s' % (kind, rest, ': ' + S.R.show(r) if r else ''))
        some = [n for l in run.log for kind, n, rest in [entry(l)] if kind == 'GOALA']
        if some:
            # at least one of them differs from zero
            st['goals'] += 1
            live = [n for n in some if shadow(run, n) != (0, 0)]
            if not live:
                return dict(status='cex', inputs=full(run, inp), note='rejected although nothing is wrong', goal='reject', run=run, **st)
            if not any(S.prove_nonzero(n, timeout=solver_timeout)[0] for n in live):
                problems.append('GOALA not decided')
        if st['goals'] and not S.check_derived(solver_timeout):
            problems.append('a derivation step was not confirmed')
        st['queries'] += S.queries
        st['solver_s'] += S.solver_s
        if generic and st['paths'] > 1:
            continue  # an instance of an accidental zero: its goals are decided, its own branches are not followed further
        # the other side of each decision
        i = 0
        for k, l in enumerate(run.log):
            kind, n, rest = entry(l)
            if kind != 'PATH':
                continue
            other = sig[:i] + ((n, '1' if sig[i][1] == '0' else '0'),)
            i += 1
            if other in covered:
                continue
            covered.add(other)
            try:
                S2, ok = system(run, k + 1, field, flip=k, facts=facts)
            except TooBig as e:
                ok = True
            if ok is False and S2.check_derived(solver_timeout) and (S2.poly(n) or S2.prove_zero(n, timeout=solver_timeout)[0]):
                st['infeasible'] += 1
                st['queries'] += S2.queries
                st['solver_s'] += S2.solver_s
                continue
            import roots
            mdl = None
            if ok is not False and st['paths'] + len(runs) < max_paths:
                try:
                    mdl = roots.model(S2, ext, seed=len(covered), base=full(run, inp))
                except (TooBig, RecursionError, ValueError):
                    mdl = None
            done = False
            for attempt in range(3):
                if mdl is None:
                    break
                run2 = execute(binary, job, {k_: v for k_, v in mdl.items() if k_ in full(run, inp)}, seed=1, args=args)
                inp2 = mdl
                sig2 = signature(run2)
                if sig2[:len(other)] != other:
                    break
                if hyps_hold(run2):
                    st['found'] = st.get('found', 0) + 1
                    runs.append((run2, sig2, inp2))
                    for j in range(len(sig2) + 1):
                        covered.add(sig2[:j])
                    done = True
                    break
                # hypotheses stated after the decision: solve for them as well
                h, early = [], True
                np = 0
                for l2 in run2.log:
                    kd = l2.split(' ', 1)[0]
                    if kd == 'PATH':
                        np += 1
                        if np > len(other):
                            continue
                        h.append(l2)
                    elif kd in ('HYP0', 'HYPN'):
                        early = early and np <= len(other)
                        h.append(l2)
                r3 = Run('\n'.join(l2 for l2 in run2.text.splitlines() if l2.split(' ', 1)[0] in ('N', 'FIELD')) + '\n' + '\n'.join(h))
                try:
                    S3, ok3 = system(r3, len(r3.log), field, facts=facts)
                    if ok3 is False:
                        if early and S3.check_derived(solver_timeout):
                            st['infeasible'] += 1
                            done = True
                        break
                    mdl = roots.model(S3, ext, seed=len(covered) + attempt, base=full(run2, inp2))
                except (TooBig, RecursionError, ValueError):
                    mdl = None
            if done:
                continue
            if generic and sig[i - 1][1] == '0':
                st['degenerate'] = st.get('degenerate', 0) + 1   # an accidental zero for which no instance was found
                continue
            problems.append('path not explored: decision %d (node %d) the other way%s' % (i - 1, n, '' if mdl is None else ' (model not followed)'))
    st['wall'] = time.time() - t0
    if problems:
        return dict(status='undecided', note='; '.join(sorted(set(problems))[:3]), **st)
    return dict(status='proved', **st)


def signature(run):
    return tuple((n, l.split(' ')[2]) for l in run.log for kd, n, r in [entry(l)] if kd == 'PATH')


def hyps_hold(run):
    return not any((shadow(run, n) == (0, 0)) != (kd == 'HYP0') for l in run.log for kd, n, r in [entry(l)] if kd in ('HYP0', 'HYPN'))


def full(run, inp):
    """all input symbols of a run with their values"""
    out = {}
    for nd in run.nodes:
        if nd[0] == 'V':
            out[nd[2]] = (nd[3], nd[4])
    return out


def shadow(run, n, memo=None):
    """value of a node, as a pair (re, im)"""
    memo = {} if memo is None else memo
    st = [n]
    while st:
        k = st[-1]
        if k in memo:
            st.pop()
            continue
        nd = run.nodes[k]
        if nd[0] == 'C':
            memo[k] = (nd[2], nd[3])
            continue
        if nd[0] == 'V':
            memo[k] = (nd[3], nd[4])
            continue
        kids = [nd[2]] if nd[0] in 'IEX' else [nd[2], nd[3]]
        todo = [x for x in kids if x not in memo]
        if todo:
            st += todo
            continue
        p = run.fields[nd[1] % 100]
        a = memo[nd[2]]
        if nd[0] == 'I':
            nn = pow(a[0] * a[0] + a[1] * a[1], -1, p)
            memo[k] = (a[0] * nn % p, -a[1] * nn % p)
        elif nd[0] == 'E':
            memo[k] = a
        elif nd[0] == 'X':
            memo[k] = (a[0] % p, 0)
        else:
            b = memo[nd[3]]
            if nd[0] == '+':
                memo[k] = ((a[0] + b[0]) % p, (a[1] + b[1]) % p)
            elif nd[0] == '-':
                memo[k] = ((a[0] - b[0]) % p, (a[1] - b[1]) % p)
            else:
                memo[k] = ((a[0] * b[0] - a[1] * b[1]) % p, (a[0] * b[1] + a[1] * b[0]) % p)
    return memo[n]


def replay(binary, job, args, inputs, timeout=60, seed=1, slow=False):
    """the same harness on the unmodified crates with concrete inputs -> (violated?, text); slow: a run that does not finish shows nothing"""
    inp = dict(inputs)
    inp['@concrete'] = 1
    run = execute(binary, job, inp, seed=seed, args=args, timeout=timeout)
    for l in run.log:
        kind, n, rest = entry(l)
        if kind == 'PANIC':
            return not (slow and 'did not finish' in l or 'kogsym' in l), l
        if kind == 'HYP0' and shadow(run, n) != (0, 0) or kind == 'HYPN' and shadow(run, n) == (0, 0):
            return False, 'hypothesis %s does not hold' % rest
        if kind == 'GOALT' and n != 1:
            return True, rest
        if kind == 'GOAL0' and shadow(run, n) != (0, 0) or kind == 'GOALN' and shadow(run, n) == (0, 0):
            return True, '%s: value %s' % (rest, shadow(run, n))
    some = [n for l in run.log for kind, n, rest in [entry(l)] if kind == 'GOALA']
    if some and all(shadow(run, n) == (0, 0) for n in some):
        return True, 'rejected although nothing is wrong'
    if 'DONE' not in run.log:
        return True, 'no result (crash)'
    return False, 'all goals hold'
