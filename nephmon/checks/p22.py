"""P22: Clustering by Committee step by step and as a whole, in one and in several processes."""
import json
import contextlib
import io
import logging
import math
import multiprocessing
import os
import random
import time

import numpy as np
import scipy.sparse as sp

from nephmon import cbcref
from nephmon.core import EventLog, add_audit, del_audit, fresh_dir, isolate, on_fork_child, rmtree

N = {'quick': 5000, 'thorough': 150000}
BUDGET = {'quick': 150, 'thorough': 780}
RULE = ('random frequency, association and distance matrices of 1 to 14 elements (explicit and left to be computed), elements in any order or a subset of the '
        'rows, k as number or fraction, every pruning method, threshold kind, score metric (or a score function of the caller) and highest_score; each step and the whole recursion are compared '
        'with an independent implementation of the algorithm; 1 to 8 processes with random delays at process start and at the opening of the shared matrix, '
        'also several clusterings at a time under the same home directory')
REQUIRED = {'step1_elements': 1200, 'own_scores': 300, 'step1_clusters': 1500, 'step2_committees': 500, 'merged_committees': 100, 'adopted_singletons': 150,
            'step3_elements': 2000, 'residues': 800, 'at_threshold': 20, 'recursions': 700, 'later_recursions': 40, 'parallel_runs': 120, 'worker_processes': 600,
            'concurrent_runs': 80, 'fewer_elements_than_rows': 200, 'computed_matrices': 300}
ASSUMPTIONS = ['comparisons whose outcome hinges on a tie (within 1e-9, or 1e-5 for matrices computed in single precision) are checked for membership and conservation only']
TECHNIQUE = 'runtime monitoring: independent reference for every step, delays injected into the worker processes, process-count and concurrency stress'
LEVEL = 'monitoring'
# score functions as in the documentation of score_cluster: (size, average similarity) -> score
OWN = {'square': lambda size, avgsim: size * size * avgsim, 'dense': lambda size, avgsim: (avgsim + .5) / size, 'root': lambda size, avgsim: math.sqrt(size) * avgsim}
METRICS = ('without_size', 'with_size', 'with_size_sqrt')


def gen(rng, idx, tier):
    kind = ('step1', 'step2', 'step3', 'whole', 'whole')[idx % 5]
    if idx % 25 == 24:
        kind = 'multi'
    n = rng.choice([1, 2, 3, 4, 6, 8, 11, 14] + [22, 30] * (idx % 10 == 0)) if kind != 'multi' else rng.choice([1, 3, 5, 9, 14, 23])
    m = rng.choice([2, 4, 7, 10])
    groups = rng.choice([1, 2, 3])
    freq = []
    for i in range(n):
        g = i % groups
        row = [rng.choice([0, 0, 1, 2, 5]) + (rng.randint(3, 25) if j % groups == g else 0) for j in range(m)]
        if rng.random() < .05:
            row = [0] * m
        freq.append(row)
    if not any(any(r) for r in freq):
        freq[0][0] = 3
    case = {'kind': kind, 'freq': freq, 'seed': rng.random(),
            'k': rng.choice([1, 2, 3, 4, 6, 10, 25, 0.3, 0.5, 0.75, 0.95]),
            'method': 'distance', 't': rng.choice(['median', 'mean', '25%', '75%', '10%', '90%', '100%', '5%', 0.5, 0.8, 0.25, 0.0, 1.0]),
            'metric': rng.choice(METRICS), 'own': rng.choice(sorted(OWN)) if kind == 'step1' and rng.random() < .3 else None, 'high': rng.random() < .4,
            'theta1': rng.choice([0.0, 0.2, 0.35, 0.6, 0.9, round(rng.random(), 3)]), 'theta2': rng.choice([0.0, 0.1, 0.25, 0.5, 0.8, 0.95, round(rng.random(), 3)]),
            'dist': rng.choice(['random', 'random', 'close', 'none']), 'meas': rng.choice(['ppmi', 'random', 'none']),
            'num_iter': rng.choice([1, 2, 1000, 1000]), 'sub': rng.choice(['all', 'all', 'permuted', 'some']), 'num_eles': rng.choice([-1, -1, -1, 3]),
            'cpus': rng.choice([2, 3, 4, 6, 9]), 'runs': rng.choice([1, 1, 2, 3])}
    if rng.random() < .3:
        case['method'], case['t'] = 'minsize', rng.choice([2, 3, 4])
    if kind in ('step2', 'step3'):
        case['groups'] = groups
        case['L'] = [(round(rng.random() * 3, 6), rng.sample(range(n), min(n, rng.choice([2, 2, 3, 4])))) for _ in range(rng.randint(1, 6))]
        case['L'] = [(s if len(c) > 1 else -1, c) for s, c in case['L']] + [(-1, [i]) for i in range(n) if rng.random() < .6]
        rng.shuffle(case['L'])
    return case


def ppmi(freq):
    tot = sum(map(sum, freq))
    cs = [sum(r[j] for r in freq) for j in range(len(freq[0]))]
    return [[max(0.0, math.log(x * tot / (sum(r) * cs[j]))) if x else 0.0 for j, x in enumerate(r)] for r in freq]


def world(case):
    rng = random.Random(case['seed'])
    freq = case['freq']
    n = len(freq)
    names = [rng.choice(['w%02d/n', 'w%02d/n', 'ü%02d/n', '日%02d/n']) % i for i in rng.sample(range(max(30, n)), n)]
    cols = ['c%d' % j for j in range(len(freq[0]))]
    meas = ppmi(freq) if case['meas'] in ('ppmi', 'none') else [[round(rng.random() * 3, 6) if rng.random() < .7 else 0.0 for _ in cols] for _ in names]
    D = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            if case['dist'] == 'none':
                d = 1 - cbcref.cosine(meas[i], meas[j])
            elif case['dist'] == 'close':
                d = (0.1 if i % 3 == j % 3 else 0.7) + rng.random() * .2
            else:
                d = rng.random() * 1.2
            D[i, j] = D[j, i] = d
    return names, cols, meas, D, rng


def mats(case, names, cols, meas, D):
    from nephosem.core.matrix import TypeTokenMatrix
    f = TypeTokenMatrix(sp.csr_matrix(np.array(case['freq'], dtype=float)), list(names), list(cols))
    m = TypeTokenMatrix(sp.csr_matrix(np.array(meas, dtype=float)), list(names), list(cols))
    d = TypeTokenMatrix(D.copy(), list(names), list(names))
    return f, m, d


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield
    finally:
        logging.disable(logging.NOTSET)


def canon(L):
    return sorted((tuple(sorted(c)), float(s)) for s, c in L if len(c))


def same_list(a, b):
    """same clusters with the same scores, scores up to rounding"""
    return len(a) == len(b) and all(x[0] == y[0] and abs(x[1] - y[1]) < cbcref.EPS[0] * max(1, len(x[0])) for x, y in zip(a, b))


def expect_step1(case, names, dist, elements, n):
    k = int(case['k'] * n) if case['k'] < 1 else case['k']
    L, ties = {}, set()
    for e in elements:
        try:
            c = cbcref.candidates(e, names, dist, k, case['method'], case['t'], OWN[case['own']] if case.get('own') else case['metric'])
            L[e] = cbcref.highest(c) if case['high'] else c
        except cbcref.Tie:
            ties.add(e)
    return L, ties


def check_step1(obs, case, got, L, ties, what):
    if ties:
        obs.n('tied', len(ties))
        return
    want = canon([c for v in L.values() for c in v])
    obs.check(same_list(canon(got), want), what, lambda: 'clusters %r instead of %r' % (canon(got), want))


def prune_kw(case):
    kw = {'k': case['k'], 'prune_method': case['method'], 't': case['t'], 'score_metric': case['metric'], 'highest_score': case['high']}
    if case.get('own'):
        kw['score_func'] = OWN[case['own']]
    return kw


def run(case, obs):
    obs.see(case)
    cbcref.EPS[0] = 1e-5 if case['kind'] in ('whole', 'multi') and 'none' in (case['dist'], case['meas']) else 1e-9
    names, cols, meas, D, rng = world(case)
    dist = {(a, b): D[i, j] for i, a in enumerate(names) for j, b in enumerate(names)}
    globals()['run_' + case['kind']](case, obs, names, cols, meas, D, dist, rng)


def run_step1(case, obs, names, cols, meas, D, dist, rng):
    from nephosem.models import cbc
    f, m, d = mats(case, names, cols, meas, D)
    els = rng.sample(names, rng.randint(1, len(names)))
    for e in els:               # element by element, then all at once
        L, ties = expect_step1(case, names, dist, [e], len(names))
        with quiet():
            got = cbc.cbc_step1_single([e], distmx=d, **prune_kw(case))
        obs.n('step1_elements')
        obs.n('step1_clusters', len(got))
        if case['own']:
            obs.n('own_scores', len(got))
        check_step1(obs, case, got, L, ties, 'step1-clusters')
        # without highest_score the clusters partition the nearest elements
        k = int(case['k'] * len(names)) if case['k'] < 1 else case['k']
        if not case['high'] and min(k, len(names) - 1) >= 2:
            mem = [x for _s, c in got for x in c]
            obs.check(len(mem) == len(set(mem)) == min(k, len(names) - 1) and e not in mem and set(mem) <= set(names), 'step1-not-a-partition',
                      lambda: 'the %d nearest elements of %r are clustered as %r' % (k, e, got))
    L, ties = expect_step1(case, names, dist, els, len(names))
    with quiet():
        got = cbc.cbc_step1_single(list(els), distmx=d, **prune_kw(case))
    check_step1(obs, case, got, L, ties, 'step1-all-clusters')
    obs.check(np.array_equal(d.matrix, D) and list(d.row_items) == names, 'step1-changes-matrix', 'the distance matrix changed')
    obs.nontrivial = len(names) > 2


def rows_of(names, mat):
    return {e: mat[i] for i, e in enumerate(names)}


def call_step2(case, names, meas, L):
    from nephosem.models import cbc
    F, M = np.array(case['freq'], dtype=float), np.array(meas, dtype=float)
    with quiet():
        C, V = cbc.cbc_step2([(s, list(c)) for s, c in L], elements=list(names), freqmx=F, ppmimx=M, theta=case['theta1'])
    return C, V


def run_step2(case, obs, names, cols, meas, D, dist, rng):
    L = [(s, [names[i] for i in c]) for s, c in case['L']]
    freq, ms = rows_of(names, case['freq']), rows_of(names, meas)
    C, V = call_step2(case, names, meas, L)
    kept, singles = cbcref.clean(L)
    obs.n('step2_committees', len(C))
    obs.nontrivial = len(C) > 1
    mem = [x for c in C for x in c]
    obs.check(set(mem) <= {e for _s, c in L for e in c} and all(len(c) == len(set(c)) and c for c in C), 'step2-members', lambda: 'committees %r of %r' % (C, L))
    base = set().union(*kept) if kept else set()
    obs.check(base <= set(mem), 'step2-loses-elements', lambda: '%r lost: committees %r of %r' % (base - set(mem), C, L))
    try:
        want, vec = cbcref.step2(L, names, freq, ms, case['theta1'])
    except cbcref.Tie:
        obs.n('tied')
        return
    obs.n('merged_committees', len(kept) - len(want))
    obs.n('adopted_singletons', len({e for c in want for e in c} - base))
    obs.check([sorted(c) for c in C] == [sorted(c) for c in want], 'step2-committees', lambda: 'committees %r instead of %r for %r, theta %r' % (C, want, L, case['theta1']))
    if want:
        obs.check(V.shape == (len(want), len(cols)) and np.allclose(V, vec, atol=1e-9), 'step2-vectors', lambda: 'vectors %r instead of %r' % (V.tolist(), vec))
    else:
        obs.check(V is None or len(V) == 0, 'step2-vectors', lambda: 'vectors %r without a committee' % (V,))


def run_step3(case, obs, names, cols, meas, D, dist, rng):
    from nephosem.models import cbc
    freq, ms = rows_of(names, case['freq']), rows_of(names, meas)
    comms = [[names[i] for i in c] for _s, c in case['L'] if len(c) > 1]
    if not comms:
        return
    try:
        vec = [cbcref.committee_vector(names, c, freq) for c in comms]
    except cbcref.Tie:
        obs.n('tied')
        return
    arg = [list(c) for c in comms]
    with quiet():
        R, out = cbc.cbc_step3(list(names), measmx=np.array(meas, dtype=float), comms=arg, commx=np.array(vec), theta=case['theta2'])
    obs.n('step3_elements', len(names))
    obs.n('residues', len(R))
    obs.n('at_threshold', sum(1 for e in names if case['theta2'] == 0 and not any(cbcref.cosine(ms[e], v) for v in vec)))
    obs.nontrivial = 0 < len(R) < len(names)
    obs.check(arg == comms, 'step3-changes-committees', lambda: 'the committees passed changed from %r to %r' % (comms, arg))
    old = set().union(*map(set, comms))
    mem = set().union(*map(set, out))
    obs.check(len(R) == len(set(R)) and set(names) == set(R) | mem and mem <= old | (set(names) - set(R)), 'step3-loses-elements',
              lambda: 'elements %r: committees %r, residues %r' % (names, out, R))
    try:
        wr, wo = cbcref.step3(names, ms, comms, vec, case['theta2'])
    except cbcref.Tie:
        obs.n('tied')
        return
    obs.check(R == wr, 'step3-residues', lambda: 'residues %r instead of %r' % (R, wr))
    obs.check([sorted(c) for c in out] == [sorted(c) for c in wo], 'step3-committees', lambda: 'committees %r instead of %r' % (out, wo))


def make(case, names, cols, meas, D, rng):
    from nephosem.models import cbc
    f, m, d = mats(case, names, cols, meas, D)
    els = list(names)
    if case['sub'] != 'all':
        rng.shuffle(els)
    if case['sub'] == 'some':
        els = els[:max(1, len(els) * 2 // 3)]
    return cbc.CBC, (f, m, d), els


def construct(case, CBC, M, els):
    f, m, d = M
    kw = prune_kw(case)
    kw.update(theta1=case['theta1'], theta2=case['theta2'], num_iter=case['num_iter'])
    if case['meas'] != 'none':
        kw['measmx'] = m
    if case['dist'] != 'none':
        kw['distmx'] = d
    return CBC(list(els), f, **kw)


def invariants(obs, els, Cs, Rs):
    """conservation, whatever the committees"""
    obs.check(len(Cs) == len(Rs) and len(Cs) >= 1, 'whole-recursions', lambda: '%d committee lists, %d residue lists' % (len(Cs), len(Rs)))
    cur = list(els)
    for C, R in zip(Cs, Rs):
        mem = [x for c in C for x in c]
        obs.check(set(mem) <= set(cur) and all(c and len(c) == len(set(c)) for c in C), 'whole-members', lambda: 'committees %r of %r' % (C, cur))
        it = iter(cur)
        obs.check(all(any(x == y for y in it) for x in R), 'whole-residues', lambda: 'residues %r of %r' % (R, cur))
        if not C:
            obs.check(list(R) == cur, 'whole-loses-elements', lambda: 'no committee, residues %r of %r' % (R, cur))
        cur = list(R)


def reference(case, els, names, meas, dist):
    freq, ms = rows_of(names, case['freq']), rows_of(names, meas)
    return cbcref.cluster(els, freq, ms, dist, case['k'], case['theta1'], case['theta2'], case['method'], case['t'], case['metric'], case['high'], case['num_iter'])


def compare(obs, case, els, Cs, Rs, want, key):
    got = [([sorted(c) for c in C], list(R)) for C, R in zip(Cs, Rs)]
    exp = [([sorted(c) for c in C], list(R)) for C, R in want]
    obs.check(len(Cs) == len(Rs) and got == exp, key, lambda: 'elements %r:\n   got  %r\n   want %r' % (els, got, exp))


def saved_results(obs, home, Cs, Rs):
    """where a run saved its committees and residues, they are the ones it returned"""
    for dp, _dn, fs in os.walk(home):
        for name, want in (('Cs', Cs), ('Rs', Rs)):
            if name in fs:
                obs.n('result_files')
                try:
                    with open(os.path.join(dp, name), encoding='utf-8') as f:
                        got = json.load(f)
                except ValueError as e:
                    got = 'not readable: %s' % e
                obs.check(got == json.loads(json.dumps(want)), 'result-file', lambda: '%s holds %.300r instead of %.300r' % (name, got, want))


def run_whole(case, obs, names, cols, meas, D, dist, rng):
    CBC, M, els = make(case, names, cols, meas, D, rng)
    if case['meas'] == 'none' or case['dist'] == 'none':
        obs.n('computed_matrices')
    home = fresh_dir()
    old = os.environ.get('HOME')
    os.environ['HOME'] = home
    try:
        with quiet():
            c = construct(case, CBC, M, els)
            Cs, Rs = c.cluster(num_eles=case['num_eles'], multicore=False)
    except Exception as e:
        obs.bad('whole-raises', 'CBC raised %s: %s' % (type(e).__name__, e))
        rmtree(home)
        return
    finally:
        if old is None:
            del os.environ['HOME']
        else:
            os.environ['HOME'] = old
    saved_results(obs, home, Cs, Rs)
    rmtree(home)
    used = els[:case['num_eles']] if case['num_eles'] > 0 else els
    obs.n('recursions', len(Cs))
    obs.n('later_recursions', len(Cs) - 1)
    obs.n('fewer_elements_than_rows', len(used) < len(names))
    obs.nontrivial = any(Cs)
    invariants(obs, used, Cs, Rs)
    f, m, d = M
    obs.check(list(c.elements) == els and np.array_equal(f.matrix.toarray(), case['freq']) and np.array_equal(d.matrix, D)
              and np.array_equal(m.matrix.toarray(), meas) and list(f.row_items) == names, 'whole-changes-input', 'a matrix or the element list changed')
    try:
        want = reference(case, used, names, meas, dist)
    except cbcref.Tie:
        obs.n('tied')
        return
    compare(obs, case, used, Cs, Rs, want, 'whole-result')


def run_multi(case, obs, names, cols, meas, D, dist, rng):
    """several processes, delays, other clusterings at the same time"""
    from nephosem.models import cbc
    CBC, M, els = make(case, names, cols, meas, D, rng)
    home = fresh_dir()
    log = EventLog(os.path.join(home, 'events'))
    hs = os.path.join(home, 'home')
    os.makedirs(hs)
    seed = case['seed']

    def one(i):
        r = random.Random(repr((seed, i)))
        os.cpu_count = lambda: case['cpus']
        parent = os.getpid()

        def started():
            rr = random.Random(repr((seed, os.getpid())))
            log.put('worker', os.getpid())
            time.sleep(rr.choice([0, 0, .01, .03]))

        def opened(event, args):
            if event == 'open' and os.getpid() != parent and isinstance(args[0], str) and 'distmx' in args[0]:
                log.put('load', os.getpid())
                time.sleep(random.Random(repr((seed, os.getpid(), args[0][-5:]))).choice([0, .005, .02]))
        on_fork_child(started)
        add_audit(opened)
        try:
            with quiet():
                c = construct(case, CBC, M, els)
                step1 = cbc.cbc_step1_multicore(list(els), distmx=c.distmx.submatrix(row=els, col=els), **prune_kw(case))
                Cs, Rs = c.cluster(num_eles=case['num_eles'], multicore=True)
        finally:
            del_audit(opened)
            on_fork_child(None)
        return step1, Cs, Rs

    def call():
        os.environ['HOME'] = hs
        if case['runs'] == 1:
            return [one(0)]
        ctx = multiprocessing.get_context('fork')
        ps = []
        for i in range(case['runs']):
            a, b = ctx.Pipe(False)

            def body(i=i, b=b):
                try:
                    b.send(one(i))
                except BaseException as e:
                    b.send('%s: %s' % (type(e).__name__, e))
            p = ctx.Process(target=body)
            p.start()
            b.close()
            ps.append((p, a))
        out = []
        for p, a in ps:
            try:
                out.append(a.recv())
            except EOFError:
                out.append('died')
            p.join()
        return out

    try:
        status, val = isolate(call)
        if status == 'timeout':
            obs.slow.append('clustering in several processes: %r' % (val,))
            return
        if status != 'ok':
            obs.bad('multi-' + status, 'the clustering in several processes %s: %r' % (status, val))
            return
        evs = log.read()
        left = [os.path.join(dp, x) for dp, _dn, fs in os.walk(hs) for x in fs if 'distmx' in x]
    finally:
        log.close()
        rmtree(home)
    obs.n('worker_processes', len({e[2] for e in evs if e[1] == 'worker'}))
    obs.n('matrix_loads', sum(e[1] == 'load' for e in evs))
    obs.n('parallel_runs', len(val))
    obs.n('concurrent_runs', len(val) if len(val) > 1 else 0)
    obs.nontrivial = len(els) > 1
    obs.check(not left, 'multi-leftovers', lambda: 'working files remain: %r' % left)
    used = els[:case['num_eles']] if case['num_eles'] > 0 else els
    L, ties = expect_step1(case, els, dist, els, len(els))
    try:
        want = reference(case, used, names, meas, dist)
    except cbcref.Tie:
        obs.n('tied')
        want = None
    for v in val:
        if isinstance(v, str):
            obs.bad('multi-raises', 'a clustering in several processes failed: ' + v)
            continue
        step1, Cs, Rs = v
        check_step1(obs, case, step1, L, ties, 'multi-step1')
        invariants(obs, used, Cs, Rs)
        if want is not None:
            compare(obs, case, used, Cs, Rs, want, 'multi-result')
