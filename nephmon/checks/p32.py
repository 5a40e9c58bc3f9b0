"""P32: the public helper functions do what their documentation says."""
import contextlib
import io
import json
import math
import os
import random

import numpy as np
import scipy.sparse as sp

from nephmon.core import fresh_dir, rmtree

N = {'quick': 9000, 'thorough': 150000}
RULE = ('every helper of utils, specutils.mxutils/mxcalc, core.matrix and models.cbc that users and other modules call directly, on random arguments (ties, '
        'negative and huge numbers, k of 0 and beyond the size, empty collections, directory trees with links and hidden files, files of every size class); '
        'each result compared with its documented meaning; distinct by helper and arguments')
OPS = ['sort', 'count', 'largest', 'smallest', 'centroid', 'controid', 'merge', 'clean', 'makedir', 'sizeof', 'dicts', 'timeit', 'entropy', 'symmetric', 'emptyrows',
       'similarity', 'remap', 'measvec', 'reverse', 'committees', 'reordered', 'rules']
REQUIRED = dict({'op_' + o: 150 for o in OPS}, links=100, kept_outside=100, ties=200)
ASSUMPTIONS = ['helpers whose documentation leaves the result open (order of equal elements in get_largest_k) are judged up to that freedom',
               'clean_dir runs in a scratch directory whose links point into another scratch directory']
TECHNIQUE = 'runtime monitoring: definition-level oracle for every helper; directory snapshots around the ones that touch files'


def gen(rng, idx, tier):
    return {'op': OPS[idx % len(OPS)], 'seed': rng.randrange(1 << 40)}


def run(case, obs):
    rng = random.Random(case['seed'])
    obs.n('op_' + case['op'])
    obs.nontrivial = True
    globals()['op_' + case['op']](rng, obs)


def words(rng, n):
    pool = ['walk/V', 'run/N', 'a', 'A', 'b', 'ä', '日', '', ' ', '1', '10', '2', 'zz', 'é', 'ab', 'a b', '/', '-', 'Z', 'z']
    return rng.sample(pool, min(n, len(pool)))


def op_sort(rng, obs):
    from nephosem.utils import sort_dict
    d = {w: rng.choice([0, 1, 1, 2, 3, 7, -1, 2.5, 10 ** 12]) for w in words(rng, rng.choice([0, 1, 3, 8, 15]))}
    how, desc = rng.choice(['freq', 'freq', 'alpha']), rng.choice([True, True, False])
    obs.see(how, desc, sorted(d.items()))
    want = sorted(d) if how == 'freq' else sorted(d, reverse=desc)
    if how == 'freq':
        want.sort(key=lambda w: -d[w] if desc else d[w])
    obs.n('ties', int(len(set(d.values())) < len(d)))
    src = list(d.items())
    got = sort_dict(d, sorting=how, descending=desc)
    obs.check(list(got) == want, 'sort-dict', lambda: 'sort_dict(%r, %r, descending=%r) gives %r instead of %r' % (d, how, desc, got, want))
    obs.check(list(d.items()) == src, 'helper-changed-argument', lambda: 'sort_dict changed its argument %r to %r' % (src, d))


def nested(rng, num=None):
    num = num or (lambda: rng.choice([0, 1, 2, 5, -1, 2 ** 40, 1.5]))
    return {r: {c: num() for c in words(rng, rng.choice([0, 1, 2, 4]))} for r in words(rng, rng.choice([0, 1, 2, 4]))}


def op_count(rng, obs):
    from nephosem.utils import count_values
    d = nested(rng)
    obs.see(str(d))
    got = count_values(d)
    obs.check(got == sum(len(v) for v in d.values()), 'count-values', lambda: 'count_values(%r) is %r' % (d, got))


def op_merge(rng, obs):
    from nephosem.specutils.mxutils import merge_matrix_dict
    ds = [nested(rng) for _ in range(rng.choice([0, 1, 2, 3, 5]))]
    obs.see(str(ds))
    src = json.dumps(ds)
    want = {}
    for d in ds:
        for r, row in d.items():
            t = want.setdefault(r, {})
            for c, v in row.items():
                t[c] = t.get(c, 0) + v
    got = merge_matrix_dict(ds)
    obs.check({r: dict(v) for r, v in got.items()} == want, 'merge-dicts', lambda: 'merge_matrix_dict(%r) is %r' % (ds, got))
    for r in got:
        got[r]['its own'] = 1
    obs.check(json.dumps(ds) == src, 'helper-changed-argument', lambda: 'merge_matrix_dict changed %s to %r' % (src, ds))


def numbers(rng, n, kind=None):
    kind = kind or rng.choice(['int', 'float', 'tied', 'tied', 'f32'])
    if kind == 'int':
        return np.array([rng.randrange(-50, 10 ** 9) for _ in range(n)], dtype=np.int64)
    if kind == 'tied':
        return np.array([rng.choice([0, 0, 1, 2, 3]) for _ in range(n)], dtype=float)
    return np.array([rng.uniform(-3, 3) for _ in range(n)], dtype=np.float32 if kind == 'f32' else float)


def extreme(rng, obs, name, sign):
    from nephosem.specutils import mxutils
    a = numbers(rng, rng.choice([1, 2, 3, 7, 20]))
    k = rng.choice([0, 1, 1, 2, 3, 5, len(a) - 1, len(a), len(a) + 3])
    obs.see(name, k, a.tolist())
    obs.n('ties', int(len(set(a.tolist())) < len(a)))
    b = a.copy()
    got = [int(i) for i in getattr(mxutils, name)(a, k)]
    want = sorted((float(x) * sign for x in a))[:max(0, k)]
    obs.check(len(set(got)) == len(got) == min(k, len(a)) and all(0 <= i < len(a) for i in got) and sorted(float(a[i]) * sign for i in got) == want, name.replace('_', '-'),
              lambda: '%s(%r, %d) gives the indices %r' % (name, a.tolist(), k, got))
    obs.check(np.array_equal(a, b), 'helper-changed-argument', lambda: '%s changed its argument' % name)


def op_largest(rng, obs):
    extreme(rng, obs, 'get_largest_k', -1)


def op_smallest(rng, obs):
    extreme(rng, obs, 'get_smallest_k', 1)


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol)


def table(rng):
    n, m = rng.choice([1, 2, 3, 6]), rng.choice([1, 2, 4])
    return np.array([[rng.choice([0, 0, 1, 2, 5, 100, 2.5]) for _ in range(m)] for _ in range(n)], dtype=float)


def cluster(rng, n):
    c = rng.sample(range(n), rng.randint(1, n))
    return rng.choice([c, np.array(c), None]), c


def op_centroid(rng, obs):
    from nephosem.specutils.mxutils import centroid_of_cluster, sum_of_cluster
    A = table(rng)
    arg, c = cluster(rng, len(A))
    ids = range(len(A)) if arg is None else c
    obs.see(A.tolist(), None if arg is None else c)
    sums = [sum(A[i, j] for i in ids) for j in range(A.shape[1])]
    kw = {} if arg is None else {'cluster': arg}
    B = A.copy()
    g, s = centroid_of_cluster(A, **kw), sum_of_cluster(A, **kw)
    obs.check(close(s, sums), 'sum-of-cluster', lambda: 'sum_of_cluster(%r, %r) is %r' % (A.tolist(), arg, s))
    obs.check(close(g, [x / len(ids) for x in sums]), 'centroid', lambda: 'centroid_of_cluster(%r, %r) is %r' % (A.tolist(), arg, g))
    obs.check(np.array_equal(A, B), 'helper-changed-argument', lambda: 'the centroid of a cluster changed the data')


def op_controid(rng, obs):
    from nephosem.core.matrix import SparseMatrix
    A = table(rng)
    arg, c = cluster(rng, len(A))
    ids = range(len(A)) if arg is None else c
    obs.see('m', A.tolist(), None if arg is None else c)
    M = SparseMatrix(rng.choice([sp.csr_matrix, sp.csc_matrix])(A))
    g = M.controid() if arg is None else M.controid(arg)
    obs.check(close(np.asarray(g).ravel(), [sum(A[i, j] for i in ids) / len(ids) for j in range(A.shape[1])]), 'centroid', lambda: 'controid(%r) of %r is %r' % (arg, A.tolist(), g))


def tree(rng, d, outside, depth=0):
    for n in rng.sample(['a', '.hidden', 'b c', 'ü', 'x.bin', 'sub', 'deep', 'l1', 'l2', '-rf', '*'], rng.randint(0, 6)):
        p = os.path.join(d, n)
        k = rng.choice(['file', 'file', 'empty', 'dir', 'dirlink', 'filelink', 'dangling', 'ro'])
        if k == 'dir':
            os.mkdir(p)
            if depth < 3:
                tree(rng, p, outside, depth + 1)
        elif k == 'dirlink':
            os.symlink(outside, p)
        elif k == 'filelink':
            os.symlink(os.path.join(outside, 'keep'), p)
        elif k == 'dangling':
            os.symlink(os.path.join(outside, 'absent'), p)
        else:
            with open(p, 'wb') as f:
                f.write(b'' if k == 'empty' else b'data')
            if k == 'ro':
                os.chmod(p, 0o400)


def state(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(r, n)
            out[os.path.relpath(p, d)] = os.readlink(p) if os.path.islink(p) else 'dir' if os.path.isdir(p) else open(p, 'rb').read()
    return out


def op_clean(rng, obs):
    from nephosem.utils import clean_dir
    base = fresh_dir('clean')
    try:
        outside, d = os.path.join(base, 'outside'), os.path.join(base, 'w', 'target')
        os.makedirs(os.path.join(outside, 'inner'))
        os.makedirs(d)
        for n in ('keep', 'inner/keep'):
            with open(os.path.join(outside, n), 'w') as f:
                f.write(n)
        with open(os.path.join(base, 'w', 'neighbour'), 'w') as f:
            f.write('n')
        tree(rng, d, outside)
        before = state(d)
        obs.see(sorted(before.items(), key=str))
        obs.n('links', int(any(os.path.islink(os.path.join(d, n)) for n in os.listdir(d))))
        rest = {k: v for k, v in state(base).items() if not k.startswith('w/target/')}
        clean_dir(rng.choice([d, d + '/']))
        left = sorted(os.listdir(d)) if os.path.isdir(d) else None
        obs.check(left == [], 'clean-dir', lambda: 'clean_dir left %r of %r' % (left, before))
        now = {k: v for k, v in state(base).items() if not k.startswith('w/target/')}
        obs.n('kept_outside')
        obs.check(now == rest, 'clean-dir-outside', lambda: 'clean_dir changed files outside the directory: %r became %r' % (rest, now))
    finally:
        rmtree(base)


def op_makedir(rng, obs):
    from nephosem.utils import make_dir
    base = fresh_dir('mk')
    try:
        parts = [rng.choice(['a', 'ü', 'b c', '.x']) for _ in range(rng.randint(1, 4))]
        d = os.path.join(base, *parts)
        have = rng.randint(0, len(parts))
        os.makedirs(os.path.join(base, *parts[:have]), exist_ok=True)
        f = os.path.join(base, *parts[:have], 'file')
        with open(f, 'w') as fh:
            fh.write('x')
        obs.see(parts, have)
        for _ in range(rng.choice([1, 2])):
            make_dir(d)
        want = {'/'.join(parts[:i + 1]): 'dir' for i in range(len(parts))}
        want[os.path.relpath(f, base)] = b'x'
        got = state(base)
        obs.check(got == want, 'make-dir', lambda: 'make_dir(%r): %r instead of %r' % (parts, got, want))
    finally:
        rmtree(base)


def op_sizeof(rng, obs):
    from nephosem import utils
    n = rng.choice([0, 1, 999, 1023, 1024, 1025, 10 ** 5, 1024 ** 2 - 1, 1024 ** 2, 3 * 1024 ** 3, 7 * 1024 ** 7, 1024 ** 8, 1024 ** 9, rng.randrange(1 << 62)])
    suf = rng.choice(['B', 'B', 'iB', ''])
    obs.see(n, suf)
    unit, x = 0, float(n)
    while abs(x) >= 1024 and unit < 8:
        x, unit = x / 1024, unit + 1
    want = '%.1f%s%s' % (x, ['', 'K', 'M', 'G', 'T', 'P', 'E', 'Z', 'Y'][unit], suf)
    got = utils.sizeof_fmt(n, suffix=suf)
    obs.check(got.strip() == want, 'size-text', lambda: 'sizeof_fmt(%d, %r) is %r instead of %r' % (n, suf, got, want))
    if n < 2000:
        base = fresh_dir('sz')
        try:
            p = os.path.join(base, 'f')
            with open(p, 'wb') as f:
                f.write(b'\0' * n)
            got = utils.sizeof(p, suffix=suf)
            obs.check(got.strip() == want, 'size-text', lambda: 'sizeof() of a file of %d bytes is %r' % (n, got))
        finally:
            rmtree(base)


def op_dicts(rng, obs):
    from nephosem import utils
    d = {w: rng.choice([0, 1, 2, 2, 7, 2 ** 40, 1.5, -3]) for w in words(rng, rng.choice([0, 1, 4, 12]))}
    order = rng.choice(['freq', 'alpha'])
    base = fresh_dir('d')
    try:
        p = os.path.join(base, 'd')
        fmt = rng.choice(['json', 'plain'])
        obs.see(fmt, order, sorted(d.items()))
        for _ in range(rng.choice([1, 2])):
            if fmt == 'json':
                utils.save_dict_json(d, p)
            else:
                utils.save_dict_plain(d, p, order=order)
        got = utils.load_dict_json(p) if fmt == 'json' else utils.load_dict_plain(p)
        obs.check(got == d and all(type(got[k]) is type(v) for k, v in d.items()), 'dict-file', lambda: '%r saved as %s is read as %r' % (d, fmt, got))
        if fmt == 'plain':
            want = sorted(d) if order == 'alpha' else sorted(sorted(d), key=lambda w: -d[w])
            obs.check(list(got) == want, 'dict-file', lambda: 'the file of %r lists (%s) %r' % (d, order, list(got)))
    finally:
        rmtree(base)


def op_timeit(rng, obs):
    from nephosem.utils import timeit
    out = rng.choice([None, 0, [], {}, 'x', object()])
    fail = rng.random() < .4
    seen = []

    def some_function(*a, **k):
        """its documentation"""
        seen.append((a, k))
        if fail:
            raise KeyError('mine')
        return out
    a, k = tuple(rng.sample([1, 'b', None, (2,)], rng.randint(0, 3))), {x: rng.random() for x in rng.sample('pqr', rng.randint(0, 2))}
    obs.see(str(out)[:4], fail, a, sorted(k))
    t = timeit(some_function)
    obs.check(t.__name__ == 'some_function' and t.__doc__ == 'its documentation', 'timeit', lambda: 'the timed function is called %r' % t.__name__)
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            r = t(*a, **k)
    except KeyError as e:
        obs.check(fail and e.args == ('mine',), 'timeit', lambda: 'timeit raised %r' % e)
    else:
        obs.check(not fail and r is out, 'timeit', lambda: 'the timed function returned %r for %r (failing: %r)' % (r, out, fail))
    obs.check(seen == [(a, k)], 'timeit', lambda: 'the timed function was called with %r instead of %r' % (seen, (a, k)))


def op_entropy(rng, obs):
    from nephosem.specutils.mxcalc import entropy
    w = [rng.choice([0, 1, 1, 2, 5, 100]) for _ in range(rng.randint(1, 8))]
    if not sum(w):
        w[0] = 1
    p = [x / sum(w) for x in w]
    obs.see(w)
    want = -sum(x * math.log(x) for x in p if x)
    got = entropy(rng.choice([list, np.array, tuple])(p))
    obs.check(abs(got - want) < 1e-7, 'entropy', lambda: 'entropy(%r) is %r instead of %r' % (p, got, want))


def op_symmetric(rng, obs):
    from nephosem.core.matrix import check_symmetric
    n = rng.choice([1, 2, 3, 5])
    A = np.array([[rng.choice([0, 1, 2, .5]) for _ in range(n)] for _ in range(n)], dtype=float)
    kind = rng.choice(['any', 'sym', 'sym', 'one', 'wide', 'noise'])
    if kind != 'any':
        A = A + A.T
    if kind == 'one' and n > 1:
        i, j = rng.sample(range(n), 2)
        A[i, j] += .25
    elif kind == 'wide':
        A = np.hstack([A, A[:, :1]])
    elif kind == 'noise' and n > 1:
        i, j = rng.sample(range(n), 2)
        A[i, j] += 1e-10
    obs.see(kind, A.tolist())
    want = A.shape[0] == A.shape[1] and all(abs(A[i, j] - A[j, i]) < 1e-6 for i in range(len(A)) for j in range(len(A)))
    got = check_symmetric(A)
    obs.check(bool(got) == want, 'check-symmetric', lambda: 'check_symmetric(%r) is %r' % (A.tolist(), got))


def op_emptyrows(rng, obs):
    from nephosem.core.matrix import empty_row_idx
    A = np.array([[rng.choice([0, 0, 0, 1, -1]) for _ in range(rng.choice([2, 2, 2]))] for _ in range(rng.randint(1, 7))])
    if rng.random() < .3:
        A = A * 1.5
    obs.see(A.tolist())
    got = empty_row_idx(A)
    obs.check([int(i) for i in got] == [i for i, r in enumerate(A.tolist()) if not any(r)], 'empty-rows', lambda: 'empty_row_idx(%r) is %r' % (A.tolist(), got))


def op_similarity(rng, obs):
    from scipy.spatial.distance import squareform
    from nephosem.models import cbc
    n = rng.choice([2, 3, 4, 7, 12, 40])
    S = np.zeros((n, n))
    for i in range(n):
        for j in range(i):
            S[i, j] = S[j, i] = round(rng.random(), 6)
    cond = squareform(S)
    obs.see(n, cond.tolist()[:20])
    i, j = rng.sample(range(n), 2)
    pos = cbc.square_to_condensed(i, j, n)
    obs.check(0 <= pos < len(cond) and cond[pos] == S[i, j] and isinstance(pos, int), 'square-to-condensed', lambda: 'square_to_condensed(%d, %d, %d) is %r' % (i, j, n, pos))
    cl = {c: rng.sample(range(n), rng.randint(1, min(n, 6))) for c in range(rng.randint(1, 4))}

    def avg(c):
        p = [S[a, b] for x, a in enumerate(c) for b in c[x + 1:]]
        return sum(p) / len(p) if p else 1.0
    got = cbc.cluster_avgsim(dict(cl), cond)
    obs.check(set(got) == set(cl) and all(abs(got[c] - avg(v)) < 1e-9 for c, v in cl.items()), 'average-similarity', lambda: 'average similarities of %r (n=%d) are %r instead of %r' % (cl, n, got, {c: avg(v) for c, v in cl.items()}))
    metric = rng.choice(['without_size', 'with_size', 'with_size_sqrt'])
    f = {'without_size': lambda s: 1, 'with_size': lambda s: s, 'with_size_sqrt': math.sqrt}[metric]
    want = sorted((-1 if len(v) == 1 else f(len(v)) * avg(v), sorted(v)) for v in cl.values())
    got = sorted((s, sorted(v)) for s, v in cbc.score_cluster(dict(cl), cond, metric=metric))
    obs.check(len(got) == len(want) and all(a[1] == b[1] and abs(a[0] - b[0]) < 1e-9 for a, b in zip(got, want)), 'score-cluster', lambda: 'scores (%s) %r instead of %r' % (metric, got, want))


def op_remap(rng, obs):
    from nephosem.models import cbc
    glb = ['g%d' % i for i in rng.sample(range(30), rng.randint(1, 15))]
    sub = rng.sample(glb, rng.randint(1, len(glb)))
    c = rng.sample(range(len(sub)), rng.randint(1, len(sub)))
    obs.see(glb, sub, c)
    got = cbc.sub2glb(c, sub, glb)
    obs.check([glb[i] for i in got] == [sub[i] for i in c], 'cluster-ids', lambda: 'sub2glb(%r, %r, %r) is %r' % (c, sub, glb, got))


def op_reverse(rng, obs):
    from nephosem.models import cbc
    f = [rng.choice([1, 2, 3, 7]) for _ in range(rng.randint(0, 9))]
    lid = rng.choice([0, 3])
    obs.see(f, lid)
    got = cbc.reverse(rng.choice([list(f), np.array(f, dtype=int)]), lid)
    want = {}
    for i, c in enumerate(f):
        want.setdefault((lid, c), set()).add(i)
    obs.check(dict(got) == want, 'flat-clusters', lambda: 'reverse(%r, %d) is %r' % (f, lid, dict(got)))
    L = [(rng.random(), rng.sample(range(8), rng.randint(0, 4))) for _ in range(rng.randint(0, 6))]
    want = {}
    for i, (_s, c) in enumerate(L):
        for e in c:
            want.setdefault(e, set()).add(i)
    got = cbc.inverted_index(L)
    obs.check({k: set(v) for k, v in got.items()} == want, 'inverted-index', lambda: 'inverted_index(%r) is %r' % (L, got))


def vec_of(cent, rest):
    ct, rt = sum(cent), sum(rest)
    tot = ct + rt
    out = []
    for a, b in zip(cent, rest):
        v = math.log(a / tot / (ct / tot * ((a + b) / tot))) if a else 0.0
        out.append(max(0.0, v))
    return out


def op_measvec(rng, obs):
    from nephosem.models import cbc
    m = rng.choice([1, 2, 4, 8])
    a = np.array([rng.choice([0, 0, 1, 2, 30, 2.5]) for _ in range(m)], dtype=float)
    b = np.array([rng.choice([0, 1, 2, 30, 1000]) for _ in range(m)], dtype=float)
    if not a.sum():
        a[0] = 1
    obs.see(a.tolist(), b.tolist())
    got = cbc.calc_meas_vec(a, b)
    obs.check(close(got, vec_of(a.tolist(), b.tolist()), 1e-9), 'committee-vector', lambda: 'calc_meas_vec(%r, %r) is %r' % (a.tolist(), b.tolist(), got))


def op_committees(rng, obs):
    from nephosem.models import cbc
    n, m = rng.choice([2, 4, 7]), rng.choice([2, 4])
    F = np.array([[rng.choice([0, 1, 2, 9]) for _ in range(m)] for _ in range(n)], dtype=float)
    F[:, 0] += 1
    cs = [rng.sample(range(n), rng.randint(1, n)) for _ in range(rng.randint(1, 4))]
    obs.see(F.tolist(), cs)
    B = F.copy()
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        got = cbc.calc_committee_vectors([rng.choice([list, tuple, set])(c) for c in cs], freqmx=F)
    want = []
    for c in cs:
        s = [sum(F[i, j] for i in c) for j in range(m)]
        want.append(vec_of([x / len(c) for x in s], [sum(F[:, j]) - s[j] for j in range(m)]))
    obs.check(close(got, want), 'committee-vector', lambda: 'vectors of the committees %r of %r: %r instead of %r' % (cs, B.tolist(), got.tolist(), want))
    obs.check(np.array_equal(F, B), 'helper-changed-argument', lambda: 'the committee vectors changed the frequency matrix')


def op_reordered(rng, obs):
    from nephosem.core.matrix import reorder_matrix
    A = table(rng)
    axis = rng.choice([0, 1])
    idx = rng.sample(range(A.shape[axis]), rng.randint(1, A.shape[axis]))
    X = rng.choice([lambda: A.copy(), lambda: sp.csr_matrix(A), lambda: sp.csc_matrix(A)])()
    obs.see(axis, idx, A.tolist(), type(X).__name__)
    R = reorder_matrix(X, rng.choice([idx, np.array(idx)]), axis=axis)
    r = R.toarray() if sp.issparse(R) else R
    obs.check(np.array_equal(r, np.take(A, idx, axis=axis)), 'reorder-matrix', lambda: 'rows/columns %r (axis %d) of %r: %r' % (idx, axis, A.tolist(), r))


def op_rules(rng, obs):
    """what is a text; refusals of unknown options"""
    from nephosem import utils
    from nephosem.core.matrix import reorder_matrix
    from nephosem.models import cbc
    from nephosem.specutils import mxcalc
    v = rng.choice(['', 'a', 'ü', 1, None, ['a'], ('a',), {'a': 1}, 1.5])
    obs.see(str(v))
    obs.check(utils.is_string(v) == isinstance(v, str), 'is-string', lambda: 'is_string(%r) is %r' % (v, utils.is_string(v)))
    bad = rng.choice([lambda: utils.sort_dict({'a': 1}, sorting='size'), lambda: utils.save_dict_plain({'a': 1}, os.devnull, order='size'),
                      lambda: reorder_matrix(np.eye(2), [0], axis=2), lambda: cbc.score_cluster({0: [0, 1]}, np.array([.5]), metric='size'),
                      lambda: mxcalc.pairwise_association(1, 2, 3, 4, meas='no such measure'), lambda: cbc.square_to_condensed(1, 1, 4)])
    try:
        r = bad()
    except (ValueError, NotImplementedError, AssertionError):
        obs.n('refusals')
    else:
        obs.bad('unknown-option-accepted', 'an unknown option is accepted: %r' % (r,))
