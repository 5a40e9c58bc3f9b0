"""P16: distances, similarities, ranks and nearest neighbours obey their definitions."""
import math

import numpy as np

from nephmon import mx

N = {'quick': 25000, 'thorough': 300000}
RULE = ('random sparse/dense matrices (zero rows, equal rows, single rows, negative values) given to compute_distance (all metrics, both axes), '
        'compute_cosine, compute_simrank (both directions) and most_similar (all k, both directions); every cell is recomputed from the labelled '
        'rows; ranks are judged as permutations monotone in the similarities; distinct by table and call')
REQUIRED = {'distance_cells': 20000, 'cosine_cells': 10000, 'rank_rows': 5000, 'neighbours': 3000, 'zero_rows': 500, 'axis1': 1500, 'ties': 300}
ASSUMPTIONS = ['the cosine with an all-zero row is 0 (distance 1); an item is similar 1 to itself', 'most_similar is asked of symmetric matrices (others refuse explicitly)',
               'with equal values any order of the tied items is right']
METRICS = ['cosine', 'cos', 'euclidean', 'cityblock', 'l1', 'l2', 'manhattan']


def gen(rng, idx, tier):
    m = mx.make(rng, kind=rng.choice(['csr', 'csr', 'csr', 'csc', 'dense', 'square']), dtype=rng.choice(['pos', 'small', 'sint', 'float']),
                shape=(rng.choice([1, 2, 3, 4, 6, 9]), rng.choice([1, 2, 3, 4, 6, 9])))
    for k in list(m['cells']):      # keep the magnitudes comparable, so that the tolerance is meaningful
        if abs(m['cells'][k]) > 1e4:
            m['cells'][k] = 7.5 if m['dtype'] in ('pos', 'float') else 7
    n = len(m['rows'])
    if rng.random() < .3 and n > 1:         # two equal rows
        a, b = rng.sample(range(n), 2)
        for j in range(len(m['cols'])):
            m['cells'].pop((b, j), None)
            if (a, j) in m['cells']:
                m['cells'][b, j] = m['cells'][a, j]
    m['unsorted'] = m['kind'] in ('csr', 'csc') and rng.random() < .3
    return {'m': m, 'seed': rng.random(), 'op': rng.choice(['distance', 'distance', 'cosine', 'simrank', 'similar', 'chain'])}


def metric_of(name, a, b):
    if name in ('euclidean', 'l2'):
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))
    if name in ('cityblock', 'l1', 'manhattan'):
        return sum(abs(x - y) for x, y in zip(a, b))
    return 1.0 - cos(a, b)


def cos(a, b):
    na, nb = math.sqrt(sum(x * x for x in a)), math.sqrt(sum(x * x for x in b))
    if na == 0 or nb == 0:
        return 0.0
    return sum(x * y for x, y in zip(a, b)) / na / nb


def vectors(T, axis):
    if axis == 0:
        return T.rows, [[float(T.get(r, c)) for c in T.cols] for r in T.rows]
    return T.cols, [[float(T.get(r, c)) for r in T.rows] for c in T.cols]


def run(case, obs):
    import random
    from nephosem.specutils import mxcalc
    rng = random.Random(case['seed'])
    M, T = mx.build(case['m']), mx.model(case['m'])
    before = mx.view(M)
    op = case['op']
    obs.nontrivial = len(T.rows) > 1 and len(T.cells) > 1
    what = op
    try:
        if op in ('distance', 'chain'):
            axis, met = rng.choice([0, 0, 1]), rng.choice(METRICS)
            what = 'compute_distance(axis=%d, metric=%r) of %r' % (axis, met, T)
            kw = {} if axis == 0 and rng.random() < .3 else {'axis': axis}
            if met != 'cosine' or rng.random() < .5:
                kw['metric'] = met
            D = mxcalc.compute_distance(M, **kw)
            items, vec = vectors(T, axis)
            judge(obs, 'distance', what, D, items, vec, lambda i, j: 0.0 if i == j else metric_of(met, vec[i], vec[j]), axis)
            other = mx.build(dict(case['m'], kind='dense' if T.sparse else 'csr', unsorted=False))
            D2 = mxcalc.compute_distance(other, **kw)
            obs.check(np.allclose(D.matrix, D2.matrix, atol=1e-7), 'distance-storage', lambda: '%s differs between sparse and dense input' % what)
            if op == 'chain' and len(items) > 1:
                neighbours(obs, rng, D, what)
        elif op == 'cosine':
            axis = rng.choice([0, 0, 1])
            what = 'compute_cosine(axis=%d) of %r' % (axis, T)
            S = (mxcalc.compute_cosine if rng.random() < .8 else mxcalc.compute_cos)(M, **({} if axis == 0 and rng.random() < .5 else {'axis': axis}))
            items, vec = vectors(T, axis)
            judge(obs, 'cosine', what, S, items, vec, lambda i, j: 1.0 if i == j else cos(vec[i], vec[j]), axis)
            a = np.asarray(S.matrix)
            obs.check(bool((np.abs(a) <= 1 + 1e-9).all()), 'cosine-bounded', what)
            if len(items) > 1:
                neighbours(obs, rng, S, what)
        elif op == 'similar':
            m = mx.make(rng, kind='sym', dtype=rng.choice(['pos', 'small', 'float']), density=1.0)
            neighbours(obs, rng, mx.build(m), 'symmetric matrix')
        elif op == 'simrank':
            if rng.random() < .5:
                S = mxcalc.compute_cosine(M)
            else:
                S = mx.build(mx.make(rng, kind=rng.choice(['sym', 'dense', 'square']), dtype=rng.choice(['small', 'float', 'pos']), density=1.0))
            ST = mx.view(S)
            rev = rng.choice([False, False, True])
            what = 'compute_simrank(reverse=%r) of %r' % (rev, ST)
            R = mxcalc.compute_simrank(S, reverse=rev) if rev or rng.random() < .5 else mxcalc.compute_simrank(S)
            got = mx.view(R)
            obs.check(got.rows == ST.rows and got.cols == ST.cols, 'rank-labels', lambda: '%s has labels %r x %r' % (what, got.rows, got.cols))
            for r in ST.rows:
                obs.n('rank_rows')
                v, g = [ST.get(r, c) for c in ST.cols], [got.get(r, c) for c in ST.cols]
                obs.n('ties', int(len(set(v)) < len(v)))
                ok = sorted(g) == list(range(1, len(v) + 1))
                for i in range(len(v)):
                    for j in range(len(v)):
                        if (v[i] < v[j] if rev else v[i] > v[j]) and not g[i] < g[j]:
                            ok = False
                obs.check(ok, 'rank-order', lambda: '%s: row %r with values %r has ranks %r' % (what, r, v, g))
            obs.check(not mx.diff(ST, mx.view(S)), 'simrank-changed-input', what)
    except AssertionError as e:
        obs.bad(op + '-malformed', '%s: %s' % (what, e))
    except Exception as e:
        obs.bad(op + '-raised', '%s raised %r' % (what, e))
    obs.check(not mx.diff(before, mx.view(M)), op + '-changed-input', what)
    obs.see(what, T)


def judge(obs, op, what, D, items, vec, f, axis):
    got = mx.view(D)
    obs.n('axis1', axis)
    obs.n('zero_rows', sum(1 for v in vec if not any(v)))
    if not obs.check(got.rows == items and got.cols == items, op + '-labels', lambda: '%s has labels %r x %r' % (what, got.rows, got.cols)):
        return
    for i, r in enumerate(items):
        for j, c in enumerate(items):
            e, g = f(i, j), float(got.get(r, c))
            obs.n(op + '_cells')
            obs.check(abs(e - g) <= 1e-6 * max(1.0, abs(e)), op + '-value', lambda: '%s: cell (%r, %r) is %r instead of %r' % (what, r, c, g, e))
            obs.check(g == float(got.get(c, r)) or abs(g - float(got.get(c, r))) < 1e-12, op + '-symmetric', lambda: '%s: (%r, %r)' % (what, r, c))


def neighbours(obs, rng, S, what):
    from nephmon.checks.p08 import is_sym
    if not is_sym(S):
        return
    T = mx.view(S)
    for _ in range(2):
        it, k, desc = rng.choice(T.rows), rng.choice([1, 2, 3, 10, len(T.rows) - 1, len(T.rows)]), rng.random() < .5
        if k < 1:
            continue
        what2 = 'most_similar(%r, k=%d, descending=%r) of %r' % (it, k, desc, T)
        got = S.most_similar(it, k=k, descending=desc)
        others = [c for c in T.cols if c != it]
        obs.n('neighbours')
        vals = sorted((T.get(it, c) for c in others), reverse=desc)[:k]
        obs.check(len(set(got)) == len(got) == min(k, len(others)) and it not in got and set(got) <= set(others), 'similar-items',
                  lambda: '%s gives %r' % (what2, got))
        obs.check([T.get(it, c) for c in got] == vals, 'similar-order', lambda: '%s gives %r with values %r instead of %r' % (
            what2, got, [T.get(it, c) for c in got], vals))
