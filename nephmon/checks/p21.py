"""P21: the clean-up of candidate clusters and the committee selection."""
import contextlib
import io
import random

import numpy as np

from nephmon import cbcref

N = {'quick': 30000, 'thorough': 600000}
RULE = ('random candidate lists over few elements, so that duplicates (adjacent or not, equal scores), nested chains, overlaps, singletons and clusters '
        'with score zero or below are frequent; clean_clusters is compared with the set-theoretic definition, for the list, for permutations of it and '
        'for a second pass over its own result; cbc_step3_old with the greedy selection on independently computed committee vectors')
REQUIRED = {'clean_calls': 40000, 'duplicates': 8000, 'apart_duplicates': 1000, 'nested': 8000, 'large_nested': 300, 'singletons_kept': 2000, 'singletons_dropped': 3000,
            'no_score': 1500, 'selections': 1500, 'rejected_committees': 1000, 'permutations': 15000}
ASSUMPTIONS = ['a cluster whose average similarity (score) is not positive has no committee: its elements count as singletons']
TECHNIQUE = 'runtime monitoring: set-theoretic oracle on every call plus permuted re-executions'
LEVEL = 'monitoring'


def gen(rng, idx, tier):
    els = ['e%d' % i for i in range(rng.choice([2, 3, 4, 6, 9, 9, 18]))]
    n = rng.choice([0, 1, 2, 3, 5, 8, 14])
    score = {}
    L = []
    flat = rng.random() < .4
    for _ in range(n):
        if L and rng.random() < .35:
            s, c = rng.choice(L)
            c = list(c)
            if rng.random() < .5:
                x = [e for e in els if e not in c]
                c = c + rng.sample(x, min(len(x), 1)) if rng.random() < .6 or len(c) < 3 else c[:-1]
            rng.shuffle(c)
        else:
            c = rng.sample(els, min(len(els), rng.choice([1, 2, 2, 3, 4] if len(els) < 18 else [1, 2, 3, 6, 11, 14, 17])))
        key = frozenset(c)
        if key not in score:
            score[key] = -1 if len(key) == 1 else rng.choice([0.5, 1.0]) if flat else rng.choice([0.0, -0.25, rng.random(), rng.random(), rng.random() * 3])
        L.append((score[key], c))
    if idx % 6 == 5:
        m = rng.choice([2, 3, 5])
        rows = rng.randint(3, 7)
        return {'kind': 'select', 'x': [[rng.randint(0, 60) + (j == 0) for j in range(m + 2)] for _ in range(rows)],
                'L': [(round(3.0 - i / 10, 3), rng.sample(range(rows), rng.choice([1, 2, 2, 3]))) for i in range(rng.randint(1, 6))], 'theta': rng.choice([0.0, 0.2, 0.5, 0.8, rng.random()])}
    return {'kind': 'clean', 'L': L, 'seed': rng.random()}


def norm(L):
    out = {}
    for s, c in L:
        out.setdefault(frozenset(c), []).append(s)
    return out


def run(case, obs):
    from nephosem.models import cbc
    obs.see(case)
    if case['kind'] == 'select':
        L = [tuple(x) for x in case['L']]
        X = np.array(case['x'], dtype=float)
        freq = {i: r for i, r in enumerate(case['x'])}
        try:
            vec = [cbcref.committee_vector(range(len(X)), c, freq) for _, c in L]
            keep = []
            for i in range(len(L)):
                if i == 0 or not any(cbcref.at_least(cbcref.cosine(vec[i], vec[j]), case['theta']) for j in keep):
                    keep.append(i)
        except cbcref.Tie:
            obs.n('ties')
            return
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            C, commx = cbc.cbc_step3_old([(s, list(c)) for s, c in L], freqmx=X.copy(), theta=case['theta'])
        obs.n('selections')
        obs.n('rejected_committees', len(L) - len(keep))
        obs.nontrivial = len(L) > 1
        obs.check([(s, sorted(c)) for s, c in C] == [(L[i][0], sorted(L[i][1])) for i in keep], 'select-wrong-committees',
                  lambda: 'kept %r instead of %r for %r' % (C, [L[i] for i in keep], case))
        obs.check(commx.shape == (len(keep), X.shape[1]) and all(np.allclose(commx[a], vec[i], atol=1e-9) for a, i in enumerate(keep)), 'select-wrong-vectors',
                  lambda: 'vectors %r instead of %r' % (commx.tolist(), [vec[i] for i in keep]))
        return
    L = [(s, list(c)) for s, c in case['L']]
    kept, singles = cbcref.clean(L)
    pos = [frozenset(c) for s, c in L if s > 0]
    ssorted = [frozenset(c) for s, c in sorted(L, key=lambda x: -x[0]) if s > 0]
    obs.n('duplicates', len(pos) - len(set(pos)))
    obs.n('apart_duplicates', sum(1 for i in range(2, len(ssorted)) if ssorted[i] in ssorted[:i - 1] and ssorted[i] != ssorted[i - 1]))
    obs.n('nested', sum(1 for c in set(pos) if any(d < c for d in pos)))
    obs.n('large_nested', sum(1 for c in set(pos) if len(c) > 8 and any(d < c for d in pos)))
    obs.n('no_score', sum(1 for s, c in L if len(c) > 1 and not s > 0))
    obs.n('singletons_kept', len(singles))
    obs.n('singletons_dropped', len({e for s, c in L if not s > 0 for e in c} - singles))
    obs.nontrivial = len(set(pos)) > 1

    def once(inp, what):
        before = [(s, list(c)) for s, c in inp]
        form = {'list': list, 'tuple': tuple, 'set': set}[rng.choice(['list', 'list', 'tuple', 'set'])]
        try:
            got, sg = cbc.clean_clusters([(s, form(c)) for s, c in inp])
        except Exception as e:
            obs.bad('clean-raises', 'clean_clusters raised %s: %s for %r (%s)' % (type(e).__name__, e, inp, what))
            return None
        obs.n('clean_calls')
        assert inp == before
        g = norm(got)
        obs.check(set(g) == set(kept), 'clean-wrong-clusters', lambda: '%s %r: kept %r instead of %r' % (what, inp, sorted(map(sorted, g)), sorted(map(sorted, kept))))
        obs.check(all(len(v) == 1 for v in g.values()), 'clean-duplicate-kept', lambda: '%s %r: %r' % (what, inp, got))
        obs.check(all(v[0] in kept.get(c, v) for c, v in g.items()), 'clean-wrong-score', lambda: '%s %r: %r' % (what, inp, got))
        obs.check(all(a[0] >= b[0] for a, b in zip(got, got[1:])), 'clean-order', lambda: '%s %r: not in descending score order: %r' % (what, inp, got))
        obs.check(set(sg) == singles and len(list(sg)) == len(singles), 'clean-wrong-singletons', lambda: '%s %r: singletons %r instead of %r' % (what, inp, sorted(sg), sorted(singles)))
        return got, sg
    rng = random.Random(case['seed'])
    r = once(L, 'list')
    if r is None:
        return
    for _ in range(2):
        P = list(L)
        rng.shuffle(P)
        P = [(s, rng.sample(c, len(c))) for s, c in P]
        once(P, 'permuted list')
        obs.n('permutations')
    # cleaning what is clean changes nothing
    if {frozenset(c) for _s, c in r[0]} != set(kept) or set(r[1]) != singles:
        return                      # reported above
    kept2, sg2 = dict(kept), singles
    L2 = [(s, sorted(c)) for s, c in r[0]] + [(-1, [e]) for e in sorted(r[1])]
    kept, singles = cbcref.clean(L2)
    assert set(kept) == set(kept2) and singles == sg2, 'reference not idempotent'
    once(L2, 'already clean list')
