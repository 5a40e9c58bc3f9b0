"""P17: token weights and token vectors combine exactly the right rows, by label."""
import math

import numpy as np

from nephmon import mx

N = {'quick': 20000, 'thorough': 250000}
RULE = ('random token-by-context position matrices, type-level weight matrices (types missing, unused, in any order; explicit zeros) and second-order '
        'matrices with permuted rows; compute_token_weights and compute_token_vectors for every operation and normalization are recomputed label by '
        'label from their definitions; distinct by inputs and call')
REQUIRED = {'weight_cells': 20000, 'old_weight_cells': 3000, 'vector_cells': 20000, 'missing_types': 300, 'permuted': 1500, 'op_addition': 800, 'op_weightedmean': 800,
            'op_multiplication': 800, 'pipeline': 500, 'refused': 100, 'files_in_subfolders': 1000}
ASSUMPTIONS = ['lemmas and parts of speech of the tokens contain no slash (documented token format lemma/pos/... or lemma/...)',
               'weighted means are taken over weights whose sum is not zero, or over none (result zero)',
               'multiplication: the product over the contexts where weight and value are both non-zero, 1 when there is none (the code defines it so)']


def gen(rng, idx, tier):
    types = rng.sample(['walk/V', 'run/V', 'cat/N', 'dog/N', 'café/N', 'the/DT'], rng.randint(1, 5))
    fmt = rng.choice(['lemma/pos', 'lemma/pos', 'lemma'])
    if fmt == 'lemma':
        types = list(dict.fromkeys(t.split('/')[0] for t in types))
    toks = []
    for i in range(rng.choice([1, 2, 4, 8])):
        toks.append('%s/%s/%d' % (rng.choice(types), rng.choice(['f1', 'f2', 'sub/f1', 'a b/c/f2', '1990/f']), i * rng.choice([1, 3]) + 1))
    toks = list(dict.fromkeys(toks))
    rng.shuffle(toks)
    ctx = mx.labels(rng, rng.choice([1, 2, 3, 5, 8]))
    pos = mx.make(rng, kind='csr', dtype='sint', rows=toks, cols=ctx, density=rng.choice([0.3, 0.6, 1.0]), explicit=False)
    have = [t for t in types if rng.random() < .85] + rng.choice([[], ['unused/N']])
    have = have or ['unused/N']
    rng.shuffle(have)
    wk = rng.choice(['pos', 'pos', 'float'])
    tw = mx.make(rng, kind=rng.choice(['csr', 'csr', 'csc']), dtype=wk, rows=have, cols=ctx, density=rng.choice([0.4, 0.8, 1.0]))
    rows2 = list(ctx)
    if rng.random() < .6:
        rng.shuffle(rows2)
    soc = mx.make(rng, kind='csr', dtype=rng.choice(['pos', 'float', 'small']), rows=rows2, cols=mx.labels(rng, rng.choice([1, 2, 4, 6])), density=rng.choice([0.4, 0.8, 1.0]))
    for m in (pos, tw, soc):
        m['unsorted'] = m['kind'] == 'csr' and rng.random() < .3
        for k in m['cells']:
            if abs(m['cells'][k]) > 1e4:
                m['cells'][k] = 3
    return {'fmt': fmt, 'pos': pos, 'tw': tw, 'soc': soc, 'bool': rng.random() < .7, 'oper': rng.choice(['addition', 'weightedmean', 'multiplication']),
            'norm': rng.choice(['l1', 'l1', 'l2', 'no', 'max', None]), 'do': rng.choice(['weights', 'vectors', 'both']), 'seed': rng.random()}


def run(case, obs):
    import random
    from nephosem.specutils import mxcalc
    rng = random.Random(case['seed'])
    P, PT = mx.build(case['pos']), mx.model(case['pos'])
    W, WT = mx.build(case['tw']), mx.model(case['tw'])
    S, ST = mx.build(case['soc']), mx.model(case['soc'])
    obs.nontrivial = len(PT.cells) > 1 and len(WT.cells) > 1
    what = 'case'
    TW = None
    own = {t: '/'.join(t.split('/')[:2 if case['fmt'] == 'lemma/pos' else 1]) for t in PT.rows}
    try:
        if case['do'] in ('weights', 'both'):
            kw = {}
            if not case['bool']:
                kw['booleanize'] = False
            if case['fmt'] != 'lemma/pos':
                kw['tokenFormat'] = case['fmt']
            what = 'compute_token_weights(%r) of %r with %r' % (kw, PT, WT)
            if rng.random() < .05 and len(PT.cols) > 1:
                W2 = W.reorder(PT.cols[1:] + PT.cols[:1], axis=1)
                try:
                    mxcalc.compute_token_weights(P, W2, **kw)
                    obs.bad('weights-misaligned', '%s: columns in another order were accepted' % what)
                except ValueError:
                    obs.n('refused')
            TW = mxcalc.compute_token_weights(P, W, **kw)
            got = mx.view(TW)
            obs.check(got.rows == PT.rows and got.cols == PT.cols, 'weights-labels', lambda: '%s has labels %r x %r' % (what, got.rows, got.cols))
            for t in PT.rows:
                obs.n('files_in_subfolders', int(own[t].count('/') + 2 < t.count('/')))
                typ = own[t]
                obs.n('missing_types', int(typ not in WT.rows))
                for c in PT.cols:
                    p = PT.get(t, c)
                    e = (1 if case['bool'] else p) * WT.get(typ, c) if p else 0
                    obs.n('weight_cells')
                    obs.check(mx.same_num(got.get(t, c), e, 1e-9), 'weights-value', lambda: '%s: (%r, %r) is %r instead of %r' % (what, t, c, got.get(t, c), e))
            if rng.random() < .3:
                # the older function of the tutorials, by label whatever the columns
                from nephosem.models.typetoken import build_tc_weight_matrix
                W2 = W
                if rng.random() < .7:
                    sel = [c for c in PT.cols if rng.random() < .8] or list(PT.cols)
                    rng.shuffle(sel)
                    W2 = W.submatrix(col=sel)
                W2T = mx.view(W2)
                what = 'build_tc_weight_matrix of %r with %r' % (PT, W2T)
                try:
                    got = mx.view(build_tc_weight_matrix(P, W2))
                except ValueError:
                    if any(k[1] in W2T.cols and own[k[0]] in W2T.rows and W2T.get(own[k[0]], k[1]) for k in PT.cells):
                        raise
                    got = mx.Tab(PT.rows, PT.cols, {}, True)      # nothing to weight is refused with a ValueError
                obs.check(got.rows == PT.rows and got.cols == PT.cols, 'old-weights-labels', lambda: '%s has labels %r x %r' % (what, got.rows, got.cols))
                for t in PT.rows:
                    typ = own[t]
                    for c in PT.cols:
                        e = W2T.get(typ, c) if PT.get(t, c) and typ in W2T.rows and c in W2T.cols else 0
                        obs.n('old_weight_cells')
                        obs.check(mx.same_num(got.get(t, c), e, 1e-9), 'old-weights-value', lambda: '%s: (%r, %r) is %r instead of %r' % (what, t, c, got.get(t, c), e))
                obs.check(not mx.diff(W2T, mx.view(W2)), 'changed-input', what)
        if case['do'] in ('vectors', 'both'):
            if TW is None:
                L, LT = None, None
                m = dict(case['pos'], dtype='pos', cells={k: abs(v) * 0.5 for k, v in case['pos']['cells'].items()})
                L, LT = mx.build(m), mx.model(m)
            else:
                obs.n('pipeline')
                L, LT = TW, mx.view(TW)
            vectors(case, obs, rng, mxcalc, L, LT, S, ST)
    except Exception as e:
        obs.bad('raised', '%s raised %r' % (what, e))
        return
    for X, XT, n in ((P, PT, 'positions'), (W, WT, 'type weights'), (S, ST, 'second order')):
        d = mx.diff(XT, mx.view(X))
        obs.check(not d, 'changed-input', lambda: '%s changed the %s matrix: %s' % (what, n, d))
    obs.see(what, case['oper'], case['norm'], LT if case['do'] != 'weights' else '')


def vectors(case, obs, rng, mxcalc, L, LT, S, ST):
    op, norm = case['oper'], case['norm']
    kw = {'operation': op} if op != 'addition' or rng.random() < .5 else {}
    if norm is not None:
        kw['normalization'] = norm
    what = 'compute_token_vectors(%r) of %r with %r' % (kw, LT, ST)
    if op == 'weightedmean':
        for t in LT.rows:
            ws = [LT.get(t, c) for c in LT.cols]
            if any(ws) and abs(sum(ws)) < 1e-3 * sum(map(abs, ws)):
                return
    obs.n('op_' + op)
    obs.n('permuted', int(LT.cols != ST.rows))
    if rng.random() < .05 and len(ST.rows) > 1:
        try:
            mxcalc.compute_token_vectors(L, S.submatrix(row=ST.rows[1:]), **kw)
            obs.bad('vectors-inconsistent', '%s: different context sets were accepted' % what)
        except ValueError:
            obs.n('refused')
    try:
        V = mxcalc.compute_token_vectors(L, S, **kw)
        got = mx.view(V)
    except Exception as e:
        obs.bad('vectors-raised', '%s raised %r' % (what, e))
        return
    obs.check(got.rows == LT.rows and got.cols == ST.cols, 'vectors-labels', lambda: '%s has labels %r x %r' % (what, got.rows, got.cols))
    for t in LT.rows:
        row = []
        for f in ST.cols:
            pairs = [(float(LT.get(t, c)), float(ST.get(c, f))) for c in LT.cols]
            if op == 'addition':
                v = math.fsum(a * b for a, b in pairs)
            elif op == 'weightedmean':
                w = math.fsum(a for a, _ in pairs)
                v = math.fsum(a * b for a, b in pairs) / w if w else 0.0
            else:
                v = 1.0
                for a, b in pairs:
                    if a != 0 and b != 0:
                        v *= a * b
            row.append(v)
        scale = 1.0
        mags = [abs(float(LT.get(t, c)) * float(ST.get(c, f))) for c in LT.cols for f in ST.cols]
        raw = max(mags + [1e-30])
        if norm != 'no':
            nm = {'l2': lambda x: math.sqrt(math.fsum(v * v for v in x)), 'max': lambda x: max(abs(v) for v in x)}.get(norm, lambda x: math.fsum(abs(v) for v in x))(row)
            if nm and op != 'multiplication' and nm < 1e-9 * raw:
                continue        # cancellation: the direction of the vector is not determined
            scale = nm or 1.0
        for f, v in zip(ST.cols, row):
            e, g = v / scale, float(got.get(t, f))
            obs.n('vector_cells')
            tol = 1e-6 * max(abs(e), 1.0) if norm != 'no' else 1e-9 * max(abs(e), raw, 1.0)
            obs.check(abs(e - g) <= tol, 'vectors-value', lambda: '%s: (%r, %r) is %r instead of %r' % (what, t, f, g, e))
    obs.check(not mx.diff(LT, mx.view(L)), 'vectors-changed-input', what)
