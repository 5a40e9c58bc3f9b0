"""P26: the whole workflow, from corpus files to type distances and token vectors, equals its definition."""
import math
import os
import random

from nephmon import corpus, mx, pipeline
from nephmon.checks.p15 import define, degenerate
from nephmon.core import isolate

N = {'quick': 420, 'thorough': 7000}
RULE = ('random corpora through the documented workflow: frequency list -> vocabulary cut-off -> co-occurrence matrix -> frequency cut-off mask -> selection -> '
        'association with the marginals of the full matrix -> association cut-off -> distances and ranks; tokens -> contexts shared with the type matrix -> '
        'token weights -> second-order vectors -> distances; with saves and loads in between and the TypeVectorizer class; every stage compared by label with a '
        'definition-level model computed from the corpus text alone; non-trivial: a token vector was compared')
REQUIRED = {'calls': 300, 'type_cells': 8000, 'vector_cells': 8000, 'distances': 4000, 'persisted': 300, 'vectorizer': 50, 'learned_vocabularies': 60, 'tokens': 1500}
ASSUMPTIONS = ['components hold no slash (it separates them)', 'tables without a defined measure and cut-offs within 1e-4 of a value are not judged',
               'the single precision of the association values is allowed for (1e-4 in vectors and distances)']
TECHNIQUE = 'runtime monitoring: stage-by-stage reference model of the complete pipeline, computed from the corpus text'


def gen(rng, idx, tier):
    lem = rng.random() < .3
    t = 'lemma' if lem else 'lemma/pos'
    return {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 2, 3, 5]), 'workers': rng.choice([1, 2, 3]),
            'how': rng.choice(['none', 'list', 'fnames']), 'vocab': rng.choice([3, 5, 8, 10]), 'sseed': rng.randrange(1 << 40), 'max_lines': rng.choice([20, 60, 90]),
            'over': {'type': t, 'colloc': t, 'token': t + '/fid/lid', 'left-span': rng.choice([1, 2, 3, 5]), 'right-span': rng.choice([0, 1, 2, 3, 5])},
            'meas': rng.choice(['ppmi', 'ppmi', 'pmi', 'lik', 'dice', 'zscore']), 'vcut': rng.choice([0, 0, 1, 2]), 'fcut': rng.choice([0, 0, 1, 2]),
            'acut': rng.choice([None, None, 0.15, 0.5]), 'oper': rng.choice(['addition', 'addition', 'weightedmean', 'multiplication']),
            'norm': rng.choice(['l1', 'no', 'no', 'l2']), 'save': rng.random() < .6, 'vectorizer': rng.random() < .3}


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)
    try:
        work(case, obs, base, root, settings, paths)
    finally:
        pipeline.clean(base)


def work(case, obs, base, root, settings, paths):
    rng = random.Random(case['sseed'])
    arg, sel = pipeline.select(case, base, root, settings, paths, rng)
    m = corpus.Model(settings)
    nfmt = 2 if '/' in m.type_fmt else 1
    freq = m.freq(sel)
    ok = [t for t in freq if len(t.split('/')) == nfmt]
    vocab = sorted(t for t in ok if freq[t] > case['vcut'])
    if len(vocab) < 2:
        obs.n('small_corpora')
        return
    full = m.cooc(sel, set(vocab), set(vocab))
    if not full:
        obs.n('small_corpora')
        return
    targets = sorted(rng.sample(vocab, rng.randint(1, min(4, len(vocab)))))
    rng.shuffle(targets)
    tmp = os.path.join(base, 'saved')
    os.makedirs(tmp)
    sseed = rng.random()
    learn = [([p], [p]) for p in rng.sample(paths, rng.choice([0, 1, 1])) if m.freq([p])] + [(arg, sel)]

    def call():
        from nephosem import ColFreqHandler, ItemFreqHandler, TokenHandler, TypeTokenMatrix, Vocab
        from nephosem.models.typetoken import TypeVectorizer
        from nephosem.specutils import mxcalc
        r = random.Random(sseed)
        out, ncnt = {}, [0]

        def keep(name, M):
            """maybe a round trip over the disk, then record"""
            if case['save'] and r.random() < .4:
                fn = os.path.join(tmp, name + '.pac')
                if isinstance(M, Vocab):
                    M.save(fn, verbose=False)
                    M = Vocab.load(fn)
                else:
                    pack = r.random() < .6
                    M.save(fn, pack=pack, verbose=False)
                    M = TypeTokenMatrix.load(fn, pack=pack)
                ncnt[0] += 1
            out[name] = dict(M.get_dict()) if isinstance(M, Vocab) else mx.view(M)
            return M
        v = keep('freq', ItemFreqHandler(settings=settings, workers=case['workers']).build_item_freq(fnames=arg))
        if case['vcut']:
            v = v[v.freq > case['vcut']]
        if len(v) != len(vocab):
            v = v.subvocab(vocab)       # items whose components hold slashes are left out
        v = keep('vocab', v)
        if case['vectorizer']:
            V = TypeVectorizer(settings, row_vocab=v)
            F = V.fit(fnames=arg)
            out['vectorized'] = mx.view(V.vectorize('dice'))
            V2 = TypeVectorizer(settings)           # learns the vocabulary from the files of each fit
            for i, (a, _) in enumerate(learn):
                F2 = V2.fit(fnames=a)
                out['learned%d' % i] = None if F2 is None else mx.view(F2)
        else:
            F = ColFreqHandler(settings=settings, workers=case['workers'], row_vocab=v, col_vocab=v).build_col_freq(fnames=arg)
        F = keep('full', F)
        S = F.submatrix(row=targets)
        if case['fcut']:
            S = S.multiply(F.submatrix(row=targets) > case['fcut'])
        S = S.drop_empty(axis=1)
        if S is None:
            return out, ncnt[0]
        S = keep('selected', S)
        nv, cv = Vocab(F.sum(axis=1)), Vocab(F.sum(axis=0))
        A = keep('assoc', mxcalc.compute_association(S, nfreq=nv, cfreq=cv, meas=case['meas']))
        # type level: distances between all the types
        P = keep('ppmi', mxcalc.compute_ppmi(F, nfreq=nv, cfreq=cv))
        if case['acut'] is not None:
            A = A.multiply(A > case['acut'])
            A = A.drop_empty(axis=1)
            if A is None:
                return out, ncnt[0]
        A = keep('cut', A)
        D = mxcalc.compute_distance(P)
        out['dist'] = mx.view(D)
        # token level
        q = v.subvocab(targets)
        T = keep('tokens', TokenHandler(q, settings=settings, workers=case['workers']).retrieve_tokens(fnames=arg))
        inter = sorted(set(T.col_items) & set(A.col_items))
        r.shuffle(inter)
        if not inter:
            return out, ncnt[0]
        T2, A2 = T.submatrix(col=inter), A.submatrix(col=inter)
        tf = 'lemma/pos' if nfmt == 2 else 'lemma'
        W = keep('weights', mxcalc.compute_token_weights(T2, A2, tokenFormat=tf))
        if not W.matrix.count_nonzero():
            return out, ncnt[0]
        W = W.drop_empty(axis=0)
        C = F.submatrix(row=sorted(inter))
        B = keep('second', mxcalc.compute_association(C, nfreq=nv, cfreq=cv, meas='ppmi'))
        V = keep('vectors', mxcalc.compute_token_vectors(W, B, operation=case['oper'], normalization=case['norm']))
        out['vdist'] = mx.view(mxcalc.compute_distance(V, metric='euclidean'))
        out['again'] = mx.view(F)
        return out, ncnt[0]

    st, val = isolate(call)
    if not pipeline.outcome(obs, st, val, 'workflow'):
        return
    got, saved = val
    obs.n('persisted', saved)
    obs.n('vectorizer', int(case['vectorizer']))

    def same(name, rows, cols, cells, tol=0.0, judged=None):
        """labels as sets (nothing asks for an order) and every cell"""
        g = got[name]
        if not obs.check(sorted(g.rows) == sorted(rows) and sorted(g.cols) == sorted(cols), name + '-labels', lambda: '%s has labels %r x %r instead of %r x %r'
                         % (name, sorted(g.rows)[:8], sorted(g.cols)[:8], sorted(rows)[:8], sorted(cols)[:8])):
            return False
        for k in set(cells) | set(g.cells):
            e = cells.get(k, 0)
            if e is None:
                continue
            if not obs.check(abs(float(g.get(*k)) - e) <= tol * max(1.0, abs(e)), name + '-values', lambda: '%s of %r: %r is %r instead of %r' % (name, case['over'], k, g.get(*k), e)):
                return False
        return True

    obs.check(got['freq'] == freq, 'freq', lambda: 'frequencies differ: %s' % pipeline.diff(freq, got['freq']))
    obs.check(got['vocab'] == {t: freq[t] for t in vocab}, 'vocab', lambda: 'cut-off vocabulary is %r' % got['vocab'])
    if not same('full', vocab, vocab, full):
        return
    for i, (_, files) in enumerate(learn if case['vectorizer'] else []):
        f2 = m.freq(files)
        c2 = m.cooc(files, set(f2), set(f2))
        obs.n('learned_vocabularies')
        if got['learned%d' % i] is None:
            obs.check(not c2, 'vectorizer-empty', 'no matrix although %d cells' % len(c2))
        elif not same('learned%d' % i, list(f2), list(f2), c2):
            return
    if 'again' in got:
        obs.check(not mx.diff(got['full'], got['again']), 'full-changed', 'the frequency matrix changed during the workflow')
    R, C = {t: 0 for t in vocab}, {t: 0 for t in vocab}
    for (a, b), x in full.items():
        R[a] += x
        C[b] += x
    n = sum(R.values())

    def table(meas, cells):
        return {(a, b): None if degenerate(meas, x, R[a], C[b], n) else define(meas, x, R[a], C[b], n) for (a, b), x in cells.items()}
    if case['vectorizer']:
        same('vectorized', vocab, vocab, table('dice', full), 1e-5)
    cells = {k: x for k, x in full.items() if k[0] in targets and x > case['fcut']}
    cols = sorted({k[1] for k in cells})
    if 'selected' not in got:
        obs.check(not cells, 'workflow-incomplete', 'cells above the cut-off: %r' % list(cells.items())[:3])
        return
    if not same('selected', targets, cols, cells):
        return
    obs.n('type_cells', len(full))
    assoc = table(case['meas'], cells)
    if any(x is None for x in assoc.values()) or not same('assoc', targets, cols, assoc, 1e-5):
        return
    ppmi = table('ppmi', full)
    if not same('ppmi', vocab, vocab, ppmi, 1e-5):
        return
    if case['acut'] is not None:
        if any(abs(x - case['acut']) < 1e-4 for x in assoc.values()):
            obs.n('cut_ties')
            return
        cut = {k: x for k, x in assoc.items() if x > case['acut']}
        ccols = sorted({k[1] for k in cut})
    else:
        cut, ccols = assoc, cols
    if 'cut' not in got:
        obs.check(not cut, 'workflow-incomplete', 'associations above the cut-off: %r' % list(cut.items())[:3])
        return
    if not same('cut', targets, ccols, cut, 1e-5):
        return
    # cosine distances of the types
    def dot(a, b, T, fs):
        return math.fsum(T.get((a, f), 0) * T.get((b, f), 0) for f in fs)
    dist = {}
    for a in vocab:
        for b in vocab:
            na, nb = dot(a, a, ppmi, vocab), dot(b, b, ppmi, vocab)
            tiny = min(na, nb) < 1e-6
            dist[a, b] = None if tiny else 1 - dot(a, b, ppmi, vocab) / math.sqrt(na * nb)
    obs.n('distances', len(dist))
    if not same('dist', vocab, vocab, dist, 1e-4):
        return
    # tokens and their contexts
    exp = m.tokens(sel, targets)
    allowed, toks, typ = {}, [], {}
    for t in targets:
        for tok, _, _, left, right in exp[t]:
            toks.append(tok)
            typ[tok] = t
            for i, (c, _) in enumerate(left):
                allowed.setdefault((tok, c), set()).add(i - len(left))
            for i, (c, _) in enumerate(right):
                allowed.setdefault((tok, c), set()).add(i + 1)
    g = got.get('tokens')
    if g is None:
        return
    obs.n('tokens', len(toks))
    ctx = sorted({c for _, c in allowed})
    obs.check(sorted(g.rows) == sorted(toks) and sorted(g.cols) == ctx, 'tokens-labels', lambda: 'tokens %r x %r instead of %r x %r' % (g.rows[:5], sorted(g.cols)[:5], toks[:5], ctx[:5]))
    bad = [(k, g.get(*k), allowed.get(k)) for k in set(allowed) | {k for k, x in g.cells.items() if x} if g.get(*k) not in allowed.get(k, ())]
    if not obs.check(not bad, 'tokens-values', lambda: 'token contexts (cell, got, allowed): %r' % bad[:3]):
        return
    inter = sorted(set(ctx) & set(ccols))
    # whether a value is zero decides what counts as a context: not judged where rounding decides
    pmi = table('pmi', full)
    if any(abs(x) < 1e-5 for x in pmi.values()) or case['meas'] != 'ppmi' and any(abs(x) < 1e-5 for x in cut.values()):
        obs.n('cut_ties')
        return
    if 'weights' not in got:
        obs.check(not inter, 'workflow-incomplete', 'contexts shared by tokens and types: %r' % inter)
        return
    w = {(tok, c): cut.get((typ[tok], c), 0) for tok, c in allowed if c in inter}
    w = {k: x for k, x in w.items() if x}
    if not same('weights', toks, inter, w, 1e-5):
        return
    if 'vectors' not in got:
        obs.check(not w, 'workflow-incomplete', 'token weights: %r' % list(w.items())[:3])
        return
    ftoks = sorted({k[0] for k in w})
    second = {k: x for k, x in ppmi.items() if k[0] in inter}
    if not same('second', inter, vocab, second, 1e-5):
        return
    vec = {}
    for tok in ftoks:
        ws = [(c, w.get((tok, c), 0)) for c in inter]
        tot = math.fsum(x for _, x in ws)
        if case['oper'] == 'weightedmean' and abs(tot) < 1e-2 * math.fsum(abs(x) for _, x in ws):
            return
        row = []
        for f in vocab:
            if case['oper'] == 'multiplication':
                p = 1.0
                for c, x in ws:
                    if x and second.get((c, f), 0):
                        p *= x * second[c, f]
                row.append(p)
            else:
                s = math.fsum(x * second.get((c, f), 0) for c, x in ws)
                row.append(s / tot if case['oper'] == 'weightedmean' and tot else s)
        norm = {'l1': math.fsum(map(abs, row)), 'l2': math.sqrt(math.fsum(x * x for x in row)), 'no': 1.0}[case['norm']] or 1.0
        mag = math.fsum(abs(x) * max([abs(second.get((c, f), 0)) for f in vocab] + [0]) for c, x in ws)
        if case['norm'] != 'no' and norm < 1e-2 * mag and case['oper'] != 'multiplication':
            return
        for f, x in zip(vocab, row):
            vec[tok, f] = x / norm
    if max([abs(x) for x in vec.values()] + [0]) > 1e6:
        return
    if not same('vectors', ftoks, vocab, vec, 1e-4):
        return
    obs.n('vector_cells', len(vec))
    big = max([abs(x) for x in vec.values()] + [1.0])
    vd = {(a, b): math.sqrt(math.fsum((vec[a, f] - vec[b, f]) ** 2 for f in vocab)) for a in ftoks[:12] for b in ftoks[:12]}
    gd = got['vdist']
    obs.check(sorted(gd.rows) == ftoks and sorted(gd.cols) == ftoks, 'vdist-labels', 'labels of the token distances')
    bad = [(k, gd.get(*k), x) for k, x in vd.items() if abs(gd.get(*k) - x) > 5e-3 * big]
    obs.check(not bad, 'vdist-values', lambda: 'token distances: %r' % bad[:3])
    obs.nontrivial = True
    obs.see(sorted(full.items()), targets, case['meas'], case['oper'], case['norm'], case['acut'])
