"""P30: concept-level token vectors and per-type token-context matrices equal their definition."""
import math
import os
import random

from nephmon import corpus, mx, pipeline
from nephmon.checks.p15 import define
from nephmon.core import isolate

N = {'quick': 400, 'thorough': 7000}
RULE = ('random corpora; concepts of one or more variants (a variant in several concepts, any order) through TokenVectorizer.retrieve_tokens and generate_vectors with '
        'random cut-offs, and TypeToken.make_token_colloc / transform_nodes_to_matrix over the retrieved type nodes with spans smaller and larger than those of the '
        'retrieval and with and without a context vocabulary; every token, label and value compared with a definition-level model of the corpus text; non-trivial: a '
        'token vector or a token-context matrix was compared')
REQUIRED = {'calls': 250, 'concepts': 250, 'tokens': 1500, 'vector_cells': 3000, 'position_cells': 3000, 'node_cells': 1500, 'vocab_filtered': 60, 'smaller_spans': 60}
ASSUMPTIONS = ['types are lemma/pos (what generate_vectors assumes); values within 1e-4 of a cut-off are not judged; the concept has at least one context left after the cut-offs, and the tokens at least one context',
               'a context that occurs several times with one token has one of its positions']
TECHNIQUE = 'runtime monitoring: reference model of the documented steps, computed from the corpus text'


def gen(rng, idx, tier):
    return {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 2, 3]), 'workers': rng.choice([1, 2]), 'how': rng.choice(['none', 'list', 'fnames']),
            'vocab': rng.choice([4, 6, 8]), 'max_lines': rng.choice([30, 60, 90]), 'sseed': rng.randrange(1 << 40),
            'over': {'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid', 'left-span': rng.choice([1, 2, 3]), 'right-span': rng.choice([1, 2, 3])},
            'fcut': rng.choice([0, 0, 0, 1, 2]), 'pcut': rng.choice([0.0, 0.0, 0.2]), 'lcut': rng.choice([0.0, 0.0, 0.5])}


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)
    try:
        work(case, obs, base, root, settings, paths)
    finally:
        pipeline.clean(base)


def work(case, obs, base, root, settings, paths):
    rng = random.Random(case['sseed'])
    arg, sel = pipeline.select(case, base, root, settings, paths, rng)
    m = corpus.Model(settings)
    freq = m.freq(sel)
    vocab = sorted(t for t in freq if len(t.split('/')) == 2)
    full = m.cooc(sel, set(vocab), set(vocab)) if len(vocab) > 2 else {}
    if not full:
        obs.n('small_corpora')
        return
    concepts = {}
    for i in range(rng.choice([1, 1, 2, 3])):
        concepts['c%d' % i] = rng.sample(vocab, rng.randint(1, min(3, len(vocab))))
    exp = m.tokens(sel, sorted({v for vs in concepts.values() for v in vs}))
    if not any(t[3] or t[4] for toks in exp.values() for t in toks):
        obs.n('no_contexts')      # a matrix of tokens without any context cannot be made: the library refuses it
        return
    expect, judged = {}, {}
    for c, variants in concepts.items():
        expect[c] = vectors(case, variants, exp, full, vocab)
    if any(e is None for e in expect.values()):
        expect = None       # a concept without vectors (or with a value at a cut-off): tokens only
        obs.n('no_vectors')
    lspan, rspan = rng.choice([0, 1, 2, 5]), rng.choice([0, 1, 2, 5])
    cvoc = sorted(rng.sample(vocab, rng.randint(1, len(vocab)))) if rng.random() < .4 else None
    wanted = {}
    for t, toks in exp.items():
        cells = {}
        for tok, _, _, left, right in toks:
            for i, (x, _) in enumerate(reversed(left)):
                if i < lspan and (cvoc is None or x in cvoc):
                    cells.setdefault((tok, x), set()).add(-i - 1)
            for i, (x, _) in enumerate(right):
                if i < rspan and (cvoc is None or x in cvoc):
                    cells.setdefault((tok, x), set()).add(i + 1)
        if cells:
            wanted[t] = cells
    if cvoc is not None:
        obs.n('vocab_filtered')
    if lspan < settings['left-span'] or rspan < settings['right-span']:
        obs.n('smaller_spans')

    def call():
        from nephosem import ColFreqHandler, TokenHandler, Vocab
        from nephosem.models.typetoken import TokenVectorizer, TypeToken
        from nephosem.specutils.mxutils import transform_nodes_to_matrix
        out = {}
        given = {c: list(v) for c, v in concepts.items()}
        V = TokenVectorizer(given, settings=settings)
        got = V.retrieve_tokens(fnames=arg)
        out['given'] = given == concepts
        nodes = {}
        out['concepts'] = {}
        for c, tps in got.items():
            out['concepts'][c] = [(str(t), [(str(x), x.fid, x.lid, tuple((y.to_colloc(), y.lid) for y in x.lcollocs), tuple((y.to_colloc(), y.lid) for y in x.rcollocs))
                                            for x in t.tokens]) for t in tps]
            for t in tps:
                nodes[str(t)] = t
        if expect is not None:
            F = ColFreqHandler(settings=settings, workers=case['workers'], row_vocab=Vocab({v: 1 for v in vocab}), col_vocab=Vocab({v: 1 for v in vocab})).build_col_freq(fnames=arg)
            before = mx.view(F)
            vec = V.generate_vectors(F, freq_cutoff=case['fcut'], ppmi_cutoff=case['pcut'], llr_cutoff=case['lcut'])
            out['vectors'] = {c: mx.view(M) for c, M in vec.items()}
            out['same'] = not mx.diff(before, mx.view(F))
        T = TypeToken(settings={'file-encoding': 'utf-8', **settings, 'left-span': lspan, 'right-span': rspan, 'output-encoding': 'utf-8'})
        sub = {t: nodes[t] for t in wanted}
        out['colloc'] = {t: mx.view(M) for t, M in T.make_token_colloc(type_nodes=sub, colloc_vocab=Vocab({v: 1 for v in cvoc}) if cvoc else None).items()} if sub else {}
        if wanted:
            ls = list(nodes.values())
            a, b = transform_nodes_to_matrix(ls), transform_nodes_to_matrix(dict(nodes))
            out['list'] = (mx.view(a), mx.view(b))
        return out

    st, got = isolate(call)
    if not pipeline.outcome(obs, st, got, 'concepts'):
        return
    obs.check(got['given'], 'concepts-changed', 'the concepts passed by the user were changed')
    obs.check(list(got['concepts']) == list(concepts), 'concept-names', lambda: 'concepts %r instead of %r' % (list(got['concepts']), list(concepts)))
    nodes_of = set(v for vs in concepts.values() for v in vs)
    for c, variants in concepts.items():
        obs.n('concepts')
        g = got['concepts'].get(c, [])
        if not obs.check([t for t, _ in g] == variants, 'variants', lambda: 'concept %s has the types %r instead of %r' % (c, [t for t, _ in g], variants)):
            return
        for t, toks in g:
            e = sorted((tok, fid, str(lid), left, right) for tok, fid, lid, left, right in [(a, b, l, tuple((x, str(y)) for x, y in le), tuple((x, str(y)) for x, y in ri)) for a, b, l, le, ri in exp[t]])
            h = sorted((tok, fid, str(lid), tuple((x, str(y)) for x, y in left), tuple((x, str(y)) for x, y in right)) for tok, fid, lid, left, right in toks)
            obs.n('tokens', len(e))
            if not obs.check(h == e, 'tokens', lambda: 'tokens of %s: missing %r, too many %r' % (t, [x for x in e if x not in h][:2], [x for x in h if x not in e][:2])):
                return
    for t, cells in wanted.items():
        g = got['colloc'].get(t)
        cols = cvoc if cvoc is not None else sorted({k[1] for k in cells})
        if not obs.check(g is not None and sorted(g.rows) == sorted({k[0] for k in cells}) and sorted(g.cols) == cols, 'position-labels',
                         lambda: 'token-context matrix of %s: %r' % (t, g and (g.rows, g.cols))):
            return
        bad = [(k, g.get(*k), cells.get(k)) for k in set(cells) | {k for k, x in g.cells.items() if x} if g.get(*k) not in cells.get(k, ())]
        obs.check(not bad, 'positions', lambda: 'positions (cell, got, allowed): %r' % bad[:3])
        obs.n('position_cells', len(cells))
        obs.nontrivial = True
    if 'list' in got:
        every = {}
        for t in nodes_of:
            for tok, _, _, left, right in exp[t]:
                every.setdefault(tok, {})
                for i, (x, _) in enumerate(reversed(left)):
                    every[tok].setdefault(x, set()).add(-i - 1)
                for i, (x, _) in enumerate(right):
                    every[tok].setdefault(x, set()).add(i + 1)
        g = got['list'][0]
        obs.check(sorted(g.rows) == sorted(every) and sorted(g.cols) == sorted(set().union(*every.values())), 'node-matrix-labels', lambda: 'matrix of the nodes: %r' % ((g.rows, g.cols),))
        bad = [(r, c, g.get(r, c), every[r].get(c)) for r in every for c in g.cols if r in g.rows and (g.get(r, c) not in every[r][c] if c in every[r] else g.get(r, c))]
        obs.check(not bad, 'node-matrix-positions', lambda: 'positions (row, column, got, allowed): %r' % bad[:3])
        obs.n('node_cells', sum(map(len, every.values())))
        obs.check(not mx.diff(*got['list']), 'list-of-nodes', 'a list of type nodes and a dict of them give different matrices')
    if expect is None:
        obs.see(sorted(full.items()), sorted(concepts.items()))
        return
    obs.check(got['same'], 'full-changed', 'the frequency matrix changed')
    obs.check(sorted(got['vectors']) == sorted(concepts), 'vector-concepts', lambda: 'vectors of the concepts %r' % sorted(got['vectors']))
    for c, (toks, vec) in expect.items():
        g = got['vectors'][c]
        if not obs.check(sorted(g.rows) == toks and sorted(g.cols) == vocab, 'vector-labels', lambda: 'vectors of %s: %r x %r instead of %r x %r' % (c, g.rows[:5], g.cols[:5], toks[:5], vocab[:5])):
            return
        bad = [(k, g.get(*k), x) for k, x in vec.items() if abs(g.get(*k) - x) > 1e-4 * max(1, abs(x))]
        obs.check(not bad, 'vector-values', lambda: 'vectors of concept %s %r (cut-offs %r): (cell, got, defined) %r' % (c, concepts[c], (case['fcut'], case['pcut'], case['lcut']), bad[:3]))
        obs.n('vector_cells', len(vec))
    obs.nontrivial = True
    obs.see(sorted(full.items()), sorted(concepts.items()), case['fcut'], case['pcut'], case['lcut'])


def vectors(case, variants, exp, full, vocab):
    """(tokens, {(token, type): value}) of one concept, or None where it has no vectors or a value lies at a cut-off"""
    R, C = {t: 0 for t in vocab}, {t: 0 for t in vocab}
    for (a, b), x in full.items():
        R[a] += x
        C[b] += x
    n = sum(R.values())
    ppmi = {k: define('ppmi', x, R[k[0]], C[k[1]], n) for k, x in full.items()}
    if any(abs(define('pmi', x, R[a], C[b], n)) < 1e-5 for (a, b), x in full.items()):
        return None
    w = {}
    for (a, b), x in full.items():
        if a in variants and x > case['fcut']:
            if C[b] == n:
                return None
            lik = define('lik', x, R[a], C[b], n)
            if abs(ppmi[a, b] - case['pcut']) < 1e-4 and case['pcut'] or abs(lik - case['lcut']) < 1e-4:
                return None
            if ppmi[a, b] > case['pcut'] and lik > case['lcut']:
                w[a, b] = ppmi[a, b]
    pairs = set()
    for t in variants:
        for tok, _, _, left, right in exp[t]:
            pairs |= {(t, tok, x) for x, _ in left + right}
    inter = sorted({b for _, b in w} & {x for _, _, x in pairs})
    tw = {(tok, x): w[t, x] for t, tok, x in pairs if x in inter and (t, x) in w}
    if not inter or not tw:
        return None
    toks = sorted({k[0] for k in tw})
    vec = {}
    for tok in toks:
        row = [math.fsum(tw.get((tok, x), 0) * ppmi.get((x, f), 0) for x in inter) for f in vocab]
        s = math.fsum(map(abs, row)) or 1.0
        for f, v in zip(vocab, row):
            vec[tok, f] = v / s
    return toks, vec
