"""P03: token retrieval against an independent enumeration of occurrences."""
import random
from collections import Counter

from nephmon import corpus, pipeline
from nephmon.checks.p02 import pick
from nephmon.core import isolate

N = {'quick': 1000, 'thorough': 16000}
RULE = ('random corpora, query sets, spans 0..10, column vocabularies, token/colloc formats, any number of files per worker; '
        'non-trivial: at least three tokens with contexts')
REQUIRED = {'left_right_boundaries': 20, 'no_corpus_path': 20, 'tokens_compared': 2000, 'contexts_compared': 4000, 'matrix_cells': 2000, 'repeated_calls': 30}
ASSUMPTIONS = ['query components contain no "/" (the component connector)',
               'a context occurring several times around one token has one column: any of its positions is accepted, '
               'the position counted over the collocates kept by the column vocabulary',
               'two files of one corpus have different relative paths without extension']


def gen(rng, idx, tier):
    return {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 1, 2, 3, 5, 9, 16]),
            'workers': rng.choice([0, 1, 2, 3, 7]), 'how': rng.choice(['none', 'list', 'list', 'fnames']),
            'keep': rng.choice([1.0, 0.7]), 'vocab': rng.choice([1, 2, 4, 8]), 'sseed': rng.randrange(1 << 40),
            'queries': rng.choice(['all', 'all', 'some', 'some', 'one']),
            'cols': rng.choice(['none', 'none', 'all', 'some', 'one']),
            'q': rng.choice(['vocab', 'dict']), 'max_lines': rng.choice([6, 20, 60]),
            'again': rng.choice([0, 0, 1, 2]), 'nopath': rng.random() < .15}


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)
    try:
        rng = random.Random(case['sseed'])
        rounds = pipeline.rounds(case, base, root, settings, paths, rng)
        obs.n('no_corpus_path', 'corpus-path' not in settings)
        obs.n('left_right_boundaries', settings['boundary-detection-mechanism'] == 'left-right')
        m = corpus.Model(settings)
        nfmt = len(m.type_fmt.split('/'))
        types = {t for t in m.freq(paths) if len(t.split('/')) == nfmt}
        collocs = {it.fmt(m.colloc_fmt) for p in paths for s in m.segments(p) for it in s}
        queries = pick(rng, case['queries'], types) or ['/'.join(['zz'] * nfmt)]
        if rng.random() < 0.3:
            queries.append('/'.join(['zz9'] * nfmt))
        cols = pick(rng, case['cols'], collocs) or None

        def call():
            from nephosem import TokenHandler, Vocab
            q = {x: 3 for x in queries}
            q = Vocab(q) if case['q'] == 'vocab' else q
            h = TokenHandler(q, settings=settings, workers=case['workers'],
                             col_vocab=Vocab({c: 1 for c in cols}) if cols else None)
            return [once(h, arg) for arg, _ in rounds]

        def once(h, arg):
            err, mt = None, None
            try:
                mt = h.retrieve_tokens(fnames=arg)
            except ValueError as e:
                err = str(e)
            toks = {}
            for t, node in h.type2toks.items():
                toks[t] = [(str(k), k.fid, k.lid,
                            tuple((c.to_colloc(), int(c.lid)) for c in k.lcollocs),
                            tuple((c.to_colloc(), int(c.lid)) for c in k.rcollocs)) for k in node.tokens]
                assert str(node) == t
            return err, toks, None if mt is None else pipeline.cells(mt)

        st, val = isolate(call)
        if not pipeline.outcome(obs, st, val, 'retrieve_tokens'):
            return
        for i, ((_, sel), (err, toks, mt)) in enumerate(zip(rounds, val)):
            obs.n('repeated_calls', int(i > 0))
            exp = m.tokens(sel, queries, set(cols) if cols else None)
            n_ctx = sum(len(t[3]) + len(t[4]) for ts in exp.values() for t in ts)
            if err is not None:
                obs.n('empty_results')
                if not obs.check(n_ctx == 0, 'retrieve-raises', 'raised %r although %d contexts exist' % (err, n_ctx)):
                    return
            ntok = 0
            for q in queries:
                e = Counter((t[0], t[1], str(t[2]), t[3], t[4]) for t in exp[q])
                g = Counter((t[0], t[1], str(t[2]), t[3], t[4]) for t in toks.get(q, []))
                ntok += sum(e.values())
                obs.n('tokens_compared', sum(e.values()))
                lost = e - g
                extra = g - e
                obs.check(not lost and not extra, 'tokens-differ',
                          lambda: 'query %r: %d lost, %d unexpected; lost e.g. %r; unexpected e.g. %r'
                          % (q, sum(lost.values()), sum(extra.values()), list(lost)[:2], list(extra)[:2]))
            obs.check(set(toks) <= set(queries), 'unasked-types', 'types never asked for: %r' % (set(toks) - set(queries)))
            obs.n('contexts_compared', n_ctx)
            if mt is not None:
                rows, colsg, got = mt
                expm, conts = {}, set()
                etoks = []
                for q in queries:
                    for tok, fid, lid, left, right in exp[q]:
                        etoks.append(tok)
                        pos = {}
                        for i, (c, _) in enumerate(left):
                            pos.setdefault(c, set()).add(i - len(left))
                        for i, (c, _) in enumerate(right):
                            pos.setdefault(c, set()).add(i + 1)
                        for c, ps in pos.items():
                            expm[tok, c] = ps
                            conts.add(c)
                obs.n('matrix_cells', len(expm))
                obs.check(Counter(rows) == Counter(etoks), 'matrix-rows', 'token rows differ: %r vs %r' % (
                    sorted((Counter(rows) - Counter(etoks)).items())[:3], sorted((Counter(etoks) - Counter(rows)).items())[:3]))
                obs.check(set(colsg) == conts and len(colsg) == len(conts), 'matrix-cols', 'context columns differ')
                bad = [(k, got.get(k), expm.get(k)) for k in set(got) | set(expm)
                       if k not in expm or got.get(k) not in expm[k]]
                obs.check(not bad, 'matrix-cells', lambda: 'cells (token, context): got, allowed: %r' % bad[:4])
            obs.nontrivial = obs.nontrivial or ntok >= 3 and n_ctx > 0
            obs.see(sorted((t[0], t[3], t[4]) for v in exp.values() for t in v), case['workers'])
    finally:
        pipeline.clean(base)
