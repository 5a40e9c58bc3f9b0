"""P02: co-occurrence matrix against an O(n^2) pair counter."""
import random

from nephmon import corpus, pipeline
from nephmon.core import isolate

N = {'quick': 1000, 'thorough': 16000}
RULE = ('random corpora with segments shorter/equal/longer than the spans, spans 0..10 on both sides, row/column '
        'vocabularies (subset, superset, none for columns), with and without a corpus directory in the settings when the files are given; non-trivial: at least five non-zero cells')
REQUIRED = {'left_right_boundaries': 20, 'no_corpus_path': 20, 'cells_compared': 2000, 'pairs_counted': 5000, 'short_segments': 50, 'repeated_calls': 30, 'large_vocabularies': 3, 'small_chunks': 50}
ASSUMPTIONS = ['with no co-occurrence at all the handler may return no matrix (None) or an all-zero one',
               'without a row vocabulary nothing is counted (documented), so one is always given']


def gen(rng, idx, tier):
    c = {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 1, 2, 3, 5, 9]),
         'workers': rng.choice([0, 1, 2, 3, 7]), 'how': rng.choice(['none', 'list', 'list', 'fnames']),
         'keep': rng.choice([1.0, 0.7]), 'vocab': rng.choice([1, 2, 4, 8]), 'sseed': rng.randrange(1 << 40),
         'rows': rng.choice(['all', 'all', 'some', 'some+unseen', 'one']),
         'cols': rng.choice(['none', 'none', 'all', 'some', 'some+unseen', 'one']),
         'via': rng.choice(['init', 'call']), 'max_lines': rng.choice([6, 20, 60]),
         'tmp': rng.choice(['set', 'set', 'set', 'unset']), 'out': rng.choice(['set', 'set', 'unset']),
         'again': rng.choice([0, 0, 1, 2]), 'large': rng.choice([600, 1500]) if idx % 60 == 5 else 0,
         'chunk': rng.choice([0, 0, 1, 5, 20]), 'nopath': rng.random() < .15}
    return c


def pick(rng, how, items):
    items = sorted(items)
    if how == 'none':
        return None
    if how == 'all':
        v = list(items)
    elif how == 'one':
        v = rng.sample(items, min(1, len(items)))
    else:
        v = rng.sample(items, (len(items) + 1) // 2) if items else []
        if how == 'some+unseen':
            v += ['zzz/unseen', '0unseen']
    rng.shuffle(v)
    return v


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)
    try:
        rng = random.Random(case['sseed'])
        rounds = pipeline.rounds(case, base, root, settings, paths, rng)
        obs.n('no_corpus_path', 'corpus-path' not in settings)
        obs.n('left_right_boundaries', settings['boundary-detection-mechanism'] == 'left-right')
        m = corpus.Model(settings)
        types = set(m.freq(paths))
        collocs = {it.fmt(m.colloc_fmt) for p in paths for s in m.segments(p) for it in s}
        rows = pick(rng, case['rows'], types)
        cols = pick(rng, case['cols'], collocs)
        if not rows:
            rows = ['zzz/unseen']

        def call():
            from nephosem import ColFreqHandler, Vocab
            rv = Vocab({r: rng.randrange(0, 9) for r in rows})
            cv = Vocab({c: rng.randrange(0, 9) for c in cols}) if cols is not None else None
            if case['via'] == 'init':
                h = ColFreqHandler(settings, workers=case['workers'], row_vocab=rv, col_vocab=cv)
                h.chunksize = case['chunk'] or h.chunksize
                rs = [h.build_col_freq(fnames=arg) for arg, _ in rounds]
            else:
                h = ColFreqHandler(settings, workers=case['workers'])
                h.chunksize = case['chunk'] or h.chunksize
                rs = [h.build_col_freq(fnames=arg, row_vocab=rv, col_vocab=cv) for arg, _ in rounds]
            return [None if r is None else pipeline.cells(r) for r in rs]

        st, val = isolate(call)
        if not pipeline.outcome(obs, st, val, 'build_col_freq'):
            return
        for i, ((_, sel), r) in enumerate(zip(rounds, val)):
            for p in sel:
                for s in m.segments(p):
                    obs.n('segments')
                    if len(s) <= max(m.L, m.R):
                        obs.n('short_segments')
            exp = m.cooc(sel, set(rows), set(cols) if cols else None)
            obs.n('repeated_calls', int(i > 0))
            obs.n('pairs_counted', sum(exp.values()))
            if r is None:
                obs.check(not exp, 'no-matrix', 'no matrix returned although %d cells co-occur' % len(exp))
                obs.n('empty_results')
                continue
            grows, gcols, got = r
            obs.n('cells_compared', len(set(exp) | set(got)))
            obs.n('large_vocabularies', len(exp) > 2000)
            obs.n('small_chunks', bool(case['chunk']) and len(exp) > case['chunk'])
            if not obs.check(got == exp, 'counts-differ', lambda: 'call %d: L=%s R=%s counts differ: %s'
                             % (i + 1, m.L, m.R, pipeline.diff(exp, got))):
                return
            obs.check(len(set(grows)) == len(grows) and len(set(gcols)) == len(gcols), 'duplicate-labels', 'duplicate labels')
            obs.check(set(grows) == set(rows), 'row-labels', 'rows %r, expected %r' % (sorted(grows), sorted(rows)))
            expc = set(cols) if cols else {c for _, c in exp}
            obs.check(set(gcols) == expc, 'col-labels', 'columns %r, expected %r' % (sorted(gcols), sorted(expc)))
            obs.nontrivial = obs.nontrivial or len(exp) >= 5
            obs.see(sorted(exp.items()), case['workers'], m.L, m.R)
    finally:
        pipeline.clean(base)
