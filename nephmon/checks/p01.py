"""P01: item frequencies against an independent line counter."""
import random

from nephmon import corpus, pipeline
from nephmon.core import isolate

N = {'quick': 800, 'thorough': 12000}
RULE = ('random corpora (line/type formats, encodings, nested dirs, empty files, CRLF, junk and separator lines), file '
        'selection by list/.fnames/corpus-path and worker counts, one to three calls on one handler, with and without a corpus directory in the settings when the files are given; non-trivial: at least two types counted over at least two files')
REQUIRED = {'no_corpus_path': 20, 'lines_counted': 1000, 'calls': 50, 'repeated_calls': 30, 'large_vocabularies': 5, 'via_vectorizer': 50}
ASSUMPTIONS = ['a corpus line ends at LF or CRLF, and no other character ends one']


def gen(rng, idx, tier):
    return {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([0, 1, 1, 2, 3, 5, 8, 12]),
            'workers': rng.choice([0, 1, 2, 3, 7, 100]), 'how': rng.choice(['none', 'list', 'list', 'fnames', 'fnames-noext']),
            'keep': rng.choice([1.0, 0.6]), 'vocab': rng.choice([2, 5, 10]), 'sseed': rng.randrange(1 << 40),
            'tmp': rng.choice(['set', 'set', 'unset']), 'out': rng.choice(['set', 'set', 'unset']),
            'max_lines': rng.choice([10, 40, 150]), 'again': rng.choice([0, 0, 1, 2]), 'large': rng.choice([2500, 5000, 9000]) if idx % 40 == 5 else 0, 'nopath': rng.random() < .15, 'via': rng.choice(['handler', 'handler', 'handler', 'vectorizer'])}


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)
    try:
        rng = random.Random(case['sseed'])
        rounds = pipeline.rounds(case, base, root, settings, paths, rng)
        obs.n('no_corpus_path', 'corpus-path' not in settings)
        obs.n('via_vectorizer', case.get('via') == 'vectorizer')

        def call():
            from nephosem import ItemFreqHandler
            if case.get('via') == 'vectorizer':
                from nephosem.models.typetoken import TypeVectorizer
                build = TypeVectorizer(settings=settings).build_vocab
            else:
                build = ItemFreqHandler(settings, workers=case['workers']).build_item_freq
            out = []
            for arg, _ in rounds:
                v = build(fnames=arg)
                out.append({'dict': dict(v.get_dict()), 'cls': type(v).__name__, 'len': len(v), 'sum': v.sum()})
            return out

        st, val = isolate(call)
        if not pipeline.outcome(obs, st, val, 'build_item_freq'):
            return
        for i, ((_, sel), v) in enumerate(zip(rounds, val)):
            exp = corpus.Model(settings).freq(sel)
            got = v['dict']
            obs.n('repeated_calls', int(i > 0))
            obs.n('lines_counted', sum(exp.values()))
            obs.n('types_compared', len(exp))
            obs.n('large_vocabularies', len(exp) > 2000)
            obs.check(got == exp, 'freq-differs', lambda: 'call %d: frequencies differ: ' % (i + 1) + pipeline.diff(exp, got))
            obs.check(all(type(v) is int for v in got.values()), 'freq-not-int', 'frequencies are not integers: %r' % got)
            obs.check(v['cls'] == 'Vocab' and v['len'] == len(exp) and v['sum'] == sum(exp.values()), 'vocab-summary',
                      'Vocab len/sum do not match: %r' % v)
            obs.nontrivial = obs.nontrivial or len(exp) > 1 and len(sel) > 1
            obs.see(sorted(exp.items()), len(sel), case['workers'], settings['type'])
    finally:
        pipeline.clean(base)
