"""P29: word-query files read back against an independent reading of the documented format."""
import io
import os
import random

from nephmon.core import fresh_dir, rmtree

N = {'quick': 1500, 'thorough': 40000}
RULE = ('query files written from a list of queries (plain words and corpus-specific words) with comments, blank lines, surrounding spaces, CR LF, several '
        'encodings, words with colons, hashes and spaces, and with or without an explicit default entry at any position; non-trivial: the file holds a query '
        'with corpus-specific words')
REQUIRED = {'queries': 3000, 'plain_queries': 800, 'specific_queries': 800, 'explicit_default': 150, 'comments': 300, 'words_asked': 6000, 'type_pairs': 2000, 'colon_words': 100, 'missing_files': 20}
ASSUMPTIONS = ['corpus names contain no colon; words contain no tab and do not start or end with white space; a plain word does not start with "#"']
TECHNIQUE = 'runtime monitoring: the file is generated from the queries that reading it must yield'
WORDS = ['appel/noun', 'rustoord/noun', 'rust_oord/noun', 'new york/N', 'café/N', 'Übung/N', "o'clock/N", '12/CD', 'x', 'C#/N', 'a/b/c', 'é', 'None', '"q"/N', '0']
WIDE = ['日本/N', 'ζ/X', '€/SYM', '😀/SYM']
COLON = ['12:30/CD', ':/PUN', 'http://x.org/N', 'a:b', '::']
CORPORA = ['LeNC', 'TwNC', 'corpus 3', 'BNC#', 'de', 'Ü']


def gen(rng, idx, tier):
    enc = rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16'])
    words = WORDS + (WIDE if enc != 'latin-1' else [])
    default = rng.choice(['_DEFAULT_', '_DEFAULT_', 'default', 'LeNC'])
    items = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        if rng.random() < .45:
            items.append(rng.choice(words + COLON[:3]))
        else:
            n = rng.choice([2, 2, 3, 4])
            names = rng.sample(CORPORA, n)
            if rng.random() < .4:
                names[rng.randrange(n)] = default
            names = list(dict.fromkeys(names))
            if len(names) > 1:
                items.append([(c, rng.choice(words + (COLON if rng.random() < .3 else []))) for c in names])
    return {'items': items, 'enc': enc, 'default': default, 'seed': rng.randrange(1 << 40), 'missing': rng.random() < .03, 'kw': default != '_DEFAULT_' or rng.random() < .5}


def run(case, obs):
    from nephosem.utils import get_word_str, read_word_queries
    rng = random.Random(case['seed'])
    d = fresh_dir()
    try:
        fn = os.path.join(d, 'queries.txt')
        kw = {'wquery_default_key': case['default']} if case['kw'] else {}
        if case['enc'] != 'utf-8' or rng.random() < .5:
            kw['encoding'] = case['enc']
        if case['missing']:
            obs.n('missing_files')
            obs.check(read_word_queries(fn, **kw) == [], 'missing-file', 'a missing query file does not give an empty list')
            return
        lines, want = [], []
        for it in case['items']:
            while rng.random() < .35:
                c = rng.choice(['# a comment', '#LeNC:x/N\tTwNC:y/N', '', '   ', '  # indented comment', '\t', '#'])
                lines.append(c)
                obs.n('comments', int(c.strip().startswith('#')))
            if isinstance(it, str):
                lines.append(rng.choice(['', '', ' ']) + it + rng.choice(['', '', '  ', '\t']))
                want.append(it)
                obs.n('plain_queries')
            else:
                lines.append('\t'.join(rng.choice(['%s:%s', '%s:%s', '%s: %s', ' %s:%s ', '%s :%s']) % x for x in it))
                w = dict(it)
                if case['default'] not in w:
                    w[case['default']] = it[0][1]
                else:
                    obs.n('explicit_default')
                want.append(w)
                obs.n('specific_queries')
                obs.n('colon_words', sum(x[1] in COLON for x in it))
        data = rng.choice(['\n', '\n', '\r\n']).join(lines) + rng.choice(['', '\n'])
        with io.open(fn, 'w', encoding=case['enc'], newline='') as f:
            f.write(data)
        before = open(fn, 'rb').read()
        got = read_word_queries(fn, **kw)
        obs.n('queries', len(want))
        obs.check(list(got) == want, 'queries-differ', lambda: 'read from %r: %r\nwanted: %r' % (data, got, want))
        obs.check(read_word_queries(fn, **kw) == got, 'second-reading-differs', 'reading the same file again gives other queries')
        obs.check(open(fn, 'rb').read() == before, 'file-changed', 'reading changed the query file')
        for q, w in zip(want, want):
            for c in CORPORA + ['', case['default'], 'Le', 'LeNC2', 'lenc', 'corpus', 'd', case['default'][:3]]:
                for specific in (True, False):
                    r = get_word_str(q, specific=specific, corpus_name=c, def_key=case['default'])
                    e = w if isinstance(w, str) else w[c] if specific and c in w else w[case['default']]
                    obs.n('words_asked')
                    obs.check(r == e, 'word-for-corpus', lambda: 'word of %r for corpus %r (specific=%s): %r instead of %r' % (q, c, specific, r, e))
        from nephosem.models.typetoken import TypeToken
        for c in rng.sample(CORPORA, 2):
            path = rng.choice([{'corpus-path': '/corp/' + c}, {'corpus-path': '/corp/other'}, {}])
            kw = rng.choice([{'corpus_name': c}, {'corpus_name': c}, {}])
            s = dict(path, **{'wqueries-default-key': case['default'], 'file-encoding': 'utf-8', 'output-encoding': 'utf-8'})
            # the name of the corpus is the one given, or that of its directory
            name = kw.get('corpus_name') or path.get('corpus-path', '/').split('/')[-1]
            try:
                t = TypeToken(settings=s, **kw)
                t.read_queries(want)
                pairs = list(t.type_pairs)
            except Exception as e:
                obs.bad('type-pairs-raise', 'TypeToken(%r).read_queries with settings %r raises %r' % (kw, s, e))
                continue
            e = [(w, w) if isinstance(w, str) else (w.get(name, w[case['default']]), w[case['default']]) for w in want]
            obs.n('type_pairs', len(e))
            obs.check(pairs == e, 'type-pairs', lambda: 'pairs of corpus-specific and neutral words for corpus %r: %r instead of %r' % (name, pairs, e))
        obs.nontrivial = any(isinstance(w, dict) for w in want)
        obs.see(data, case['enc'])
    finally:
        rmtree(d)
