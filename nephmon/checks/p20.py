"""P20: dependency frequency matrices built by the real worker pool against a brute-force count."""
import os
import random

from nephmon import depcorpus as dc
from nephmon import pipeline
from nephmon.core import fresh_dir, isolate

N = {'quick': 550, 'thorough': 12000}
RULE = ('random dependency corpora (1-7 files, repeated separators, blank/malformed lines, broken trees, empty files), 1-4 macros, '
        'type and token mode, with and without target filter, single and repeated builds; non-trivial: at least three matches')
REQUIRED = {'left_right_boundaries': 20, 'matches': 3000, 'repeated_builds': 100, 'target_filters': 100, 'token_mode': 100, 'same_names_in_folders': 10, 'template_encodings': 30, 'token_format_for_types': 30}
ASSUMPTIONS = ['with no match at all the handler may raise ValueError (documented for empty matrices) or return an empty matrix',
               'a target filter compares the full attribute values of the matched target node',
               'sentences whose relations are not one rooted tree are skipped (logged), as in the code']


def gen(rng, idx, tier):
    return {'seed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 1, 2, 3, 7]), 'workers': rng.choice([0, 1, 2, 3, 7]),
            'mode': rng.choice(['type', 'type', 'token']), 'targets': rng.choice(['none', 'none', 'list', 'vocab']),
            'n_pat': rng.choice([1, 1, 2, 4]), 'builds': rng.choice([1, 1, 2, 3]), 'how': rng.choice(['none', 'list', 'fnames']),
            'hostile': rng.random() < 0.8, 'vocab': rng.choice([2, 4, 10]), 'keep': rng.choice([1.0, 0.6]),
            'tokfmt': rng.random() < .2, 'via': rng.choice(['macro', 'macro', 'xml', 'csv']), 'enc': rng.choice(['utf-8', 'latin-1', 'utf-16', 'default'])}


def make(case, rng):
    base = fresh_dir('dep')
    root = os.path.join(base, 'corpus')
    os.makedirs(root)
    settings, cols, k = dc.make_settings(rng, root)
    settings['tmp-path'] = os.path.join(base, 'tmp')
    settings['output-path'] = os.path.join(base, 'out')
    os.makedirs(settings['output-path'])
    paths = dc.write_corpus(rng, root, settings, cols, k, case['n_files'], hostile=case['hostile'], vocab=case['vocab'])
    sents = [s for p in paths for s in dc.read_sents(p, settings) if dc.is_tree(s)]
    pats = []
    for _ in range(case['n_pat']):
        if sents and rng.random() < 0.85:
            s = rng.choice(sents)
            rows = [(i, t['FORM'], t['POS'], t['LEMMA'], s.head[i][0], s.head[i][1]) for i, t in s.tok.items()]
            pats.append(dc.grown_pattern(rng, rows, full_target=True, max_nodes=4))
        else:
            pats.append(dc.gen_pattern(rng, full_target=True, max_nodes=4))
    if case.get('via') == 'csv' and case['mode'] == 'type':  # templates of a file, in any encoding
        pats = [dc.csv_pattern(rng)[0] for _ in range(2 * len(pats))]
    for p in pats[1:]:
        p['tattrs'], p['fattrs'] = pats[0]['tattrs'], pats[0]['fattrs']
    return base, root, settings, paths, sents, pats


def run(case, obs):
    rng = random.Random(case['seed'])
    if case['via'] == 'csv':
        case = dict(case, mode='type')
    # macros in the format of tokens serve the counting of types, too
    case = dict(case, fmt='token' if case['mode'] == 'token' or case['tokfmt'] else 'type')
    obs.n('token_format_for_types', case['fmt'] != case['mode'])
    base, root, settings, paths, sents, pats = make(case, rng)
    try:
        types = sorted({'/'.join(t[a] for a in pats[0]['tattrs']) for s in sents for t in s.tok.values()})
        targets = None
        if case['targets'] != 'none':
            targets = rng.sample(types, (len(types) + 1) // 2) or ['zz/N']
            obs.n('target_filters')
        arg, sel = pipeline.select(dict(case), base, root, settings, paths, rng)
        exp, n = dc.reference(sel, settings, pats, case['mode'], set(targets) if targets else None)
        obs.n('matches', n)
        obs.n('left_right_boundaries', settings['boundary-detection-mechanism'] == 'left-right')
        if case['mode'] == 'token':
            obs.n('token_mode')
            obs.n('same_names_in_folders', len({os.path.basename(os.path.splitext(p)[0]) for p in sel}) < len(sel))
        if case['via'] == 'csv' and case['enc'] != 'default':
            obs.n('template_encodings')

        def call():
            from nephosem import Vocab
            from nephosem.core.graph import MacroGraph, PatternGraph
            from nephosem.models.deprel import DepRelHandler
            if case['via'] == 'xml':
                g, x = os.path.join(base, 'p.graphml'), os.path.join(base, 'm.xml')
                dc.write_xml(pats, g, x, case['fmt'])
                macros = MacroGraph.read_xml(x, PatternGraph.read_graphml(g))
            else:
                macros = [dc.to_macro(p, i + 1, case['fmt']) for i, p in enumerate(pats)]
            t = targets if case['targets'] != 'vocab' else Vocab({x: 1 for x in targets})
            h = DepRelHandler(settings, workers=case['workers'], targets=t, mode=case['mode'])
            if case['via'] == 'csv':
                t = os.path.join(base, 'p.tsv')
                enc = {} if case['enc'] == 'default' else {'encoding': case['enc']}
                dc.write_csv([(p,) + p['row'] for p in pats], t, **enc)
                h.read_templates(fname=t, **enc)
            else:
                kept = [{1: {'LEMMA': 'kept', 'POS': 'N'}}]      # matches of the macros themselves, of another use
                for m in macros:
                    m.matched_nodes, m.matched_edges = list(kept), [{}]
                h.read_templates(macros=macros)
            out = []
            for _ in range(case['builds']):
                try:
                    out.append(pipeline.cells(h.build_dependency(fnames=arg)))
                except ValueError as e:
                    out.append('empty: %s' % e)
            if case['via'] != 'csv':
                out.append(all(m.matched_nodes == kept and m.matched_edges == [{}] for m in macros))
            return out

        st, val = isolate(call)
        if not pipeline.outcome(obs, st, val, 'build_dependency'):
            return
        if case['via'] != 'csv':
            obs.check(val.pop(), 'macros-changed', 'the matches of the macros given to read_templates changed')
        for b, r in enumerate(val):
            if b:
                obs.n('repeated_builds')
            if isinstance(r, str):
                obs.n('empty_results')
                obs.check(not exp, 'no-matrix', '%s although %d matches exist' % (r, n))
                continue
            rows, cols, got = r
            if not obs.check(got == exp, 'counts-differ' if not b else 'repeated-build-differs',
                             lambda: 'build %d: %s; patterns %r' % (b + 1, pipeline.diff(exp, got), pats)):
                break
            obs.n('cells_compared', len(exp))
            obs.check(set(rows) == {k[0] for k in exp} and len(set(rows)) == len(rows), 'row-labels', 'row labels %r' % rows[:5])
            obs.check(set(cols) == {k[1] for k in exp} and len(set(cols)) == len(cols), 'col-labels', 'column labels %r' % cols[:5])
        obs.nontrivial = n >= 3
        obs.see(sorted(exp.items()), case['mode'], case['builds'], case['workers'])
    finally:
        pipeline.clean(base)
