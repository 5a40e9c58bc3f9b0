"""P19: dependency pattern matching against a brute-force enumeration of all embeddings."""
import os
import random
from collections import Counter

from nephmon import depcorpus as dc
from nephmon.core import fresh_dir, rmtree

N = {'quick': 16000, 'thorough': 600000}
RULE = ('random sentence trees of 1-9 tokens (any shape, several roots, broken trees), random pattern trees of 1-7 nodes with '
        'any target node, built from dicts, graphml/xml files, the CSV notation or the legacy template classes; non-trivial: a pattern of >= 2 nodes with >= 1 embedding')
REQUIRED = {'embeddings': 3000, 'symmetric_patterns': 50, 'patterns_by_xml': 100, 'patterns_by_csv': 100, 'patterns_legacy': 100, 'raw_sentences': 100, 'paths_from_target': 100, 'root_matches': 50, 'large_patterns': 100}
ASSUMPTIONS = ['a pattern is a rooted tree containing a node with id 1 (the documented numbering)',
               'attribute and relation expressions are applied as the documentation says (re.match)',
               'sentences whose relations do not form one rooted tree match nothing']
NOTE = ('Every match recorded by MacroGraph/FeatureGraph on generated trees is compared with an independent brute-force enumeration; '
        'holds for the explored trees and patterns (up to 9 tokens, 7 pattern nodes).')


def gen(rng, idx, tier):
    return {'seed': rng.randrange(1 << 40), 'via': rng.choice(['dict', 'dict', 'dict', 'xml', 'xml', 'csv', 'legacy', 'legacy']),
            'n_sent': rng.choice([1, 2, 4]), 'n_pat': rng.choice([1, 2, 3]),
            'sent_via': rng.choice(['lines', 'lines', 'graph'])}


def run(case, obs):
    rng = random.Random(case['seed'])
    if case['via'] == 'legacy':
        return run_legacy(case, obs, rng)
    from nephosem.core.graph import MacroGraph, PatternGraph, SentenceGraph
    from nephosem.core.terms import CorpusFormatter
    base = fresh_dir('dep')
    try:
        settings, cols, k = dc.make_settings(rng, base)
        fmt = CorpusFormatter(settings)
        sents = [dc.gen_sentence(rng, rng.choice([1, 2, 3, 5, 7, 9]), vocab=rng.choice([2, 5, 10]), broken=rng.random() < 0.05)
                 for _ in range(case['n_sent'])]
        if case['sent_via'] == 'graph' and case['via'] != 'xml' and rng.random() < .3:      # tokens without a form (a graphml file has an expression for every attribute)
            sents = [[(i, rng.choice(['', f]), *r) for i, f, *r in s] for s in sents]
        big = rng.choice([5, 5, 5, 7])
        pats = [dc.grown_pattern(rng, rng.choice(sents), max_nodes=big) if rng.random() < 0.8 else dc.gen_pattern(rng, max_nodes=big) for _ in range(case['n_pat'])]
        obs.n('large_patterns', sum(len(p['nodes']) > 5 for p in pats))
        for p in pats[1:]:
            p['tattrs'], p['fattrs'] = pats[0]['tattrs'], pats[0]['fattrs']
        if case['via'] == 'csv':
            crows = [dc.csv_pattern(rng) for _ in pats]
            pats = [r[0] for r in crows]
            dc.write_csv(crows, os.path.join(base, 'p.tsv'))
            macros = MacroGraph.read_csv(os.path.join(base, 'p.tsv'))
            obs.n('patterns_by_csv', len(pats))
        elif case['via'] == 'xml':
            gml, xml = os.path.join(base, 'p.graphml'), os.path.join(base, 'm.xml')
            dc.write_xml(pats, gml, xml)
            macros = MacroGraph.read_xml(xml, PatternGraph.read_graphml(gml))
            obs.n('patterns_by_xml', len(pats))
        else:
            macros = [dc.to_macro(p, i + 1) for i, p in enumerate(pats)]
        lid0 = 0
        for rows in sents:
            s = dc.Sent()
            lines = []
            for i, form, pos, lemma, head, rel in rows:
                lid0 += rng.choice([1, 1, 2])
                s.tok[i] = {'FORM': form, 'POS': pos, 'LEMMA': lemma, 'lid': lid0}
                s.head[i] = (head, rel)
                d = {'ID': str(i), 'FORM': form, 'POS': pos, 'LEMMA': lemma, 'HEAD': str(head), 'DEPREL': rel}
                lines.append((lid0, '\t'.join(d[c] for c in cols)))
            if case['sent_via'] == 'lines':
                g = SentenceGraph(sentence=lines, formatter=fmt)
            else:
                g = SentenceGraph(nodes={i: dict(a) for i, a in s.tok.items()},
                                  edges={(h, i): {'DEPREL': r} for i, (h, r) in s.head.items()})
            tree = dc.is_tree(s)
            obs.n('sentences')
            for pi, (pat, mac) in enumerate(zip(pats, macros)):
                before = len(mac.matched_nodes)
                g.match_pattern(mac)
                embs = dc.embeddings(pat, s) if tree else []
                obs.n('embeddings', len(embs))
                exp = Counter((tuple((n, s.tok[t]['lid']) for n, t in sorted(e.items())),
                               tuple(sorted((hd, s.head[e[hd[1]]][1]) for hd in pat['edges']))) for e in embs)
                got = Counter((tuple((n, a['lid']) for n, a in sorted(mn.items())),
                               tuple(sorted((e, a['DEPREL']) for e, a in me.items())))
                              for mn, me in zip(mac.matched_nodes[before:], mac.matched_edges[before:]))
                if len(embs) and len(pat['nodes']) >= 2:
                    obs.nontrivial = True
                    obs.see(sorted(exp.items()), pat)
                if len({frozenset(e.values()) for e in embs}) < len(embs):
                    obs.n('symmetric_patterns')
                lost, extra = exp - got, got - exp
                obs.check(not lost and not extra, 'matches-differ', lambda: 'pattern %r on %r: lost %r, unexpected %r'
                          % (pat, rows, list(lost)[:2], list(extra)[:2]))
                # rendering of every recorded match
                labels = Counter((dc.target_label(pat, s, e, 'type', ''), dc.feature_label(pat, s, e)) for e in embs)
                glabels = Counter((mac.target(index=i), mac.feature(index=i)) for i in range(before, len(mac.matched_nodes)))
                obs.check(labels == glabels, 'labels-differ', lambda: 'pattern %r on %r: expected %r got %r'
                          % (pat, rows, sorted((labels - glabels).items())[:3], sorted((glabels - labels).items())[:3]))
    finally:
        rmtree(base)


def run_legacy(case, obs, rng):
    from nephosem.deprel.basic import FeatureGraph, SentenceGraph, TemplateGraph
    vocab = rng.choice([2, 5])
    words = ['boy/NN', 'girl/NN', 'give/V', 'apple/NN', 'old/JJ', 'the/DT', 'see/VB'][:vocab + 2]
    nres = [r'\w+/\w+', r'(\w+/(N))\w*', r'(\w+/(V))\w*', r'\w+/\w+', r'(boy|girl)/NN', r'(\w+)/(JJ|NN|V)']
    eres = [r'\w+', r'.*', r'nsubj', r'\w*(obj)', r'(det|amod)']
    raw = rng.random() < .5        # from the lines of a corpus, with the artificial root
    if raw:
        nres += [r'.*', r'\w+', r'ROOT', r'(ROOT|\w+/V)']
    k = rng.choice([2, 2, 3, 3, 4, 5])
    labels = list(range(1, k + 1))
    rng.shuffle(labels)
    nodes, edges = {}, {}
    for i, l in enumerate(labels):
        nodes[l] = rng.choice(nres)
        if i:
            edges[(rng.choice(labels[:i]), l)] = rng.choice(eres)
    import re
    for _ in range(case['n_sent']):
        n = rng.choice([2, 3, 5, 7])
        rows = dc.gen_sentence(rng, n)
        tok = {i: rng.choice(words) for i in range(1, n + 1)}
        head = {r[0]: (r[4], r[5].replace(':', '')) for r in rows}
        if sum(h == 0 for h, _ in head.values()) > 1:
            continue
        feat = FeatureGraph(TemplateGraph({i: nodes[i] for i in sorted(nodes)}, dict(edges)), target=rng.choice(labels))
        # a path followed from one of its ends gives the same matches
        ends = [i for i in labels if sum(i in e for e in edges) == 1]
        line = len(ends) == 2 and all(sum(i in e for e in edges) <= 2 for i in labels) and rng.random() < .4
        if line:
            feat.set_target(rng.choice(ends))
            obs.n('paths_from_target')
        if raw:
            lines = ['\t'.join(['w%d' % i, tok[i].split('/')[1], tok[i].split('/')[0], str(i), str(head[i][0]), head[i][1]]) for i in tok]
            if rng.random() < .3:
                lines = ['<s>'] + [l + '\n' for l in lines] + ['</s>']
            g = SentenceGraph(sentence=lines)
            tok[0] = 'ROOT'
            head[0] = (None, None)
            obs.n('raw_sentences')
        else:
            g = SentenceGraph(nodes=dict(tok), edges={(h, i): r for i, (h, r) in head.items() if h})
        if n > 1:
            (g.match_target_feature if line else g.match_feature)(feat)
        s = dc.Sent()
        embs = []
        order = sorted(nodes)

        def rec(i, asg):
            if i == len(order):
                embs.append(dict(asg))
                return
            for t in tok:
                if t in asg.values() or not re.match(nodes[order[i]], tok[t]):
                    continue
                asg[order[i]] = t
                if all(head[asg[d]][0] == asg[h] and re.match(rx, head[asg[d]][1])
                       for (h, d), rx in edges.items() if h in asg and d in asg):
                    rec(i + 1, asg)
                del asg[order[i]]

        rec(0, {})
        obs.n('embeddings', len(embs))
        obs.n('patterns_legacy')
        obs.n('root_matches', sum(0 in e.values() for e in embs))
        exp = Counter((tuple((i, tok[t]) for i, t in sorted(e.items())),
                       tuple(sorted((hd, head[e[hd[1]]][1]) for hd in edges))) for e in embs)
        got = Counter((tuple(sorted(mn.items())), tuple(sorted(me.items())))
                      for mn, me in zip(feat.matched_nodes, feat.matched_edges))
        obs.nontrivial = obs.nontrivial or bool(embs)
        obs.see(sorted(exp.items()), nodes, edges)
        lost, extra = exp - got, got - exp
        obs.check(not lost and not extra, 'legacy-matches-differ', lambda: 'template %r %r on %r %r: lost %r unexpected %r'
                  % (nodes, edges, tok, head, list(lost)[:2], list(extra)[:2]))

