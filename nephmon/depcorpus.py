"""Dependency corpora, patterns and a brute-force reference for P04, P05, P19, P20."""
import itertools
import os
import random
import re
from collections import Counter

LEMMAS = ['boy', 'girl', 'apple', 'give', 'eat', 'look', 'healthy', 'the', 'at', 'café']
POS = ['N', 'NN', 'V', 'VB', 'JJ', 'DT', 'IN']
RELS = ['nsubj', 'nsubj:pass', 'nsubjpass', 'dobj', 'iobj', 'amod', 'det', 'prep', 'pobj', 'nmod:poss', 'nmod:agent', 'NSUBJ', 'Det']
NODE_RE = {
    'LEMMA': [r'(\w+)', r'(\w+)', r'(\w+)', r'\w+', r'(boy|girl)$', r'(the)', r'([a-g]\w*)', r'(café|boy)'],
    'POS': [r'(\w+)', r'(N)\w*', r'(N)?\w*', r'(N?)\w*', r'(V)\w*', r'\w+', r'(N\w*|JJ)', r'(JJ|DT|IN)', r'(NN)$'],
    'FORM': [r'(\w+)', r'\w+', r'[A-Z]', r'[a-z]', r'.*s$', r'(\w+)$', r'(boy|the|look|give)?'],
}
EDGE_RE = [r'(.+)', r'(.+)', r'(nsubj)$', r'(nsubj.*)', r'(\w*obj)', r'\w+', r'(nsubj)?.*', r'(nsubj|)\w*', r'(det|amod|prep)', r'(nmod:\w+)', r'(nmod)']

SEPS = [(r'</s>', ['<s id="%d">', None], '</s>'),           # opening line is malformed, closing one separates
        (r'</?s', ['<s id="%d">'], '</s>'),                 # both separate
        (r'^#', ['# sent %d', None], '#')]


def make_settings(rng, root, sep=None):
    cols = rng.choice([['FORM', 'POS', 'LEMMA', 'ID', 'HEAD', 'DEPREL'], ['ID', 'FORM', 'LEMMA', 'POS', 'HEAD', 'DEPREL'],
                       ['LEMMA', 'DEPREL', 'HEAD', 'POS', 'FORM', 'ID']])
    k = rng.randrange(len(SEPS)) if sep is None else sep
    s = {'line-machine': '\t'.join([r'([^\t]+)'] * 6), 'boundary-detection-mechanism': 'single',
         rng.choice(['separator-line-machine', 'single-boundary-machine']): SEPS[k][0],
         'global-columns': ','.join(cols), 'node-attr': 'FORM,POS,LEMMA', 'edge-attr': 'DEPREL',
         'currID': 'ID', 'headID': 'HEAD', 'type': 'LEMMA/POS', 'colloc': 'LEMMA/POS', 'token': 'LEMMA/POS/FID/LID',
         'left-span': 3, 'right-span': 3, 'corpus-path': root,
         'file-encoding': rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-16'])}
    if k == 1 and rng.random() < 0.5:
        s.update({'boundary-detection-mechanism': 'left-right', 'left-boundary-machine': '<s', 'right-boundary-machine': '</s'})
        s.pop('separator-line-machine', None)
        s.pop('single-boundary-machine', None)
    return s, cols, k


class Sent(object):
    """tokens: {id: {'FORM','POS','LEMMA','lid'}}, head: {id: (head id, deprel)}"""

    def __init__(self):
        self.tok, self.head = {}, {}


def gen_sentence(rng, n, vocab=10, broken=False):
    """rows (id, FORM, POS, LEMMA, head, rel); a random tree over 1..n with node 0 as its root"""
    ids = list(range(1, n + 1))
    order = ids[:]
    rng.shuffle(order)
    placed = [0]
    head = {}
    shape = rng.choice(['any', 'deep', 'flat'])
    for i in order:
        if len(placed) == 1:
            head[i] = 0
        else:
            cand = placed[1:] if rng.random() < 0.93 else placed
            head[i] = cand[-1] if shape == 'deep' and rng.random() < 0.7 else cand[0] if shape == 'flat' and rng.random() < 0.7 \
                else rng.choice(cand)
        placed.append(i)
    if broken and n >= 2:
        a, b = rng.sample(ids, 2)
        kind = rng.choice(['cycle', 'outside', 'self', 'cycle', 'outside'])
        if kind == 'cycle':
            head[a], head[b] = b, a
        elif sum(h == 0 for h in head.values()) > (head[a] == 0):   # another root remains
            head[a] = n + rng.choice([1, 5]) if kind == 'outside' else a
    rows = []
    for i in ids:
        l = rng.choice(LEMMAS[:vocab])
        rows.append((i, rng.choice([l.upper(), l, l + 's', l.capitalize()]), rng.choice(POS), l, head[i], rng.choice(RELS) if head[i] else 'ROOT'))
    return rows


def write_file(rng, path, settings, cols, k, n_sent, max_len=9, vocab=10, hostile=True):
    opens, close = SEPS[k][1], SEPS[k][2]
    lines = []
    for si in range(n_sent):
        o = rng.choice(opens)
        if o is not None:
            lines.append(o % si)
        n = rng.choice([1, 2, 3, 4, 5, 7, max_len])
        for r in gen_sentence(rng, n, vocab, broken=hostile and rng.random() < 0.08):
            d = {'ID': str(r[0]), 'FORM': r[1], 'POS': r[2], 'LEMMA': r[3], 'HEAD': str(r[4]), 'DEPREL': r[5]}
            lines.append('\t'.join(d[c] for c in cols))
            if hostile and rng.random() < 0.05:
                lines.append(rng.choice(['', 'junk', '<p>', '- - -']))
        if si < n_sent - 1 or rng.random() < 0.6:
            lines.append(close)
            if hostile and rng.random() < 0.15:
                lines.extend([close] * rng.choice([1, 2]))
    if hostile and rng.random() < 0.1:
        lines.insert(0, close)
    text = '\n'.join(lines) + rng.choice(['', '\n'])
    with open(path, 'wb') as f:
        f.write(text.encode(settings['file-encoding']))


def write_corpus(rng, root, settings, cols, k, n_files, hostile=True, max_sent=5, vocab=10):
    paths, stems = [], set()
    for i in range(n_files):
        d = os.path.join(root, rng.choice(['', 'sub']))
        os.makedirs(d, exist_ok=True)
        stem = 'd%d' % rng.choice([0, i])  # one name may occur in both folders
        if os.path.join(d, stem) in stems:
            stem = 'd%d' % i
        if os.path.join(d, stem) in stems:
            stem = 'x%d' % i
        stems.add(os.path.join(d, stem))
        p = os.path.join(d, stem + rng.choice(['.conll', '.txt']))
        write_file(rng, p, settings, cols, k, rng.choice([0, 1, 2, max_sent]) if hostile else rng.randrange(1, max_sent + 1),
                   hostile=hostile, vocab=vocab)
        paths.append(p)
    return paths


def read_sents(path, settings):
    lm = re.compile(settings['line-machine'])
    sm = re.compile(SEPS[1][0] if settings['boundary-detection-mechanism'] == 'left-right'
                    else settings.get('separator-line-machine') or settings['single-boundary-machine'])
    cols = settings['global-columns'].split(',')
    with open(path, 'rb') as f:
        text = f.read().decode(settings['file-encoding'])
    out, cur = [], Sent()
    for lid, line in enumerate(text.split('\n'), 1):
        line = line.strip()
        m = lm.match(line)
        if m:
            d = dict(zip(cols, m.groups()))
            i = int(d['ID'])
            cur.tok[i] = {'FORM': d['FORM'], 'POS': d['POS'], 'LEMMA': d['LEMMA'], 'lid': lid}
            cur.head[i] = (int(d['HEAD']), d['DEPREL'])
        elif sm.match(line):
            if cur.tok:
                out.append(cur)
            cur = Sent()
    if cur.tok:
        out.append(cur)
    return out


def is_tree(s):
    """every token reaches node 0 through its heads (rooted tree)"""
    for i in s.head:
        seen = set()
        while i != 0:
            if i in seen or i not in s.head:
                return False
            seen.add(i)
            i = s.head[i][0]
    return True


# ------------------------------------------------------------------ patterns
def gen_pattern(rng, attrs=('LEMMA', 'POS'), max_nodes=5, full_target=False):
    k = rng.choice([1, 2, 2, 3, 3, 3, 4, max_nodes])
    labels = list(range(1, k + 1))
    if rng.random() < 0.5:
        rng.shuffle(labels)
    nodes, edges = {}, {}
    for i, l in enumerate(labels):
        nodes[l] = {a: rng.choice(NODE_RE[a]) for a in attrs}
        if i:
            h = rng.choice(labels[:i]) if rng.random() < 0.7 else labels[i - 1]
            edges[(h, l)] = {'DEPREL': rng.choice(EDGE_RE)}
    if rng.random() < 0.3:
        nodes[rng.choice(labels)]['FORM'] = rng.choice(NODE_RE['FORM'])
    p = {'nodes': {i: nodes[i] for i in sorted(nodes)}, 'edges': edges, 'target': rng.choice(labels)}
    p['feature'] = rng.choice([-1, -1, rng.choice(labels)])
    if full_target:
        for a in attrs:
            nodes[p['target']][a] = rng.choice([r'(.+)', r'(\w+)$', r'(\w+)'])
    p['tattrs'] = {a: 1 for a in (attrs[::rng.choice([1, 1, -1])] if rng.random() < 0.8 or full_target else attrs[:1])}
    p['fattrs'] = {a: 1 for a in (attrs[::rng.choice([1, 1, -1])] if rng.random() < 0.8 else attrs[:1])}
    return p


def grown_pattern(rng, rows, attrs=('LEMMA', 'POS'), max_nodes=5, full_target=False):
    """a pattern grown around a connected piece of a sentence, so that it usually matches something"""
    tok = {r[0]: {'FORM': r[1], 'POS': r[2], 'LEMMA': r[3]} for r in rows}
    head = {r[0]: (r[4], r[5]) for r in rows}
    k = rng.choice([1, 2, 2, 3, 3, 3, 4, max_nodes])
    piece = [rng.choice(list(tok))]
    while len(piece) < k:
        near = [i for i in tok if i not in piece and (head[i][0] in piece or any(head[j][0] == i for j in piece))]
        if not near:
            break
        piece.append(rng.choice(near))
    if sum(1 for j in piece if head[j][0] not in piece) != 1:   # cyclic (broken) sentence
        return gen_pattern(rng, attrs, max_nodes, full_target)
    order = piece[:]
    rng.shuffle(order)
    lab = {t: i + 1 for i, t in enumerate(order)}
    loose = rng.random() < 0.5

    def pick(pool, val):
        good = [rx for rx in pool if re.match(rx, val)]
        if loose:
            good = [rx for rx in good if rx in (r'(\w+)', r'\w+', r'(.+)', r'.*', r'(\w*obj)')] or good
        return rng.choice(good if rng.random() < 0.95 and good else pool)

    nodes = {lab[t]: {a: pick(NODE_RE[a], tok[t][a]) for a in attrs} for t in piece}
    edges = {}
    for t in piece:
        if head[t][0] in lab:
            edges[(lab[head[t][0]], lab[t])] = {'DEPREL': pick(EDGE_RE, head[t][1])}
    if rng.random() < 0.35:
        t = rng.choice(piece)
        nodes[lab[t]]['FORM'] = pick(NODE_RE['FORM'], tok[t]['FORM'])
    p = {'nodes': {i: nodes[i] for i in sorted(nodes)}, 'edges': edges, 'target': rng.choice(sorted(nodes))}
    p['feature'] = rng.choice([-1, -1, rng.choice(sorted(nodes))])
    if full_target:
        for a in attrs:
            nodes[p['target']][a] = rng.choice([r'(.+)', r'(\w+)$', r'(\w+)'])
    p['tattrs'] = {a: 1 for a in (attrs[::rng.choice([1, 1, -1])] if rng.random() < 0.8 or full_target else attrs[:1])}
    p['fattrs'] = {a: 1 for a in (attrs[::rng.choice([1, 1, -1])] if rng.random() < 0.8 else attrs[:1])}
    return p


def embeddings(pat, s):
    """every injective assignment {pattern node: token id} that satisfies all constraints"""
    nodes = sorted(pat['nodes'])
    ok = {n: [i for i in s.tok if all(re.match(rx, s.tok[i][a]) for a, rx in pat['nodes'][n].items())] for n in nodes}

    def edge_ok(h, d, asg):
        return s.head[asg[d]][0] == asg[h] and re.match(pat['edges'][h, d]['DEPREL'], s.head[asg[d]][1])

    out = []

    def rec(k, asg):
        if k == len(nodes):
            out.append(dict(asg))
            return
        n = nodes[k]
        for i in ok[n]:
            if i in asg.values():
                continue
            asg[n] = i
            if all(edge_ok(h, d, asg) for h, d in pat['edges'] if (h == n and d in asg) or (d == n and h in asg)):
                rec(k + 1, asg)
            del asg[n]

    rec(0, {})
    return out


def grp(rx, val):
    m = re.match(rx, val)
    try:
        g = m.group(1)
        return '*' if g is None else g
    except (IndexError, AttributeError):
        return '*'


def target_label(pat, s, asg, mode, fid):
    t = pat['target']
    vals = [grp(pat['nodes'][t][a], s.tok[asg[t]][a]) for a in pat['tattrs']]
    if mode == 'token':
        vals += [fid, str(s.tok[asg[t]]['lid'])]
    return '/'.join(vals)


def feature_label(pat, s, asg):
    def nrepr(n):
        return '/'.join(grp(pat['nodes'][n][a], s.tok[asg[n]][a]) for a in pat['fattrs'])

    if pat['feature'] != -1:
        return nrepr(pat['feature'])
    roots = set(pat['nodes']) - {d for _, d in pat['edges']}
    root = roots.pop()

    def tail(n):
        kids = [d for h, d in pat['edges'] if h == n]
        if not kids:
            return ''
        parts = []
        for d in kids:
            e = grp(pat['edges'][n, d]['DEPREL'], s.head[asg[d]][1])
            parts.append((e + ':' + nrepr(d), e + ':' + ('#T#' if d == pat['target'] else nrepr(d)) + tail(d)))
        if len(parts) == 1:
            return '->' + parts[0][1]
        parts.sort(key=lambda x: x[0])
        return '->[' + ','.join(x[1] for x in parts) + ']'

    return ('#T#' if root == pat['target'] else nrepr(root)) + tail(root)


def reference(paths, settings, pats, mode='type', targets=None):
    c, n = Counter(), 0
    for p in paths:
        fid = os.path.splitext(os.path.relpath(p, settings['corpus-path']))[0]
        for s in read_sents(p, settings):
            if not is_tree(s):
                continue
            for pat in pats:
                for asg in embeddings(pat, s):
                    if targets:
                        t = s.tok[asg[pat['target']]]
                        if '/'.join(t[a] for a in pat['tattrs']) not in targets:
                            continue
                    n += 1
                    c[target_label(pat, s, asg, mode, fid), feature_label(pat, s, asg)] += 1
    return dict(c), n


# ------------------------------------------------------------------ patterns as library objects
def to_macro(pat, idx, mode='type'):
    from nephosem.core.graph import MacroGraph, PatternGraph
    pg = PatternGraph({i: dict(a) for i, a in pat['nodes'].items()}, {e: dict(a) for e, a in pat['edges'].items()})
    pg.id = idx
    m = MacroGraph(pg, target_idx=pat['target'], feature_idx=pat['feature'])
    m.id = idx
    ta = dict(pat['tattrs'])
    if mode == 'token':
        ta.update({'fid': 1, 'lid': 1})
    m.target_node_attrs = ta
    m.feature_node_attrs = dict(pat['fattrs'])
    m.feature_edge_attrs = {'DEPREL': 1}
    return m


def esc(x):
    return x.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def write_xml(pats, gml, xml, mode='type'):
    """All patterns must share tattrs/fattrs."""
    attrs = sorted({a for p in pats for n in p['nodes'].values() for a in n})
    with open(gml, 'w', encoding='utf-8') as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<graphml xmlns="http://graphml.graphdrawing.org/xmlns"\n'
                '  xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"\n  xsi:schemaLocation="http://graphml.graphdrawing.org/xmlns\n'
                '    http://graphml.graphdrawing.org/xmlns/1.0/graphml.xsd">\n')
        for i, a in enumerate(attrs):
            f.write('  <key id="n%d" for="node" attr.name="%s" attr.type="string">\n    <default>(\\w+)</default>\n  </key>\n' % (i, a))
        f.write('  <key id="e1" for="edge" attr.name="DEPREL" attr.type="string"/>\n')
        for pi, p in enumerate(pats, 1):
            f.write('  <graph id="%d" edgedefault="directed">\n' % pi)
            for n, a in p['nodes'].items():
                f.write('    <node id="%d">\n' % n)
                for at, rx in a.items():
                    if rx != r'(\w+)':
                        f.write('      <data key="n%d">%s</data>\n' % (attrs.index(at), esc(rx)))
                f.write('    </node>\n')
            for (h, d), a in p['edges'].items():
                f.write('    <edge source="%d" target="%d">\n      <data key="e1">%s</data>\n    </edge>\n' % (h, d, esc(a['DEPREL'])))
            f.write('  </graph>\n')
        f.write('</graphml>\n')
    t, fe = list(pats[0]['tattrs']), list(pats[0]['fattrs'])
    if mode == 'token':
        t = t + ['fid', 'lid']

    def nf(a):
        return ('<node-fmt>\n' + ''.join('<%s group="1"/>\n' % x for x in a)
                + '<string connector="/">%s</string>\n</node-fmt>\n' % '/'.join(a))

    with open(xml, 'w', encoding='utf-8') as f:
        f.write('<?xml version="1.0" encoding="UTF-8"?>\n<target-feature-list>\n<target-fmt>\n' + nf(t) + '</target-fmt>\n<feature-fmt>\n'
                + nf(fe) + '<edge-fmt>DEPREL</edge-fmt>\n</feature-fmt>\n')
        for i, p in enumerate(pats, 1):
            f.write('<target-feature-macro id="%d">\n<sub-graph-pattern id="%d"/>\n<target nodeID="%d"><description>x</description></target>\n'
                    '<feature%s><description>y</description></feature>\n</target-feature-macro>\n'
                    % (i, i, p['target'], '' if p['feature'] == -1 else ' featureID="%d"' % p['feature']))
        f.write('</target-feature-list>\n')


# ------------------------------------------------------------------ the CSV/TSV notation
def csv_pattern(rng, attrs=('LEMMA', 'POS')):
    """target <-(head) ... ->(dependent) chains, the last step optionally a bracketed list of leaves"""
    def node():
        return {a: rng.choice([x for x in NODE_RE[a] if '[' not in x]) for a in attrs}

    def edge():
        return {'DEPREL': rng.choice([x for x in EDGE_RE])}

    nodes, edges = {1: node()}, {}
    up, down = rng.choice([(0, 1), (1, 0), (1, 1), (2, 0), (0, 2), (1, 2)])
    cur = 1
    feat = ''

    def named(a, rx):
        return '(?P<%s>%s' % (a, rx[1:]) if rx.startswith('(') else '?P<%s>%s' % (a, rx)

    def render(n, e):
        return named('DEPREL', e['DEPREL']) + ' ' + '/'.join(named(a, n[a]) for a in attrs)

    for _ in range(up):
        k = len(nodes) + 1
        nodes[k], edges[(k, cur)] = node(), edge()
        feat += '<-' + render(nodes[k], edges[(k, cur)])
        cur = k
    for i in range(down):
        last = i == down - 1
        form = rng.choice(['plain', 'one', 'two']) if last else 'plain'
        parts = []
        for _ in range(2 if form == 'two' else 1):
            k = len(nodes) + 1
            nodes[k], edges[(cur, k)] = node(), edge()
            parts.append(render(nodes[k], edges[(cur, k)]))
        feat += '->' + (parts[0] if form == 'plain' else '[' + ' , '.join(parts) + ']')
        cur = k
    pat = {'nodes': nodes, 'edges': edges, 'target': 1, 'feature': -1,
           'tattrs': {a: 1 for a in attrs}, 'fattrs': {a: 1 for a in attrs}}
    pat['row'] = ('/'.join(named(a, nodes[1][a]) for a in attrs), feat)
    return pat, '/'.join(named(a, nodes[1][a]) for a in attrs), feat


def write_csv(rows, path, encoding='utf-8'):
    with open(path, 'w', encoding=encoding) as f:
        f.write('ID\tTarget Regex\tFeature Regex\tX\n')
        for i, (t, feat) in enumerate([r[1:] for r in rows], 1):
            f.write('%d\t%s\t%s\té\n' % (i, t, feat))
