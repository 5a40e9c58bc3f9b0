"""P34: printed forms of matrices, vocabularies and small objects against what the objects hold."""
import random
import re

from nephmon import mx

N = {'quick': 3000, 'thorough': 120000}
RULE = ('random matrices of every kind (sparse with and without stored zeros, transposed, dense, square) up to 12 x 12 with labels that look like numbers, missing '
        'values or Unicode, printed with every limit of rows and columns; random vocabularies from empty to 30 items with ties; descriptions; path templates, paths and '
        'windows; the text is read back cell by cell and compared with the object, which must not change; non-trivial: a truncated print or a label like a number')
REQUIRED = {'matrices': 1200, 'vocabs': 500, 'cells_read': 15000, 'truncated': 300, 'number_labels': 300, 'unstored_cells': 3000, 'stored_zeros': 200, 'descriptions': 800,
            'short_vocabs': 150, 'long_vocabs': 150, 'windows': 200, 'templates': 200}
ASSUMPTIONS = ['labels without leading, trailing or double spaces', 'of equal frequencies any comes first in a printed vocabulary', 'numbers are printed with at least four decimals']
TECHNIQUE = 'runtime monitoring: the printed text is parsed and compared with the state of the object'
LABELS = sorted({w for w in mx.WORDS if w and w == w.strip() and '  ' not in w} | {'+5', '1_000', '1e5', '0x1F', 'inf', '0.10', '00', '...', 'None'})


def gen(rng, idx, tier):
    return {'kind': rng.choice(['matrix', 'matrix', 'matrix', 'vocab', 'vocab', 'small']), 'seed': rng.randrange(1 << 40)}


def run(case, obs):
    rng = random.Random(case['seed'])
    {'matrix': matrix, 'vocab': vocab, 'small': small}[case['kind']](rng, obs)


def cell_ok(text, v, stored):
    if not stored:
        return text.lower() == 'nan'
    if isinstance(v, bool):
        return text in (str(v), str(int(v)))
    try:
        x = float(text)
    except ValueError:
        return text == str(v)
    return abs(x - v) <= 5.1e-5 + 1e-9 * abs(v)


def matrix(rng, obs):
    r = mx.make(rng, kind=rng.choice(['csr', 'csr', 'csc', 'dense', 'sym']), pool=LABELS)
    M = mx.build(r)
    t = mx.view(M)
    if rng.random() < .2 and t.sparse:
        M, t = M.transpose(), t.t()
    R, C = len(t.rows), len(t.cols)
    for _ in range(rng.choice([1, 2])):
        how = rng.choice(['str', 'repr', 'print', 'print', 'kw'])
        n, k = rng.choice([None, 0, 1, 2, 3, R, R + 1, 50]), rng.choice([None, 0, 1, 2, 3, C, C + 1, 50])
        if how in ('str', 'repr'):
            text, n, k = (str if how == 'str' else repr)(M), 7, 7
        else:
            text = M.print_matrix(n, k) if how == 'print' else M.print_matrix(n_rows=n, n_cols=k)
        n, k = min(n or R, R), min(k or C, C)
        lines = [re.split(' {2,}', x.strip()) for x in text.split('\n')]
        what = '%s(%r, %r) of %r gives\n%s' % (how, n, k, t, text)
        want = 1 + n + (n < R)
        if not obs.check(len(lines) == want and all(len(x) == 1 + k + (k < C) for x in lines), 'shape', lambda: '%s\n   instead of %d lines of %d fields' % (what, want, 1 + k + (k < C))):
            return
        obs.n('truncated', n < R or k < C)
        obs.check([x.strip() for x in lines[0][0].strip('[]').split(',')] == [str(R), str(C)], 'size', lambda: what + '\n   the corner is not the shape')
        obs.check(lines[0][1:1 + k] == t.cols[:k], 'column-labels', lambda: what + '\n   column labels %r' % lines[0][1:1 + k])
        obs.check([x[0] for x in lines[1:1 + n]] == t.rows[:n], 'row-labels', lambda: what + '\n   row labels %r' % [x[0] for x in lines[1:1 + n]])
        for i, a in enumerate(t.rows[:n]):
            for j, b in enumerate(t.cols[:k]):
                s, v = (a, b) in t.cells, t.get(a, b)
                obs.n('cells_read')
                obs.n('unstored_cells', not s)
                obs.n('stored_zeros', t.sparse and s and v == 0)
                obs.check(cell_ok(lines[1 + i][1 + j], v, s), 'cell', lambda: what + '\n   cell (%r, %r) is %r' % (a, b, v if s else 'not stored'))
        if k < C:
            obs.check(all(x[-1] == '...' for x in lines), 'ellipsis', lambda: what + '\n   no ellipsis at the right')
        if n < R:
            obs.check(set(lines[-1]) == {'...'}, 'ellipsis', lambda: what + '\n   no ellipsis below')
        like = sum(1 for x in t.rows + t.cols if re.fullmatch(r'[-+\d._xeF]+|nan|NaN|inf', x))
        obs.n('number_labels', like)
        obs.nontrivial = obs.nontrivial or bool(like) or n < R or k < C
        obs.see(text)
    d = M.describe()
    f = {a.strip(): b.strip() for a, _, b in (x.partition(':') for x in d.split('\n')) if b}
    obs.n('descriptions')
    stored = len(t.cells)
    obs.check([int(x) for x in re.findall(r'\d+', f.get('matrix shape', ''))] == [R, C] and f.get('is sparse') == str(t.sparse) and f.get('num of eles') == str(stored)
              and abs(float(f.get('density', 'nan').rstrip('%')) - 100.0 * stored / (R * C)) <= .0051, 'describe', lambda: 'describe() of %r gives\n%s' % (t, d))
    df = mx.diff(t, mx.view(M))
    obs.check(not df, 'changed', lambda: 'printing changed the matrix: ' + df)
    obs.n('matrices')


def vocab(rng, obs):
    from nephosem import Vocab
    n = rng.choice([0, 1, 2, 6, 7, 8, 9, 15, 30])
    pool = LABELS + ["it's", 'b"c', 'w\\n'] + ['w%d/N' % i for i in range(30)]
    items = [(w, rng.choice([0, 1, 1, 2, 5, 17, 1000, 1 << 40])) for w in rng.sample(sorted(set(pool)), n)]
    v = Vocab(dict(items))
    text = rng.choice([str, repr])(v)
    obs.n('vocabs')
    if n <= 7:
        obs.n('short_vocabs')
        want = '[%s]' % ','.join(map(repr, items))
        obs.check(text == want, 'vocab-short', lambda: 'a vocabulary is printed as %s instead of %s' % (text, want))
    else:
        obs.n('long_vocabs')
        parts = text.strip('[]').split(' ... ') if text.count(' ... ') == 1 else None
        try:
            head, tail = (list(eval('[%s]' % x, {'__builtins__': {}})) for x in parts)
        except Exception:
            head = tail = None
        s = sorted((f for _, f in items), reverse=True)
        if obs.check(head is not None, 'vocab-form', lambda: 'a vocabulary is printed as %s' % text):
            obs.check([f for _, f in head] == s[:3] and [f for _, f in tail] == s[-3:] and set(head + tail) <= set(items) and len(set(head + tail)) == 6, 'vocab-long',
                      lambda: 'the vocabulary %r is printed as %s' % (items, text))
        obs.nontrivial = True
    if n:
        d = v.describe().split('\n')
        obs.n('descriptions')
        num = {x.split()[0]: float(x.split()[-1]) for x in d[2:] if len(x.split()) == 2}
        fs = [f for _, f in items]
        obs.check(d[0] == 'Total items: %d' % n and d[1] == 'Total freqs: %d' % sum(fs), 'vocab-describe', lambda: 'describe() of %r gives %r' % (items, d))
        for k, x in (('mean', sum(fs) / n), ('min', min(fs)), ('max', max(fs))):
            obs.check(k in num and abs(num[k] - x) <= 1e-4 * max(1, abs(x)), 'vocab-describe', lambda: 'describe() of %r gives %s %r instead of %r' % (items, k, num.get(k), x))
    obs.check(list(v.get_dict().items()) == items, 'changed', lambda: 'printing changed the vocabulary %r to %r' % (items, list(v.get_dict().items())))
    obs.see(items)


def small(rng, obs):
    from nephosem.core.terms import ItemNode, Path, PathTemplate, Window
    if rng.random() < .5:
        n = rng.choice([0, 1, 2, 4])
        nodes, edges = [rng.choice(['*', 'NN', 'VB', r'(\w+)/(N)', 'x']) for _ in range(n + 1)], [rng.choice(['amod', 'dobj', 'prep_of', '*']) for _ in range(n)]
        T = PathTemplate(nodes, edges)
        want = ':'.join(x for p in zip(nodes, edges + ['']) for x in p)[:-1]
        obs.n('templates')
        obs.check(str(T) == want and T.len == n, 'template', lambda: 'a template is printed as %s instead of %s' % (T, want))
        P = Path(T)
        k = rng.choice([0, 1, 3])
        for i in range(k):
            P.add_path(['a', 'b%d' % i])
        Q = Path(T)
        obs.check((P.size, P.len, Q.size) == (k, n, 0) and P.matches == [['a', 'b%d' % i] for i in range(k)], 'path', lambda: 'sizes %r after %d matches' % ((P.size, P.len, Q.size), k))
        nodes.append('y')
        edges.append('z')
        obs.check(str(T) == want, 'template-shared', lambda: 'the template changed with the lists it was made of: %s' % T)
        obs.see(want, k)
    else:
        left, right = rng.choice([0, 1, 2, 3]), rng.choice([0, 1, 2, 3])
        w = Window(left, right)
        seq = [rng.choice([None, 'w%d' % i, ItemNode(word='w%d' % i, lemma='l', pos='N')]) for i in range(rng.choice([0, 1, 3, 9]))]
        obs.n('windows')
        past = [None] * (left + right + 1)
        for x in seq:
            w.update(x)
            past.append(x)
            k = len(past)
            L, c, R = past[k - left - right - 1:k - right - 1], past[k - right - 1], past[k - right:] if right else []
            want = '%s, %s, %s' % (','.join(map(str, L)), c, ','.join(map(str, R)))
            obs.check(list(w.left) == L and w.node is c and list(w.right) == R, 'window', lambda: 'the window (%d, %d) over %r is %s instead of %s' % (left, right, past, w, want))
            obs.check(str(w) == want == repr(w), 'window-text', lambda: 'the window is printed as %r instead of %r' % (str(w), want))
        obs.see(left, right, len(seq))
        obs.nontrivial = len(seq) > left + right
