"""P18: no analysis call changes its inputs or shares state with them or with an earlier result."""
import copy
import os
import random
from collections import defaultdict

import numpy as np
import pandas as pd
import scipy.sparse as sp

from nephmon import mx
from nephmon.checks.p08 import is_sym
from nephmon.core import fresh_dir, rmtree

N = {'quick': 12000, 'thorough': 200000}
RULE = ('every case takes one call of the library (matrix operations, conversions, merges, association, distances, rankings, token weights and vectors, '
        'vocabulary operations, CBC steps, settings handling) with random inputs; all inputs are fingerprinted before and after the call; then every '
        'mutable part of a returned object (arrays, label lists, dicts, vocabularies) is overwritten in place and the inputs, an earlier result and a '
        'repeated call must be unaffected, and overwriting the inputs must not affect the earlier results; distinct by call and inputs')
ASSUMPTIONS = ['item indexing M[...], the attributes of an object and the constructor option deep=False hand out the stored data on purpose and are only '
               'checked for leaving the matrix unchanged',
               'the storage order of equal sparse entries is not observable state']


# ------------------------------------------------------------------ fingerprints
def num(v):
    v = v.item() if hasattr(v, 'item') else v
    return 'nan' if isinstance(v, float) and v != v else (v + 0 if isinstance(v, float) else v)


def snap(o, depth=0, seen=()):
    from nephosem import TypeTokenMatrix, Vocab
    if o is None or isinstance(o, (str, bytes, bool, int)):
        return o
    if isinstance(o, (float, np.generic)):
        return num(o)
    if id(o) in seen or depth > 12:
        return '...'
    seen = seen + (id(o),)
    rec = lambda x: snap(x, depth + 1, seen)        # noqa
    if isinstance(o, TypeTokenMatrix):
        return ('matrix', tuple(o.row_items), tuple(o.col_items), rec(o.matrix), rec(o._mxbehavior.matrix) if hasattr(o, '_mxbehavior') else None)
    if sp.issparse(o):
        c = o.tocoo()
        return ('sparse', o.shape, str(o.dtype), tuple(sorted((i, j, num(v)) for i, j, v in zip(c.row.tolist(), c.col.tolist(), c.data))))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ('oarray', o.shape, tuple(rec(x) for x in o.ravel()))
        return ('array', o.shape, str(o.dtype), tuple(num(x) for x in o.ravel()))
    if isinstance(o, Vocab):
        return ('vocab', tuple(o.items()), o.FILTERPRESENT)
    if isinstance(o, pd.DataFrame):
        return ('frame', tuple(o.index), tuple(o.columns), tuple(tuple(num(x) for x in r) for r in o.values))
    if isinstance(o, dict):
        return ('dict', tuple((rec(k), rec(v)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(rec(x) for x in o)
    if isinstance(o, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, o))))
    if hasattr(o, '__dict__'):
        return (type(o).__name__, rec(vars(o)))
    return repr(type(o))


def scribble(o, rng, seen=None):
    """overwrite every mutable part of o, deepest first; returns the number of places written"""
    from nephosem import TypeTokenMatrix, Vocab
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (str, bytes, bool, int, float, np.generic, frozenset)) or id(o) in seen:
        return 0
    seen[id(o)] = o
    n = 0
    if isinstance(o, TypeTokenMatrix):
        for part in (o.matrix, o.row_items, o.col_items, o.item2rowid, o.item2colid):
            n += scribble(part, rng, seen)
    elif sp.issparse(o):
        for part in ('data', 'indices', 'row', 'col', 'indptr'):
            a = getattr(o, part, None)
            if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
                if part == 'data':
                    a[...] = 1 if a.dtype == bool else 77
                elif part == 'indptr':
                    a[...] = 0
                else:
                    a[...] = a[::-1].copy()
                n += 1
    elif isinstance(o, np.ndarray):
        if o.dtype == object:
            for x in o.ravel():
                n += scribble(x, rng, seen)
        if o.flags.writeable and o.size:
            if o.dtype == bool:
                o[...] = ~o
            elif o.dtype.kind in 'if':
                o[...] = 77
            n += 1
    elif isinstance(o, Vocab):
        n += scribble(o.freq_dict, rng, seen)
    elif isinstance(o, pd.DataFrame):
        try:
            a = o.values
            if isinstance(a, np.ndarray) and a.dtype.kind in 'if' and a.flags.writeable and a.size:
                a[...] = 77
            if o.size:
                o.iloc[0, 0] = 78
            n += 1
        except (ValueError, TypeError):
            pass
    elif isinstance(o, dict):
        for v in list(o.values()):
            n += scribble(v, rng, seen)
        if isinstance(o, dict) and o and all(isinstance(v, (int, float)) for v in o.values()):
            for k in list(o):
                o[k] = 77
        o['<scribble>'] = 77
        for k in list(o)[:1]:
            if k != '<scribble>':
                del o[k]
        n += 1
    elif isinstance(o, list):
        for v in list(o):
            n += scribble(v, rng, seen)
        o.reverse()
        o.append('<scribble>')
        n += 1
    elif isinstance(o, tuple):
        for v in o:
            n += scribble(v, rng, seen)
    elif isinstance(o, set):
        o.add('<scribble>')
        n += 1
    elif hasattr(o, '__dict__') and type(o).__module__.startswith('nephosem'):
        n += scribble(vars(o), rng, seen)
        vars(o).pop('<scribble>', None)
    return n


# ------------------------------------------------------------------ the calls
def some(rng, items, n=None):
    items = list(items)
    rng.shuffle(items)
    return items[:n if n is not None else rng.randint(1, max(1, len(items)))]


def recipe(rng, **kw):
    m = mx.make(rng, **kw)
    m['unsorted'] = m['kind'] == 'csr' and rng.random() < .25
    return m


def square(rng, kind='sym', n=None, metric=True):
    """a distance-like matrix"""
    n = n or rng.choice([2, 3, 4, 6, 9])
    items = mx.labels(rng, n)
    cells = {}
    for i in range(n):
        for j in range(i, n):
            cells[i, j] = cells[j, i] = 0.0 if i == j else round(rng.random(), 6) + 0.01
    return {'kind': 'sym', 'dtype': 'float', 'rows': items, 'cols': list(items), 'cells': cells}


def freqm(rng, n=None, m=None):
    """frequencies without empty rows"""
    n, m = n or rng.choice([3, 4, 6, 8]), m or rng.choice([4, 6, 9])
    cells = {(i, j): rng.randint(1, 30) for i in range(n) for j in range(m) if rng.random() < .6 or j == i % m}
    return {'kind': 'csr', 'dtype': 'int', 'rows': mx.labels(rng, n), 'cols': mx.labels(rng, m), 'cells': cells}


def vocab_of(rng, n=None):
    return {w: rng.choice([1, 1, 2, 3, 10, 500]) for w in mx.labels(rng, n if n is not None else rng.choice([0, 1, 3, 8]))}


SETTINGS = {'corpus-path': '/nonexistent', 'line-machine': r'([^\t]+)\t([^\t]+)\t([^\t]+)', 'separator-line-machine': '</?s>', 'global-columns': 'word,lemma,pos',
            'type': 'lemma/pos', 'token': 'lemma/pos/fid/lid', 'left-span': 2, 'right-span': 2, 'boundary-detection-mechanism': 'single',
            'file-encoding': 'utf-8', 'extra': ['a', {'b': [1]}]}


def measures():
    return ['pmi', 'ppmi', 'lik', 'chisq', 'zscore', 'dice', 'deltap', 'logratio']


def op_table():
    """name -> (make inputs(rng) -> dict, call(inputs) -> result, flags)"""
    from nephosem import TypeTokenMatrix, Vocab, ItemFreqHandler, ColFreqHandler, TokenHandler
    from nephosem import utils
    from nephosem.core.terms import CorpusFormatter
    from nephosem.conf import ConfigLoader
    from nephosem.models import cbc
    from nephosem.specutils import mxcalc, mxutils
    T = {}

    def op(name, make, call, **flags):
        T[name] = (make, call, flags)

    def anym(rng):
        return {'m': mx.build(recipe(rng))}

    def withsel(rng):
        d = anym(rng)
        M = d['m']
        d['row'] = some(rng, M.row_items)
        d['col'] = d['row'] if is_sym(M) else some(rng, M.col_items)
        if rng.random() < .3:
            d['row'], d['col'] = list(M.row_items), list(M.col_items)
        return d

    def sparse(rng, **kw):
        return {'m': mx.build(recipe(rng, kind=rng.choice(['csr', 'csc']), **kw))}

    def single(rng):
        return {'m': mx.build(recipe(rng, kind=rng.choice(['csr', 'dense', 'csc'])))}

    for nm, f in [('lt', lambda M, v: M < v), ('le', lambda M, v: M <= v), ('gt', lambda M, v: M > v), ('ge', lambda M, v: M >= v)]:
        op(nm, lambda r: dict(single(r), v=r.choice([-1, 0, 1, 2.5])), lambda a, f=f: f(a['m'], a['v']))
    for ax in (0, 1):
        op('sum%d' % ax, anym, lambda a, ax=ax: a['m'].sum(axis=ax))
        op('count_nonzero%d' % ax, single, lambda a, ax=ax: a['m'].count_nonzero(axis=ax))
        op('drop_empty%d' % ax, sparse, lambda a, ax=ax: a['m'].drop_empty(axis=ax))
        op('drop%d' % ax, lambda r: dict(sparse(r), k=r.choice([-1, 0, 1])), lambda a, ax=ax: a['m'].drop(axis=ax, n_nonzero=a['k']))
    op('sum', anym, lambda a: a['m'].sum())
    op('submatrix', withsel, lambda a: a['m'].submatrix(row=a['row'], col=a['col']))
    op('submatrix-row', withsel, lambda a: a['m'].submatrix(row=a['row']))
    op('submatrix-col', withsel, lambda a: a['m'].submatrix(col=a['col']))
    op('submatrix-all', anym, lambda a: a['m'].submatrix())
    op('reorder0', lambda r: (lambda d: dict(d, i=some(r, d['m'].row_items, 99)))(single(r)), lambda a: a['m'].reorder(a['i'], axis=0))
    op('reorder1', lambda r: (lambda d: dict(d, i=some(r, d['m'].col_items, 99)))(single(r)), lambda a: a['m'].reorder(a['i'], axis=1))
    op('reorder-same', single, lambda a: a['m'].reorder(a['m'].row_items, axis=0))
    op('sample', single, lambda a: a['m'].sample(percent=0.6, seed=3))
    op('empty_rows', sparse, lambda a: a['m'].empty_rows())
    op('transpose', anym, lambda a: a['m'].transpose())
    op('todense', sparse, lambda a: a['m'].todense())
    op('copy', anym, lambda a: a['m'].copy())
    op('deepcopy', anym, lambda a: a['m'].deepcopy())
    op('pycopy', anym, lambda a: copy.deepcopy(a['m']))
    op('get_matrix', anym, lambda a: a['m'].get_matrix())
    op('dataframe', anym, lambda a: a['m'].dataframe)
    op('describe', anym, lambda a: (a['m'].describe(), str(a['m']), repr(a['m']))[1:])
    op('print_matrix', anym, lambda a: a['m'].print_matrix(n_rows=3, n_cols=3))
    op('equal', lambda r: dict(anym(r), **{'n': mx.build(recipe(r))}), lambda a: bool(a['m'].equal(a['m'].deepcopy())), )
    op('get_colloc_contexts', sparse, lambda a: a['m'].get_colloc_contexts(a['m'].row_items[0]))
    op('spmatrix_to_dict', sparse, lambda a: a['m'].spmatrix_to_dict())
    op('index', anym, lambda a: [copy.deepcopy(x) for x in (a['m'][0], a['m'][0, 0], a['m'][:1], a['m'][a['m'].row_items[-1]], a['m'][:, :1])], view=True)
    op('most_similar', lambda r: {'m': mx.build(square(r)), 'k': r.choice([1, 2, 5])}, lambda a: a['m'].most_similar(a['m'].row_items[0], k=a['k']))

    def two(r):
        m = recipe(r, kind=r.choice(['csr', 'csc']), dtype=r.choice(['int', 'float']))
        n = recipe(r, kind='csr', dtype=m['dtype'], rows=m['rows'], cols=m['cols'])
        return {'m': mx.build(m), 'n': mx.build(n)}

    def twodense(r):
        m = recipe(r, kind='dense', dtype='float')
        return {'m': mx.build(m), 'n': mx.build(recipe(r, kind='dense', dtype='float', rows=m['rows'], cols=m['cols']))}
    op('multiply', two, lambda a: a['m'].multiply(a['n']))
    op('multiply-dense', twodense, lambda a: a['m'].multiply(a['n']))

    def conc(r, axis):
        m = recipe(r, kind='csr', dtype='float')
        pool = ['new%d' % i for i in range(r.choice([1, 3]))]
        n = recipe(r, kind='csr', dtype='float', rows=pool if axis == 0 else m['rows'], cols=m['cols'] if axis == 0 else pool)
        if r.random() < .4:
            m['kind'] = n['kind'] = 'dense'
        return {'m': mx.build(m), 'n': mx.build(n)}
    for ax in (0, 1):
        op('concatenate%d' % ax, lambda r, ax=ax: conc(r, ax), lambda a, ax=ax: a['m'].concatenate(a['n'], axis=ax))
    op('merge', lambda r: {'m': mx.build(recipe(r, kind='csr', dtype='int')), 'n': mx.build(recipe(r, kind='csr', dtype='int'))}, lambda a: a['m'].merge(a['n']))

    def raw(r):
        m = recipe(r)
        return {'x': mx.build_raw(m), 'r': list(m['rows']), 'c': list(m['cols'])}
    op('constructor', raw, lambda a: TypeTokenMatrix(a['x'], a['r'], a['c']))

    def frame(r):
        m = recipe(r, kind='dense', dtype='float')
        return {'df': pd.DataFrame(mx.build_raw(m), index=list(m['rows']), columns=list(m['cols']))}
    op('from_dataframe', frame, lambda a: TypeTokenMatrix.from_dataframe(a['df'], issparse=True))
    op('from_dataframe-dense', frame, lambda a: TypeTokenMatrix.from_dataframe(a['df'], issparse=False))

    def saved(a, f):
        d = fresh_dir('p18')
        try:
            return f(a, os.path.join(d, 'x'))
        finally:
            rmtree(d)
    op('save-load', anym, lambda a: saved(a, lambda a, f: (a['m'].save(f, verbose=False), TypeTokenMatrix.load(f + '.pac' if not f.endswith('.pac') else f))[1]))
    op('to_csv', anym, lambda a: saved(a, lambda a, f: (a['m'].to_csv(f, verbose=False), open(f).read())[1]))
    # ---- conversions and merges
    op('merge_two_matrices', two, lambda a: mxutils.merge_two_matrices(a['m'], a['n']))

    def twocols(r):
        m = recipe(r, kind='csr', dtype='int')
        return {'m': mx.build(m), 'n': mx.build(recipe(r, kind='csr', dtype='int', rows=m['rows']))}
    op('merge_two_matrices-cols', twocols, lambda a: mxutils.merge_two_matrices(a['m'], a['n']))

    def several(r):
        m = recipe(r, kind='csr', dtype='int')
        out = [m]
        for _ in range(r.choice([0, 1, 2])):
            out.append(recipe(r, kind='csr', dtype='int', rows=m['rows'], cols=m['cols']) if r.random() < .6 else recipe(r, kind='csr', dtype='int'))
        if not any(x['cells'] for x in out):
            out[0]['cells'][0, 0] = 3
        return {'ms': [mx.build(x) for x in out]}
    op('merge_matrices', several, lambda a: mxutils.merge_matrices(a['ms']))
    op('transform_indices', lambda r: (lambda d: dict(d, c=some(r, list(d['m'].col_items) + ['+', '++'], 999)))(sparse(r)), lambda a: mxutils.transform_indices(a['m'], a['c']))

    def dd(r):
        m = recipe(r, kind='csr', dtype=r.choice(['int', 'float']), density=1.0)
        d = {}
        for (i, j), v in m['cells'].items():
            d.setdefault(m['rows'][i], {})[m['cols'][j]] = v
        d.setdefault(m['rows'][0], {})[m['cols'][0]] = 4
        return {'d': d, 'r': list(m['rows']), 'c': list(m['cols'])}
    op('transform_dict_to_spmatrix', dd, lambda a: mxutils.transform_dict_to_spmatrix(a['d'], a['r'], a['c']))
    op('merge_matrix_dict', lambda r: {'ds': [dd(r)['d'] for _ in range(r.choice([1, 2, 3]))]}, lambda a: mxutils.merge_matrix_dict(a['ds']))
    op('transform_spmatrix_to_dict', lambda r: (lambda M: {'x': M.matrix, 'r': M.row_items, 'c': M.col_items})(sparse(r)['m']),
       lambda a: mxutils.transform_spmatrix_to_dict(a['x'], a['r'], a['c']))
    for nm in ('get_largest_k', 'get_smallest_k'):
        op(nm, lambda r: {'x': np.array([r.random() for _ in range(r.choice([1, 3, 7]))]), 'k': r.choice([1, 2, 9])}, lambda a, nm=nm: getattr(mxutils, nm)(a['x'], a['k']))
    for nm in ('centroid_of_cluster', 'sum_of_cluster'):
        op(nm, lambda r: {'x': np.array([[r.random() for _ in range(4)] for _ in range(3)]), 'c': [0, 2]}, lambda a, nm=nm: getattr(mxutils, nm)(a['x'], a['c']))

    # ---- measures
    def fr(r):
        M = mx.build(freqm(r))
        return {'m': M, 'nf': Vocab(M.sum(axis=1)), 'cf': Vocab(M.sum(axis=0))}
    for me in measures():
        op('association-' + me, fr, lambda a, me=me: mxcalc.compute_association(a['m'], a['nf'], a['cf'], meas=me))
    op('calc_association', lambda r: (lambda M: {'x': M.matrix, 'n': np.asarray(M.matrix.sum(axis=1)).ravel(), 'c': np.asarray(M.matrix.sum(axis=0)).ravel()})(mx.build(freqm(r))),
       lambda a: mxcalc.calc_association(a['x'], a['n'], a['c'], N=int(a['n'].sum()), meas='ppmi'))
    op('compute_ppmi', fr, lambda a: mxcalc.compute_ppmi(a['m'], nfreq=a['nf'], cfreq=a['cf']))
    op('compute_ppmi-own', fr, lambda a: mxcalc.compute_ppmi(a['m']))
    for me in ('cosine', 'euclidean', 'cityblock'):
        op('distance-' + me, lambda r: {'m': mx.build(r.choice([freqm(r), recipe(r, kind='dense', dtype='float')]))}, lambda a, me=me: mxcalc.compute_distance(a['m'], metric=me))
    op('distance-axis1', lambda r: {'m': mx.build(r.choice([freqm(r), recipe(r, kind='dense', dtype='float')]))}, lambda a: mxcalc.compute_distance(a['m'], axis=1))
    op('cosine', lambda r: {'m': mx.build(r.choice([freqm(r), recipe(r, kind='dense', dtype='float')]))}, lambda a: mxcalc.compute_cosine(a['m']))
    op('cosine-axis1', lambda r: {'m': mx.build(freqm(r))}, lambda a: mxcalc.compute_cos(a['m'], axis=1))
    for rev in (False, True):
        op('simrank-%s' % rev, lambda r: {'m': mx.build(square(r))}, lambda a, rev=rev: mxcalc.compute_simrank(a['m'], reverse=rev))

    def tok(r):
        types = ['walk/V', 'run/V', 'cat/N']
        toks = ['%s/f%d/%d' % (r.choice(types), r.choice([1, 2]), i + 1) for i in range(r.choice([1, 3, 5]))]
        ctx = mx.labels(r, r.choice([2, 4, 6]))
        rows2 = some(r, ctx, 99) if r.random() < .5 else list(ctx)
        return {'p': mx.build(recipe(r, kind='csr', dtype='sint', rows=toks, cols=ctx, density=.6)),
                'w': mx.build(recipe(r, kind='csr', dtype='pos', rows=some(r, types, 99), cols=ctx, density=.8)),
                's': mx.build(recipe(r, kind='csr', dtype='pos', rows=rows2, cols=mx.labels(r, 3), density=.8))}
    for b in (True, False):
        op('token_weights-%s' % b, tok, lambda a, b=b: mxcalc.compute_token_weights(a['p'], a['w'], booleanize=b))
    for o in ('addition', 'weightedmean', 'multiplication'):
        for nrm in ('l1', 'no'):
            op('token_vectors-%s-%s' % (o, nrm), tok, lambda a, o=o, nrm=nrm: mxcalc.compute_token_vectors(abs_(a['p']), a['s'], operation=o, normalization=nrm))

    def abs_(P):
        return P

    # ---- vocabularies
    def voc(r):
        d = vocab_of(r)
        if r.random() < .3:
            dd_ = defaultdict(int)
            dd_.update(d)
            d = dd_
        return {'v': Vocab(d), 'i': some(r, list(d) + ['absent'], 3)}
    op('vocab', lambda r: {'d': vocab_of(r)}, lambda a: Vocab(a['d']))
    op('vocab-frame', lambda r: {'df': Vocab(vocab_of(r, 4)).dataframe}, lambda a: Vocab(a['df']))
    op('vocab-items', lambda r: voc(r), lambda a: a['v'][a['i']])
    op('vocab-freqs', lambda r: voc(r), lambda a: a['v'][[1, 2]])
    op('vocab-slice', lambda r: voc(r), lambda a: a['v'][:2])
    op('vocab-full-slice', lambda r: voc(r), lambda a: a['v'][:])
    op('vocab-cond', lambda r: voc(r), lambda a: a['v'][a['v'].freq > 1, a['v'].freq < 100])
    op('vocab-lookup', lambda r: voc(r), lambda a: [a['v'][k] for k in a['v'].keys()] + ['absent' in a['v'], len(a['v'])])
    op('vocab-absent', lambda r: voc(r), lambda a: absent(a['v']))
    op('subvocab', lambda r: voc(r), lambda a: a['v'].subvocab(a['i']))
    for srt in ('alpha', 'freq'):
        for desc in (True, False):
            op('item_list-%s-%s' % (srt, desc), lambda r: voc(r), lambda a, srt=srt, desc=desc: a['v'].get_item_list(sorting=srt, descending=desc))
    op('match', lambda r: {'v': Vocab(vocab_of(r, 4))}, lambda a: a['v'].match('item', '[a-m]'))
    for nm in ('copy', 'deepcopy', 'get_dict', 'keys', 'values', 'items', 'sum', 'isEmpty', 'describe'):
        op('vocab-' + nm, lambda r: voc(r), lambda a, nm=nm: getattr(a['v'], nm)())
    op('vocab-pycopy', lambda r: voc(r), lambda a: copy.deepcopy(a['v']))
    op('vocab-dataframe', lambda r: voc(r), lambda a: a['v'].dataframe)
    op('select_items', lambda r: voc(r), lambda a: a['v'].select_items('walk'))
    op('vocab-equal', lambda r: voc(r), lambda a: a['v'].equal(a['v'].copy()))
    op('sort_dict', lambda r: {'d': vocab_of(r)}, lambda a: utils.sort_dict(a['d']))
    op('vocab-save', lambda r: voc(r), lambda a: saved(a, lambda a, f: (a['v'].save(f, verbose=False), Vocab.load(f))[1]))

    def absent(v):
        try:
            return v['<absent>']
        except KeyError:
            return 'KeyError'

    # ---- clustering
    def clusters(r):
        els = mx.labels(r, 6)
        return {'L': [(round(r.random() * 2 - .4, 2), some(r, els, r.choice([1, 2, 3]))) for _ in range(r.choice([1, 4, 8]))]}
    op('clean_clusters', clusters, lambda a: cbc.clean_clusters(a['L']))
    op('remove_duplicate', clusters, lambda a: cbc.remove_duplicate(a['L']))
    op('remove_superset', clusters, lambda a: cbc.remove_superset([(s, set(c)) for s, c in a['L']], cbc.inverted_index(a['L'])))

    def cb(r):
        F = mx.build(freqm(r, 7, 8))
        P = mxcalc.compute_ppmi(F)
        D = mxcalc.compute_distance(P)
        E = list(F.row_items)
        D2 = D.matrix.copy()
        D2 = (D2 + D2.T) / 2
        np.fill_diagonal(D2, 0)
        return {'e': E, 'f': F, 'p': P, 'd': TypeTokenMatrix(D2, E, E), 'x': F.matrix.toarray().astype(float), 'px': P.matrix.toarray()}
    op('cbc-init', cb, lambda a: vars(cbc.CBC(a['e'], a['f'], measmx=a['p'], distmx=a['d'])) and [
        cbc.CBC(a['e'], a['f'], measmx=a['p'], distmx=a['d']).freqmx, cbc.CBC(a['e'], a['f'], measmx=a['p'], distmx=a['d']).distmx])
    op('cbc-step1', cb, lambda a: cbc.cbc_step1_single(a['e'], distmx=a['d'], k=4))
    op('cbc-steps', cb, lambda a: cbc.major_steps(cbc.CBC(a['e'], a['f'], measmx=a['p'], distmx=a['d'], k=4), eles=a['e'], multicore=False))

    def s2(r):
        d = cb(r)
        d['L'] = [(s, list(c)) for s, c in cbc.cbc_step1_single(d['e'], distmx=d['d'], k=4)]
        return d
    op('cbc-step2', s2, lambda a: cbc.cbc_step2(a['L'], elements=a['e'], freqmx=a['x'], ppmimx=a['px']))
    op('cbc-step3', lambda r: dict(cb(r), comms=[['x'], ['y']], cx=np.array([[r.random() for _ in range(8)] for _ in range(2)])),
       lambda a: cbc.cbc_step3(a['e'], measmx=a['px'], comms=a['comms'], commx=a['cx']))
    op('committee_vectors', cb, lambda a: cbc.calc_committee_vectors([[0, 1], [2, 3, 4]], freqmx=a['x']))
    op('merged_committee', lambda r: {'m': mx.build_raw(square(r))}, lambda a: cbc.get_merged_committee(a['m']))
    op('hierarchical', lambda r: {'x': np.array([r.random() for _ in range(6)])}, lambda a: dict(cbc.hierarchical_cluster(a['x'])))

    # ---- settings
    def sett(r):
        s = copy.deepcopy(SETTINGS)
        if r.random() < .5:
            s['colloc'] = 'lemma'
        if r.random() < .5:
            s['tmp-path'] = fresh_tmp()
        return {'s': s}

    def fresh_tmp():
        return os.path.join(os.environ['HOME'], 'p18tmp')
    op('formatter', sett, lambda a: CorpusFormatter(a['s']).settings)
    op('item-handler', sett, lambda a: ItemFreqHandler(a['s'], workers=2).settings)
    op('col-handler', lambda r: dict(sett(r), v=Vocab(vocab_of(r)), w=Vocab(vocab_of(r))), lambda a: ColFreqHandler(a['s'], workers=2, row_vocab=a['v'], col_vocab=a['w']).settings)
    op('tok-handler', lambda r: dict(sett(r), v=Vocab(vocab_of(r)), w=Vocab(vocab_of(r))), lambda a: TokenHandler(a['v'], settings=a['s'], workers=2, col_vocab=a['w']).settings)
    op('config', lambda r: {}, lambda a: ConfigLoader().settings)
    return T


_table = {}
FILE_OPS = 'save-load to_csv vocab-save item-handler col-handler tok-handler'.split()


def table():
    if not _table:
        _table.update(op_table())
    return _table


NAMES = ('lt le gt ge sum0 count_nonzero0 drop_empty0 drop0 sum1 count_nonzero1 drop_empty1 drop1 sum submatrix submatrix-row submatrix-col submatrix-all '
         'reorder0 reorder1 reorder-same sample empty_rows transpose todense copy deepcopy pycopy get_matrix dataframe describe print_matrix equal '
         'get_colloc_contexts spmatrix_to_dict index most_similar multiply multiply-dense concatenate0 concatenate1 merge constructor from_dataframe '
         'from_dataframe-dense save-load to_csv merge_two_matrices merge_two_matrices-cols merge_matrices transform_indices transform_dict_to_spmatrix '
         'merge_matrix_dict transform_spmatrix_to_dict get_largest_k get_smallest_k centroid_of_cluster sum_of_cluster association-pmi association-ppmi '
         'association-lik association-chisq association-zscore association-dice association-deltap '
         'association-logratio calc_association compute_ppmi compute_ppmi-own distance-cosine distance-euclidean distance-cityblock distance-axis1 cosine '
         'cosine-axis1 simrank-False simrank-True token_weights-True token_weights-False token_vectors-addition-l1 token_vectors-addition-no '
         'token_vectors-weightedmean-l1 token_vectors-weightedmean-no token_vectors-multiplication-l1 token_vectors-multiplication-no vocab vocab-frame '
         'vocab-items vocab-freqs vocab-slice vocab-full-slice vocab-cond vocab-lookup vocab-absent subvocab item_list-alpha-True item_list-alpha-False '
         'item_list-freq-True item_list-freq-False match vocab-copy vocab-deepcopy vocab-get_dict vocab-keys vocab-values vocab-items() vocab-sum '
         'vocab-isEmpty vocab-describe vocab-pycopy vocab-dataframe select_items vocab-equal sort_dict vocab-save clean_clusters remove_duplicate '
         'remove_superset cbc-init cbc-step1 cbc-steps cbc-step2 cbc-step3 committee_vectors merged_committee hierarchical formatter '
         'item-handler col-handler tok-handler config').replace(' vocab-items()', '').split()
REQUIRED = {'scribbled': 40000, 'inputs_compared': 15000, 'results_compared': 30000}
REQUIRED.update({'op_' + n: 15 for n in NAMES})


def gen(rng, idx, tier):
    return {'op': NAMES[idx % len(NAMES)], 'seed': rng.randrange(1 << 40)}


def run(case, obs):
    import contextlib
    import io
    import random as _r
    make, call, flags = table()[case['op']]
    rng = random.Random(case['seed'])
    a = make(rng)
    for v in a.values():                                # fill the lazily built label maps first, half of the time
        if hasattr(v, 'item2rowid') and rng.random() < .5:
            v.item2rowid, v.item2colid
    name = case['op']

    def do():
        _r.seed(1)
        np.random.seed(1)
        with contextlib.redirect_stdout(io.StringIO()):
            return call(a)
    before = {k: snap(v) for k, v in a.items()}
    obs.see(name, before)

    def inputs(stage):
        for k, v in a.items():
            obs.n('inputs_compared')
            s = snap(v)
            if s != before[k]:
                obs.bad('%s-%s-input' % (name, stage), '%s %s argument %r: %r became %r' % (
                    name, 'modified its' if stage == 'changes' else 'shares state between its result and its', k, before[k], s))
                return False
        return True
    try:
        r1 = do()
    except Exception:          # an error leaves the inputs alone as well
        obs.n('refused')
        inputs('changes')
        return
    obs.n('op_' + name)
    s1 = snap(r1)
    if not inputs('changes'):
        return
    r2 = do()
    s2 = snap(r2)
    obs.n('results_compared', 2)
    obs.check(s2 == s1, name + '-repeat-differs', lambda: '%s returned %r the second time instead of %r' % (name, s2, s1))
    if not obs.check(snap(r1) == s1, name + '-second-call-changes-first-result', lambda: '%s: the first result became %r after a second call, was %r' % (name, snap(r1), s1)):
        return
    if flags.get('view'):
        inputs('changes')
        obs.nontrivial = True
        return
    k = scribble(r2, rng)
    obs.n('scribbled', k)
    obs.nontrivial = k > 0
    if not inputs('shares'):
        return
    obs.check(snap(r1) == s1, name + '-shares-earlier-result', lambda: '%s: overwriting a result changed an earlier result from %r to %r' % (name, s1, snap(r1)))
    r3 = do()
    obs.n('results_compared', 2)
    obs.check(snap(r3) == s1, name + '-call-after-overwrite-differs', lambda: '%s returned %r after an earlier result was overwritten, before %r' % (name, snap(r3), s1))
    # the other way round: overwriting the inputs leaves the results alone
    seen = {}
    for v in a.values():
        scribble(v, rng, seen)
    obs.check(snap(r3) == s1, name + '-result-follows-input', lambda: '%s: the result became %r when its inputs were overwritten, was %r' % (name, snap(r3), s1))


TECHNIQUE = 'runtime monitoring: state fingerprints of inputs and results around each call, with hostile in-place overwriting of results and inputs'
LEVEL = 'monitoring'
