"""P11: CSV export and import preserve labels and values."""
import csv
import io
import os

import numpy as np

from nephmon import mx
from nephmon.core import fresh_dir, rmtree

N = {'quick': 9000, 'thorough': 120000}
RULE = ('random sparse/dense matrices (derived ones included) written with to_csv and read back with read_csv(index_col=0) and, independently, '
        'with the csv module; separators tab, comma, semicolon, pipe; encodings; labels that look like numbers, missing values or contain '
        'separators and quotes; distinct by table and options')
REQUIRED = {'round_trips': 1500, 'raw_reads': 1500, 'numeric_labels': 200, 'missing_like_labels': 200, 'derived': 200, 'square': 200}
ASSUMPTIONS = ['labels are distinct strings without control characters; column labels are not empty',
               'numbers agree to a relative 1e-12 (decimal notation of the CSV file)']
MISSING = ('NaN', 'null', 'nan', 'NA', 'None', 'n/a')


def gen(rng, idx, tier):
    enc = rng.choice(['utf-8', 'utf-8', None, 'utf-16', 'latin-1'])
    pool = [w for w in mx.WORDS[:-1] + ['None', 'n/a', '00', '1_000', '0x1F', 'a,b;c|d', ' lead', 'trail ', '#c', "''", '"'] if enc != 'latin-1' or ord(max(w)) < 256]
    m = mx.make(rng, pool=pool)
    m['unsorted'] = m['kind'] in ('csr', 'csc') and rng.random() < 0.3
    return {'m': m, 'enc': enc, 'sep': rng.choice(['\t', '\t', ',', ';', '|', None]), 'issparse': rng.random() < .5, 'derive': rng.choice(['', '', '', 'T', 'gt', 'dense', 'cat'])}


def run(case, obs):
    from nephosem import TypeTokenMatrix
    m = case['m']
    M, T = mx.build(m), mx.model(m)
    d = case['derive']
    try:
        if d == 'T':
            M, T = M.transpose(), T.t()
        elif d == 'gt':
            M = M > 0.5
            T = mx.view(M)
        elif d == 'dense' and T.sparse:
            M, T = M.todense(), T.dense()
        elif d == 'cat':
            o = mx.make(rng_of(case), kind='csr' if T.sparse else 'dense', rows=['kk1', 'kk2'], cols=T.cols)
            M = M.concatenate(mx.build(o))
            T = mx.view(M)
        obs.n('derived', int(bool(d)))
    except NotImplementedError:
        pass
    obs.n('square', int(T.rows == T.cols))
    labs = T.rows + T.cols
    obs.n('numeric_labels', int(any(w.lstrip('-').replace('.', '').replace('e', '').isdigit() for w in labs)))
    obs.n('missing_like_labels', int(any(w in MISSING for w in labs)))
    base = fresh_dir('v')
    f = os.path.join(base, 'm.csv')
    kw = {}
    if case['enc']:
        kw['encoding'] = case['enc']
    if case['sep']:
        kw['sep'] = case['sep']
    what = 'CSV (%r) of %r' % (kw, T)
    before = mx.view(M)
    try:
        try:
            M.to_csv(f, **kw)
        except Exception as e:
            obs.bad('to_csv-raised', '%s raised %r' % (what, e))
            return
        obs.check(not mx.diff(before, mx.view(M)), 'to_csv-changed', what)
        # the file itself, read by another reader
        with open(f, encoding=case['enc'] or 'utf-8', newline='') as fh:
            rows = list(csv.reader(fh, delimiter=case['sep'] or '\t'))
        obs.n('raw_reads')
        obs.check(rows[0][1:] == T.cols and [r[0] for r in rows[1:]] == T.rows, 'file-labels', lambda: '%s: header %r, index %r' % (what, rows[0], [r[0] for r in rows[1:]]))
        for r, line in zip(T.rows, rows[1:]):
            for c, x in zip(T.cols, line[1:]):
                v = {'True': 1, 'False': 0}.get(x)
                v = float(x) if v is None else v
                obs.check(mx.same_num(v, T.get(r, c), 1e-12), 'file-values', lambda: '%s: cell (%r, %r) written as %r' % (what, r, c, x))
        try:
            R = TypeTokenMatrix.read_csv(f, index_col=0, issparse=case['issparse'], **kw)
        except Exception as e:
            obs.bad('read_csv-raised', '%s raised %r' % (what, e))
            return
        obs.n('round_trips')
        obs.nontrivial = len(T.cells) > 1
        try:
            got = mx.view(R)
        except AssertionError as e:
            obs.bad('read_csv-malformed', '%s: %s' % (what, e))
            return
        dd = mx.diff(mx.Tab(T.rows, T.cols, T.cells, case['issparse']), got, tol=1e-12, stored=False)
        obs.check(not dd, 'round-trip-differs', lambda: '%s: %s' % (what, dd))
        obs.see(what, case['issparse'])
    finally:
        rmtree(base)


def rng_of(case):
    import random
    return random.Random(str(case['m']))
