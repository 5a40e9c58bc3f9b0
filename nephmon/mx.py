"""Label-keyed model of a matrix: what a TypeTokenMatrix means, independent of its storage."""
import math

import numpy as np
import scipy.sparse as sp

WORDS = ['walk/V', 'run/V', 'the/DT', 'and/or/C', 'cat/N', 'dog/N', 'café/N', 'Übung/N', 'x', 'a', "o'clock/N", 'b c', 'new york/N',
         'e-mail', '日本/N', 'row0', 'z,z', 'semi;colon', 'q"q', "it's", '~', 'A', 'ζ', 'NaN', 'null', '12', '007', '1.5', 'nan', 'NA', 'True', '-3', '1e5', '']
PLAIN = WORDS[:28]


def labels(rng, n, pool=None, prefix=''):
    pool = list(pool or WORDS[:-1])
    rng.shuffle(pool)
    out = pool[:n]
    i = 0
    while len(out) < n:
        out.append('%sw%d/N' % (prefix, i))
        i += 1
    if rng.random() < 0.4:
        out.sort()
    return out


def number(rng, kind):
    if kind == 'int':
        return rng.choice([1, 1, 2, 3, 5, 7, 10, 100, 4000, 1 << 33])
    if kind == 'sint':
        return rng.choice([1, -1, 2, -2, 3, -7, 12])
    if kind == 'small':
        return rng.choice([1, 1, 2, 3])
    if kind == 'float':
        return rng.choice([0.5, -0.5, 1.25, 2.0, -1.75, 1e-7, 3.1415926535, 1e12, rng.random(), -rng.random(), rng.random() * 10])
    if kind == 'pos':
        return rng.choice([0.5, 1.25, 2.0, 1e-7, 3.1415926535, 1e6, rng.random(), rng.random() * 10])
    if kind == 'bool':
        return True
    raise ValueError(kind)


DT = {'int': np.int64, 'sint': np.int64, 'small': np.int64, 'float': np.float64, 'pos': np.float64, 'bool': bool}


def make(rng, kind=None, shape=None, dtype=None, rows=None, cols=None, explicit=None, density=None, pool=None):
    """A recipe (plain data) for one matrix. kinds: csr csc dense square sym"""
    kind = kind or rng.choice(['csr', 'csr', 'csr', 'csr', 'csc', 'dense', 'dense', 'square', 'sym'])
    dtype = dtype or rng.choice(['int', 'sint', 'float', 'small', 'pos'] + (['bool'] if kind in ('csr', 'dense') else []))
    nr, nc = shape or (rng.choice([1, 1, 2, 3, 4, 5, 7, 12]), rng.choice([1, 1, 2, 3, 4, 5, 7, 12]))
    if rows is not None:
        nr = len(rows)
    if cols is not None:
        nc = len(cols)
    if kind in ('square', 'sym'):
        nc = nr
    rows = list(rows) if rows is not None else labels(rng, nr, pool, 'r')
    if kind == 'sym':
        cols = list(rows)
    elif cols is None:
        cols = list(rows) if nr == nc and rng.random() < 0.4 else labels(rng, nc, pool, 'c')
    dens = density if density is not None else rng.choice([0.0, 0.15, 0.4, 0.7, 1.0])
    exp = explicit if explicit is not None else (rng.random() < 0.35)
    cells = {}
    for i in range(nr):
        empty = rng.random() < 0.15
        for j in range(nc):
            if kind == 'sym' and j < i:
                if (j, i) in cells:
                    cells[i, j] = cells[j, i]
                continue
            if rng.random() < dens and not empty:
                v = number(rng, dtype)
                if exp and rng.random() < 0.3:
                    v = 0
                cells[i, j] = v
    return {'kind': kind, 'dtype': dtype, 'rows': rows, 'cols': cols, 'cells': cells}


def build_raw(m, rng=None):
    dt = DT[m['dtype']]
    n = (len(m['rows']), len(m['cols']))
    if m['kind'] in ('csr', 'csc'):
        keys = sorted(m['cells'])
        data = np.array([m['cells'][k] for k in keys], dtype=dt)
        r = np.array([k[0] for k in keys], dtype=np.int32)
        c = np.array([k[1] for k in keys], dtype=np.int32)
        x = sp.csr_matrix((data, (r, c)), shape=n)
        if m['kind'] == 'csc':
            x = sp.csc_matrix((data, (r, c)), shape=n)
        if m.get('unsorted'):       # library results often have unsorted indices inside a row
            x = x.copy()
            for i in range(len(x.indptr) - 1):
                a, b = x.indptr[i], x.indptr[i + 1]
                x.indices[a:b] = x.indices[a:b][::-1].copy()
                x.data[a:b] = x.data[a:b][::-1].copy()
            x.has_sorted_indices = False
        return x
    a = np.zeros(n, dtype=dt)
    for (i, j), v in m['cells'].items():
        a[i, j] = v
    return a


def build(m):
    from nephosem import TypeTokenMatrix
    return TypeTokenMatrix(build_raw(m), list(m['rows']), list(m['cols']))


def model(m):
    """Tab of a recipe"""
    sparse = m['kind'] in ('csr', 'csc')
    cells = {}
    for (i, j), v in m['cells'].items():
        cells[m['rows'][i], m['cols'][j]] = v
    if not sparse:
        cells = {(r, c): cells.get((r, c), 0) for r in m['rows'] for c in m['cols']}
    return Tab(m['rows'], m['cols'], cells, sparse)


class Tab(object):
    """ordered row labels, ordered column labels, stored cells by label (dense: every cell)"""

    def __init__(self, rows, cols, cells, sparse):
        self.rows, self.cols, self.cells, self.sparse = list(rows), list(cols), dict(cells), sparse

    def get(self, r, c):
        return self.cells.get((r, c), 0)

    def sub(self, rows=None, cols=None):
        rows = self.rows if rows is None else list(rows)
        cols = self.cols if cols is None else list(cols)
        rs, cs = set(rows), set(cols)
        return Tab(rows, cols, {k: v for k, v in self.cells.items() if k[0] in rs and k[1] in cs}, self.sparse)

    def t(self):
        return Tab(self.cols, self.rows, {(c, r): v for (r, c), v in self.cells.items()}, self.sparse)

    def dense(self):
        return Tab(self.rows, self.cols, {(r, c): self.get(r, c) for r in self.rows for c in self.cols}, False)

    def __repr__(self):
        return 'Tab(rows=%r cols=%r cells=%r %s)' % (self.rows, self.cols, self.cells, 'sparse' if self.sparse else 'dense')


def same_num(a, b, tol=0.0):
    fa, fb = float(a), float(b)
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if fa == fb:
        return True
    if math.isinf(fa) or math.isinf(fb):
        return False
    return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))


def raw_tab(mtx, rows, cols):
    """storage + labels -> Tab; raises AssertionError when storage and labels do not fit"""
    assert tuple(mtx.shape) == (len(rows), len(cols)), 'shape %r for %d row and %d column labels' % (tuple(mtx.shape), len(rows), len(cols))
    cells = {}
    if sp.issparse(mtx):
        coo = mtx.tocoo()
        for i, j, v in zip(coo.row.tolist(), coo.col.tolist(), coo.data.tolist()):
            k = rows[i], cols[j]
            cells[k] = cells[k] + v if k in cells else v
        return Tab(rows, cols, cells, True)
    a = np.asarray(mtx)
    assert a.ndim == 2, 'array of %d dimensions' % a.ndim
    for i, r in enumerate(rows):
        for j, c in enumerate(cols):
            cells[r, c] = a[i, j].item()
    return Tab(rows, cols, cells, False)


def view(M):
    """Tab of a TypeTokenMatrix as it stands (through its public attributes)."""
    return raw_tab(M.matrix, list(M.row_items), list(M.col_items))


def diff(exp, got, tol=0.0, stored=True, kind=True):
    """'' or a description of the first difference of two Tabs"""
    if exp.rows != got.rows:
        return 'row labels %r instead of %r' % (got.rows, exp.rows)
    if exp.cols != got.cols:
        return 'column labels %r instead of %r' % (got.cols, exp.cols)
    if kind and exp.sparse != got.sparse:
        return 'sparse=%r instead of %r' % (got.sparse, exp.sparse)
    for k in set(exp.cells) | set(got.cells):
        if not same_num(exp.cells.get(k, 0), got.cells.get(k, 0), tol):
            return 'cell %r is %r instead of %r' % (k, got.cells.get(k, 0), exp.cells.get(k, 0))
    if stored and exp.sparse and got.sparse and set(exp.cells) != set(got.cells):
        return 'stored cells differ: lost %r, new %r' % (sorted(set(exp.cells) - set(got.cells))[:3],
                                                         sorted(set(got.cells) - set(exp.cells))[:3])
    return ''


def indexing_ok(M, exp):
    """every cell read through item indexing; '' or the first difference"""
    for i, r in enumerate(exp.rows):
        for j, c in enumerate(exp.cols):
            for a in ((r, c), (i, j), (r, j), (i, c)):
                v = M[a]
                v = v.item() if hasattr(v, 'item') else v
                if not same_num(v, exp.get(r, c)):
                    return 'M[%r] is %r instead of %r' % (a, v, exp.get(r, c))
    return ''
