"""P08: label/value preservation of selection and rearrangement, over chains of operations."""
import re

import numpy as np

from nephmon import mx

N = {'quick': 28000, 'thorough': 400000}
RULE = ('random matrices (csr, csc, dense, square, symmetric; ints, floats, bools, explicit zeros, empty rows/columns, 1xn, nx1) put through '
        'chains of 1-5 selection/rearrangement operations; after every step a label-keyed model is compared with the result cell by cell, '
        'partly also through item indexing; a case is distinct by its final table and chain')
REQUIRED = {'stored_zeros': 300, 'op_submatrix': 2000, 'op_equal': 1000, 'op_describe': 500, 'op_reorder': 1000, 'op_transpose': 1000, 'op_sample': 400, 'op_drop': 400, 'op_drop_empty': 800,
            'op_concatenate': 500, 'op_todense': 300, 'op_index': 1000, 'op_copy': 200, 'op_contexts': 300, 'refused': 100}
ASSUMPTIONS = ['row labels and column labels are distinct strings; for axis-wise operations on symmetric dense matrices the explicit '
               'NotImplementedError of SquareMatrix (transpose, reorder, concatenate) is accepted',
               'drop/drop_empty leaving no row or column returns None (as submatrix does for an empty selection)']


def gen(rng, idx, tier):
    m = mx.make(rng, shape=(rng.randint(20, 60), rng.randint(20, 60))) if rng.random() < 0.01 else mx.make(rng)
    m['unsorted'] = m['kind'] in ('csr', 'csc') and rng.random() < 0.3
    return {'m': m, 'seed': rng.random(), 'steps': rng.choice([1, 1, 2, 2, 3, 4, 5])}


def is_sym(M):
    """the library's documented distinction: dense matrices equal to their transpose, same labels"""
    a = M.matrix
    return (isinstance(a, np.ndarray) and a.shape[0] == a.shape[1] and list(M.row_items) == list(M.col_items)
            and bool(np.allclose(a, a.T, atol=1e-8)))


def pick(rng, items):
    k = rng.choice([0, 1, 2, len(items), rng.randint(1, len(items))])
    return rng.sample(items, min(max(k, 1), len(items)))


def run(case, obs):
    import random
    rng = random.Random(case['seed'])
    m = case['m']
    T = mx.model(m)
    trail = []
    try:
        M = mx.build(m)
    except Exception as e:
        obs.bad('construct-raised', 'TypeTokenMatrix(%s) raised %r' % (m, e))
        return
    for _ in range(case['steps']):
        op = rng.choice(['submatrix', 'submatrix', 'submatrix', 'reorder', 'reorder', 'transpose', 'sample', 'drop', 'drop_empty', 'drop_empty',
                         'concatenate', 'todense', 'index', 'index', 'copy', 'contexts', 'equal', 'describe'])
        before = mx.view(M)
        sym = is_sym(M)
        obs.n('op_' + op)
        trail.append(op)
        try:
            res = step(op, rng, M, T, obs, trail, sym, m)
        except NotImplementedError as e:
            if sym and op in ('transpose', 'reorder', 'concatenate') or not T.sparse and op in ('drop', 'drop_empty', 'contexts'):
                obs.n('documented_limits')
                continue
            obs.bad(op + '-raised', '%s on %r raised NotImplementedError(%s)' % (trail[-1], T, e))
            return
        except AssertionError as e:
            obs.bad(op + '-malformed', '%s on %r: %s' % (trail[-1], T, e))
            return
        except Exception as e:
            if sym and op == 'drop_empty':
                obs.n('documented_limits')
                continue
            obs.bad(op + '-raised', '%s on %r raised %r' % (trail[-1], T, e))
            return
        obs.check(not mx.diff(before, mx.view(M)), op + '-changed-input', lambda: '%s on %r changed its input: %s' % (trail[-1], T, mx.diff(before, mx.view(M))))
        if res is None or obs.viol:
            if obs.viol:
                return
            continue
        M, T = res
        if T.cells and len(T.rows) + len(T.cols) > 2:
            obs.nontrivial = True
    if rng.random() < 0.2:
        obs.check(not mx.indexing_ok(M, T), 'index-differs', lambda: 'after %s: %s' % (trail, mx.indexing_ok(M, T)))
    obs.see(trail, T)


def expect(obs, op, what, exp, R, **kw):
    got = mx.view(R)
    d = mx.diff(exp, got, **kw)
    obs.check(not d, op + '-differs', lambda: '%s: %s (model %r, got %r)' % (what, d, exp, got))
    return R, exp


def equality(rng, M, T, obs, trail):
    """equal() is true of a copy and false as soon as one label, its place or one value differs; wrong label counts are refused"""
    import nephosem
    cls = nephosem.TypeTokenMatrix
    rows, cols, X = list(T.rows), list(T.cols), M.matrix
    dense = isinstance(X, np.ndarray)
    obs.check(bool(M.equal(cls(X, rows, cols))), 'equal-wrong', lambda: 'a matrix is not equal() to a copy of itself: %r' % T)

    if not dense and X.dtype != bool:
        empty = [(a, b) for a in range(len(rows)) for b in range(len(cols)) if not X[a, b]]
        if empty:
            a, b = rng.choice(empty)        # a stored zero is no other value
            Z = X.tocoo()
            Z = type(X)((np.append(Z.data, Z.data.dtype.type(0)), (np.append(Z.row, a), np.append(Z.col, b))), shape=X.shape)
            obs.n('stored_zeros')
            for A, B in ((M, cls(Z, rows, cols)), (cls(Z, rows, cols), M)):
                obs.check(bool(A.equal(B)), 'equal-wrong', lambda: 'equal() is false although the values are the same, one matrix stores a zero at %r: %r' % ((a, b), T))

    def differs(what, O):
        if is_sym(O) == is_sym(M):
            obs.check(not M.equal(O), 'equal-wrong', lambda: 'equal() is true of a matrix with %s: %r and %r' % (what, T, mx.view(O)))
    i, j = rng.randrange(len(rows)), rng.randrange(len(cols))
    sym = is_sym(M)
    if X.dtype != bool:
        Y = (X.copy() if dense else X.tolil())
        Y[i, j] = Y[i, j] * 2 if abs(Y[i, j]) >= 1 else Y[i, j] + 1      # more than any rounding
        if sym and i != j:
            Y[j, i] = Y[i, j]
        differs('another value', cls(Y if dense else Y.asformat(X.format), rows, cols))
    if len(rows) > 1 and not sym:
        differs('rows in another order', cls(X, rows[1:] + rows[:1], cols))
        differs('a row less', cls(X[:-1] if dense else X.tocsr()[:-1], rows[:-1], cols))
    if len(cols) > 1 and not sym:
        differs('columns in another order', cls(X, rows, cols[::-1]))
        differs('a column less', cls(X[:, :-1] if dense else X.tocsr()[:, :-1], rows, cols[:-1]))
    differs('another row label', cls(X, [r if k != i else 'a label of its own' for k, r in enumerate(rows)],
                                     [c if not sym or k != i else 'a label of its own' for k, c in enumerate(cols)]))
    for r, c in ((rows + ['one more'], cols), (rows[:-1], cols), (rows, cols + ['one more']), (rows, cols[:-1])):
        try:
            cls(X, r, c)
        except Exception:
            obs.n('refused')
        else:
            obs.bad('mislabelled-matrix', 'a %d x %d matrix was accepted with %d row and %d column labels' % (X.shape + (len(r), len(c))))
    return None


def step(op, rng, M, T, obs, trail, sym, m):
    if op == 'submatrix':
        rows = pick(rng, T.rows) if rng.random() < 0.7 else None
        cols = pick(rng, T.cols) if rng.random() < 0.6 else None
        if rows is None and cols is None and not T.sparse:
            rows = list(T.rows)     # documented: a dense selection names rows or columns
        er, ec = rows, cols
        if rows and rng.random() < 0.2:     # unknown labels are ignored
            rows = rows + ['no such row']
            rng.shuffle(rows)
            er = [r for r in rows if r in set(T.rows)]
        if cols and rng.random() < 0.2:
            cols = ['no such col'] + cols
        if rng.random() < 0.05 and rows:
            trail[-1] = 'submatrix(row=[absent])'
            obs.check(M.submatrix(row=['no such row']) is None, 'submatrix-absent', 'a selection of absent rows returned a matrix')
        trail[-1] = 'submatrix(row=%r, col=%r)' % (rows, cols)
        form = rng.choice([list, list, tuple])
        args = {}
        if rows is not None:
            args['row'] = form(rows)
        if cols is not None:
            args['col'] = form(cols)
        return expect(obs, op, trail[-1], T.sub(er, ec), M.submatrix(**args))
    if op == 'reorder':
        axis = rng.choice([0, 1])
        items = list(T.rows if axis == 0 else T.cols)
        rng.shuffle(items)
        if rng.random() < 0.2:
            items = items[:max(1, len(items) // 2)]
        trail[-1] = 'reorder(%r, axis=%d)' % (items, axis)
        exp = T.sub(items, None) if axis == 0 else T.sub(None, items)
        return expect(obs, op, trail[-1], exp, M.reorder(items, axis=axis))
    if op == 'transpose':
        return expect(obs, op, op, T.t(), M.transpose())
    if op == 'todense':
        if not T.sparse:
            return None
        return expect(obs, op, op, T.dense(), M.todense())
    if op == 'copy':
        return expect(obs, op, op, T, M.copy() if rng.random() < .5 else M.deepcopy())
    if op == 'equal':
        return equality(rng, M, T, obs, trail)
    if op == 'describe':
        text = M.describe()
        nums = [int(x) for x in re.findall(r'(?<![\w.,%])\d+(?![\w.,%])', text)]
        obs.check(len(T.rows) in nums and len(T.cols) in nums, 'describe-differs', lambda: 'describe() of a matrix of %d x %d says %r' % (len(T.rows), len(T.cols), text))
        dens = 100.0 * M.matrix.size / (len(T.rows) * len(T.cols))
        pc = [float(x) for x in re.findall(r'([\d.]+) ?%', text)]
        obs.check(not pc or any(abs(x - dens) < .0051 for x in pc), 'describe-differs', lambda: 'describe() of a matrix with density %r %% says %r' % (dens, text))
        return None
    if op == 'contexts':
        r = rng.choice(T.rows)
        trail[-1] = 'get_colloc_contexts(%r)' % r
        got = M.get_colloc_contexts(r)
        exp = [c for c in T.cols if (r, c) in T.cells]
        obs.check(sorted(got) == sorted(exp), 'contexts-differ', lambda: '%s is %r instead of %r' % (trail[-1], got, exp))
        return None
    if op == 'sample':
        n = len(T.rows)
        pct = rng.choice([0.1, 0.3, 0.5, 0.99, 1, n, max(1, n // 2)])
        seed = rng.choice([-1, 0, 7, 12345])
        trail[-1] = 'sample(%r, seed=%d)' % (pct, seed)
        R = M.sample(percent=pct, seed=seed)
        k = pct if pct >= 1 else max(1, int(n * pct))
        got = mx.view(R)
        obs.check(len(got.rows) == k and len(set(got.rows)) == k and set(got.rows) <= set(T.rows), 'sample-size',
                  lambda: '%s of %d rows gave %r' % (trail[-1], n, got.rows))
        if seed >= 0:
            R2 = M.sample(percent=pct, seed=seed)
            obs.check(list(R2.row_items) == got.rows, 'sample-seed', 'the same seed gave two different samples')
        return expect(obs, op, trail[-1], T.sub([r for r in got.rows if r in set(T.rows)], None), R)
    if op in ('drop', 'drop_empty'):
        axis = rng.choice([0, 1])
        nz = {}
        items = T.rows if axis == 0 else T.cols
        stored = dict.fromkeys(items, 0)
        nz = dict.fromkeys(items, 0)
        for (r, c), v in T.cells.items():
            k = r if axis == 0 else c
            stored[k] += 1
            nz[k] += v != 0
        if op == 'drop':
            lim = rng.choice([0, 0, 1, 2, 3])
            trail[-1] = 'drop(axis=%d, n_nonzero=%d)' % (axis, lim)
            keep = [i for i in items if nz[i] > lim]
            R = M.drop(axis=axis, n_nonzero=lim)
        else:
            explicit = rng.choice([False, False, True])
            trail[-1] = 'drop_empty(axis=%d, explicit=%r)' % (axis, explicit)
            keep = [i for i in items if (stored if explicit else nz)[i] > 0]
            if keep:
                R = M.drop_empty(axis=axis, explicit=explicit)
                if axis == 0:
                    er = M.empty_rows(explicit=explicit)
                    obs.check(list(er) == [i for i in items if i not in set(keep)], 'empty-rows-differ',
                              lambda: 'empty_rows(explicit=%r) of %r is %r' % (explicit, T, er))
            else:
                R = M.drop_empty(axis=axis, explicit=explicit)
        if not keep:
            obs.check(R is None, op + '-all', lambda: '%s on %r: nothing satisfies it but got %r' % (trail[-1], T, R))
            return None
        if not obs.check(R is not None, op + '-none', lambda: '%s on %r returned None' % (trail[-1], T)):
            return None
        return expect(obs, op, trail[-1], T.sub(keep, None) if axis == 0 else T.sub(None, keep), R)
    if op == 'concatenate':
        axis = rng.choice([0, 1])
        kind = 'csr' if T.sparse else 'dense'
        fixed = T.cols if axis == 0 else T.rows
        have = set(T.rows if axis == 0 else T.cols)
        new = [x for x in mx.labels(rng, rng.choice([1, 2, 4]) + len(have), prefix='k%d' % len(trail)) if x not in have][:rng.choice([1, 2, 3])]
        if not new:
            return None
        o = mx.make(rng, kind=kind, rows=new if axis == 0 else fixed, cols=fixed if axis == 0 else new, dtype=m['dtype'])
        if not T.sparse:
            O = mx.build(o)
            if is_sym(O):
                return None
        else:
            o['kind'] = rng.choice(['csr', 'csc'])
            O = mx.build(o)
        ot = mx.model(o)
        if rng.random() < 0.3:      # labels that do not agree are refused
            other = list(fixed)
            if len(other) > 1 and rng.random() < 0.6:
                a, b = rng.sample(range(len(other)), 2)
                other[a], other[b] = other[b], other[a]
            else:
                other[rng.randrange(len(other))] = 'a label of its own'
            try:
                X = M.concatenate(mx.build(dict(o, rows=new, cols=other) if axis == 0 else dict(o, rows=other, cols=new)), axis=axis)
            except Exception:
                obs.n('refused')
            else:
                obs.bad('concatenate-mislabels', 'concatenate(axis=%d) of %r and a matrix with the labels %r gave %r' % (axis, T, other, mx.view(X)))
        trail[-1] = 'concatenate(%r, axis=%d)' % (ot, axis)
        cells = dict(T.cells)
        cells.update(ot.cells)
        exp = mx.Tab(T.rows + ot.rows if axis == 0 else T.rows, T.cols if axis == 0 else T.cols + ot.cols, cells, T.sparse)
        return expect(obs, op, trail[-1], exp, M.concatenate(O, axis=axis))
    if op == 'index':
        i, j = rng.randrange(len(T.rows)), rng.randrange(len(T.cols))
        r, c = T.rows[i], T.cols[j]
        trail[-1] = 'index'
        for a in ((r, c), (i, j), (r, j), (i, c), (-1, c)):
            v = M[a]
            v = v.item() if hasattr(v, 'item') else v
            e = T.get(T.rows[-1] if a[0] == -1 else r, c)
            obs.check(mx.same_num(v, e), 'index-differs', lambda: 'M[%r] of %r is %r' % (a, T, v))
        for a in (r, i):
            v = np.asarray(M[a]).ravel().tolist()
            obs.check(len(v) == len(T.cols) and all(mx.same_num(x, T.get(r, cc)) for x, cc in zip(v, T.cols)), 'index-row-differs',
                      lambda: 'M[%r] of %r is %r' % (a, T, v))
        lo = rng.randrange(len(T.rows))
        hi = rng.randint(lo, len(T.rows))
        v = np.asarray(M[lo:hi, c]).ravel().tolist()
        obs.check(len(v) == hi - lo and all(mx.same_num(x, T.get(rr, c)) for x, rr in zip(v, T.rows[lo:hi])), 'index-slice-differs',
                  lambda: 'M[%d:%d, %r] of %r is %r' % (lo, hi, c, T, v))
        v = np.asarray(M[r, :j + 1]).ravel().tolist()
        obs.check(len(v) == j + 1 and all(mx.same_num(x, T.get(r, cc)) for x, cc in zip(v, T.cols)), 'index-slice-differs',
                  lambda: 'M[%r, :%d] of %r is %r' % (r, j + 1, T, v))
        return None
