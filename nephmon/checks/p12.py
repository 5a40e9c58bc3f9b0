"""P12: merging and dict/sparse conversion lose and invent no counts."""
import numpy as np

from nephmon import mx

N = {'quick': 25000, 'thorough': 400000}
RULE = ('random families of 1-5 sparse matrices with overlapping, disjoint, reordered and equal label lists (csr, csc, unsorted indices, explicit '
        'zeros, empty ones, mixed integer/float) merged by merge_two_matrices, merge_matrices and TypeTokenMatrix.merge in both orders; nested '
        'dicts with Python/numpy ints, floats and bools converted to sparse and back; compared with label-keyed sums; distinct by input')
REQUIRED = {'op_two': 3000, 'op_many': 3000, 'op_method': 3000, 'op_dict': 3000, 'mixed_numbers': 800, 'large_dicts': 40, 'overlap_cells': 5000, 'swapped': 3000}
ASSUMPTIONS = ['merge_two_matrices is only used on equal row labels (it refuses others explicitly)',
               'a merge or conversion without a single stored cell may raise ValueError, as documented']


def gen(rng, idx, tier):
    op = rng.choice(['two', 'two', 'many', 'method', 'dict', 'dict'])
    if op == 'dict':
        rows, cols = mx.labels(rng, rng.choice([1, 2, 3, 6])), mx.labels(rng, rng.choice([1, 2, 3, 6]))
        mode = rng.choice(['int', 'float', 'mixed', 'mixed', 'npint', 'npfloat', 'bool'])
        d = {}
        for r in rows:
            for c in cols:
                if rng.random() < 0.5:
                    k = rng.choice(['sint', 'float']) if mode == 'mixed' else {'npint': 'sint', 'npfloat': 'float'}.get(mode, mode)
                    d.setdefault(r, {})[c] = rng.choice([0, mx.number(rng, k)]) if rng.random() < .2 else mx.number(rng, k)
            if rng.random() < .1:
                d.setdefault(r, {})
        if rng.random() < .02:           # many numbers, the last ones of another kind
            mode, rows, cols = 'mixed', ['r%03d' % i for i in range(rng.choice([12, 40]))], ['c%02d' % i for i in range(30)]
            d = {r: {c: rng.randint(1, 50) for c in cols if rng.random() < .8} for r in rows}
            d[rows[-1]][cols[-1]] = rng.choice([0.5, 2.25, -1.75])
        items = list(d.items())
        rng.shuffle(items)
        return {'op': op, 'rows': rows, 'cols': cols, 'd': dict(items), 'mode': mode}
    n = 2 if op != 'many' else rng.choice([1, 2, 2, 3, 5])
    same_rows = op == 'two' or rng.random() < .4
    same_cols = rng.random() < .4
    pool_r, pool_c = mx.labels(rng, 8), mx.labels(rng, 8)
    rows0 = rng.sample(pool_r, rng.randint(1, 6))
    cols0 = rng.sample(pool_c, rng.randint(1, 6))
    ms = []
    for _ in range(n):
        rows = list(rows0) if same_rows else rng.sample(pool_r, rng.randint(1, 6))
        cols = list(cols0) if same_cols else rng.sample(pool_c, rng.randint(1, 6))
        if same_cols and rng.random() < .15:
            rng.shuffle(cols)
        m = mx.make(rng, kind=rng.choice(['csr', 'csr', 'csc']), rows=rows, cols=cols, dtype=rng.choice(['int', 'small', 'float']))
        m['unsorted'] = rng.random() < .3
        ms.append(m)
    return {'op': op, 'ms': ms}


def run(case, obs):
    from nephosem import TypeTokenMatrix
    from nephosem.specutils import mxutils
    op = case['op']
    obs.n('op_' + op)
    if op == 'dict':
        return run_dict(case, obs, mxutils, TypeTokenMatrix)
    Ms, Ts = [mx.build(m) for m in case['ms']], [mx.model(m) for m in case['ms']]
    cells = {}
    for T in Ts:
        for k, v in T.cells.items():
            obs.n('overlap_cells', int(k in cells))
            cells[k] = cells.get(k, 0) + v
    what = '%s of %r' % (op, Ts)
    if len({m['dtype'] for m in case['ms']}) > 1:
        obs.n('mixed_numbers')
    results = []
    for swap in ((0, 1) if len(Ms) > 1 else (0,)):
        a = Ms[::-1] if swap else Ms
        obs.n('swapped', swap)
        try:
            if op == 'two':
                R = mxutils.merge_two_matrices(a[0], a[1])
                got = mx.view(R)
            elif op == 'method':
                R = a[0].merge(a[1])
                got = mx.view(R)
            else:
                s, rows, cols = mxutils.merge_matrices(a)
                got = mx.raw_tab(s, list(rows), list(cols))
        except ValueError as e:
            if not cells:
                obs.n('empty_refused')
                continue
            obs.bad(op + '-raised', '%s raised %r' % (what, e))
            return
        except Exception as e:
            obs.bad(op + '-raised', '%s raised %r' % (what, e))
            return
        results.append(got)
        exp_rows = {r for T in Ts for r in T.rows}
        exp_cols = {c for T in Ts for c in T.cols}
        obs.check(len(got.rows) == len(exp_rows) and set(got.rows) == exp_rows and len(got.cols) == len(exp_cols) and set(got.cols) == exp_cols,
                  op + '-labels', lambda: '%s: labels %r x %r' % (what, got.rows, got.cols))
        for k in set(cells) | set(got.cells):
            obs.check(mx.same_num(cells.get(k, 0), got.cells.get(k, 0), 1e-12), op + '-cells',
                      lambda: '%s (swapped=%d): cell %r is %r instead of %r' % (what, swap, k, got.cells.get(k, 0), cells.get(k, 0)))
        # the merged matrix can be used further
        if op != 'many' and got.rows and got.cols:
            r, c = got.rows[-1], got.cols[0]
            try:
                v = float(R[r, c])
                obs.check(mx.same_num(v, cells.get((r, c), 0), 1e-12), op + '-index', lambda: '%s: R[%r, %r] is %r' % (what, r, c, v))
            except Exception as e:
                obs.bad(op + '-index', '%s: indexing raised %r' % (what, e))
    for M, T in zip(Ms, Ts):
        obs.check(not mx.diff(T, mx.view(M)), op + '-changed-input', lambda: '%s changed an operand: %s' % (what, mx.diff(T, mx.view(M))))
    obs.nontrivial = len(cells) > 2
    obs.see(what)


def run_dict(case, obs, mxutils, TypeTokenMatrix):
    d, rows, cols = case['d'], case['rows'], case['cols']
    mode = case['mode']
    conv = {'npint': np.int64, 'npfloat': np.float64}.get(mode, lambda x: bool(x) if mode == 'bool' else x)
    src = {r: {c: conv(v) for c, v in vec.items()} for r, vec in d.items()}
    cells = {(r, c): v for r, vec in src.items() for c, v in vec.items()}
    obs.n('mixed_numbers', int(mode == 'mixed'))
    obs.n('large_dicts', len(cells) > 150)
    what = 'dict %r' % (src,)
    try:
        s = mxutils.transform_dict_to_spmatrix(src, rows, cols)
        got = mx.raw_tab(s, rows, cols)
        back = mxutils.transform_spmatrix_to_dict(s, rows, cols)
        M = TypeTokenMatrix(s, rows, cols)
        back2 = M.spmatrix_to_dict()
    except Exception as e:
        if not cells and isinstance(e, ValueError):
            obs.n('empty_refused')
            return
        obs.bad('dict-raised', '%s raised %r' % (what, e))
        return
    dd = mx.diff(mx.Tab(rows, cols, {k: v for k, v in cells.items()}, True), got, stored=True)
    obs.check(not dd, 'dict-to-sparse-differs', lambda: '%s: %s' % (what, dd))
    for b in (back, back2):
        flat = {(r, c): v for r, vec in b.items() for c, v in vec.items()}
        obs.check(set(flat) == set(cells) and all(mx.same_num(flat[k], cells[k]) for k in cells), 'dict-round-trip', lambda: '%s came back as %r' % (what, b))
    obs.nontrivial = len(cells) > 1
    obs.see(what)
