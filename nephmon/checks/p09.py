"""P09: comparison masks, products and aggregates are cellwise exact."""
import operator

import numpy as np

from nephmon import mx

N = {'quick': 30000, 'thorough': 400000}
RULE = ('random sparse (csr/csc, sorted or not, explicit zeros, negative values) and dense matrices; one comparison, product, sum or count per '
        'case, recomputed cell by cell from the labelled cells; distinct by table and operation')
REQUIRED = {'op_cmp': 4000, 'op_multiply': 2500, 'op_sum': 2500, 'op_count': 1200, 'op_freqvocab': 1200, 'op_maskprod': 1200, 'ambiguous_zero': 300, 'mixed_masks': 1000}
ASSUMPTIONS = ['comparison with the number 0 by <= or >= on a sparse matrix may answer for all cells or only for the stored ones (the property leaves it open)',
               'operands of multiply carry the same labels in the same order and the same storage class',
               'symmetric dense matrices refuse comparison and multiplication with NotImplementedError, as documented']
OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def gen(rng, idx, tier):
    m = mx.make(rng)
    if rng.random() < 0.7 and m['kind'] not in ('csr', 'csc'):
        m = mx.make(rng, kind='csr')
    m['unsorted'] = m['kind'] in ('csr', 'csc') and rng.random() < 0.3
    return {'m': m, 'seed': rng.random(), 'op': rng.choice(['cmp', 'cmp', 'cmp', 'multiply', 'multiply', 'sum', 'sum', 'count', 'freqvocab', 'maskprod'])}


def is_sym(m):
    if m['kind'] not in ('dense', 'square', 'sym') or m['rows'] != m['cols']:
        return False
    a = mx.build_raw(m)
    return bool(np.allclose(a, a.T, atol=1e-8))


def mask_expected(T, op, v):
    """(all-cells mask, stored-cells mask) as sets of label pairs"""
    full = {(r, c) for r in T.rows for c in T.cols if op(T.get(r, c), v)}
    stored = {k for k, x in T.cells.items() if op(x, v)}
    return full, stored


def run(case, obs):
    import random
    rng = random.Random(case['seed'])
    m, op = case['m'], case['op']
    T, sym = mx.model(m), is_sym(m)
    M = mx.build(m)
    obs.n('op_' + op)
    obs.nontrivial = len(T.cells) > 1
    what = op
    try:
        if op == 'cmp':
            what = _cmp(rng, M, T, obs, m)
        elif op == 'multiply':
            o = mx.make(rng, kind=m['kind'] if m['kind'] not in ('csr', 'csc') else rng.choice(['csr', 'csr', 'csc']),
                        rows=T.rows, cols=None if m['kind'] == 'sym' else T.cols, dtype=rng.choice(['float', 'sint', 'bool', 'small']))
            if not T.sparse and m['kind'] != 'sym':
                o['kind'] = 'dense'
            o['cols'] = list(T.cols)
            O, OT = mx.build(o), mx.model(o)
            what = 'multiply by %r' % OT
            if sym or is_sym(o):
                obs.n('documented_limits')
                return
            R = M.multiply(O)
            exp = mx.Tab(T.rows, T.cols, {k: v * OT.get(*k) for k, v in T.cells.items()}, T.sparse)
            compare(obs, op, what, T, exp, R)
            obs.check(not mx.diff(OT, mx.view(O)) and not mx.diff(T, mx.view(M)), 'multiply-changed-input', what)
        elif op == 'maskprod':     # thresholding as the tutorials do: M.multiply(M > v), M.multiply(W > v)
            if not T.sparse:
                return
            v = rng.choice([0, 0.5, 1, 2, -1])
            name = rng.choice(['>', '>', '<', '>=' if v > 0 else '>', '<=' if v < 0 else '<'])
            full, stored = mask_expected(T, OPS[name], v)
            if OPS[name](0, v):
                full = stored
            what = 'M.multiply(M %s %r)' % (name, v)
            R = M.multiply(OPS[name](M, v))
            exp = mx.Tab(T.rows, T.cols, {k: (x if k in full else 0) for k, x in T.cells.items()}, True)
            compare(obs, op, what, T, exp, R)
        elif op == 'sum':
            axis = rng.choice([None, 0, 1, 1, 0])
            what = 'sum(axis=%r)' % (axis,)
            got = M.sum(axis=axis) if axis is not None or rng.random() < .5 else M.sum()
            if axis is None:
                e = sum(T.cells.values())
                obs.check(mx.same_num(got, e, 1e-9), 'sum-differs', lambda: '%s of %r is %r, not %r' % (what, T, got, e))
            else:
                e = sums(T, axis)
                obs.check(set(got) == set(e) and all(mx.same_num(got[k], e[k], 1e-9) for k in e), 'sum-differs',
                          lambda: '%s of %r is %r, not %r' % (what, T, got, e))
        elif op == 'count':
            axis = rng.choice([0, 1])
            what = 'count_nonzero(axis=%d)' % axis
            got = np.asarray(M.count_nonzero(axis=axis))
            items = T.rows if axis == 0 else T.cols
            e = [sum(1 for k, v in T.cells.items() if k[axis] == i and v != 0) for i in items]
            obs.check(got.ravel().tolist() == e and got.ndim == 1, 'count-differs', lambda: '%s of %r is %r, not %r' % (what, T, got, e))
        elif op == 'freqvocab':
            from nephosem import Vocab
            if m['dtype'] not in ('int', 'small', 'sint'):
                return
            axis = rng.choice([0, 1])
            what = 'Vocab(M.sum(axis=%d))' % axis
            V = Vocab(M.sum(axis=axis))
            e = sums(T, axis)
            obs.check(dict(V.get_dict()) == e and V.sum() == sum(e.values()), 'freqvocab-differs',
                      lambda: '%s of %r is %r, not %r' % (what, T, V.get_dict(), e))
    except NotImplementedError as e:
        if sym:
            obs.n('documented_limits')
            return
        obs.bad(op + '-raised', '%s on %r raised NotImplementedError' % (what, T))
    except AssertionError as e:
        obs.bad(op + '-malformed', '%s on %r: %s' % (what, T, e))
    except Exception as e:
        obs.bad(op + '-raised', '%s on %r raised %r' % (what, T, e))
    obs.check(not mx.diff(T, mx.view(M)), op + '-changed-input', lambda: '%s on %r changed it' % (what, T))
    obs.see(op, what, T)


def sums(T, axis):
    out = dict.fromkeys(T.rows if axis == 1 else T.cols, 0)
    for k, v in T.cells.items():
        out[k[0] if axis == 1 else k[1]] += v
    return out


def compare(obs, op, what, T, exp, R):
    got = mx.view(R)
    d = mx.diff(exp, got, tol=1e-12, stored=False)
    obs.check(not d, op + '-differs', lambda: '%s on %r: %s' % (what, T, d))


def _cmp(rng, M, T, obs, m):
    vals = sorted({float(v) for v in T.cells.values()}) or [1.0]
    v = rng.choice([0, 0.0, 1, 2, -1, 0.5, -0.5, 3, rng.choice(vals), rng.choice(vals), vals[-1] + 1, vals[0] - 1])
    if m['dtype'] in ('int', 'sint', 'small') and rng.random() < .5:
        v = int(v)
    name = rng.choice(list(OPS))
    what = 'M %s %r' % (name, v)
    R = OPS[name](M, v)
    full, stored = mask_expected(T, OPS[name], v)
    got = mx.view(R)
    obs.check(got.rows == T.rows and got.cols == T.cols, 'cmp-labels', lambda: '%s on %r has labels %r %r' % (what, T, got.rows, got.cols))
    g = {k for k, x in got.cells.items() if x}
    ok = [full]
    if T.sparse and OPS[name](0, v):
        ok = [stored]
        if v == 0:
            obs.n('ambiguous_zero')
            ok = [stored, full]
    obs.check(g in ok, 'cmp-differs', lambda: '%s on %r: lost %r, extra %r' % (what, T, sorted(ok[0] - g)[:4], sorted(g - ok[0])[:4]))
    obs.check(all(x in (True, False, 0, 1) for x in got.cells.values()), 'cmp-values', lambda: '%s on %r: %r' % (what, T, got))
    if g and len(g) < len(T.rows) * len(T.cols):
        obs.n('mixed_masks')
    return what
