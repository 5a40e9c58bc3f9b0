"""P15: association measures equal their contingency-table definitions, cell by cell and by label."""
import math

import numpy as np

from nephmon import mx

N = {'quick': 25000, 'thorough': 300000}
RULE = ('random count matrices from a generated "full" table; measured on the whole or on a selected/reordered sub-matrix with marginals of the full '
        'table, given as vocabularies in another label order and with further items, or computed from the matrix; N given or not; every measure, also for single tables (pairwise_association); each '
        'stored cell is recomputed from its 2x2 table in float64; distinct by table and measure')
REQUIRED = {'single_tables': 5000, 'cells': 20000, 'submatrix': 2000, 'reordered_marginals': 2000, 'N_given': 1000, 'computed_marginals': 500, 'ppmi_fast': 1000, 'partial_marginals': 800,
            'negative_pmi': 1000, 'huge_marginals': 1000, 'huge_counts': 500, 'marginals_beyond_int64': 300}
ASSUMPTIONS = ['marginals are at least as large as the cells they cover (they come from a reference matrix containing the measured one)',
               'a 2x2 table for which the measure has a zero denominator is not judged; logratio with an empty complementary cell is only required finite',
               'results are single precision: relative tolerance 2e-6 plus the effect of the documented 1e-10 adjustment before logarithms']
MEAS = ['pmi', 'ppmi', 'lik', 'llik', 'chisq', 'zscore', 'dice', 'deltap', 'deltapColl', 'logratio']


def gen(rng, idx, tier):
    m = mx.make(rng, kind='csr', dtype=rng.choice(['small', 'small', 'int']), density=rng.choice([0.3, 0.6, 1.0]), explicit=False, shape=(rng.choice([1, 2, 3, 5, 8, 12]), rng.choice([1, 2, 3, 5, 8, 12])))
    for k, v in m['cells'].items():
        m['cells'][k] = min(v, 5000)
    c = {'m': m, 'seed': rng.random(), 'fn': rng.choice(['assoc', 'assoc', 'assoc', 'assoc', 'calc', 'ppmi']), 'meas': rng.choice(MEAS), 'huge': False}
    if rng.random() < .06 and m['cells'] and c['meas'] != 'chisq' and c['fn'] != 'calc':
        m['dtype'], c['huge'] = 'int', True
        for k in rng.sample(sorted(m['cells']), min(len(m['cells']), rng.choice([1, 1, 2]))):
            m['cells'][k] = rng.choice([2 ** 24, 2 ** 25, 10 ** 8]) + rng.randrange(1, 9)
    return c


def xlogx(o, p):
    return o * math.log(p) if o > 0 else 0.0


def define(meas, o11, r1, c1, n):
    """value of the measure, or None where its definition has no value"""
    o12, o21 = r1 - o11, c1 - o11
    o22 = n - o11 - o12 - o21
    r2, c2 = n - r1, n - c1
    e11 = r1 * c1 / n
    if meas in ('pmi', 'ppmi'):
        v = math.log(o11 / e11)
        return max(v, 0.0) if meas == 'ppmi' else v
    if meas in ('lik', 'llik'):
        p1, p = o11 / c1, r1 / n
        p2 = o12 / c2 if c2 else 0.0
        return 2.0 * (xlogx(o11, p1) + xlogx(o21, 1 - p1) + xlogx(o12, p2) + xlogx(o22, 1 - p2)
                      - xlogx(o11, p) - xlogx(o21, 1 - p) - xlogx(o12, p) - xlogx(o22, 1 - p))
    if meas == 'chisq':
        d = r1 * r2 * c1 * c2
        return n * (o11 * o22 - o12 * o21) ** 2 / d if d else None
    if meas == 'zscore':
        return (o11 - e11) / math.sqrt(e11)
    if meas == 'dice':
        return 2.0 * o11 / (r1 + c1)
    if meas == 'deltap':
        return o11 / r1 - o21 / r2 if r2 else None
    if meas == 'deltapColl':
        return o11 / c1 - o12 / c2 if c2 else None
    if meas == 'logratio':
        # the code's convention for words that never occur without the node: no effect
        if o21 == 0 or not r2:
            return None
        return math.log((o11 / r1) / (o21 / r2))
    raise ValueError(meas)


def degenerate(meas, o11, r1, c1, n):
    return meas in ('chisq',) and (n - r1) * (n - c1) == 0 or meas == 'deltap' and n == r1 or meas == 'deltapColl' and n == c1


def one_table(mxcalc, meas, o11, o12, o21, n, obs):
    """a single table: pairwise_association(a and b, b without a, a without b, neither)"""
    o22 = n - o11 - o12 - o21
    e = define(meas, o11, o11 + o12, o11 + o21, n)
    g = mxcalc.pairwise_association(o11, o21, o12, o22, meas=meas)
    obs.n('single_tables')
    if e is None:
        return obs.check(math.isfinite(g), 'table-value', lambda: '%s of the table %r is %r' % (meas, (o11, o21, o12, o22), g))
    tol = 2e-6 * max(1.0, abs(e)) + (1e-9 * n * 4 if meas == 'lik' else 0)
    obs.check(abs(g - e) <= tol, 'table-value', lambda: '%s of the table %r is %r instead of %r' % (meas, (o11, o21, o12, o22), g, e))
    if meas == 'pmi':
        b = mxcalc.calc_mi(o11, o21, o12, o22)
        obs.check(abs(b * math.log(2) - e) <= tol, 'table-value', lambda: 'mutual information (bits) of the table %r is %r instead of %r' % ((o11, o21, o12, o22), b, e / math.log(2)))


def run(case, obs):
    import random
    from nephosem import Vocab
    from nephosem.specutils import mxcalc
    rng = random.Random(case['seed'])
    m, fn, meas = case['m'], case['fn'], case['meas']
    F, T = mx.build(m), mx.model(m)
    T = mx.Tab(T.rows, T.cols, {k: v for k, v in T.cells.items() if v}, True)
    if not T.cells:
        return
    obs.nontrivial = len(T.cells) > 2
    # marginals of the reference table
    rsum, csum = {r: sum(T.get(r, c) for c in T.cols) for r in T.rows}, {c: sum(T.get(r, c) for r in T.rows) for c in T.cols}
    M, S = F, T
    if fn != 'calc' and (case['huge'] or rng.random() < .1):
        # the reference table has further rows and columns, those of a corpus with hundreds of millions of tokens, or so many that the product of two marginals exceeds a 64-bit integer
        top = rng.choice([3, 3, 2 ** 24, 3 * 10 ** 8 + 7, 6 * 10 ** 9 + 1, 4 * 10 ** 11])
        obs.n('marginals_beyond_int64', top > 4 * 10 ** 9)
        more_r, more_c = {r: rng.randrange(top) for r in rsum}, {c: rng.randrange(top) for c in csum}
        rsum, csum = {r: v + more_r[r] for r, v in rsum.items()}, {c: v + more_c[c] for c, v in csum.items()}
        rsum['#rows'], csum['#cols'] = sum(more_c.values()) + 5, sum(more_r.values()) + 5
        obs.n('huge_marginals')
    if rng.random() < .6:
        rows = rng.sample(T.rows, rng.randint(1, len(T.rows))) if rng.random() < .7 else None
        cols = rng.sample(T.cols, rng.randint(1, len(T.cols))) if rng.random() < .7 else None
        S = T.sub(rows, cols)
        M = F.submatrix(row=rows, col=cols)
        obs.n('submatrix')
        if not S.cells:
            return
    if rng.random() < .2:
        M, S, rsum, csum = M.transpose(), S.t(), csum, rsum

    def shuffled(d):
        it = list(d.items())
        rng.shuffle(it)
        return dict(it)
    nd, cd = shuffled(rsum), shuffled(csum)
    nv, cv = Vocab(nd), Vocab(cd)
    obs.n('reordered_marginals')
    what = '%s(%s) of %r nfreq=%r cfreq=%r' % (fn, meas, S, nd, cd)
    before = mx.view(M)
    obs.n('huge_counts', case['huge'])
    try:
        if fn == 'ppmi':
            obs.n('ppmi_fast')
            pos = rng.random() < .6
            meas = 'ppmi' if pos else 'pmi'
            mode = rng.choice(['given', 'given', 'none', 'n', 'c'])
            kw = {}
            r, c = rsum, csum
            if mode in ('given', 'n'):
                kw['nfreq'] = nv
            else:
                r = {x: sum(S.get(x, y) for y in S.cols) for x in S.rows}
            if mode in ('given', 'c'):
                kw['cfreq'] = cv
            else:
                c = {y: sum(S.get(x, y) for x in S.rows) for y in S.cols}
            n = sum(nd.values()) if 'nfreq' in kw else sum(r.values())
            if mode != 'given':
                obs.n('computed_marginals')
            what = 'compute_ppmi(positive=%r, %s) of %r nfreq=%r cfreq=%r' % (pos, mode, S, nd, cd)
            R = mxcalc.compute_ppmi(M, positive=pos, **kw)
            got = mx.view(R)
        elif fn == 'calc':
            mode = rng.choice(['given', 'none', 'noneN'])
            if mode == 'given':
                r, c, n = rsum, csum, max(sum(nd.values()), sum(cd.values()))
                conv = rng.choice([list, np.array])
                kw = {'N': n}
                small = max(sum(r[x] for x in S.rows), sum(c[x] for x in S.cols))
                if rng.random() < .5 and all(r[a] + c[b] - x <= small for (a, b), x in S.cells.items()):       # N from the marginals given: the larger sum
                    kw, n = {}, small
                    obs.n('computed_marginals')
                    what += ' N=None'
                s = mxcalc.calc_association(M.matrix, nfreq=conv([r[x] for x in S.rows]), cfreq=conv([c[x] for x in S.cols]), meas=meas, **kw)
            else:
                r = {x: sum(S.get(x, y) for y in S.cols) for x in S.rows}
                c = {y: sum(S.get(x, y) for x in S.rows) for y in S.cols}
                n = sum(r.values()) + (rng.choice([0, 7]) if mode == 'none' else 0)
                obs.n('computed_marginals')
                what = 'calc_association(%s, marginals computed, N=%r) of %r' % (meas, n if mode == 'none' else None, S)
                if any(degenerate(meas, v, r[k[0]], c[k[1]], n) for k, v in S.cells.items()):
                    return
                s = mxcalc.calc_association(M.matrix, meas=meas, **({'N': n} if mode == 'none' else {}))
            got = mx.raw_tab(s, S.rows, S.cols)
        else:
            r, c = rsum, csum
            n = max(sum(nd.values()), sum(cd.values()))
            kw = {}
            which = rng.choice([None, 'row', 'col'])
            if which:
                # the vocabulary of one side holds only some items of the reference table
                full, need = (nd, set(S.rows)) if which == 'row' else (cd, set(S.cols))
                part = {k: v for k, v in full.items() if k in need or rng.random() < .3}
                obs.n('partial_marginals', int(len(part) < len(full)))
                if which == 'row':
                    nd, nv = part, Vocab(part)
                else:
                    cd, cv = part, Vocab(part)
                what = '%s(%s) of %r nfreq=%r cfreq=%r' % (fn, meas, S, nd, cd)
            if rng.random() < .4:
                n += rng.choice([0, 10, 1000])
                kw['N'] = n
                obs.n('N_given')
            what += ' N=%r' % kw.get('N')
            if any(degenerate(meas, v, r[k[0]], c[k[1]], n) for k, v in S.cells.items()):
                return
            if meas != 'llik':
                for k, v in sorted(S.cells.items())[:4]:
                    one_table(mxcalc, meas, v, r[k[0]] - v, c[k[1]] - v, n, obs)
            R = mxcalc.compute_association(M, nfreq=nv, cfreq=cv, meas=meas, **kw)
            got = mx.view(R)
    except ZeroDivisionError as e:
        if fn != 'ppmi' and any(degenerate(meas, v, r[k[0]], c[k[1]], n) for k, v in S.cells.items()):
            obs.n('undefined_tables')
            return
        obs.bad(fn + '-raised', '%s raised %r' % (what, e))
        return
    except Exception as e:
        obs.bad(fn + '-raised', '%s raised %r' % (what, e))
        return
    obs.check(got.rows == S.rows and got.cols == S.cols, fn + '-labels', lambda: '%s has labels %r x %r' % (what, got.rows, got.cols))
    obs.check(set(got.cells) <= set(S.cells), fn + '-invented', lambda: '%s stores cells without co-occurrence: %r' % (what, sorted(set(got.cells) - set(S.cells))[:4]))
    for k, o11 in S.cells.items():
        e = define(meas, o11, r[k[0]], c[k[1]], n)
        g = float(got.cells.get(k, 0))
        obs.n('cells')
        if e is None:
            obs.check(math.isfinite(g), fn + '-infinite', lambda: '%s: cell %r is %r' % (what, k, g))
            continue
        obs.n('negative_pmi', int(meas == 'pmi' and e < 0))
        tol = 2e-6 * max(1.0, abs(e)) + (1e-9 * n * 4 if meas in ('lik', 'llik') else 0)
        obs.check(abs(g - e) <= tol, fn + '-value', lambda: '%s: cell %r (o11=%r R1=%r C1=%r N=%r) is %r instead of %r' % (what, k, o11, r[k[0]], c[k[1]], n, g, e))
    obs.check(not mx.diff(before, mx.view(M)) and dict(nv.get_dict()) == nd and dict(cv.get_dict()) == cd, fn + '-changed-input', what)
    obs.see(what)
