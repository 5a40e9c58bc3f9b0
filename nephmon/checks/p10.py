"""P10: saved matrices load back identical, whatever was saved before."""
import os

import numpy as np

from nephmon import mx
from nephmon.core import fresh_dir, rmtree, snapshot

N = {'quick': 5000, 'thorough': 80000}
RULE = ('histories of 1-8 saves/loads of random matrices (fresh or produced by transpose, concatenate, submatrix, comparison, multiply, todense, '
        'reorder) under 1-3 base names in one directory, packed and unpacked, several encodings; a model maps every saved file to its matrix, every '
        'load is compared with it and at the end every file ever saved and not overwritten is loaded again; distinct by history')
REQUIRED = {'large_matrices': 60, 'saves': 5000, 'loads': 8000, 'loads_packed': 2000, 'loads_unpacked': 2000, 'overwrites': 500, 'kind_switch': 200, 'derived': 1500, 'renamed': 100}
ASSUMPTIONS = ['labels are strings that the chosen encoding can represent; the same encoding is given on both sides']
LATIN = ['walk/V', 'run/V', 'café/N', 'Übung/N', 'x', "o'clock/N", 'b c', 'q"q', 'back\\slash', 'a/b/c', 'tab\tx', '12', 'NaN', 'A', 'B', 'C', 'D']


def gen(rng, idx, tier):
    if idx % 50 == 7:
        return {'big': rng.randrange(1 << 40)}
    n = rng.choice([1, 2, 3, 3, 4, 6, 8])
    return {'steps': [rng.random() for _ in range(n)], 'enc': rng.choice(['utf-8', 'utf-8', None, 'utf-16', 'latin-1'])}


def derive(rng, M, T, obs):
    """a matrix coming out of a library operation"""
    op = rng.choice(['transpose', 'concat', 'sub', 'gt', 'mult', 'dense', 'reorder', 'none', 'none', 'none', 'sum', 'dropped', 'tt'])
    try:
        if op == 'transpose':
            R = M.transpose()
        elif op == 'tt':
            R = M.transpose().submatrix(row=list(T.cols)[:2]).transpose()
        elif op == 'concat':
            o = mx.make(rng, kind='csr' if T.sparse else 'dense', rows=['k1', 'k2'], cols=T.cols)
            R = M.concatenate(mx.build(o))
        elif op == 'sub':
            R = M.submatrix(row=rng.sample(T.rows, rng.randint(1, len(T.rows))), col=rng.sample(T.cols, rng.randint(1, len(T.cols))))
        elif op == 'gt':
            R = M > 0.75
        elif op == 'mult':
            R = M.multiply(M)
        elif op == 'dense':
            R = M.todense() if T.sparse else M.copy()
        elif op == 'reorder':
            R = M.reorder(sorted(T.rows), axis=0)
        elif op == 'sum':
            M.sum(axis=0)
            M['%s' % T.rows[0]]         # fills the lookup caches that end up in the meta data
            R = M
        elif op == 'dropped':
            R = M.drop_empty() if T.sparse else M
        else:
            return M, T
        if R is None:
            return M, T
    except (NotImplementedError, ValueError):
        return M, T
    obs.n('derived')
    return R, mx.view(R)


def run_big(case, obs):
    """matrices of many rows or columns, and of many cells"""
    import random
    import scipy.sparse as sp
    from nephosem import TypeTokenMatrix
    rng = random.Random(case['big'])
    few, many = rng.choice([1, 3, 40]), rng.choice([300, 5000, 33000, 66000, 70000])
    shape = (few, many) if rng.random() < .6 else (many, few)
    cells = {(0, 0): 1, (shape[0] - 1, shape[1] - 1): 2}
    for _ in range(rng.choice([10, 500, 3000])):
        cells[rng.randrange(shape[0]), rng.randrange(shape[1])] = rng.choice([1, 5, 255, 256, 70000, 1 << 40])
    keys = list(cells)
    mat = sp.coo_matrix(([cells[k] for k in keys], ([k[0] for k in keys], [k[1] for k in keys])), shape=shape, dtype=np.int64).tocsr()
    rows, cols = ['r%d/N' % i for i in range(shape[0])], ['c%d/V' % i for i in range(shape[1])]
    pack = rng.random() < .6
    base = fresh_dir('mb')
    try:
        M = TypeTokenMatrix(mat, rows, cols)
        M.save(os.path.join(base, 'big'), pack=pack, verbose=False)
        R = TypeTokenMatrix.load(os.path.join(base, 'big') + ('.pac' if pack else ''), pack=pack)
        got = R.matrix.tocoo()
        have = {(int(i), int(j)): v for i, j, v in zip(got.row, got.col, got.data)}
        what = '%dx%d with %d cells, pack=%r' % (shape + (len(cells), pack))
        obs.check(list(R.row_items) == rows and list(R.col_items) == cols and R.matrix.shape == shape, 'load-differs', lambda: '%s: labels or shape differ' % what)
        obs.check(have == cells, 'load-differs', lambda: '%s: %d cells differ' % (what, len(set(have.items()) ^ set(cells.items()))))
        r, c = rng.choice(keys)
        obs.check(R[rows[r], cols[c]] == cells[r, c], 'load-index', what)
        obs.n('large_matrices')
        obs.nontrivial = True
        obs.see(what)
    except Exception as e:
        obs.bad('load-raised', '%dx%d raised %r' % (shape + (e,)))
    finally:
        rmtree(base)


def run(case, obs):
    import random
    if 'big' in case:
        return run_big(case, obs)
    base = fresh_dir('m')
    saved = {}          # (name, packed) -> Tab
    trail = []
    enc = case['enc']
    kw = {} if enc is None else {'encoding': enc}
    pool = LATIN if enc == 'latin-1' else LATIN + ['日本/N', 'ζ', 'emoji😀']
    names = ['brown.wcmx.freq', 'm', 'toy.pac', 'sub.dir/x.y'][: random.Random(case['steps'][0]).randint(1, 4)]
    os.makedirs(os.path.join(base, 'sub.dir'))

    def load(name, packed):
        from nephosem import TypeTokenMatrix
        key = (name, packed)
        T = saved[key]
        obs.n('loads')
        obs.n('loads_packed' if packed else 'loads_unpacked')
        fn = os.path.join(base, name)
        if packed and not name.endswith('.pac') and rng.random() < .5:
            fn += '.pac'
        before = snapshot(base)
        what = 'load(%r, pack=%r) after %s' % (fn[len(base) + 1:], packed, trail)
        cwd = os.getcwd()
        try:
            if rng.random() < 0.1:      # relative name in the current directory
                os.chdir(os.path.dirname(fn))
                fn = os.path.basename(fn)
            R = TypeTokenMatrix.load(fn, pack=packed, **kw) if not (packed and rng.random() < .3) else TypeTokenMatrix.load(fn, **kw)
            got = mx.view(R)
        except Exception as e:
            obs.bad('load-raised', '%s raised %r' % (what, e))
            return
        finally:
            os.chdir(cwd)
        d = mx.diff(T, got, tol=0.0)
        obs.check(not d, 'load-differs', lambda: '%s: %s' % (what, d))
        after = snapshot(base)
        obs.check(before == after, 'load-changed-files', lambda: '%s changed files: %s' % (
            what, sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))))
        # loaded matrices are usable
        if rng.random() < 0.2:
            try:
                obs.check(not mx.indexing_ok(R, T), 'load-index', what)
            except Exception as e:
                obs.bad('load-index', '%s: indexing raised %r' % (what, e))

    try:
        for seed in case['steps']:
            rng = random.Random(seed)
            if saved and rng.random() < 0.25:
                load(*rng.choice(sorted(saved)))
                continue
            m = mx.make(rng, pool=pool)
            m['unsorted'] = m['kind'] in ('csr', 'csc') and rng.random() < 0.3
            M, T = derive(rng, mx.build(m), mx.model(m), obs)
            name, packed = rng.choice(names), rng.random() < 0.5
            what = 'save(%r, pack=%r) of %s %r' % (name, packed, type(M.matrix).__name__, T)
            trail.append(what if len(T.cells) < 10 else what[:200])
            before = mx.view(M)
            cwd = os.getcwd()
            try:
                fn = os.path.join(base, name)
                if rng.random() < 0.1:
                    os.chdir(os.path.dirname(fn))
                    fn = os.path.basename(fn)
                if packed and rng.random() < .3:
                    M.save(fn, verbose=False, **kw)
                else:
                    M.save(fn, pack=packed, verbose=rng.random() < .5, **kw)
            except Exception as e:
                obs.bad('save-raised', '%s raised %r' % (what, e))
                return
            finally:
                os.chdir(cwd)
            obs.n('saves')
            obs.check(not mx.diff(before, mx.view(M)), 'save-changed-matrix', what)
            key = (name, packed)
            if key in saved:
                obs.n('overwrites')
                obs.n('kind_switch', int(saved[key].sparse != T.sparse))
            saved[key] = T
            obs.nontrivial = obs.nontrivial or len(T.cells) > 1
            if rng.random() < 0.6:
                load(*key)
        rng = random.Random(case['steps'][-1])
        for key in sorted(saved):
            load(*key)
        # a packed matrix moved elsewhere is the same matrix
        for name, packed in sorted(saved):
            if packed and rng.random() < 0.2:
                T = saved.pop((name, packed))
                p = os.path.join(base, name if name.endswith('.pac') else name + '.pac')
                os.rename(p, os.path.join(base, 'moved.pac'))
                saved['moved', True] = T
                trail.append('rename %s to moved.pac' % name)
                obs.n('renamed')
                load('moved', True)
                break
        obs.see(trail)
    finally:
        rmtree(base)
