"""P24: utils.SaveLoad: round trips, and objects that survive every failing save."""
import os
import random
import resource
import shutil
import threading

import numpy as np
import scipy.sparse as sp

from nephmon.core import add_audit, del_audit, fresh_dir, rmtree

N = {'quick': 4000, 'thorough': 150000}
BUDGET = {'quick': 150, 'thorough': 780}
RULE = ('random object graphs (plain values, arrays of many dtypes and shapes, sparse matrices, nested, shared and cyclic objects) and histories of saves '
        '(plain, .gz, .bz2, file handle; separately, sep_limit, ignore, protocol), failing saves and loads (with and without memory mapping); faults: an error or '
        'an interrupt at the n-th file opened, a file size limit, a value that cannot be pickled; after every operation the object in memory is compared with '
        'its attributes by identity and content; non-trivial: a failed save with something set aside')
REQUIRED = {'saves': 1000, 'failed_saves': 800, 'failed_open': 150, 'failed_size': 200, 'failed_pickle': 400, 'interrupted': 200, 'loads': 1200, 'mmap_loads': 400,
            'separate_files': 900, 'nested': 600, 'shared': 150, 'cycles': 100, 'ignored': 150, 'handle_saves': 120, 'resaved': 350, 'changed_saves': 150, 'moved': 200, 'memory_checks': 2500}
ASSUMPTIONS = ['array subclasses (matrix, masked arrays) are outside', 'numpy.save itself does not report a full disk for small arrays (tofile): such saves count as failed', 'a file that an object in use maps into memory is not overwritten',
               'ignored attributes come back as None; ignore reaches nested objects that are attributes, not those inside containers']
TECHNIQUE = 'runtime monitoring: attribute snapshots around every operation, fault injection at every file operation and pickling step'


class Broken(object):
    """cannot be pickled"""
    def __init__(self, exc):
        self.exc = exc

    def __reduce__(self):
        raise self.exc


def classes():
    g = globals()
    if 'Thing' not in g:
        from nephosem.utils import SaveLoad
        for n in ('Thing', 'Other'):
            g[n] = type(n, (SaveLoad,), {'__module__': __name__, 'shared_default': 7})
    return g['Thing'], g['Other']


def gen(rng, idx, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.choice([1, 2, 3, 5]), 'ops': rng.choice([3, 6, 10])}


NAMES = ['a', 'b', 'c', 'data', 'idx', 'm', 'vec', 'name', 'é', '_hidden']


def value(rng):
    k = rng.randrange(13)
    n = rng.choice([0, 1, 3, 8, 40])
    if k <= 3:
        dt = rng.choice(['f8', 'i8', 'f4', 'u1', '?', 'c16', 'U3', 'S2', 'M8[D]', '>i4'])
        x = np.arange(n)
        if rng.random() < .3:
            x = x.reshape((n // 2, 2)) if n % 2 == 0 else x.reshape((1, n))
        x = x.astype(dt) if dt != 'M8[D]' else x.astype('i8').astype('M8[D]')
        if rng.random() < .2:
            x = np.asfortranarray(x)
        if rng.random() < .1:
            x = x[::2]
        return x
    if k == 4:
        return np.array(rng.choice([5.0, 3, True]))
    if k == 5:
        return np.array([1, 'x', None, [2]], dtype=object)
    if k == 6:
        return np.array([(1, 2.5), (3, 4.5)], dtype=[('p', 'i4'), ('q', 'f8')])
    if k in (7, 8):
        w = rng.choice([1, 4])
        d = np.array([[rng.choice([0, 0, 1.5, 2]) for _ in range(w)] for _ in range(rng.choice([1, 3, 9]))])
        return rng.choice([sp.csr_matrix, sp.csr_matrix, sp.csc_matrix, sp.csc_matrix, sp.coo_matrix, sp.csr_array])(d)
    if k == 9:
        return rng.choice([None, 0, -3, 2.5, float('inf'), 'text', 'Ünï', '', b'bytes', True, (1, 2)])
    if k == 10:
        return {'k': [1, 2], 'arr': np.arange(3)}
    if k == 11:
        return [np.arange(2), 'x', {1: 2}]
    return list(range(n))


def build(rng, n, obs):
    A, B = classes()
    nodes = [rng.choice([A, A, B])() for _ in range(n)]
    for i, o in enumerate(nodes):
        for a in rng.sample(NAMES, rng.randint(0 if i else 1, 5)):
            setattr(o, a, value(rng))
        if i:
            p = nodes[rng.randrange(i)]
            if rng.random() < .15:
                p.kids = getattr(p, 'kids', []) + [o]
            else:
                setattr(p, 'sub%d' % i, o)
            obs.n('nested')
    for _ in range(rng.choice([0, 0, 1, 2]) if n > 1 else 0):
        i, j = rng.randrange(n), rng.randrange(n)
        setattr(nodes[i], 'also%d' % j, nodes[j])
        obs.n('shared')
        obs.n('cycles', j <= i)
    return nodes


def show(v):
    try:
        return repr(v)[:300]
    except Exception as e:
        return '%s without a representation (%s)' % (type(v).__name__, e)


def content(v):
    """value as comparable content; objects by reference are handled by the caller"""
    if isinstance(v, np.ndarray):
        if v.dtype.hasobject:
            return ('oarr', v.shape, repr(v.tolist()))
        w = v.astype(v.dtype.newbyteorder('='))      # the byte order is a matter of storage
        return ('arr', w.dtype.str, w.dtype.names, w.shape, w.tobytes())
    if sp.issparse(v):
        if any(getattr(v, a, 0) is None for a in ('data', 'indices', 'indptr', 'row', 'col')):
            return (type(v).__name__, 'without its arrays')
        d = v.toarray()
        return (type(v).__name__, v.shape, d.dtype.str, d.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(content(x) for x in v))
    if isinstance(v, dict):
        return ('dict', tuple((repr(k), content(x)) for k, x in v.items()))
    if hasattr(v, '_save_specials'):
        return ('object', type(v).__name__)
    return (type(v).__name__, repr(v))


def attrs(o):
    return {k: v for k, v in vars(o).items() if not k.startswith('__')}


def snapshot(nodes):
    return [(o, {k: (v, content(v)) for k, v in attrs(o).items()}) for o in nodes]


def same_memory(obs, snap, op):
    obs.n('memory_checks')
    for i, (o, want) in enumerate(snap):
        got = attrs(o)
        if set(got) != set(want):
            obs.bad('memory-attributes', 'after %s object %d has the attributes %r instead of %r' % (op, i, sorted(got), sorted(want)))
            return False
        for k, (v, c) in want.items():
            if got[k] is not v or content(got[k]) != c:
                obs.bad('memory-values', 'after %s attribute %r of object %d is %r instead of %r' % (op, k, i, show(got[k]), show(v)))
                return False
    return True


def expected(root, ignore):
    """which objects ignore reaches"""
    seen, todo = [], [root]
    while todo:
        o = todo.pop()
        if any(o is s for s in seen):
            continue
        seen.append(o)
        todo.extend(v for k, v in attrs(o).items() if hasattr(v, '_save_specials') and k not in ignore)
    return seen


def equal(root, got, ignore):
    """-> None or a description of the first difference; sharing counts"""
    reach = expected(root, ignore) if ignore else []
    pair = {}

    def obj(a, b, path):
        if id(a) in pair:
            return None if pair[id(a)] is b else '%s: not the same object any more' % path
        pair[id(a)] = b
        if type(a) is not type(b):
            return '%s: %s instead of %s' % (path, type(b).__name__, type(a).__name__)
        x, y = attrs(a), attrs(b)
        ign = {k for k in x if k in ignore} if any(a is r for r in reach) else set()
        if set(x) != set(y):
            return '%s: attributes %r instead of %r' % (path, sorted(y), sorted(x))
        for k in x:
            if k in ign:
                r = None if y[k] is None else '%s.%s: ignored, but %r' % (path, k, y[k])
            else:
                r = val(x[k], y[k], path + '.' + k)
            if r:
                return r
        return None

    def val(a, b, path):
        if hasattr(a, '_save_specials'):
            return obj(a, b, path)
        if isinstance(a, list) and any(hasattr(x, '_save_specials') for x in a):
            if not isinstance(b, list) or len(a) != len(b):
                return '%s: %r instead of %r' % (path, b, a)
            return next((r for r in (val(x, y, '%s[]' % path) for x, y in zip(a, b)) if r), None)
        ca, cb = content(a), content(b)
        return None if ca == cb else '%s: %r instead of %r' % (path, b, a)
    return obj(root, got, 'object')


def run(case, obs):
    from nephosem import utils
    A, B = classes()
    rng = random.Random(case['seed'])
    nodes = build(rng, case['n'], obs)
    root = nodes[0]
    top = fresh_dir('sl')
    base = os.path.join(top, rng.choice(['x', 'x.gz', 'y.bz2', 'z.gz.old', 'd.npy', 'f']))
    os.mkdir(base)
    obs.see(case['seed'])
    snap = snapshot(nodes)
    files = {}                        # name -> (ignore)  of the last complete save
    history = []
    me = threading.get_ident()

    def save(o, name, kw, handle):
        path = os.path.join(base, name)
        if handle:
            with open(path, 'wb') as f:
                o.save(f, pickle_protocol=kw['pickle_protocol'])
        else:
            o.save(path, **kw)

    def load_check(name, ignore, tag, orig):
        mmap = rng.choice([None, None, 'r', 'c'])
        path = os.path.join(base, name)
        packed = name.endswith(('.gz', '.bz2'))
        try:
            got = rng.choice([A, B]).load(path, mmap=mmap)
        except IOError as e:
            if mmap and packed and 'mmap' in str(e):
                obs.n('mmap_refused')
                return None
            obs.bad('load-raises', 'load raised %s: %s\n   history %r' % (type(e).__name__, e, history))
            return None
        except Exception as e:
            obs.bad('load-raises', 'load raised %s: %s\n   history %r' % (type(e).__name__, e, history))
            return None
        obs.n('loads')
        obs.n('mmap_loads', mmap is not None)
        d = equal(orig, got, ignore)
        obs.check(d is None, tag, lambda: '%s\n   mmap %r, history %r' % (d, mmap, history))
        return None if d else got

    try:
        for _ in range(case['ops']):
            name = rng.choice(['f', 'f', 'g.bin', 'h.gz', 'k.bz2'])
            keys = sorted(attrs(root))
            sep = rng.choice([None, None, rng.sample(keys, rng.randint(0, len(keys))), ['nothing']])
            ign = rng.choice([frozenset(), frozenset(), frozenset(rng.sample(NAMES, 2)), ['a'], ['shared_default', 'm']])
            kw = {'separately': sep, 'sep_limit': rng.choice([0, 2, 10, 10 ** 7]), 'ignore': ign, 'pickle_protocol': rng.choice([0, 1, 2, 2, 3, 4, 5])}
            handle = rng.random() < .15
            name = rng.choice(['f', 'g.bin']) if handle else name     # a plain file
            op = rng.choice(['save', 'save', 'open', 'open', 'size', 'pickle', 'pickle', 'load', 'func'])
            desc = (op, name, 'handle' if handle else kw)
            history.append(desc)
            if op == 'load':
                if files:
                    n = rng.choice(sorted(files))
                    load_check(n, files[n], 'round-trip', root)
                continue
            if op == 'func':
                v = value(rng)
                p = os.path.join(base, rng.choice(['v.pkl', 'v.gz']))
                utils.pickle(v, p, protocol=kw['pickle_protocol'])
                w = utils.unpickle(p)
                obs.check(content(v) == content(w), 'pickle-round-trip', lambda: '%r instead of %r' % (w, v))
                continue
            exc, extra = None, None
            before = set(os.listdir(base))
            if op == 'save':
                try:
                    save(root, name, kw, handle)
                except Exception as e:
                    obs.bad('save-raises', 'save raised %s: %s\n   history %r' % (type(e).__name__, e, history))
                    return
            elif op == 'open':
                at = rng.randrange(6)
                err = rng.choice([OSError(28, 'No space left on device'), PermissionError(13, 'Permission denied'), KeyboardInterrupt()])
                cnt = [0]

                def hook(event, args):
                    if event == 'open' and isinstance(args[0], str) and args[0].startswith(base) and threading.get_ident() == me:
                        cnt[0] += 1
                        if cnt[0] == at + 1:
                            raise err
                add_audit(hook)
                try:
                    save(root, name, kw, handle)
                except BaseException as e:
                    exc = e
                finally:
                    del_audit(hook)
                if exc is not None and not isinstance(exc, (OSError, KeyboardInterrupt)):
                    obs.bad('save-raises', 'save raised %s: %s after %r\n   history %r' % (type(exc).__name__, exc, err, history))
                    return
                if exc is not None:
                    obs.n('failed_open')
                    obs.n('interrupted', isinstance(exc, KeyboardInterrupt))
            elif op == 'size':
                limit = rng.choice([10, 60, 130, 140, 200, 400])
                soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, hard))
                try:
                    save(root, name, kw, handle)
                except Exception as e:
                    exc = e
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                obs.n('failed_size', exc is not None)
                if exc is None and any(f.startswith(name + '.') and f.endswith('.npy') and os.path.getsize(os.path.join(base, f)) >= limit for f in os.listdir(base)):
                    obs.n('silently_truncated')
                    exc = 'numpy, which does not notice the full disk'
            else:                     # an attribute that cannot be pickled, anywhere
                victim = rng.choice(nodes)
                err = rng.choice([RuntimeError('no pickle'), TypeError('no pickle'), KeyboardInterrupt()])
                extra = Broken(err)
                victim.zz = extra
                try:
                    save(root, name, kw, handle)
                except BaseException as e:
                    exc = e
                ok = attrs(victim).get('zz') is extra
                obs.check(ok, 'memory-attributes', 'the attribute that cannot be pickled is gone')
                vars(victim).pop('zz', None)
                obs.n('failed_pickle', exc is not None)
                obs.n('interrupted', isinstance(exc, KeyboardInterrupt))
            what = '%r%s' % (desc, ', which failed with %r' % exc if exc is not None else '')
            if not same_memory(obs, snap, what):
                return
            if exc is not None:
                obs.n('failed_saves')
                obs.nontrivial = obs.nontrivial or len(set(os.listdir(base)) - before) > 0
                files.pop(name, None)
                continue
            obs.n('saves')
            obs.n('handle_saves', handle)
            ignore = frozenset() if handle else frozenset(ign)
            obs.n('ignored', len(ignore & set(attrs(root))))
            obs.n('separate_files', sum(f.startswith(name + '.') for f in os.listdir(base)))
            if extra is not None:
                files.pop(name, None)      # the attribute was stored or not reached
                continue
            files[name] = ignore
            if rng.random() < .2:         # the files of the object, moved to another directory
                home, base = base, os.path.join(top, rng.choice(['other', 'other.gz', 'other.bz2.d']))
                shutil.copytree(home, base)
                obs.n('moved')
                try:
                    load_check(name, ignore, 'moved', root)
                finally:
                    shutil.rmtree(base)
                    base = home
            got = load_check(name, ignore, 'round-trip', root)
            if not same_memory(obs, snap, 'load'):
                return
            if got is not None and rng.random() < .5:
                # a loaded object can be saved again, in any way
                kw2 = dict(kw, separately=rng.choice([None, [], sorted(attrs(got))]), ignore=frozenset(), sep_limit=rng.choice([0, 10 ** 7]))
                history.append(('resave', 'second', kw2))
                try:
                    save(got, 'second', kw2, rng.random() < .3)
                except Exception as e:
                    obs.bad('resave-raises', 'saving a loaded object raised %s: %s\n   history %r' % (type(e).__name__, e, history))
                    return
                obs.n('resaved')
                load_check('second', frozenset(), 'second-round-trip', got)
                if rng.random() < .5:
                    # changed since it was loaded, and saved once more
                    for k in [k for k, v in attrs(got).items() if hasattr(v, '_save_specials') or rng.random() < .3]:
                        if rng.random() < .4:
                            delattr(got, k)
                        else:
                            setattr(got, k, value(rng))
                    got.added = value(rng)
                    history.append(('changed', 'second', kw2))
                    try:
                        save(got, 'second', dict(kw2, separately=None), rng.random() < .7)
                    except Exception as e:
                        obs.bad('resave-raises', 'saving a changed object raised %s: %s\n   history %r' % (type(e).__name__, e, history))
                        return
                    obs.n('changed_saves')
                    load_check('second', frozenset(), 'changed-round-trip', got)
    finally:
        rmtree(top)
