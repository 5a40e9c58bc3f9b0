"""P28: resource and process-state monitors around repeated library calls, successful and failing."""
import copy
import gc
import json
import os
import random
import signal
import sys
import threading
import time

from nephmon import corpus, mx, pipeline
from nephmon.checks import p04, p20
from nephmon.checks.p02 import pick
from nephmon.core import _tree, add_audit, del_audit, isolate

N = {'quick': 56, 'thorough': 3000}
RULE = ('sequences of library operations (corpus passes of every handler, saves, loads, exports, measures, clustering, node and configuration files), each '
        'run once to warm up and then up to three times between two snapshots of the process; half of the operations fail in the last runs (missing or corrupt '
        'files, missing directories, labels the encoding cannot represent, an OSError at some open of the process or of a worker, fork refused); '
        'non-trivial: the calls opened files or started processes, and at least one call failed')
REQUIRED = {'calls': 600, 'failed_calls': 120, 'opens_seen': 800, 'children_started': 300, 'snapshots': 600, 'injected': 80, 'handler_calls': 25, 'first_calls': 150, 'bar_locks': 300, 'draws': 150}
ASSUMPTIONS = ['what the first call of a kind sets up once for the whole process (imports, progress-bar monitor, resource tracker) may stay; sys.path, warning filters and pandas options are judged from the second call on',
               'processes get 15 s after the call to end', 'sampling without a seed consumes the random generators',
               'objects that are returned may hold memory, never file descriptors (memory-mapped loads excepted)']
TECHNIQUE = 'runtime monitoring: snapshots of file descriptors, processes, threads and interpreter-wide state around repeated and faulted calls'
OPS = ['item', 'col', 'tok', 'dep', 'matrix', 'matrix', 'csv', 'vocab', 'node', 'saveload', 'dict', 'calc', 'cbc', 'config', 'graphs', 'names', 'sample', 'tokens']


def gen(rng, idx, tier):
    ops = [OPS[(idx * 5 + k) % len(OPS)] if k < 3 else rng.choice(OPS) for k in range(rng.choice([4, 5, 6]))]
    return {'ops': ops, 'cseed': rng.randrange(1 << 40), 'sseed': rng.randrange(1 << 40), 'n_files': rng.choice([2, 3, 5]), 'vocab': rng.choice([2, 4]),
            'max_lines': rng.choice([12, 25]), 'mode': rng.choice(['type', 'token']), 'n_pat': 1, 'hostile': False, 'rows': 'all', 'how': 'list', 'keep': 1.0,
            'tmp': 'set', 'out': 'set'}


# state that the first call of a kind may set up (modules imported on demand)
LAZY = {'sys.path', 'warning filters', 'pandas options', 'current process'}


class Refused(OSError):
    pass


class SlowTerminal:
    """a stream on which every process but this one writes slowly"""

    def __init__(self, fp):
        self.fp, self.pid, self.encoding = fp, os.getpid(), 'utf-8'

    def write(self, s):
        if os.getpid() != self.pid:
            time.sleep(.3)
        return self.fp.write(s)

    def flush(self):
        self.fp.flush()

    def isatty(self):
        return False


def bar_lock():
    """the lock of the progress bars can be had (what a process that ended still holds stays taken for ever)"""
    import tqdm
    lock = getattr(type(tqdm.tqdm.get_lock()), 'mp_lock', None)
    if lock is None:
        return None
    ok = lock.acquire(timeout=5)
    if ok:
        lock.release()
    return ok


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[int(n)] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return out


def mapped(base):
    with open('/proc/self/maps', errors='replace') as f:
        return sorted({l.split(None, 5)[5].strip() for l in f if base in l})


def state():
    """everything of the process that a library call has no business changing"""
    import locale
    import logging
    import multiprocessing
    import warnings
    import numpy as np
    import pandas as pd
    um = os.umask(0)
    os.umask(um)
    ns = np.random.get_state()
    try:
        pdo = copy.deepcopy(pd._config.config._global_config)
    except Exception:
        pdo = None
    lg = logging.getLogger('nephosem')
    return {
        'working directory': os.getcwd(), 'umask': um, 'environment': dict(os.environ), 'sys.path': list(sys.path), 'sys.argv': list(sys.argv),
        'signal handlers': {s: signal.getsignal(s) for s in signal.valid_signals()},
        'numpy random state': [ns[0], ns[1].tolist(), ns[2:]], 'random state': random.getstate(),
        'numpy errors': np.geterr(), 'numpy print options': {k: repr(v) for k, v in np.get_printoptions().items()},
        'warning filters': [repr(f) for f in warnings.filters], 'locale': locale.setlocale(locale.LC_ALL),
        'recursion limit': sys.getrecursionlimit(), 'garbage collection': gc.isenabled(), 'start method': multiprocessing.get_start_method(),
        'standard streams': [id(sys.stdin), id(sys.stdout), id(sys.stderr)], 'hooks': [id(sys.excepthook), id(sys.displayhook), id(threading.excepthook)],
        'logging': [logging.root.level, logging.root.manager.disable, list(map(repr, logging.root.handlers)), lg.level, list(map(repr, lg.handlers)), lg.propagate],
        'pandas options': repr(pdo), 'current process': [multiprocessing.current_process().name, dict(multiprocessing.current_process()._config, authkey=None)],
        'decimal': None, 'switch interval': sys.getswitchinterval(), 'default timeout': __import__('socket').getdefaulttimeout(),
    }


def make_ops(case, base, root, settings, paths, rng):
    """name -> (callable(), [failing callables])"""
    import numpy as np
    from nephosem import ConfigLoader, TypeTokenMatrix, Vocab
    from nephosem.core.graph import MacroGraph, PatternGraph
    from nephosem.core.terms import TypeNode
    from nephosem.specutils import mxcalc
    from nephosem.utils import SaveLoad, load_dict_json, load_dict_plain, pickle, read_fnames, save_concordance, save_dict_json, save_dict_plain, unpickle
    m = corpus.Model(settings)
    nf = len(m.type_fmt.split('/'))
    types = sorted(t for t in m.freq(paths) if len(t.split('/')) == nf)
    st = {'rows': types or ['zz/zz'], 'queries': types[:3] or ['/'.join(['zz'] * nf)], 'cols': None}
    d = os.path.join(base, 'files')
    os.makedirs(d)
    P = lambda n: os.path.join(d, n)
    no = os.path.join(d, 'no such directory', 'x')
    bad = P('corrupt')
    for suf in ('', '.pac', '.npz', '.meta', '.json', '.csv', '.fnames', '.npy', '.bz2', '.xml'):
        with open(bad + suf, 'wb') as f:
            f.write(rng.choice([b'', b'PK\x03\x04 not really a zip', b'\x93NUMPY\x01\x00v\x00', b'{"a": 1,', b'\xff\xfe\x00broken', b'<a><b></a>']))
    W = rng.choice([1, 2, 3])
    missing = list(paths) + [os.path.join(root, 'absent')]

    def handler(h, s, files):
        return lambda: p04.collect(dict(case, handler=h), s, list(files), W, st)[0]

    out = {}
    for h in ('item', 'col', 'tok'):
        if h == 'tok' and not types:
            continue
        out[h] = (handler(h, settings, paths), [handler(h, settings, missing), handler(h, dict(settings, **{'corpus-path': None}), missing)])
    if 'dep' in case['ops']:
        dbase, droot, ds, dpaths, _, st['pats'] = p20.make(case, random.Random(case['cseed']))
        case['dbase'] = dbase
        out['dep'] = (handler('dep', ds, dpaths), [handler('dep', ds, list(dpaths) + [os.path.join(droot, 'absent')])])
    r = mx.make(rng, kind=rng.choice(['csr', 'csr', 'dense']), density=.7, dtype=rng.choice(['int', 'pos']), shape=(6, 6), pool=mx.PLAIN)
    M = mx.build(r)

    def matrix():
        for pack in (True, False):
            M.save(P('m'), pack=pack, verbose=False)
            TypeTokenMatrix.load(P('m' + ('.pac' if pack else '')), pack=pack)

    def loads(*fns):
        return list(fns)
    odd = TypeTokenMatrix(np.eye(2), ['日本', 'b'], ['日本', 'b'], deep=False)
    out['matrix'] = (matrix, loads(lambda: TypeTokenMatrix.load(P('absent.pac')), lambda: TypeTokenMatrix.load(bad + '.pac'),
                                   lambda: TypeTokenMatrix.load(bad, pack=False), lambda: M.save(no, pack=True, verbose=False),
                                   lambda: M.save(no, pack=False, verbose=False), lambda: odd.save(P('odd'), pack=True, encoding='latin-1', verbose=False),
                                   lambda: TypeTokenMatrix.load(P('m.pac'), encoding='no-such-codec')))
    out['csv'] = (lambda: (M.to_csv(P('m.csv'), verbose=False), TypeTokenMatrix.read_csv(P('m.csv'), index_col=0)),
                  loads(lambda: TypeTokenMatrix.read_csv(P('absent.csv')), lambda: M.to_csv(no, verbose=False), lambda: TypeTokenMatrix.read_csv(bad + '.csv', index_col=0),
                        lambda: odd.to_csv(P('o.csv'), encoding='latin-1', verbose=False)))
    V = Vocab({'walk/V': 3, 'the/DT': 9, '日本/N': 1})

    def vocab():
        for fmt in ('json', 'plain'):
            V.save(P('v.' + fmt), fmt=fmt, verbose=False)
            Vocab.load(P('v.' + fmt), fmt=fmt)
    out['vocab'] = (vocab, loads(lambda: Vocab.load(P('absent')), lambda: Vocab.load(bad + '.json'), lambda: V.save(no, verbose=False), lambda: V.save(P('x'), fmt='nope'),
                                 lambda: V.save(P('l.json'), encoding='latin-1', verbose=False), lambda: V.save(P('l.txt'), fmt='plain', encoding='latin-1', verbose=False)))
    tn = TypeNode(type_fmt='lemma/pos', type_str='walk/V')

    def node():
        tn.save(P('n'), verbose=False)
        TypeNode.load(P('n'))
        save_concordance(P('conc'), {'walk/V': tn})
    out['node'] = (node, loads(lambda: TypeNode.load(P('absent')), lambda: TypeNode.load(bad), lambda: tn.save(no, verbose=False), lambda: save_concordance(no, {'walk/V': tn})))
    so = SaveLoad()
    so.a, so.big, so.s = [1, 2], np.arange(600.), M.matrix.copy() if M.matrix is not None and hasattr(M.matrix, 'tocsr') else 0
    lock = SaveLoad()
    lock.x, lock.a = threading.Lock(), np.arange(800.)

    def saveload():
        for n in ('so', 'so.gz', 'so.bz2'):
            so.save(P(n), sep_limit=rng.choice([100, 10 ** 9]))
            SaveLoad.load(P(n))
        pickle({'a': 1}, P('pk'))
        unpickle(P('pk'))
    out['saveload'] = (saveload, loads(lambda: SaveLoad.load(P('absent')), lambda: SaveLoad.load(bad), lambda: so.save(no), lambda: lock.save(P('lk'), sep_limit=100),
                                       lambda: unpickle(bad), lambda: unpickle(bad + '.bz2'), lambda: pickle(threading.Lock(), P('pk2')), lambda: unpickle(P('absent'))))

    def dicts():
        save_dict_json({'a': 1}, P('d.json'))
        load_dict_json(P('d.json'))
        save_dict_plain({'a': 1}, P('d.txt'))
        load_dict_plain(P('d.txt'))
    out['dict'] = (dicts, loads(lambda: load_dict_json(bad + '.json'), lambda: load_dict_plain(P('absent')), lambda: save_dict_json({'a': {1}}, P('d2.json')),
                                lambda: save_dict_plain({'日': 1}, P('d3.txt'), encoding='latin-1'), lambda: save_dict_plain({'a': 1}, no)))
    rc = mx.make(rng, kind='csr', density=.8, dtype='int', shape=(6, 7), pool=mx.PLAIN, explicit=False)
    C = mx.build(rc)

    def calc():
        nv, cv = Vocab(C.sum(axis=1)), Vocab(C.sum(axis=0))
        for meas in ('ppmi', 'lik', 'pmi'):
            A = mxcalc.compute_association(C, nfreq=nv, cfreq=cv, meas=meas)
        for metric in ('cosine', 'euclidean'):
            mxcalc.compute_distance(A, metric=metric)
        S = mxcalc.compute_cosine(A)
        mxcalc.compute_simrank(S)
        S.most_similar(S.row_items[0], k=2)
        str(A), repr(A), A.print_matrix(3, 3), A.describe()
        A.submatrix(row=A.row_items[:2]), A.transpose(), A > 0, A.concatenate(A), A.merge(A), A.drop_empty(axis=0), A.deepcopy()
    out['calc'] = (calc, loads(lambda: C.submatrix(row=['unknown row']), lambda: C.sum(axis=7), lambda: mxcalc.compute_association(C, nfreq=Vocab({}), cfreq=Vocab({}), meas='pmi'),
                               lambda: mxcalc.compute_distance(C, metric='no-such-metric'), lambda: C.reorder(['x'])))
    rk = mx.make(rng, kind='csr', density=.8, dtype='int', shape=(9, 8), explicit=False)
    K = mx.build(rk)
    out['cbc'] = (None, [])

    def cbc(els=None, multicore=True):
        from nephosem import CBC
        els = els or [x for x in K.row_items if K.sum(axis=1).get(x)]
        X = mxcalc.compute_association(K, nfreq=Vocab(K.sum(axis=1)), cfreq=Vocab(K.sum(axis=0)), meas='ppmi')
        CBC(els, K, measmx=X, k=3, theta1=.35, theta2=.25, workers=2).cluster(multicore=multicore)
    out['cbc'] = (cbc, loads(lambda: cbc(['not an element', 'x', 'y'])))
    conf = P('user.conf')
    with open(conf, 'w') as f:
        f.write('[Span]\nleft-span = 3\nright-span = 2\n')
    badconf = P('bad.conf')
    with open(badconf, 'w') as f:
        f.write('[Span\nleft-span = x\n')
    out['config'] = (lambda: ConfigLoader().update_config(conf), loads(lambda: ConfigLoader(badconf), lambda: ConfigLoader().update_config(badconf)))
    pats = P('p.graphml')
    with open(pats, 'w') as f:
        f.write('<graphml xmlns="http://graphml.graphdrawing.org/xmlns"><key id="v" for="node" attr.name="pos" attr.type="string"/>'
                '<graph edgedefault="directed"><node id="1"><data key="v">V</data></node></graph></graphml>')
    out['graphs'] = (None, [])

    def graphs():
        PatternGraph.read_graphml(pats)
    out['graphs'] = (graphs, loads(lambda: PatternGraph.read_graphml(P('absent.graphml')), lambda: PatternGraph.read_graphml(bad + '.xml'),
                                   lambda: MacroGraph.read_xml(bad + '.xml', []), lambda: MacroGraph.read_csv(P('absent.csv'), [])))
    with open(P('s.fnames'), 'w') as f:
        f.write('a\n# b\n\nc\n')
    out['names'] = (lambda: read_fnames(P('s'), d), loads(lambda: read_fnames(P('absent')), lambda: read_fnames(bad + '.fnames', encoding='ascii')))
    out['sample'] = (lambda: (M.sample(.5, seed=7), M.sample(3, seed=0)), loads(lambda: M.sample(99, seed=3), lambda: M.sample(-1, seed=3)))

    def tokens():
        a = TypeTokenMatrix(np.array([[1, 0], [2, 1]]), ['walk/V/f/1', 'walk/V/f/2'], ['x', 'y'], deep=True)
        w = TypeTokenMatrix(np.array([[.5, .25]]), ['walk/V'], ['x', 'y'], deep=True)
        from scipy import sparse
        a.matrix, w.matrix = sparse.csr_matrix(a.matrix), sparse.csr_matrix(w.matrix)
        tw = mxcalc.compute_token_weights(a, w)
        soc = TypeTokenMatrix(sparse.csr_matrix(np.array([[.5, .25], [1, 2]])), ['x', 'y'], ['p', 'q'])
        for op in ('addition', 'weightedmean', 'multiplication'):
            mxcalc.compute_token_vectors(tw, soc, operation=op, normalization=rng.choice(['l1', 'l2', 'max']))
        # tokens without any weight
        mxcalc.compute_token_vectors(mxcalc.compute_token_weights(a, TypeTokenMatrix(w.matrix, ['run/V'], ['x', 'y'])), soc, operation='weightedmean')
    out['tokens'] = (tokens, [])
    return out


def draws(case, bad, n):
    """sampling without a seed consumes the random numbers of the process, and never restarts them"""
    import numpy as np
    from nephosem import TypeTokenMatrix
    from nephosem.core.terms import TokenNode, TypeNode
    toks = [TokenNode(word='a', pos='N', lemma='a', fid='f', lid=i, token_fmt='lemma/pos/fid/lid') for i in range(9)]
    tn = TypeNode(type_str='a/N', type_fmt='lemma/pos', tokens=toks)
    M = TypeTokenMatrix(np.arange(12).reshape(4, 3), list('abcd'), list('xyz'), deep=True)
    keep = random.getstate(), np.random.get_state()
    for what, fn in (('TypeNode.sample', lambda: tn.sample(4)), ('TypeTokenMatrix.sample', lambda: M.sample(2)), ('TypeTokenMatrix.sample', lambda: M.sample(.5)),
                     ('TypeNode.sample', lambda: tn.sample(99))):
        ends = []
        for s in (1, 2):
            random.seed(case['cseed'] + s)
            np.random.seed((case['cseed'] + s) % (1 << 32))
            fn()
            ends.append((random.getstate(), repr(np.random.get_state())))
        n('draws')
        if any(a == b for a, b in zip(*ends)):
            bad('restarts-random', '%s without a seed restarts the random numbers of the process' % what)
    random.setstate(keep[0])
    np.random.set_state(keep[1])


def settle(pid0):
    """children and other processes of the session that outlive the call"""
    import multiprocessing
    end = time.monotonic() + 15
    while True:
        gc.collect()
        multiprocessing.active_children()       # reaps the finished ones
        left = [p for p in _tree(os.getsid(0)) if p[0] != os.getpid() and p[0] not in pid0]
        if not left or time.monotonic() > end:
            return left
        time.sleep(.05)


def cmdline(pid):
    try:
        with open('/proc/%d/cmdline' % pid, 'rb') as f:
            return f.read().replace(b'\0', b' ').decode('utf8', 'replace')[-120:]
    except OSError:
        return '?'


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)

    def call():
        import logging
        import contextlib
        rng = random.Random(case['sseed'])
        res = {'viol': [], 'n': {}, 'see': []}

        def n(k, v=1):
            res['n'][k] = res['n'].get(k, 0) + v

        def bad(key, msg):
            res['viol'].append((key, msg))
        ops = make_ops(case, base, root, settings, paths, rng)
        inj = {'at': None, 'seen': 0, 'fork': None}
        me = os.getpid()

        def hook(event, args):
            if event == 'open' and isinstance(args[0], (str, bytes)):
                p = os.fsdecode(args[0])
                if base in p or case.get('dbase', '\0') in p:
                    inj['seen'] += 1
                    if inj['at'] is not None and inj['seen'] >= inj['at']:
                        raise Refused(5, 'injected I/O error', p)
            elif event == 'os.fork':
                n('children_started')
                if inj['fork'] is not None and os.getpid() == me:
                    inj['fork'] -= 1
                    if inj['fork'] < 0:
                        time.sleep(inj.get('nap', 0))
                        raise Refused(11, 'injected: cannot fork')
        add_audit(hook)
        sink, std = open(os.devnull, 'w'), (sys.stdout, sys.stderr)
        draws(case, bad, n)
        with contextlib.redirect_stdout(sink):
            for name in case['ops']:
                if name not in ops or ops[name][0] is None:
                    continue
                good, fails = ops[name]
                if name in ('item', 'col', 'tok', 'dep'):
                    n('handler_calls')
                s0 = state()
                good()                                      # warm up
                settle(())
                s1 = state()
                n('first_calls')
                for k in sorted(set(s0) - LAZY):
                    if s0[k] != s1[k]:
                        bad('changes-' + k.replace(' ', '-'), 'the first call of %r changed the %s of the process' % (name, k)
                            + (': %r -> %r' % (s0[k], s1[k]) if len(repr(s0[k])) < 300 else ''))
                procs0 = [p[0] for p in _tree(os.getsid(0))]
                f0, t0, s0, m0 = fds(), sorted(t.name for t in threading.enumerate()), state(), mapped(base)
                plan = [('', good, None)] * 2
                plan += [('failing ', f, None) for f in rng.sample(fails, min(len(fails), 3))]
                for _ in range(2 if name not in ('calc', 'sample', 'tokens') else 0):
                    plan.append(('interrupted ', good, ('open', rng.choice([1, 1, 2, 3, 4, 6, 9]))))
                if name in ('item', 'col', 'tok', 'dep', 'cbc'):
                    plan.append(('interrupted ', good, ('fork', rng.choice([0, 1, 2]))))
                rng.shuffle(plan)
                if name == 'cbc':                           # processes stopped while they write their progress
                    plan.append(('interrupted ', good, ('fork', rng.choice([1, 2, 3]), .25)))
                for what, fn, fault in plan:
                    inj.update(at=None, seen=0, fork=None, nap=0)
                    if fault:
                        inj['at' if fault[0] == 'open' else 'fork'] = fault[1]
                        n('injected')
                    err = None
                    if fault and len(fault) > 2:
                        inj['nap'] = fault[2]
                        sys.stderr = SlowTerminal(std[1])
                    try:
                        fn()
                    except Exception as e:
                        err = type(e).__name__
                        n('failed_calls')
                        if not what:
                            raise
                    finally:
                        if fault and len(fault) > 2:
                            sys.stderr = std[1]
                    inj.update(at=None, fork=None)
                    n('calls')
                    n('opens_seen', inj['seen'])
                    n('snapshots')
                    left = settle(procs0)
                    free = bar_lock()
                    n('bar_locks', free is not None)
                    if free is False:
                        bad('lock-left', 'after a call of %r the lock of the progress bars is never released: the next bar waits for ever' % name)
                        return res, case.get('dbase')
                    desc = '%scall of %r%s' % (what, name, ' (%s)' % err if err else '')
                    if left:
                        bad('process-left', 'after a %s these processes go on: %r' % (desc, [(p[0], p[1], cmdline(p[0])) for p in left[:4]]))
                        procs0 += [p[0] for p in left]
                    f1, t1, s1, m1 = fds(), sorted(t.name for t in threading.enumerate()), state(), mapped(base)
                    new = {k: v for k, v in f1.items() if f0.get(k) != v}
                    if fault and fault[0] == 'fork':        # CPython's Popen leaves its two pipes open when fork fails
                        for k in [k for k, v in new.items() if v.startswith('pipe:')][:4]:
                            f0[k] = new.pop(k)
                    if len(f1) > len(f0) or any(base in v for v in new.values()):
                        bad('descriptor-left', 'after a %s these file descriptors stay open: %r' % (desc, list(new.values())[:5]))
                    if any(k not in f1 for k in f0):
                        bad('descriptor-closed', 'a %s closed descriptors it had not opened: %r' % (desc, [f0[k] for k in f0 if k not in f1][:4]))
                    if len(t1) > len(t0):
                        bad('thread-left', 'after a %s these threads go on: %r (before: %r)' % (desc, t1, t0))
                    if m1 != m0:
                        bad('mapping-left', 'after a %s these files stay mapped: %r' % (desc, m1))
                    for k in s0:
                        if s0[k] != s1[k]:
                            bad('changes-' + k.replace(' ', '-'), 'a %s changed the %s of the process' % (desc, k)
                                + (': %r -> %r' % (s0[k], s1[k]) if len(repr(s0[k])) < 300 else ''))
                    f0, t0, s0, m0 = f1, t1, s1, m1
                    res['see'].append('%s%s%s' % (what, name, err))
        del_audit(hook)
        return res, case.get('dbase')

    dbase = None
    try:
        status, val = isolate(call, hard_s=300)
        if not pipeline.outcome(obs, status, val, 'operations'):
            return
        res, dbase = val
        for k, v in res['n'].items():
            obs.n(k, v)
        for k, msg in res['viol']:
            obs.bad(k, msg)
        obs.nontrivial = res['n'].get('opens_seen', 0) > 0 and res['n'].get('failed_calls', 0) > 0
        obs.see(*res['see'])
    finally:
        pipeline.clean(base)
        if dbase:
            pipeline.clean(dbase)
