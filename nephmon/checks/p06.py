"""P06: file-system snapshots and write/delete audit events around handler runs."""
import os
import random

from nephmon import corpus, pipeline
from nephmon.checks import p04, p20
from nephmon.checks.p02 import pick
from nephmon.core import EventLog, add_audit, del_audit, isolate, rmtree, snap_diff, snapshot

N = {'quick': 400, 'thorough': 9000}
RULE = ('1-3 handlers of any kind (plus mere construction) run one after the other or at the same time in one temporary directory that already '
        'holds files of other programs and of "another handler"; temporary directory configured, derived from output-path, or ~/tmp; sometimes a '
        'run fails on a missing file; non-trivial: at least one temporary file was written and removed')
REQUIRED = {'write_events': 200, 'delete_events': 200, 'concurrent_cases': 40, 'snapshots': 700, 'tmp_default_home': 30, 'tmp_output': 30}
ASSUMPTIONS = ['creating directories is allowed (only files are tracked)', 'the standard library may use $TMPDIR (sockets of multiprocessing.Manager, writability probe)',
               'after a failed run temporary files of that run may remain']
TECHNIQUE = 'runtime monitoring: file-system snapshots and audit events of all processes'


def gen(rng, idx, tier):
    hs = [rng.choice(['item', 'col', 'col', 'col', 'tok', 'dep', 'construct']) for _ in range(rng.choice([1, 2, 3]))]
    return {'handlers': hs, 'cseed': rng.randrange(1 << 40), 'sseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 3, 6]),
            'vocab': rng.choice([2, 4]), 'max_lines': rng.choice([20, 40]), 'workers': rng.choice([1, 2, 3, 5]),
            'tmp': rng.choice(['set', 'set', 'unset']), 'out': rng.choice(['set', 'unset']),
            'concurrent': len(hs) > 1 and rng.random() < 0.5, 'fail': rng.random() < 0.15,
            'cols': rng.choice(['none', 'all']), 'mode': 'type', 'n_pat': 1, 'hostile': False, 'rows': 'all', 'how': 'list', 'keep': 1.0,
            'delay': rng.random() < 0.3}


def litter(rng, d, log):
    """files of others in a directory that handlers may use"""
    names = ['notes.txt', 'sub.0.npz', 'sub.0.meta', 'results/table.csv', '99999999/sub.0.npz', '99999999/sub.0.meta',
             'col.freq/99999999/sub.0.npz', 'col.freq/99999999/sub.0.meta', 'col.freq/keep.me', 'item.freq/1/sub.0', 'tok.app/99999999/sub.0.npz',
             'tmp/x', 'col.freq/99999999/sub.1.npz']
    for n in rng.sample(names, rng.randrange(3, len(names))):
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write('precious %s %d\n' % (n, rng.randrange(99)))


def run(case, obs):
    rng = random.Random(case['sseed'])
    st = {}
    dep = 'dep' in case['handlers']
    base, root, settings, paths = pipeline.build(case)
    m = corpus.Model(settings)
    nf = len(m.type_fmt.split('/'))
    types = {t for t in m.freq(paths) if len(t.split('/')) == nf}
    collocs = {it.fmt(m.colloc_fmt) for p in paths for s in m.segments(p) for it in s}
    st['rows'] = sorted(types) or ['zz/zz']
    st['queries'] = sorted(types) or ['/'.join(['zz'] * nf)]
    st['cols'] = pick(rng, case['cols'], collocs)
    dbase = None
    if dep:
        dbase, droot, dsettings, dpaths, _, st['pats'] = p20.make(case, random.Random(case['cseed']))
        for k in ('tmp-path', 'output-path'):
            dsettings.pop(k, None)
            if k in settings:
                dsettings[k] = settings[k]
    home = os.environ['HOME']
    for sub in os.listdir(home):
        rmtree(os.path.join(home, sub)) if os.path.isdir(os.path.join(home, sub)) else os.remove(os.path.join(home, sub))
    try:
        if 'tmp-path' in settings:
            tmproot = settings['tmp-path']
            os.makedirs(tmproot)
        elif 'output-path' in settings:
            tmproot = os.path.join(settings['output-path'], 'tmp')
            os.makedirs(tmproot)
            obs.n('tmp_output')
        else:
            tmproot = os.path.join(home, 'tmp')
            obs.n('tmp_default_home')
        if rng.random() < 0.9:
            os.makedirs(os.path.join(home, 'tmp'))
            litter(rng, os.path.join(home, 'tmp'), None)
        with open(os.path.join(home, '.profile'), 'w') as f:
            f.write('x')
        os.makedirs(tmproot, exist_ok=True)
        litter(rng, tmproot, None)
        if 'output-path' in settings:
            litter(rng, settings['output-path'], None)
        roots = [base, home] + ([dbase] if dbase else [])
        before = [snapshot(r) for r in roots]
        logd = os.path.join(os.environ['NEPHMON_SCRATCH'], 'ev%d' % case['sseed'])
        log = EventLog(logd)
        tmproot_r = os.path.realpath(tmproot)

        def call():
            def hook(event, args):
                if event == 'open':
                    if isinstance(args[0], str) and args[1] and any(c in str(args[1]) for c in 'wxa+'):
                        log.put('write', args[0], os.getcwd())
                elif event in ('os.remove', 'os.rename', 'os.truncate', 'shutil.rmtree', 'os.rmdir', 'shutil.move', 'shutil.copyfile', 'os.chmod',
                               'os.link', 'os.symlink'):
                    for x in args[:2]:
                        if isinstance(x, (str, bytes)):
                            log.put(event, os.fsdecode(x), os.getcwd())

            def one(h):
                s, files = (dsettings, dpaths) if h == 'dep' else (settings, paths)
                files = list(files)
                if h == 'construct':
                    from nephosem import ColFreqHandler, ItemFreqHandler, TokenHandler, Vocab
                    x = [lambda: ItemFreqHandler(settings), lambda: ColFreqHandler(settings, row_vocab=Vocab({'a': 1})),
                         lambda: TokenHandler(Vocab({st['queries'][0]: 1}), settings=settings)][case['sseed'] % 3]()
                    log.put('tmpdir', x.tmpdir, os.getcwd())
                    return None
                if case['fail']:
                    files.insert(len(files) // 2, os.path.join(root, 'absent'))
                c = dict(case, handler=h)
                try:
                    return p04.collect(c, s, files, case['workers'], st)[0]
                except Exception as e:
                    if case['fail']:
                        return 'failed'
                    raise

            add_audit(hook)
            try:
                if not case['concurrent']:
                    return [one(h) for h in case['handlers']]
                pids = []
                for i, h in enumerate(case['handlers']):
                    pid = os.fork()
                    if pid == 0:
                        code = 1
                        try:
                            import pickle
                            with open(os.path.join(logd + '.res%d' % i), 'wb') as f:
                                f.write(pickle.dumps(one(h)))
                            code = 0
                        except BaseException as e:  # noqa
                            log.put('error', type(e).__name__ + ': ' + str(e)[:300], '')
                        finally:
                            os._exit(code)
                    pids.append(pid)
                ok = [os.waitpid(p, 0)[1] for p in pids]
                if any(ok):
                    raise RuntimeError('concurrent handler failed: %r' % ok)
                import pickle
                return [pickle.loads(open(logd + '.res%d' % i, 'rb').read()) for i in range(len(pids))]
            finally:
                del_audit(hook)

        status, val = isolate(call)
        ev = log.read()
        log.close()
        if case['concurrent']:
            obs.n('concurrent_cases')
        if status != 'ok':
            errs = [e for e in ev if e[1] == 'error']
            if not pipeline.outcome(obs, status, val if not errs else ('concurrent', str(errs), ''), 'handlers'):
                return
        after = [snapshot(r) for r in roots]
        obs.n('snapshots', 2 * len(roots))
        scratch = os.path.realpath(os.environ['NEPHMON_SCRATCH'])
        wrote = deleted = 0
        for e in ev:
            if e[1] in ('error', 'tmpdir'):
                continue
            p = os.path.realpath(os.path.join(e[3] or '/', e[2]))
            if p.startswith(('/dev/', '/proc/')) or os.path.basename(logd) in p:
                continue
            if p.startswith(scratch + os.sep) and not any(p.startswith(os.path.realpath(r) + os.sep) for r in roots):
                continue        # $TMPDIR of the process: the standard library's own temporary files
            if e[1] == 'write':
                wrote += 1
            else:
                deleted += 1
            inside = any(p.startswith(os.path.join(tmproot_r, ind) + os.sep) for ind in ('col.freq', 'item.freq', 'tok.app')) \
                or dep and p.startswith(tmproot_r + os.sep)
            obs.check(inside, 'touches-outside-%s' % e[1].replace('.', '-'),
                      '%s of %s, which is not in the temporary directory of any running handler (%s)' % (e[1], p, tmproot_r))
            rel = os.path.relpath(p, tmproot_r)
            obs.check('99999999' not in rel, 'touches-other-handler', '%s of %s, a temporary file of another handler' % (e[1], rel))
        obs.n('write_events', wrote)
        obs.n('delete_events', deleted)
        for r, a, b in zip(roots, before, after):
            d = [x for x in snap_diff(a, b) if (a.get(x[0]) or b.get(x[0]))[0] == 'f']
            if case['fail']:
                d = [x for x in d if not (x[1] == 'created' and os.path.realpath(os.path.join(r, x[0])).startswith(tmproot_r + os.sep))]
            left = [x for x in d if x[1] == 'created' and os.path.realpath(os.path.join(r, x[0])).startswith(tmproot_r + os.sep)]
            other = [x for x in d if x not in left]
            obs.check(not left, 'leftover-temporary-files', 'temporary files remain after a successful run: %r' % left[:4])
            obs.check(not other, 'files-changed', 'files changed under %s: %r' % (os.path.basename(r), other[:6]))
        if not case['fail']:
            for h, c in zip(case['handlers'], val):
                if h == 'item':
                    obs.check(dict(c) == m.freq(paths), 'concurrent-result-differs', 'item frequencies differ when handlers share a directory')
                elif h == 'col':
                    exp = m.cooc(paths, set(st['rows']), set(st['cols']) if st['cols'] else None)
                    obs.check(dict(c) == exp, 'concurrent-result-differs',
                              lambda: 'co-occurrences differ when handlers share a directory: ' + pipeline.diff(exp, dict(c)))
        obs.nontrivial = wrote > 0 and deleted > 0
        obs.see(case['handlers'], case['concurrent'], case['tmp'], case['out'], wrote, deleted, case['fail'], sorted(before[0])[:20])
    finally:
        pipeline.clean(base)
        if dbase:
            pipeline.clean(dbase)
        for f in os.listdir(os.environ['NEPHMON_SCRATCH']):
            if f.startswith('ev') or f.startswith('pymp-'):
                p = os.path.join(os.environ['NEPHMON_SCRATCH'], f)
                rmtree(p) if os.path.isdir(p) else os.remove(p)
