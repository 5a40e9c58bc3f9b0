"""P05: fault injection in worker processes under a quiescence watchdog."""
import errno
import os
import random
import signal
import time
from collections import Counter

from nephmon import corpus, pipeline
from nephmon.checks import p04, p20, p22
from nephmon.checks.p02 import pick
from nephmon.core import EventLog, add_audit, fresh_dir, isolate, on_fork_child

N = {'quick': 400, 'thorough': 9000}
KINDS = ['missing', 'undecodable', 'raise-open', 'exit-open', 'kill-open', 'raise-tmp', 'kill-tmp', 'kill-start', 'kill-random', 'directory']
RULE = ('each case runs one handler (item, col with/without column vocabulary, tok, dep, or the multi-process step of CBC) fault-free, then with one fault: ' + ', '.join(KINDS)
        + '; at a random file position and worker count; non-trivial: the fault really fired inside a worker')
REQUIRED = dict({'fault_' + k: 4 for k in KINDS}, faults_fired=150, handler_item=10, handler_col=10, handler_tok=10, handler_dep=10, handler_cbc=40, cbc_fired=20)
ASSUMPTIONS = ['a call whose every process slept without using CPU for 12 s can never finish (there is no timeout in the code under test)',
               'a worker leaving with sys.exit(0) is not a failure and is not injected']
TECHNIQUE = 'runtime monitoring: fault injection (audit and fork hooks) with a quiescence deadlock watchdog'
LEVEL = 'fault_enumeration'

EXC = {'OSError': lambda: OSError(errno.EIO, 'injected I/O error'), 'MemoryError': lambda: MemoryError('injected'),
       'ValueError': lambda: ValueError('injected'), 'KeyError': lambda: KeyError('injected'), 'EOFError': lambda: EOFError('injected'),
       'RuntimeError': lambda: RuntimeError('injected'), 'ENOSPC': lambda: OSError(errno.ENOSPC, 'injected'),
       'PermissionError': lambda: PermissionError(errno.EACCES, 'injected'), 'KeyboardInterrupt': lambda: KeyboardInterrupt(),
       'Empty': lambda: __import__('queue').Empty()}


def gen(rng, idx, tier):
    kind = KINDS[idx // 4 % len(KINDS)]
    h = ['item', 'col', 'tok', 'dep'][idx % 4]
    if kind.endswith('-tmp'):
        h = 'col'
    cbc = None
    if idx % 8 == 7:
        h, kind = 'cbc', rng.choice(['raise-open', 'exit-open', 'kill-open', 'kill-open', 'kill-start', 'kill-start', 'kill-random'])
        while cbc is None or len(cbc['freq']) < max(4, cbc['cpus']):
            cbc = p22.gen(rng, 3, tier)
    return {'handler': h, 'kind': kind, 'cseed': rng.randrange(1 << 40), 'sseed': rng.randrange(1 << 40),
            'n_files': rng.choice([1, 2, 3, 5, 8]), 'vocab': rng.choice([2, 4]), 'max_lines': rng.choice([6, 20]),
            'rows': 'all', 'cols': rng.choice(['none', 'all']), 'how': 'list', 'keep': 1.0, 'hostile': False,
            'mode': rng.choice(['type', 'token']), 'n_pat': 1, 'workers': rng.choice([1, 1, 2, 3, 5, 7]),
            'exc': rng.choice(sorted(EXC)), 'once': rng.random() < 0.6, 'all': rng.random() < 0.1,
            'over': {'file-encoding': 'utf-8'}, 'cbc': cbc}


def cluster(case):
    """one clustering with several processes, as a canonical value"""
    c = case['cbc']
    names, cols, meas, D, rng = p22.world(c)
    CBC, M, els = p22.make(c, names, cols, meas, D, rng)
    with p22.quiet():
        Cs, Rs = p22.construct(c, CBC, M, els).cluster(num_eles=c['num_eles'], multicore=True)
    return Counter((i, k, x) for i, (C, R) in enumerate(zip(Cs, Rs)) for k, x in [('res', r) for r in R] + [('com', tuple(sorted(y))) for y in C]), None


def collect(case, settings, files, workers, st):
    return cluster(case) if case['handler'] == 'cbc' else p04.collect(case, settings, files, workers, st)


def run(case, obs):
    rng = random.Random(case['sseed'])
    st = {}
    if case['handler'] == 'cbc':
        base = fresh_dir()
        root = os.path.join(base, 'home')
        os.makedirs(root)
        settings, paths = {'tmp-path': os.path.join(base, 'tmp')}, [root]
    elif case['handler'] == 'dep':
        base, root, settings, paths, _, st['pats'] = p20.make(case, random.Random(case['cseed']))
    else:
        base, root, settings, paths = pipeline.build(case)
        m = corpus.Model(settings)
        nf = len(m.type_fmt.split('/'))
        types = {t for t in m.freq(paths) if len(t.split('/')) == nf}
        collocs = {it.fmt(m.colloc_fmt) for p in paths for s in m.segments(p) for it in s}
        st['rows'] = sorted(types) or ['zz/zz']
        st['queries'] = sorted(types) or ['/'.join(['zz'] * nf)]
        st['cols'] = pick(rng, case['cols'], collocs)
    try:
        log = EventLog(os.path.join(base, 'events'))
        marker = os.path.join(base, 'fired')
        tmpdir = os.path.realpath(settings['tmp-path'])
        rng.shuffle(paths)
        victim = rng.randrange(len(paths))
        vpath = os.path.realpath(paths[victim])
        kind = case['kind']
        delay = rng.choice([0.005, 0.02, 0.04, 0.06, 0.08, 0.1])
        nth = rng.randrange(0, case['workers'] + 1)

        def call():
            main = os.getpid()
            if case['handler'] == 'cbc':
                os.environ['HOME'] = root
                os.cpu_count = lambda: case['cbc']['cpus']
            armed = [False]

            def fire():
                log.put('fault', kind)
                if case['once'] and kind.startswith(('raise', 'exit', 'kill')):
                    try:
                        os.close(os.open(marker, os.O_CREAT | os.O_EXCL))
                    except FileExistsError:
                        return
                if kind.startswith('raise'):
                    raise EXC[case['exc']]()
                if kind.startswith('exit'):
                    os._exit(rng.choice([1, 3, 255]))
                if kind.startswith('kill'):
                    os.kill(os.getpid(), signal.SIGKILL)

            def hook(event, args):
                if event != 'open' or not armed[0] or os.getpid() == main or not isinstance(args[0], str):
                    return
                p = os.path.realpath(args[0])
                if kind.endswith('-open') and (p == vpath or (case['all'] or case['handler'] == 'cbc') and p.startswith(os.path.realpath(root) + os.sep)):
                    fire()
                elif kind.endswith('-tmp') and p.startswith(tmpdir + os.sep) and args[1] and any(c in str(args[1]) for c in 'wxa'):
                    fire()

            def child():
                if armed[0] and kind == 'kill-start':
                    if p04._ord[0] - armed[1] == nth + 1 or (case['all'] and p04._ord[0] - armed[1] > 1):
                        log.put('fault', kind)
                        os.kill(os.getpid(), signal.SIGKILL)

            good = collect(case, settings, list(paths), case['workers'], st)
            files = list(paths)
            if kind == 'missing':
                files.insert(rng.randrange(len(files) + 1), os.path.join(root, 'not there.txt'))
                log.put('fault', kind)
            elif kind == 'directory':
                files.insert(rng.randrange(len(files) + 1), root)
                log.put('fault', kind)
            elif kind == 'undecodable':
                with open(vpath, 'rb') as f:
                    data = f.read()
                bad = b'\xff\xfe\xfa\n' if settings['file-encoding'] != 'utf-16' else b'\x00\xd8\x00\xd8\n\x00'
                pos = rng.choice([0, len(data), len(data) // 4 * 2])
                if settings['file-encoding'] == 'latin-1':
                    settings['file-encoding'] = 'ascii'
                    data = data.decode('latin-1').encode('ascii', 'replace')
                with open(vpath, 'wb') as f:
                    data = data[:pos] + b'\n' * (settings['file-encoding'] != 'utf-16') + bad + data[pos:]
                    f.write(data)
                try:
                    data.decode(settings['file-encoding'])
                except UnicodeDecodeError:
                    pass
                else:
                    raise RuntimeError('the injected bytes decode')
                log.put('fault', kind)
            add_audit(hook)
            on_fork_child(child)
            armed[:] = [True, p04._ord[0]]
            helper = None
            if kind == 'kill-random':
                helper = os.fork()
                if helper == 0:
                    time.sleep(delay)
                    for p in [int(x) for x in os.listdir('/proc') if x.isdigit()]:
                        try:
                            with open('/proc/%d/stat' % p) as f:
                                s = f.read().rsplit(')', 1)[1].split()
                        except OSError:
                            continue
                        if int(s[1]) == main and p != os.getpid() and s[0] not in 'ZX':
                            kids.append(p)
                    kids.sort()
                    # the first child of a handler is the queue manager; the others are workers
                    if len(kids) > 1:
                        try:
                            os.kill(random.Random(case['sseed']).choice(kids[1:]), signal.SIGKILL)
                            log.put('fault', kind)
                        except ProcessLookupError:
                            pass
                    os._exit(0)
            try:
                got = collect(case, settings, files, case['workers'], st)
            except BaseException as e:  # noqa
                return good[0], 'raised', '%s: %s' % (type(e).__name__, str(e)[:200])
            finally:
                armed[0] = False
            if got[1] == 'ValueError' and good[1] != 'ValueError':
                return good[0], 'raised', 'ValueError'
            return good[0], 'returned', got[0]

        kids = []
        if not p04._inst[0]:
            os.register_at_fork(before=p04._before)
            p04._inst[0] = True
        status, val = isolate(call, quiet_s=12)
        fired = any(e[1] == 'fault' for e in log.read())
        log.close()
        obs.n('handler_' + case['handler'])
        obs.n('fault_' + kind)
        obs.n('faults_fired', int(fired))
        obs.n('cbc_fired', int(fired and case['handler'] == 'cbc'))
        label = '%s-%s' % (case['handler'], kind)
        if status == 'timeout':
            obs.slow.append('%s: %s' % (label, val))
            return
        if status == 'blocked':
            obs.bad('%s-never-returns' % label, 'fault %s (fired=%s, workers=%d, files=%d): the call never returns: %s'
                    % (kind, fired, case['workers'], len(paths), val))
            return
        if status == 'died':
            obs.bad('%s-kills-caller' % label, 'fault %s: the calling process vanished (%s)' % (kind, val))
            return
        if status == 'raised':
            raise RuntimeError('fault-free run failed: %r' % (val,))
        good, how, got = val
        obs.n('outcome_' + how)
        if how == 'raised':
            if not fired:
                obs.bad('%s-raises-without-fault' % label, 'no fault fired but the call raised %s' % got)
        else:
            obs.check(got == good and not (fired and kind in ('missing', 'undecodable', 'directory')), '%s-partial-result' % label,
                      lambda: 'fault %s fired=%s at file %d of %d, workers=%d: returned a result that is not the complete one: %s'
                      % (kind, fired, victim, len(paths), case['workers'], pipeline.diff(good, got)))
        obs.nontrivial = fired
        obs.see(label, case['workers'], len(paths), victim, how, case['exc'] if 'raise' in kind else '', case['once'])
    finally:
        pipeline.clean(base)
