"""Shared machinery: case bookkeeping, isolation with a quiescence watchdog,
event log fed by interpreter audit hooks, file-system snapshots.

Nothing here looks at the text of the code under test.
"""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import struct
import sys
import threading
import time
import traceback
from collections import Counter


# --------------------------------------------------------------------------
# outcome of one case
# --------------------------------------------------------------------------
class Obs(object):
    """What the monitors observed while one case ran."""

    def __init__(self):
        self.counts = Counter()
        self.viol = []          # list of (mechanism key, message)
        self.sig = []           # parts of the signature of what was seen
        self.nontrivial = False
        self.inconclusive = []  # messages
        self.slow = []          # calls that reached the wall-clock cap while still working: a few are tolerated
        self.sample = None

    def n(self, name, k=1):
        self.counts[name] += k

    def bad(self, key, msg):
        self.viol.append((key, str(msg)[:2000]))

    def check(self, cond, key, msg):
        self.counts['assertions'] += 1
        if not cond:
            self.bad(key, msg() if callable(msg) else msg)
        return cond

    def see(self, *parts):
        self.sig.extend(map(str, parts))

    def signature(self):
        return hashlib.sha1('|'.join(self.sig).encode('utf8', 'replace')).hexdigest()[:16]


def case_rng(seed, prop, idx):
    return random.Random('%s:%s:%s' % (seed, prop, idx))


def scratch():
    d = os.environ.get('NEPHMON_SCRATCH')
    if not d:
        import tempfile
        d = tempfile.mkdtemp(prefix='nephmon.')
        os.environ['NEPHMON_SCRATCH'] = d
    return d


_counter = [0]


def fresh_dir(prefix='c'):
    _counter[0] += 1
    d = os.path.join(scratch(), '%s%d_%d' % (prefix, os.getpid(), _counter[0]))
    os.makedirs(d)
    return d


def rmtree(d):
    import shutil
    assert d.startswith(scratch() + os.sep), d
    shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# event log: one O_APPEND file, one json line per event, shared by all forks
# --------------------------------------------------------------------------
class EventLog(object):
    def __init__(self, path):
        self.path = path
        self.fd = os.open(path, os.O_CREAT | os.O_APPEND | os.O_RDWR, 0o600)

    def put(self, *ev):
        line = json.dumps([os.getpid()] + [e if isinstance(e, (int, float, str, type(None))) else repr(e)
                                            for e in ev]) + '\n'
        os.write(self.fd, line.encode())

    def read(self):
        out = []
        with open(self.path, 'rb') as f:
            for line in f.read().splitlines():
                try:
                    out.append(json.loads(line))
                except ValueError:
                    pass
        return out

    def close(self):
        os.close(self.fd)


_hook_state = {'installed': False, 'handlers': [], 'busy': threading.local()}


def _audit(event, args):
    hs = _hook_state['handlers']
    if not hs:
        return
    if getattr(_hook_state['busy'], 'v', False):
        return
    _hook_state['busy'].v = True
    try:
        for h in list(hs):
            h(event, args)
    finally:
        _hook_state['busy'].v = False


def add_audit(handler):
    """Install `handler(event, args)`; inherited by every forked worker."""
    if not _hook_state['installed']:
        sys.addaudithook(_audit)
        _hook_state['installed'] = True
    _hook_state['handlers'].append(handler)


def del_audit(handler):
    if handler in _hook_state['handlers']:
        _hook_state['handlers'].remove(handler)


_fork_state = {'installed': False, 'fn': None}


def on_fork_child(fn):
    """Run fn() in every forked child (worker start delays)."""
    if not _fork_state['installed']:
        os.register_at_fork(after_in_child=lambda: _fork_state['fn'] and _fork_state['fn']())
        _fork_state['installed'] = True
    _fork_state['fn'] = fn


# --------------------------------------------------------------------------
# run a function in a forked child under a quiescence watchdog
# --------------------------------------------------------------------------
def _tree(root):
    """pids of root and its descendants (by session id: children run in one session)."""
    pids = []
    for p in os.listdir('/proc'):
        if not p.isdigit():
            continue
        try:
            with open('/proc/%s/stat' % p) as f:
                s = f.read()
        except OSError:
            continue
        rest = s[s.rindex(')') + 2:].split()
        state, sess = rest[0], int(rest[3])
        if sess == root and state not in 'ZX':
            pids.append((int(p), state, int(rest[11]) + int(rest[12])))
    return pids


def _gone(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            s = f.read()
    except OSError:
        return True
    return s[s.rindex(')') + 2:].split()[0] in 'ZX'


_current = [None]


def _kill_session(pid):
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    for p, _, _ in _tree(pid):
        try:
            os.kill(p, signal.SIGKILL)
        except OSError:
            pass


def shard_terminate(*_):
    if _current[0]:
        _kill_session(_current[0])
    os._exit(0)


def isolate(fn, quiet_s=12.0, hard_s=240.0):
    """Run fn() in a forked child that leads its own session.

    Returns (status, value):
      'ok', value      fn returned
      'raised', text   fn raised
      'died', code     the child vanished without an answer
      'blocked', info  every process of the session slept without consuming CPU for
                       `quiet_s` seconds: nothing can ever wake the call up again
      'timeout', info  the generous wall-clock cap fired: inconclusive
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.setsid()
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            os.close(r)
            try:
                val = fn()
                blob = pickle.dumps(('ok', val), protocol=4)
            except BaseException as e:  # noqa
                tb = traceback.format_exc()
                blob = pickle.dumps(('raised', (type(e).__name__, str(e)[:500], tb[-3000:])), protocol=4)
            data = struct.pack('>Q', len(blob)) + blob
            mv = memoryview(data)
            while len(mv):
                k = os.write(w, mv)
                mv = mv[k:]
        except BaseException:
            code = 70
        finally:
            os._exit(code)
    os.close(w)
    _current[0] = pid
    buf = b''
    t0 = time.monotonic()
    quiet_since = None
    last_cpu = last_pids = None
    status = None
    try:
        while True:
            rl, _, _ = select.select([r], [], [], 0.25)
            if rl:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                buf += chunk
                if len(buf) >= 8 and len(buf) >= 8 + struct.unpack('>Q', buf[:8])[0]:
                    break
                continue
            now = time.monotonic()
            procs = _tree(pid)
            if _gone(pid):
                break
            cpu = sum(p[2] for p in procs)
            idle = all(p[1] == 'S' for p in procs)
            pids = {p[0] for p in procs}
            if last_cpu is None or not idle or cpu - last_cpu > 3 or pids != last_pids:
                quiet_since, last_cpu, last_pids = now, cpu, pids
            elif now - quiet_since >= quiet_s:
                status = ('blocked', 'no process of the call ran for %.0f s (%d processes asleep)'
                          % (quiet_s, len(procs)))
                break
            if now - t0 > hard_s:
                status = ('timeout', 'wall-clock cap of %.0f s' % hard_s)
                break
        if status is None:          # the child is gone: read what it had already written
            os.set_blocking(r, False)
            try:
                while True:
                    chunk = os.read(r, 1 << 20)
                    if not chunk:
                        break
                    buf += chunk
            except BlockingIOError:
                pass
    finally:
        os.close(r)
        _kill_session(pid)
        _current[0] = None
        try:
            _, st = os.waitpid(pid, 0)
        except ChildProcessError:
            st = -1
    if status:
        return status
    if len(buf) >= 8 and len(buf) >= 8 + struct.unpack('>Q', buf[:8])[0]:
        return pickle.loads(buf[8:])
    return ('died', st)


# --------------------------------------------------------------------------
# file-system snapshots
# --------------------------------------------------------------------------
def snapshot(root):
    """relative path -> ('d',) or ('f', size, sha1)"""
    snap = {}
    for base, dirs, files in os.walk(root):
        rel = os.path.relpath(base, root)
        if rel != '.':
            snap[rel] = ('d',)
        for f in files:
            p = os.path.join(base, f)
            try:
                with open(p, 'rb') as fh:
                    data = fh.read()
            except OSError as e:
                snap[os.path.normpath(os.path.join(rel, f))] = ('f', -1, str(e))
                continue
            snap[os.path.normpath(os.path.join(rel, f))] = ('f', len(data), hashlib.sha1(data).hexdigest())
    return snap


def snap_diff(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append((k, 'created' if k not in a else 'deleted' if k not in b else 'changed'))
    return out
