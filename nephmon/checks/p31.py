"""P31: what is logged reaches the console and the log file in force, once, with its arguments; the file can be changed at any time."""
import io
import logging
import os
import random
import re
import sys
import threading

from nephmon.core import fresh_dir, rmtree

N = {'quick': 900, 'thorough': 12000}
RULE = ('histories of log calls on the library logger and its children (all levels, with and without arguments, with exceptions, from several threads at once), '
        'changes of the log file (to new, old and the current file), handlers of the user added before or after, level changes and re-initialisation, in a home '
        'directory of its own; every line of the console, of every log file and of every user handler compared with the list of records; non-trivial: the log file was changed')
REQUIRED = {'records': 6000, 'file_changes': 500, 'user_handlers': 200, 'argument_records': 700, 'user_files': 100, 'threaded_records': 1500, 'library_records': 300, 'exceptions': 150, 'initialised_again': 100}
ASSUMPTIONS = ['messages hold no line feeds; the layout of the date in the log file is not judged']
TECHNIQUE = 'runtime monitoring: recorded log output (console, files, user handlers, open descriptors) compared with the history of log calls'
LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
MSGS = ['plain', 'with %s', '%d of %d', 'é ζ 日本', '100% done', '%(x)s', '  spaced  ', 'a: b', '{} {}']


class Catch(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.got = []

    def emit(self, record):
        self.got.append((record.levelname, record.getMessage()))


def gen(rng, idx, tier):
    return {'seed': rng.randrange(1 << 40), 'n': rng.choice([3, 6, 12])}


def run(case, obs):
    from nephosem.logging import change_log_file, init_logging
    rng = random.Random(case['seed'])
    d = fresh_dir()
    lg = logging.getLogger('nephosem')
    keep = lg.handlers[:], lg.level, lg.propagate, sys.stdout, os.environ.get('HOME'), logging.root.handlers[:], lg.disabled, logging.root.manager.disable
    kids = [lg, logging.getLogger('nephosem.core.matrix'), logging.getLogger('nephosem.models.typetoken'), logging.getLogger('nephosem.user')]
    levels = [k.level for k in kids]
    mine = []
    try:
        for h in keep[0]:
            lg.removeHandler(h)
        for k in kids[1:]:
            k.setLevel(0)
        logging.disable(0)
        lg.disabled = False
        lg.propagate = False
        os.environ['HOME'] = d
        sys.stdout = out = io.StringIO()
        init_logging()
        cur = os.path.join(d, 'tmp', 'nephosem.log')
        work(case, obs, rng, d, change_log_file, init_logging, lg, kids, out, cur, mine)
    finally:
        new = [h for h in lg.handlers if h not in keep[0]]
        for h in new + mine:
            h.close()
        lg.handlers[:] = keep[0]
        lg.setLevel(keep[1])
        lg.propagate = keep[2]
        sys.stdout = keep[3]
        if keep[4] is not None:
            os.environ['HOME'] = keep[4]
        for k, l in zip(kids, levels):
            k.setLevel(l)
        lg.setLevel(keep[1])
        lg.disabled = keep[6]
        logging.disable(keep[7])
        rmtree(d)


def open_logs(d):
    res = []
    for fd in os.listdir('/proc/self/fd'):
        try:
            p = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        if p.startswith(d + os.sep):
            res.append(p)
    return sorted(res)


def got_by(h):
    if isinstance(h, Catch):
        return h.got
    lines = open(h.baseFilename, encoding='utf-8').read().splitlines()
    return [tuple(l.split('|', 1)) for l in lines if re.match(r'[A-Z]+\|\d+# ', l)]


def work(case, obs, rng, d, change_log_file, init_logging, lg, kids, out, cur, mine):
    level = 20
    files, console, users, old = {cur: []}, [], [], []
    serial = [0]

    def emit(k, name, msg, args, exc=False):
        if exc:
            try:
                raise KeyError('lost')
            except KeyError as e:
                k.exception(msg, *args)
        else:
            k.log(LEVELS[name], msg, *args)

    def note(name, text, exc=False):
        obs.n('records')
        if LEVELS[name] < level:
            return
        console.append((name, text, exc))
        if LEVELS[name] >= 30:
            files[cur].append((name, text, exc))
        for h, lst in users:
            lst.append((name, text))

    for _ in range(case['n']):
        op = rng.choice(['log', 'log', 'log', 'change', 'change', 'user', 'threads', 'level', 'library', 'exc', 'init'])
        if op == 'log':
            for _ in range(rng.randint(1, 6)):
                serial[0] += 1
                name, msg = rng.choice(list(LEVELS)), '%d# ' % serial[0]
                m = rng.choice(MSGS)
                if rng.random() < .5 and m in ('with %s', '%d of %d'):
                    args = ('x%sy',) if m == 'with %s' else (3, 7)
                    msg += m
                    obs.n('argument_records')
                    text = msg % args
                elif m == '%(x)s' and rng.random() < .5:
                    args, msg = ({'x': 'val'},), msg + m
                    obs.n('argument_records')
                    text = msg % args[0]
                else:
                    args, text = (), msg + m
                    msg = text
                emit(rng.choice(kids), name, msg, args)
                note(name, text)
        elif op == 'exc':
            serial[0] += 1
            text = '%d# failed' % serial[0]
            emit(rng.choice(kids), 'ERROR', text, (), exc=True)
            note('ERROR', text, True)
            obs.n('exceptions')
        elif op == 'change':
            new = os.path.join(d, rng.choice(['a.log', 'b.log', 'tmp/nephosem.log', 'ü.log']))
            change_log_file(lg, new)
            cur = new
            files.setdefault(cur, [])
            obs.n('file_changes')
            obs.nontrivial = True
            opened = open_logs(d)
            obs.check(len(set(opened)) == len(opened) and {p for p in opened if '/own' not in p} <= {cur}, 'log-file-left-open', lambda: 'open log files after changing to %s: %r' % (cur, opened))
        elif op == 'user':
            if rng.random() < .3:
                h = logging.FileHandler(os.path.join(d, 'own%d.log' % len(mine)), encoding='utf-8')
                h.setFormatter(logging.Formatter('%(levelname)s|%(message)s'))
                obs.n('user_files')
            else:
                h = Catch()
            mine.append(h)
            users.append((h, []))
            if rng.random() < .5:
                lg.addHandler(h)
            else:
                lg.handlers.insert(0, h)
            obs.n('user_handlers')
        elif op == 'init':
            # initialised again: the handlers are cleaned, the first log file and level are back
            init_logging()
            cur, level = os.path.join(d, 'tmp', 'nephosem.log'), 20
            files.setdefault(cur, [])
            old += users
            users = []
            obs.n('initialised_again')
        elif op == 'level':
            level = rng.choice([10, 20, 20, 30])
            lg.setLevel(level)
        elif op == 'threads':
            jobs = [[(rng.choice(['INFO', 'WARNING', 'ERROR', 'DEBUG']), i, j) for j in range(rng.randint(5, 20))] for i in range(rng.choice([2, 4]))]
            serial[0] += 1
            s = serial[0]
            go = threading.Barrier(len(jobs))

            def thread(job):
                go.wait()
                for name, i, j in job:
                    kids[i % len(kids)].log(LEVELS[name], '%d# thread %s record %d', s, i, j)
            ts = [threading.Thread(target=thread, args=(j,)) for j in jobs]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            for job in jobs:
                for name, i, j in job:
                    note(name, '%d# thread %s record %d' % (s, i, j))
                    obs.n('threaded_records')
        elif op == 'library':
            # a record the library itself issues
            from nephosem.core.handler import BaseHandler
            before = len(out.getvalue()), {f: os.path.getsize(f) if os.path.exists(f) else 0 for f in files}
            nu = [len(got_by(h)) for h, _ in users]
            try:
                h = BaseHandler({'line-machine': '(.*)', 'line-format': 'word', 'type': 'word', 'colloc': 'word', 'token': 'word/fid/lid', 'left-span': 1, 'right-span': 1,
                                 'separator-line-machine': 'x', 'single-boundary-machine': 'x', 'boundary-detection-mechanism': 'single', 'output-path': d})
            except Exception as e:
                obs.check(False, 'library-record', 'a handler cannot be made: %r' % e)
                return
            # how many records is the library's affair; where they go is not
            lib = open(cur, encoding='utf-8').read()[before[1][cur]:].splitlines() if os.path.exists(cur) else []
            con = out.getvalue()[before[0]:].splitlines()
            warn = [l for l in con if l.startswith(('WARNING', 'ERROR'))]
            obs.n('library_records', len(lib))
            obs.check(len(warn) == len(lib) and (lib or level > 30), 'library-record', lambda: '%d warnings on the console, %d in the log file: %r' % (len(warn), len(lib), con[:3]))
            for f in files:
                obs.check(f == cur or (os.path.getsize(f) if os.path.exists(f) else 0) == before[1][f], 'library-record', 'a record of the library went to an earlier log file')
            for (h, lst), n in zip(users, nu):
                if isinstance(h, Catch):
                    obs.check(len(h.got) - n >= len(lib), 'library-record', 'a record of the library did not reach a handler of the user')
                    del h.got[n:]
            # forget them
            out.seek(before[0])
            out.truncate()
            with open(cur, 'r+', encoding='utf-8') as f:
                f.truncate(before[1][cur])

    def match(lines, exp, what, patt):
        """every record once; those of one thread in order; the lines of an exception follow its record"""
        recs, i = [], 0
        for l in lines:
            m = re.match(patt, l)
            if m:
                recs.append([m.group('lev'), m.group('msg'), []])
            elif recs:
                recs[-1][2].append(l)
            else:
                obs.check(False, what + '-format', 'a line without record: %r' % l)
                return
        want = [(n, t) for n, t, _ in exp]
        seq = [(n if n else None, t) for n, t, _ in recs]
        if what == 'console':
            names = {('', t) for _, t in want}
            want2 = [(n if n in ('WARNING', 'ERROR') else '', t) for n, t in want]
            seq = [(n or '', t) for n, t in seq]
        else:
            want2 = want

        def order(s):
            r = {}
            for n, t in s:
                m = re.search(r'# thread (\S+) record', t)
                r.setdefault(m and t[:t.index(' record')], []).append((n, t))
            return r
        obs.check(sorted(seq) == sorted(want2), what + '-records', lambda: '%s: missing %r, too many %r' % (
            what, [x for x in want2 if x not in seq][:3], [x for x in seq if x not in want2][:3] or [x for x in seq if seq.count(x) > want2.count(x)][:3]))
        obs.check(order(seq) == order(want2), what + '-order', lambda: '%s: records out of order: %r instead of %r' % (what, seq[:6], want2[:6]))
        for (n, t, x), (_, _, extra) in zip(sorted(exp, key=lambda e: e[1]), sorted(recs, key=lambda e: e[1])):
            obs.check(bool(x) == bool(extra) and (not x or any('lost' in l for l in extra)), what + '-exception', lambda: '%s: record %r followed by %r' % (what, t, extra[:3]))

    # the records are numbered: a line that starts a record holds "<number># "
    match(out.getvalue().splitlines(), console, 'console', r'^(?:(?P<lev>WARNING|ERROR): |(?:DEBUG: [^#]*: )|(?:\d+: ))?(?P<msg>\d+# .*)$')
    for f, exp in files.items():
        lines = open(f, encoding='utf-8').read().splitlines() if os.path.exists(f) else []
        match(lines, exp, 'file', r'^.*\[(?P<lev>[A-Z]+)\]: (?P<msg>\d+# .*)$')
    for h, exp in users + old:
        got = got_by(h)
        obs.check(sorted(got) == sorted(exp) and (h in lg.handlers) == ((h, exp) in users), 'user-handler', lambda: 'a handler of the user got %d records instead of %d (attached: %s)' % (len(got), len(exp), h in lg.handlers))
    obs.see(case['seed'])
