"""P04: results under many schedules, worker counts, file orders and partitions are one result."""
import os
import random
import time
from collections import Counter

from nephmon import corpus, pipeline
from nephmon import depcorpus as dc
from nephmon.checks import p20
from nephmon.checks.p02 import pick
from nephmon.core import EventLog, add_audit, del_audit, isolate, on_fork_child

N = {'quick': 260, 'thorough': 5000}
RULE = ('each case runs one handler (item frequencies, co-occurrences with/without column vocabulary, tokens, dependencies) 3-5 times on one '
        'corpus: other worker counts, permuted file lists, delayed worker starts, delayed files, a one-core machine, and a random partition '
        'whose results are summed; non-trivial: at least two different file->worker distributions and a non-empty result')
REQUIRED = {'runs': 600, 'distinct_schedules': 200, 'partitions': 80, 'handler_item': 10, 'handler_col': 10, 'handler_tok': 10,
            'handler_dep': 10}
ASSUMPTIONS = ['schedules are those the operating system and the injected delays produced (counted as distinct file->process distributions)']
TECHNIQUE = 'runtime monitoring: differential runs under injected delays, event log of worker processes'

_ord = [0]
_inst = [False]


def _before():
    _ord[0] += 1


def gen(rng, idx, tier):
    return {'handler': ['item', 'col', 'tok', 'dep'][idx % 4], 'cseed': rng.randrange(1 << 40), 'sseed': rng.randrange(1 << 40),
            'n_files': rng.choice([2, 3, 4, 5, 8, 12]), 'vocab': rng.choice([2, 4, 8]), 'max_lines': rng.choice([6, 20, 40]),
            'rows': rng.choice(['all', 'some', 'some+unseen']), 'cols': rng.choice(['none', 'none', 'some', 'all', 'some+unseen']),
            'how': 'list', 'keep': 1.0, 'hostile': True, 'mode': rng.choice(['type', 'token']), 'n_pat': rng.choice([1, 2]),
            'variants': rng.choice([2, 3])}


def collect(case, settings, files, workers, st):
    """one handler run -> canonical additive result (Counter) or exception text"""
    h = case['handler']
    if h == 'item':
        from nephosem import ItemFreqHandler
        v = ItemFreqHandler(settings, workers=workers).build_item_freq(fnames=files)
        return Counter(dict(v.get_dict() if hasattr(v, 'get_dict') else v.freq_dict)), None
    if h == 'col':
        from nephosem import ColFreqHandler, Vocab
        r = ColFreqHandler(settings, workers=workers, row_vocab=Vocab({x: 1 for x in st['rows']}),
                           col_vocab=Vocab({x: 1 for x in st['cols']}) if st['cols'] else None).build_col_freq(fnames=files)
        if r is None:
            return Counter(), None
        rows, cols, cells = pipeline.cells(r)
        return Counter(cells), (sorted(rows), sorted(cols) if st['cols'] else None)
    if h == 'tok':
        from nephosem import TokenHandler, Vocab
        th = TokenHandler(Vocab({x: 1 for x in st['queries']}), settings=settings, workers=workers,
                          col_vocab=Vocab({x: 1 for x in st['cols']}) if st['cols'] else None)
        res, lab = Counter(), None
        try:
            rows, cols, cells = pipeline.cells(th.retrieve_tokens(fnames=files))
            res.update({('cell',) + k: v for k, v in cells.items()})
        except ValueError:
            lab = 'ValueError'
        for t, node in th.type2toks.items():
            for k in node.tokens:
                res['tok', t, str(k), tuple((c.to_colloc(), str(c.lid)) for c in k.lcollocs),
                    tuple((c.to_colloc(), str(c.lid)) for c in k.rcollocs)] += 1
        return res, lab
    from nephosem.models.deprel import DepRelHandler
    d = DepRelHandler(settings, workers=workers, mode=case['mode'])
    d.read_templates(macros=[dc.to_macro(p, i + 1, case['mode']) for i, p in enumerate(st['pats'])])
    try:
        return Counter(pipeline.cells(d.build_dependency(fnames=files))[2]), None
    except ValueError:
        return Counter(), 'ValueError'


def run(case, obs):
    rng = random.Random(case['sseed'])
    st = {}
    if case['handler'] == 'dep':
        base, root, settings, paths, _, st['pats'] = p20.make(case, random.Random(case['cseed']))
    else:
        base, root, settings, paths = pipeline.build(case)
        m = corpus.Model(settings)
        nf = len(m.type_fmt.split('/'))
        types = {t for t in m.freq(paths) if len(t.split('/')) == nf} if case['handler'] == 'tok' else set(m.freq(paths))
        collocs = {it.fmt(m.colloc_fmt) for p in paths for s in m.segments(p) for it in s}
        st['rows'] = pick(rng, case['rows'], types) or ['zz/zz']
        st['queries'] = pick(rng, 'all' if case['rows'] == 'all' else 'some', types) or ['/'.join(['zz'] * nf)]
        st['cols'] = pick(rng, case['cols'], collocs)
    try:
        if not _inst[0]:
            os.register_at_fork(before=_before)
            _inst[0] = True
        log = EventLog(os.path.join(base, 'events'))
        real = {os.path.realpath(p): i for i, p in enumerate(paths)}
        plan = [{'kind': 'base', 'workers': 1, 'files': [list(paths)]}]
        for v in range(case['variants']):
            f = list(paths)
            rng.shuffle(f)
            kind = rng.choice(['order', 'delay', 'delay', 'delay', 'one-core'])
            plan.append({'kind': kind, 'workers': rng.choice([1, 2, 3, 4, 5, 7, 0]), 'files': [f],
                         'start': [rng.choice([0, 0, 0.01, 0.03, 0.06]) for _ in range(10)] if kind == 'delay' else [],
                         'open': {i: rng.choice([0, 0.003, 0.01, 0.03]) for i in range(len(paths))} if kind == 'delay' else {}})
        f = list(paths)
        rng.shuffle(f)
        k = rng.randrange(0, len(f) + 1)
        parts = [f[:k], f[k:]]
        if len(f) > 3 and rng.random() < 0.4:
            j = rng.randrange(k, len(f) + 1)
            parts = [f[:k], f[k:j], f[j:]]
        plan.append({'kind': 'partition', 'workers': rng.choice([1, 2, 3]), 'files': [p for p in parts if p]})

        def call():
            import multiprocessing as mp
            out = []
            cur = {'run': -1, 'plan': None, 'main': os.getpid()}

            def hook(event, args):
                if event == 'open' and isinstance(args[0], str):
                    i = real.get(os.path.realpath(args[0]))
                    if i is not None:
                        log.put('open', cur['run'], i)
                        d = cur['plan'].get('open', {}).get(i, 0)
                        if d:
                            time.sleep(d)

            def child():
                s = cur['plan'].get('start') or [0]
                d = s[_ord[0] % len(s)]
                if d:
                    time.sleep(d)

            add_audit(hook)
            on_fork_child(child)
            try:
                for ri, p in enumerate(plan):
                    cur['plan'] = p
                    cc = mp.cpu_count
                    if p['kind'] == 'one-core':
                        mp.cpu_count = lambda: 1
                    try:
                        tot, lab = Counter(), []
                        for part in p['files']:
                            cur['run'] += 1
                            c, l = collect(case, settings, list(part), p['workers'], st)
                            tot.update(c)
                            lab.append(l)
                        out.append((tot, lab))
                    finally:
                        mp.cpu_count = cc
            finally:
                on_fork_child(None)
                del_audit(hook)
            return out

        status, val = isolate(call)
        if not pipeline.outcome(obs, status, val, 'handler-' + case['handler']):
            return
        ev = log.read()
        log.close()
        obs.n('handler_' + case['handler'])
        scheds = set()
        byrun = {}
        for e in ev:
            byrun.setdefault(e[2], []).append((e[0], e[3]))
        for r, evs in byrun.items():
            per = {}
            for pid, i in evs:
                per.setdefault(pid, []).append(i)
            scheds.add(frozenset(tuple(v) for v in per.values()))
        obs.n('open_events', len(ev))
        obs.n('distinct_schedules', len(scheds))
        obs.n('runs', len(plan))
        ref, reflab = val[0]
        for p, (tot, lab) in list(zip(plan, val))[1:]:
            if p['kind'] == 'partition':
                obs.n('partitions')
            key = 'partition-sum-differs' if p['kind'] == 'partition' else 'result-depends-on-schedule'
            obs.check(tot == ref, '%s-%s' % (case['handler'], key),
                      lambda: '%s workers=%s files=%r: %s' % (p['kind'], p['workers'], [[real[os.path.realpath(x)] for x in q] for q in p['files']],
                                                              pipeline.diff(ref, tot)))
            if case['handler'] == 'col' and p['kind'] != 'partition' and lab[0] is not None and reflab[0] is not None:
                obs.check(lab == reflab, '%s-labels-depend-on-schedule' % case['handler'], 'labels %r vs %r' % (lab, reflab))
        obs.nontrivial = len(scheds) >= 2 and bool(ref)
        obs.see(*sorted(map(repr, scheds)))
    finally:
        pipeline.clean(base)
