"""P07: open events of corpus files against the requested selection."""
import os
import random
from collections import Counter

from nephmon import corpus, pipeline
from nephmon import depcorpus as dc
from nephmon.checks import p04, p20
from nephmon.core import EventLog, add_audit, del_audit, isolate

N = {'quick': 600, 'thorough': 14000}
RULE = ('nested corpora (also hidden and backup files), selection by nothing / list / .fnames file (with or without extension, comments, blank lines, CRLF, any configured '
        'encoding, absolute paths, paths relative to the working directory and base names), corpus-path with trailing slash or "..", any handler and worker count; '
        'non-trivial: at least two files selected')
REQUIRED = {'plain_lists': 20, 'corpus_opens': 1000, 'by_none': 50, 'by_list': 50, 'by_fnames': 100, 'base_names': 100, 'relative_names': 60, 'dotted_names': 8, 'unselected_files': 200}
ASSUMPTIONS = ['base names refer to files directly in corpus-path', 'a list without repetitions is given',
               'files of an unselected kind inside corpus-path are corpus files too (documented: all files)']
TECHNIQUE = 'runtime monitoring: open events (audit hook) of every worker process against the selection'


def gen(rng, idx, tier):
    return {'handler': rng.choice(['item', 'item', 'col', 'tok', 'dep']), 'cseed': rng.randrange(1 << 40), 'sseed': rng.randrange(1 << 40),
            'n_files': rng.choice([1, 2, 4, 7, 12]), 'vocab': 3, 'max_lines': 12, 'workers': rng.choice([1, 2, 3, 7]),
            'how': rng.choice(['none', 'list', 'fnames', 'fnames', 'name']), 'keep': rng.choice([1.0, 0.7, 0.3]), 'n_pat': 1,
            'mode': 'type', 'hostile': False, 'path': rng.choice(['plain', 'plain', 'slash', 'dots']), 'direct': rng.random() < 0.3}


def write_fnames(rng, base, root, settings, sub, obs, rel=False):
    enc = settings.get('file-encoding', 'utf-8')
    lines, listed = [], []
    for p in sub:
        while rng.random() < 0.2:
            lines.append(rng.choice(['# a comment', '', '   ', '#' + p, '\t', '# ' + os.path.basename(p), '#']))
        if os.path.dirname(p) == root and rng.random() < 0.7:
            e = os.path.basename(p)
            obs.n('base_names')
        elif rel:
            e = os.path.relpath(p, base)      # relative to the working directory, not to the corpus
            obs.n('relative_names')
        else:
            e = p
        listed.append(e)
        lines.append(rng.choice(['', '', ' ', '\t']) + e + rng.choice(['', '', ' ', '\t']))
    fn = os.path.join(base, rng.choice(['sel.fnames', 'my sel.fnames', 'corpus.v1.fnames', 'ü.fnames']))
    with open(fn, 'wb') as f:
        f.write((rng.choice(['\n', '\r\n']).join(lines) + rng.choice(['', '\n', '\n\n'])).encode(enc))
    return fn, listed


def run(case, obs):
    rng = random.Random(case['sseed'])
    st = {}
    if case['handler'] == 'dep':
        base, root, settings, paths, _, st['pats'] = p20.make(case, random.Random(case['cseed']))
        mod = None
    else:
        base, root, settings, paths = pipeline.build(case)
        mod = corpus.Model(settings)
        nf = len(mod.type_fmt.split('/'))
        types = {t for t in mod.freq(paths) if len(t.split('/')) == nf}
        st['rows'] = st['queries'] = sorted(types) or ['/'.join(['zz'] * nf)]
        st['cols'] = None
    try:
        sub = list(paths)
        if case['how'] != 'none':
            sub = [p for p in paths if rng.random() < case['keep']]
            rng.shuffle(sub)
        rel = case['handler'] in ('item', 'col') and case['sseed'] % 3 == 0
        if case['how'] == 'none':
            arg = None
        elif case['how'] == 'list':
            arg = [os.path.relpath(p, base) if rel else p for p in sub]
        else:
            arg, listed = write_fnames(rng, base, root, settings, sub, obs, rel)
            if case['how'] == 'name':
                obs.n('dotted_names', 'v1' in arg)
                arg = arg[:-len('.fnames')]
        obs.n('by_' + ('fnames' if case['how'] == 'name' else case['how']))
        if case['path'] == 'slash':
            settings['corpus-path'] = root + '/'
        elif case['path'] == 'dots':
            settings['corpus-path'] = os.path.join(root, '..', os.path.basename(root))
        obs.n('unselected_files', len(paths) - len(sub))
        log = EventLog(os.path.join(base, 'events'))
        rroot = os.path.realpath(root) + os.sep
        idx = {os.path.realpath(p): i for i, p in enumerate(paths)}

        def call():
            main = os.getpid()
            if rel:
                os.chdir(base)

            def hook(event, args):
                if event == 'open' and isinstance(args[0], str):
                    p = os.path.realpath(args[0])
                    if p.startswith(rroot):
                        log.put('open', idx.get(p, -1), int(os.getpid() != main))

            names = None
            if case['direct']:
                from nephosem import ItemFreqHandler
                names = ItemFreqHandler(settings, workers=1).prepare_fnames(arg) if mod else None
                if isinstance(arg, str):        # without a directory, base names stay what they are
                    from nephosem.utils import read_fnames
                    names = names, read_fnames(arg, encoding=settings.get('file-encoding', 'utf-8'))
            add_audit(hook)
            try:
                return p04.collect(case, settings, arg, case['workers'], st)[0], names
            finally:
                del_audit(hook)

        status, val = isolate(call)
        if not pipeline.outcome(obs, status, val, 'handler-' + case['handler']):
            return
        res, names = val
        if isinstance(names, tuple):
            names, plain = names
            obs.n('plain_lists')
            obs.check(list(plain) == listed, 'plain-list-differs', lambda: 'read_fnames without a directory returned %r, listed are %r' % (plain[:5], listed[:5]))
        want = Counter(idx[os.path.realpath(p)] for p in sub)
        got = Counter(e[2] for e in log.read() if e[1] == 'open')
        log.close()
        obs.n('corpus_opens', sum(got.values()))
        lost, extra = want - got, got - want
        obs.check(not lost, 'files-not-processed', 'selection by %s: %d of %d selected files never opened: %r'
                  % (case['how'], len(lost), len(sub), [os.path.relpath(paths[i], root) for i in lost][:4]))
        obs.check(not [i for i in extra if not want[i]], 'unselected-files-opened', 'selection by %s: unselected files opened: %r'
                  % (case['how'], [os.path.relpath(paths[i], root) if i >= 0 else '?' for i in extra if not want[i]][:4]))
        obs.n('reopened_files', len([i for i in extra if want[i]]))
        if names is not None:
            obs.check(Counter(os.path.realpath(os.path.join(base, x)) for x in names) == Counter(os.path.realpath(p) for p in sub), 'prepared-list-differs',
                      'prepare_fnames returned %r for %r' % (names[:5], sub[:5]))
        # processed once each: the results count every selected file once
        if case['handler'] == 'item':
            exp, have = mod.freq(sub), dict(res)
        elif case['handler'] == 'col':
            exp, have = mod.cooc(sub, set(st['rows'])), dict(res)
        elif case['handler'] == 'tok':
            exp = {t: len(v) for t, v in mod.tokens(sub, st['queries']).items() if v}
            have = Counter()
            for k, v in res.items():
                if k[0] == 'tok':
                    have[k[1]] += v
            have = dict(have)
        else:
            exp, have = dc.reference(sub, settings, st['pats'])[0], dict(res)
        obs.check(have == exp, 'counts-of-selection-differ', lambda: pipeline.diff(exp, have))
        obs.nontrivial = len(sub) >= 2
        obs.see(case['how'], sorted(want), len(paths), case['handler'], case['path'], case['workers'], settings.get('file-encoding'))
    finally:
        pipeline.clean(base)
