"""P23: settings: completeness, types and isolation over histories of loads, updates, mutations and handlers."""
import copy
import os
import random

from nephmon import corpus, pipeline
from nephmon.checks.p02 import pick
from nephmon.core import fresh_dir, isolate, rmtree

N = {'quick': 2400, 'thorough': 100000}
BUDGET = {'quick': 150, 'thorough': 780}
RULE = ('random histories of 5-25 operations (new loader, settings taken, taken settings changed in place and in depth, update with a file, failing update, '
        'file rewritten or deleted after loading, formatter and handler construction); after every operation every live loader and dictionary is compared '
        'with a key-wise model; every 20th case constructs handlers on a corpus, changes the dictionary passed, and compares the results with those of '
        'handlers that had the settings to themselves; non-trivial: an update after a mutation')
REQUIRED = {'operations': 12000, 'dict_comparisons': 50000, 'mutations': 2000, 'updates': 1000, 'failed_updates': 500, 'new_keys': 2500, 'case_variants': 1500,
            'handlers': 500, 'vectorizers': 500, 'handler_runs': 100, 'changed_before_run': 50, 'formatters': 800}
ASSUMPTIONS = ['configuration files are well-formed INI files without "%" (interpolation) and without a DEFAULT section',
               'a value of [Span] that is no integer is an error (ValueError), after which the loader is unchanged']
TECHNIQUE = 'runtime monitoring: model-based history checking of every observable dictionary, differential handler runs'

KEYS = {'Encoding': ['file-encoding', 'outfile-encoding'], 'Data': ['corpus-path', 'output-path', 'tmp-path'],
        'Corpus-Format': ['line-machine', 'line-format', 'type', 'colloc', 'token', 'boundary-detection-mechanism', 'separator-line-machine',
                          'single-boundary-machine', 'left-boundary-machine'],
        'Span': ['left-span', 'right-span', 'left-MWUspan', 'right-MWUspan'], 'Special': ['wqueries-default-key', 'item-freq-filename']}
VALUES = ['utf-8', 'latin1', r'([^\t]+)\t([^\t]+)', 'word,pos,lemma', 'lemma/pos', '/data/corp us', '</artikel>', r'^<artikel naam  =  "([^"]+)"   >   $', 'a = b : c',
          '_DEFAULT_', '', '10', 'True', r'(\w+) # not a comment', 'Ω-naïve', '-1']


def gen(rng, idx, tier):
    if idx % 20 == 19:
        return {'kind': 'handler', 'handler': ['item', 'col', 'tok'][(idx // 20) % 3], 'cseed': rng.randrange(1 << 40), 'sseed': rng.randrange(1 << 40),
                'n_files': rng.choice([1, 2, 3]), 'vocab': rng.choice([2, 4]), 'max_lines': rng.choice([10, 25]), 'workers': rng.choice([1, 2, 3])}
    return {'kind': 'history', 'seed': rng.randrange(1 << 40), 'n': rng.choice([5, 10, 25])}


def gen_conf(rng, obs, broken=False):
    """-> ([section, [(key, value text)]]), expected dict"""
    out, exp = [], {}
    secs = rng.sample(sorted(KEYS), rng.randint(0, len(KEYS)))
    if rng.random() < .4:
        secs.append(rng.choice(['Mine', 'my section', 'span', 'Z']))
    rng.shuffle(secs)
    for sec in secs:
        keys = rng.sample(KEYS.get(sec, ['left-span', 'own', 'type']), rng.randint(0, 2) if sec != 'Corpus-Format' else rng.randint(0, 5)) if sec in KEYS else ['own']
        if rng.random() < .3:
            k = rng.choice(['my-key', 'Extra', 'x'])
            keys.append(k)
            obs.n('new_keys')
        if keys and rng.random() < .25:
            k = rng.choice(keys)
            v = rng.choice([k.upper(), k.title(), k.capitalize()])
            if v not in keys:
                keys.append(v)
                obs.n('case_variants')
        items = []
        for k in keys:
            if sec == 'Span':
                n = rng.choice([0, 1, 4, 10, 25, -1, 100000])
                items.append((k, rng.choice(['%d', ' %d', '%d ', '+%d' if n >= 0 else '%d']) % n))
                exp[k] = n
            else:
                v = rng.choice(VALUES)
                items.append((k, v))
                exp[k] = v
        out.append((sec, items))
    if broken:
        out.append(('Span', [('left-span', rng.choice(['ten', '1.5', '', '0x3', '--1']))])) if not any(s == 'Span' for s, _ in out) \
            else [it.append(('right-span-x', 'many')) for s, it in out if s == 'Span']
    return out, exp


def render(rng, conf, enc):
    L = []
    for sec, items in conf:
        if rng.random() < .3:
            L.append(rng.choice(['# comment', '; other comment', '']))
        L.append('[%s]' % sec)
        for k, v in items:
            L.append(rng.choice(['%s=%s', '%s = %s', '%s: %s', '%s =%s']) % (k, v))
            if rng.random() < .1:
                L.append(rng.choice(['# left-span = 99', '', '; type = no']))
    return (rng.choice(['\n', '\n', '\r\n']).join(L) + '\n').encode(enc)


_default = []


def defaults():
    """the default file, read by hand"""
    if not _default:
        import nephosem.conf
        d, sec = {}, None
        fn = os.path.join(os.path.dirname(os.path.abspath(nephosem.conf.__file__)), 'config.ini')
        for line in open(fn, encoding='utf-8'):
            s = line.strip()
            if not s or s[0] in '#;':
                continue
            if s[0] == '[' and s[-1] == ']':
                sec = s[1:-1]
                continue
            k, v = s.split('=', 1)
            d[k.strip()] = int(v) if sec == 'Span' else v.strip()
        _default.append(d)
    return copy.deepcopy(_default[0])


def typed(d):
    return {k: (type(v).__name__, v) for k, v in d.items()}


def run(case, obs):
    obs.see(case)
    run_history(case, obs) if case['kind'] == 'history' else run_handler(case, obs)


def run_history(case, obs):
    import locale
    from nephosem.conf import ConfigLoader
    rng = random.Random(case['seed'])
    enc = locale.getpreferredencoding(False)
    try:
        'Ω'.encode(enc)
    except UnicodeEncodeError:
        enc = 'ascii'
    base = fresh_dir('conf')
    loaders, dicts, trace, vectorizers = [], [], [], []          # [(loader, model)], [(dict, model, tag)]
    state = {'mut': False}

    def write(broken=False):
        conf, exp = gen_conf(rng, obs, broken)
        if enc == 'ascii':
            conf = [(s, [(k, v.encode('ascii', 'ignore').decode()) for k, v in it]) for s, it in conf]
            exp = {k: v.encode('ascii', 'ignore').decode() if isinstance(v, str) else v for k, v in exp.items()}
        fn = os.path.join(base, 'c%d.ini' % rng.randrange(6))
        with open(fn, 'wb') as f:
            f.write(render(rng, conf, enc))
        return fn, exp

    def compare(op):
        for i, (ld, md) in enumerate(loaders):
            s = ld.settings
            obs.n('dict_comparisons')
            obs.check(typed(s) == typed(md), 'loader-settings', lambda: 'after %s: loader %d gives %r\n   instead of %r\n   history %r' % (op, i, diff(s, md), diff(md, s), trace))
        for i, (d, md, tag) in enumerate(dicts):
            obs.n('dict_comparisons')
            obs.check(typed(d) == typed(md), tag + '-changed', lambda: 'after %s: %s %d holds %r\n   instead of %r\n   history %r' % (op, tag, i, diff(d, md), diff(md, d), trace))

        for i, (h, md) in enumerate(vectorizers):
            s = h.get_settings()
            obs.n('dict_comparisons')
            obs.check(typed(s) == typed(md), 'vectorizer-settings', lambda: 'after %s: %s %d has the settings %r\n   instead of %r\n   history %r' % (
                op, type(h).__name__, i, diff(s, md), diff(md, s), trace))

    try:
        for _ in range(case['n']):
            op = rng.choice(['loader', 'default', 'take', 'take', 'mutate', 'mutate', 'mutate', 'update', 'update', 'bad', 'file', 'load_config', 'formatter', 'handler'])
            trace.append(op)
            obs.n('operations')
            if op == 'default':
                loaders.append((ConfigLoader(), defaults()))
            elif op == 'loader' and len(loaders) < 6:
                fn, exp = write()
                loaders.append((ConfigLoader(fn), exp))
            elif op == 'take' and loaders:
                ld, md = rng.choice(loaders)
                dicts.append((ld.settings, copy.deepcopy(md), 'settings'))
            elif op == 'mutate' and dicts:
                d, md, _t = rng.choice(dicts)
                obs.n('mutations')
                state['mut'] = True
                how = rng.choice(['set', 'set', 'del', 'new', 'nested', 'clear'])
                if how == 'set' and md:
                    k = rng.choice(sorted(md))
                    v = rng.choice(VALUES + [3, 0, None])
                    d[k] = v
                    md[k] = v
                elif how == 'del' and md:
                    k = rng.choice(sorted(md))
                    d.pop(k, None)
                    md.pop(k)
                elif how == 'new':
                    d['k%d' % len(md)] = 'v'
                    md['k%d' % len(md)] = 'v'
                elif how == 'nested':
                    if isinstance(md.get('list'), list):
                        d['list'].append(len(md['list']))
                        md['list'].append(len(md['list']))
                    else:
                        d['list'] = [0]
                        md['list'] = [0]
                elif how == 'clear':
                    d.clear()
                    md.clear()
            elif op == 'update' and loaders:
                ld, md = rng.choice(loaders)
                fn, exp = write()
                want = copy.deepcopy(md)
                want.update(exp)
                try:
                    got = ld.update_config(fn)
                except Exception as e:
                    obs.bad('update-raises', 'update_config raised %s: %s on %r' % (type(e).__name__, e, open(fn, 'rb').read()))
                    continue
                obs.n('updates')
                obs.nontrivial = obs.nontrivial or state['mut']
                dicts.append((got, want, 'updated-settings'))
            elif op == 'bad' and loaders:
                ld, md = rng.choice(loaders)
                fn, _exp = write(broken=True)
                try:
                    got = ld.update_config(fn)
                    obs.bad('span-not-integer', 'a [Span] value that is no integer was accepted: %r' % got)
                except ValueError:
                    obs.n('failed_updates')
            elif op == 'load_config':
                fn, exp = write()
                dicts.append((ConfigLoader.load_config(fn), exp, 'loaded-settings'))
            elif op == 'file':
                fs = os.listdir(base)
                if fs:
                    fn = os.path.join(base, rng.choice(sorted(fs)))
                    if rng.random() < .5:
                        os.remove(fn)
                    else:
                        with open(fn, 'w') as f:
                            f.write('[Span]\nleft-span = 77\n')
            elif op in ('formatter', 'handler'):
                s = defaults()
                if rng.random() < .5:
                    s.pop('colloc')
                s['tmp-path'] = s['output-path'] = base + '/w'
                s['corpus-path'] = base
                s['extra'] = [1, {'a': 2}]
                if op == 'formatter':
                    from nephosem.core.terms import CorpusFormatter
                    CorpusFormatter(s)
                    obs.n('formatters')
                    want = defaults()
                    if 'colloc' not in s:
                        want.pop('colloc')
                    want.update({'tmp-path': base + '/w', 'output-path': base + '/w', 'corpus-path': base, 'extra': [1, {'a': 2}]})
                else:
                    from nephosem import ColFreqHandler, ItemFreqHandler, Vocab
                    want = copy.deepcopy(s)
                    kind = rng.choice(['item', 'item', 'col', 'types', 'tokens', 'model'])
                    if kind in ('item', 'col'):
                        h = ItemFreqHandler(s, workers=1) if kind == 'item' else ColFreqHandler(s, workers=1, row_vocab=Vocab({'a/b': 1}))
                        obs.n('handlers')
                        if rng.random() < .5:
                            h.formatter.settings['extra'].append(9)
                            h.formatter.settings['type'] = 'x'
                    else:
                        from nephosem.models.typetoken import TokenVectorizer, TypeToken, TypeVectorizer
                        h = {'types': TypeVectorizer, 'model': TypeToken}[kind](settings=s) if kind != 'tokens' else TokenVectorizer({'c': ['a/b']}, settings=s)
                        obs.n('vectorizers')
                        if rng.random() < .6:
                            g = h.get_settings()
                            g['extra'][1]['a'] = 4
                            g['type'] = 'z'
                            g.pop('token')
                            vectorizers.append((h, copy.deepcopy(want)))
                        else:
                            vectorizers.append((h, {**copy.deepcopy(want), 'extra': [1, {'a': 3}], 'left-span': 1, 'mine': 1}))
                    if kind in ('item', 'col') or vectorizers[-1][1] != want:
                        h.settings['extra'][1]['a'] = 3
                        h.settings['left-span'] = 1
                        h.settings['mine'] = 1
                dicts.append((s, want, 'passed-settings'))
            compare(op)
            if len(vectorizers) > 4:
                vectorizers.pop(0)
            if len(dicts) > 8:
                dicts.pop(rng.randrange(len(dicts)))
    finally:
        rmtree(base)


def diff(a, b):
    return {k: v for k, v in a.items() if k not in b or b[k] != v or type(b[k]) is not type(v)}


def make(h, settings, workers, st):
    from nephosem import ColFreqHandler, ItemFreqHandler, TokenHandler, Vocab
    if h == 'item':
        return ItemFreqHandler(settings, workers=workers)
    cv = Vocab({x: 1 for x in st['cols']}) if st['cols'] else None
    if h == 'col':
        return ColFreqHandler(settings, workers=workers, row_vocab=Vocab({x: 1 for x in st['rows']}), col_vocab=cv)
    return TokenHandler(Vocab({x: 1 for x in st['rows']}), settings=settings, workers=workers, col_vocab=cv)


def process(h, handler, files):
    if h == 'item':
        v = handler.build_item_freq(fnames=files)
        return sorted(v.get_dict().items())
    if h == 'col':
        r = handler.build_col_freq(fnames=files)
    else:
        try:
            r = handler.retrieve_tokens(fnames=files)
        except ValueError:
            r = None
    if r is None:
        return None
    return sorted(pipeline.cells(r)[2].items())


def run_handler(case, obs):
    rng = random.Random(case['sseed'])
    base, root, settings, paths = pipeline.build(case)
    try:
        m = corpus.Model(settings)
        nf = len(m.type_fmt.split('/'))
        types = {t for t in m.freq(paths) if len(t.split('/')) == nf}
        collocs = {it.fmt(m.colloc_fmt) for p in paths for s in m.segments(p) for it in s}
        st = {'rows': pick(rng, 'all', types) or ['/'.join(['zz'] * nf)], 'cols': pick(rng, rng.choice(['none', 'some']), collocs)}
        changed = {}
        for k in rng.sample(['left-span', 'right-span', 'type', 'token', 'output-path', 'tmp-path', 'colloc', 'file-encoding', 'new'], rng.randint(1, 5)):
            changed[k] = {'left-span': 0, 'right-span': 0, 'type': 'word', 'token': 'word/fid/lid', 'output-path': base + '/out2', 'tmp-path': base + '/tmp2',
                          'colloc': 'word', 'file-encoding': 'utf-16', 'new': [1]}[k]
        second = {k: v for k, v in changed.items() if k != 'file-encoding'}
        if 'type' in second and case['handler'] != 'item':
            del second['type']              # the vocabularies are in the first format
            changed.pop('type')
        mut_h = rng.random() < .5

        def call():
            h, w = case['handler'], case['workers']
            os.makedirs(base + '/out2', exist_ok=True)
            alone1 = process(h, make(h, copy.deepcopy(settings), w, st), list(paths))
            s2 = copy.deepcopy(settings)
            s2.update(second)
            alone2 = process(h, make(h, copy.deepcopy(s2), w, st), list(paths))
            shared = copy.deepcopy(settings)
            h1 = make(h, shared, w, st)
            after_init = shared == settings
            for k, v in second.items():
                shared[k] = v
            h2 = make(h, shared, w, st)
            for k, v in changed.items():
                shared[k] = v
            if mut_h:           # what another handler does with its own copies is its own business
                h3 = make(h, shared, w, st)
                for own in (h3.settings, h3.formatter.settings):
                    for k in list(own):
                        own[k] = None
            kept = copy.deepcopy(shared)
            order = [(h1, alone1, settings), (h2, alone2, s2)]
            rng.shuffle(order)
            out = []
            for hd, alone, s in order:
                seen0 = {k: hd.settings.get(k) for k in s} == s
                r = process(h, hd, list(paths))
                seen1 = {k: hd.settings.get(k) for k in s} == s
                out.append((r == alone, r, alone, seen0, seen1, s == settings))
            return after_init, shared == kept, out

        status, val = isolate(call)
        if not pipeline.outcome(obs, status, val, 'handler-' + case['handler']):
            return
        after_init, same, out = val
        obs.nontrivial = any(o[1] for o in out)
        obs.check(after_init, 'handler-changes-settings', 'constructing a handler changed the dictionary passed to it')
        obs.check(same, 'process-changes-settings', 'processing changed the dictionary passed to the handler')
        for ok, r, alone, seen0, seen1, first in out:
            obs.n('handler_runs')
            obs.n('changed_before_run', first)
            obs.check(seen0 and seen1, 'handler-settings-differ', 'handler.settings differs from the settings passed at construction')
            obs.check(ok, 'shared-settings-leak', lambda: 'result with the shared dictionary %r\n   instead of %r\n   changes %r' % (r, alone, changed))
    finally:
        rmtree(base)
