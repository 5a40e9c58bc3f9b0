"""P14: saved vocabularies load back identical."""
import os

from nephmon.core import fresh_dir, rmtree

N = {'quick': 30000, 'thorough': 400000}
RULE = ('random vocabularies saved in json and plain format under several encodings and loaded back: integer, large, tiny and whole-number float '
        'frequencies, items with slashes, quotes, blanks at either end, non-breaking spaces, unicode line separators, numbers-like strings; repeated '
        'saves over one another; vocabularies derived from a loaded one and saved in the encoding they keep; distinct by content and options')
REQUIRED = {'type_files': 2000, 'derived_saved': 3000, 'fmt_json': 3000, 'fmt_plain': 2000, 'fmt_txt': 1000, 'odd_items': 3000, 'floats': 1500, 'resaved': 1500, 'ordered': 1500, 'empty': 200}
ASSUMPTIONS = ['plain format: items contain neither tab nor newline; the encoding can represent the items and is given on both sides']
PLAIN = ['walk/V', 'run/N', 'the/DT', 'and/or/C', 'x', 'a', '12/CD', '.../PUN', '/', '#/PUN', '"/PUN', "'/PUN", '\\/X', 'a b', '1', '-3', '1.5', 'null', 'NaN', '{', 'b,c', 'A', 'Z']
LATIN = ['café/N', 'Übung/N', 'ÿ/N', '£', '\xa0/NN', 'x\xa0', '\xad']
ODD = [' lead', 'trail ', ' ', '', 'x\x0by', 'x\x1cy', 'x\x85y', '\x0c', 'c\rd', 'e\r']
UNI = ['日本/N', 'ζ', 'e\u0301', 'x\u2028y', '\u2029', '\u3000', '\ufeffbom', '😀/E', '\u200b']


def gen(rng, idx, tier):
    enc = rng.choice(['utf-8', 'utf-8', 'utf-8', 'latin-1', 'utf-16', 'cp1252', None])
    pool = list(PLAIN) + (LATIN if enc != 'ascii' else [])
    if rng.random() < .5:
        pool += [o for o in ODD if enc != 'cp1252' or '\x85' not in o]
    if enc in ('utf-8', 'utf-16', None):
        pool += UNI
    fmt = rng.choice(['json', 'json', 'plain', 'plain', 'txt'])
    if fmt == 'json':
        pool += ['tab\tin', 'nl\nin', '"\\"']

    def one():
        n = rng.choice([0, 1, 2, 5, 10, 25])
        kind = rng.choice(['int', 'int', 'float', 'mixed'])
        out = {}
        for k in rng.sample(pool, min(n, len(pool))):
            f = kind == 'float' or kind == 'mixed' and rng.random() < .5
            out[k] = rng.choice([0.5, 1.0, 1e-5, 1e16, 1.5e300, 0.1 + 0.2, 3.0, -2.25]) if f else rng.choice([0, 1, 1, 2, 3, 10 ** 6, 2 ** 40, -4])
        return out
    return {'again': rng.choice([None, None, 'load', 'copy', 'deepcopy', 'list', 'slice', 'sub', 'freqs']), 'sel': rng.sample(pool, rng.randint(0, 6)) if rng.random() < .4 else None, 'enc': enc, 'fmt': fmt, 'ds': [one() for _ in range(rng.choice([1, 1, 2]))], 'own': rng.random() < .5, 'order': rng.choice([None, None, 'freq', 'alpha'])}


def run(case, obs):
    from nephosem import Vocab, utils
    base = fresh_dir('v')
    f = os.path.join(base, 'toy.nodefreq')
    enc, fmt = case['enc'], case['fmt']
    kw = {'encoding': enc} if enc else {}
    try:
        for n, d in enumerate(case['ds']):
            what = 'fmt=%s encoding=%s %r' % (fmt, enc, d)
            obs.n('fmt_' + fmt)
            obs.n('odd_items', int(any(k != k.strip() or len(k.splitlines()) != 1 for k in d)))
            obs.n('floats', int(any(isinstance(v, float) for v in d.values())))
            obs.n('resaved', n)
            obs.n('empty', int(not d))
            order = case['order'] if fmt != 'json' else None
            try:
                if order:
                    utils.save_dict_plain(dict(d), f, encoding=enc or 'utf-8', order=order)
                    V = None
                elif case['own']:         # the encoding stored in the vocab is the default for saving
                    V = Vocab(dict(d), **kw)
                    V.save(f, fmt=fmt, verbose=False)
                else:
                    V = Vocab(dict(d))
                    V.save(f, fmt=fmt, **kw)
            except Exception as e:
                obs.bad('save-raised', '%s: save raised %r' % (what, e))
                return
            if V is not None:
                obs.check(dict(V.get_dict()) == d, 'save-changed', what)
            with open(f, 'rb') as fh:
                text = fh.read().decode(enc or 'utf-8')
            if fmt != 'json':
                lines = text.split('\n')
                its = [l.rsplit('\t', 1)[0] for l in lines[:-1]]
                e = sorted(d)
                if order != 'alpha':
                    e = sorted(e, key=lambda k: d[k], reverse=True)
                obs.n('ordered')
                obs.check(its == e and lines[-1] == '', 'file-order', lambda: '%s (order %s): file lists %r' % (what, order, its))
            try:
                R = Vocab.load(f, fmt=fmt, **kw)
            except Exception as e:
                obs.bad('load-raised', '%s: load raised %r' % (what, e))
                return
            g = dict(R.get_dict())
            obs.check(g == d, 'round-trip-differs', lambda: '%s loaded as %r' % (what, g))
            obs.check(all(type(g[k]) is type(d[k]) for k in d if k in g), 'number-type', lambda: '%s loaded as %r' % (what, g))
            if enc and case['again']:
                # a vocabulary made from this one has its encoding: saved without naming one, it is read back with that
                how = case['again']
                D = {'load': lambda: R, 'copy': R.copy, 'deepcopy': R.deepcopy, 'list': lambda: R[list(d) or []], 'slice': lambda: R[:], 'sub': lambda: R.subvocab(list(d)),
                     'freqs': lambda: R[[v for v in d.values() if isinstance(v, int)]]}[how]()
                if how != 'freqs' or all(isinstance(v, int) for v in d.values()):
                    D.save(f + '.again', fmt=fmt, verbose=False)
                    try:
                        g2 = dict(Vocab.load(f + '.again', fmt=fmt, encoding=enc).get_dict())
                    except Exception as e:
                        g2 = repr(e)
                    obs.n('derived_saved')
                    obs.check(g2 == d, 'derived-encoding', lambda: '%s, loaded, %s, saved without an encoding and loaded in %s: %r' % (what, how, enc, g2))
            if case['sel'] is not None:
                want = {k: d.get(k, 0) for k in case['sel']}
                R.make_type_file(list(case['sel']), f + '.types', **kw)
                t = utils.load_dict_json(f + '.types', **kw)
                obs.n('type_files')
                obs.check(t == want and all(type(t[k]) is type(want[k]) for k in want), 'type-file', lambda: 'type file of %r from %s: %r' % (case['sel'], what, t))
            obs.nontrivial = len(d) > 1
            obs.see(what)
    finally:
        rmtree(base)
