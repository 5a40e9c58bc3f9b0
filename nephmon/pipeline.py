"""Build corpora and drive the real handlers for P01-P07."""
import json
import os
import random

from nephmon import corpus
from nephmon.core import fresh_dir, isolate, rmtree


def build(case):
    """Materialise the corpus of a case; returns (root, settings, paths)."""
    rng = random.Random(case['cseed'])
    base = fresh_dir('corp')
    root = os.path.join(base, 'corpus')
    os.makedirs(root)
    settings, cols, sep = corpus.make_settings(rng, root, simple=case.get('simple', False))
    settings.update(case.get('over', {}))
    if case.get('tmp', 'set') == 'set':
        settings['tmp-path'] = os.path.join(base, 'tmp')
    if case.get('out', 'set') == 'set':
        settings['output-path'] = os.path.join(base, 'out')
        os.makedirs(settings['output-path'])
    paths = corpus.write_corpus(rng, root, settings, cols, sep, case['n_files'],
                                max_lines=case.get('max_lines', 40), vocab_size=case.get('vocab', 5), large=case.get('large', 0))
    return base, root, settings, paths


def rounds(case, base, root, settings, paths, rng):
    """File selections of one or more calls on the same handler: [(argument, expected list)]"""
    out = [select(case, base, root, settings, paths, rng)]
    for i in range(case.get('again', 0)):
        out.append(select(dict(case, how=rng.choice(['none', 'list', 'fnames', 'same']), keep=0.6), base, root, settings, paths, rng, 'sel%d' % i)
                   if rng.random() < .8 else out[-1])
    if case.get('nopath') and all(arg is not None for arg, _ in out):
        # the files are given: no directory of the corpus is needed
        settings.pop('corpus-path')
    return out


def select(case, base, root, settings, paths, rng, name='sel'):
    """How the file selection is passed: returns (argument, expected list)."""
    how = case['how']
    if how == 'none':
        return None, list(paths)
    sub = [p for p in paths if rng.random() < case.get('keep', 1.0)]
    rng.shuffle(sub)
    if how == 'list':
        return list(sub), sub
    fn = os.path.join(base, name + '.fnames')
    enc = settings.get('file-encoding', 'utf-8')
    lines = []
    for p in sub:
        if rng.random() < 0.2:
            lines.append(rng.choice(['# a comment', '', '   ', '#' + p]))
        lines.append(rng.choice([p, p, p + ' ', ' ' + p]))
    with open(fn, 'wb') as f:
        f.write((rng.choice(['\n', '\r\n']).join(lines) + rng.choice(['', '\n'])).encode(enc))
    return (fn if how == 'fnames' else fn[:-len('.fnames')]), sub


def outcome(obs, status, value, what):
    """Common classification of a guarded call. True when it returned."""
    obs.n('calls')
    if status == 'ok':
        return True
    if status == 'timeout':
        obs.slow.append('%s: %s' % (what, value))
    elif status == 'blocked':
        obs.bad('%s-never-returns' % what, '%s never returns: %s' % (what, value))
    elif status == 'raised':
        obs.bad('%s-raises-%s' % (what, value[0]), '%s raised on a valid corpus: %s: %s\n%s' % ((what,) + tuple(value)))
    else:
        obs.bad('%s-dies' % what, '%s: process vanished (%s)' % (what, value))
    return False


def clean(base):
    rmtree(base)


def cells(mtx):
    """{(row label, col label): value} over non-zero cells, plus labels, read through the labels."""
    import scipy.sparse as sp
    m = mtx.matrix
    coo = sp.coo_matrix(m)
    rows, cols = list(mtx.row_items), list(mtx.col_items)
    out = {}
    for r, c, v in zip(coo.row.tolist(), coo.col.tolist(), coo.data.tolist()):
        if v != 0:
            k = (rows[r], cols[c])
            out[k] = out.get(k, 0) + v
    return rows, cols, out


def diff(exp, got, limit=6):
    d = []
    for k in sorted(set(exp) | set(got), key=repr):
        if exp.get(k, 0) != got.get(k, 0):
            d.append('%r: expected %r got %r' % (k, exp.get(k, 0), got.get(k, 0)))
    return '; '.join(d[:limit]) + (' ... %d differences' % len(d) if len(d) > limit else '')
