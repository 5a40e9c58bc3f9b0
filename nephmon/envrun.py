"""One fixed set of library calls, with label-canonical results, to be run under different process environments (P27).

usage: python -m nephmon.envrun SPEC.json OUT.json   (also imported)
"""
import hashlib
import json
import os
import random
import sys


def mcanon(M):
    from nephmon import mx
    t = mx.view(M)
    return {'rows': sorted(t.rows), 'cols': sorted(t.cols), 'order': [list(M.row_items), list(M.col_items)], 'cells': sorted([r, c, float(v)] for (r, c), v in t.cells.items() if v)}


def fdigest(p):
    with open(p, 'rb') as f:
        return hashlib.sha1(f.read()).hexdigest()


def guard(out, name, fn):
    """record the value of fn() or the exception it raises (type and message are part of the behaviour)"""
    try:
        out[name] = fn()
    except Exception as e:
        out[name] = 'raised %s: %s' % (type(e).__name__, str(e)[:300])


def compute(spec):
    from nephosem import (CBC, ColFreqHandler, ConfigLoader, ItemFreqHandler, TokenHandler, TypeTokenMatrix, Vocab)
    from nephosem.core.graph import MacroGraph, PatternGraph
    from nephosem.core.terms import TypeNode
    from nephosem.models.deprel import DepRelHandler
    from nephosem.specutils import mxcalc, mxutils
    from nephosem.utils import read_fnames, save_concordance
    d = spec['dir']                 # written by this run
    os.makedirs(d)
    out = {}
    s, w = spec['settings'], spec['workers']
    out['default_settings'] = ConfigLoader().settings

    def conf():
        return ConfigLoader().update_config(spec['config'])
    guard(out, 'user_settings', conf)
    guard(out, 'fnames_files', lambda: sorted(map(os.path.basename, read_fnames(spec['fnames'], encoding=s.get('file-encoding', 'utf-8')))))
    v = ItemFreqHandler(settings=s, workers=w).build_item_freq(fnames=spec['fnames'])
    out['freq'] = sorted(v.get_dict().items())
    if not out['freq']:
        return out
    for fmt in ('json', 'plain'):
        guard(out, 'vocab_' + fmt, lambda: (v.save(os.path.join(d, 'v.' + fmt), fmt=fmt, encoding='utf-8', verbose=False),
                                            fdigest(os.path.join(d, 'v.' + fmt)))[1] if fmt == 'plain' else v.save(os.path.join(d, 'v.' + fmt), fmt=fmt, verbose=False))
        guard(out, 'loaded_' + fmt, lambda: sorted(Vocab.load(os.path.join(spec['from'] or d, 'v.' + fmt), fmt=fmt).get_dict().items()))
    out['order'] = [v.get_item_list(sorting='freq', descending=True), v.get_item_list()]
    M = ColFreqHandler(settings=s, workers=w, row_vocab=v, col_vocab=v).build_col_freq(fnames=spec['fnames'])
    out['cooc'] = None if M is None else mcanon(M)
    # the columns are found in the corpus, by several processes
    A = ColFreqHandler(settings=s, workers=max(w, 2), row_vocab=v).build_col_freq(fnames=spec['fnames'])
    out['cooc_all'] = None if A is None else mcanon(A)
    if A is not None and len(A.col_items) > 2:
        X, Y = A.submatrix(col=sorted(A.col_items)[:-1]), A.submatrix(col=sorted(A.col_items)[1:])
        guard(out, 'merged', lambda: mcanon(mxutils.merge_two_matrices(X, Y)))
        guard(out, 'merged_method', lambda: mcanon(X.merge(Y)))
    q = v.subvocab([w for w in out['order'][0] if w.count('/') == 1][:3])
    if not len(q):
        return out
    th = TokenHandler(q, settings=s, workers=w)
    guard(out, 'tokens', lambda: [mcanon(th.retrieve_tokens(fnames=spec['fnames'])).get(k) for k in ('rows', 'cols')])
    nodes = {k: TypeNode(type_str=k, type_fmt=s['type'], tokens=sorted(n.tokens, key=str)) for k, n in sorted(th.type2toks.items())}
    cf = os.path.join(d, 'conc.txt')
    guard(out, 'concordance', lambda: (save_concordance(cf, nodes, colloc_fmt='lemma/pos'), fdigest(cf))[1])

    def nodeload():
        for i, (k, n) in enumerate(sorted(nodes.items())):
            n.save(os.path.join(d, 'n%d' % i), verbose=False)
        return [[str(t) for t in TypeNode.load(os.path.join(spec['from'] or d, 'n%d' % i)).tokens] for i in range(len(nodes))]
    guard(out, 'node_load', nodeload)
    if M is not None and M.matrix.count_nonzero():
        M = M.reorder(sorted(M.row_items), axis=0).reorder(sorted(M.col_items), axis=1)
        for kind, X in (('sparse', M), ('dense', M.todense())):
            for pack in (True, False):
                n = 'm_%s_%d' % (kind, pack)
                guard(out, n, lambda: X.save(os.path.join(d, n), pack=pack, verbose=False))
                guard(out, n + '_loaded', lambda: mcanon(TypeTokenMatrix.load(os.path.join(spec['from'] or d, n + ('.pac' if pack else '')), pack=pack)))
        guard(out, 'csv', lambda: (M.to_csv(os.path.join(d, 'm.csv')), fdigest(os.path.join(d, 'm.csv')))[1])
        guard(out, 'csv_read', lambda: mcanon(TypeTokenMatrix.read_csv(os.path.join(spec['from'] or d, 'm.csv'), index_col=0)))
        N = M.submatrix(row=M.row_items[:1]).reorder(M.col_items[::-1], axis=1)
        guard(out, 'concatenated', lambda: mcanon(M.concatenate(N)) if len(M.col_items) > 1 else None)
        guard(out, 'shown', lambda: str(M))
        nv, cv = Vocab(M.sum(axis=1)), Vocab(M.sum(axis=0))
        for meas in ('ppmi', 'lik'):
            guard(out, meas, lambda: mcanon(mxcalc.compute_association(M, nfreq=nv, cfreq=cv, meas=meas)))
        P = mxcalc.compute_association(M, nfreq=nv, cfreq=cv, meas='ppmi')
        D = mxcalc.compute_distance(P)
        out['distance'] = mcanon(D)
        guard(out, 'simrank', lambda: sorted(mcanon(mxcalc.compute_simrank(mxcalc.compute_cosine(P)))['rows']))
        tot = M.sum()
        out['sum'] = float(tot)
        els = [r for r in M.row_items if P.sum(axis=1).get(r)]

        def cbc():
            C, R = CBC(els, M, measmx=P, k=4, theta1=.35, theta2=.25, workers=2).cluster(multicore=spec['cbc_multi'])
            return [json.loads(json.dumps(C, default=list)), R]
        if len(els) > 2:
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                guard(out, 'cbc', cbc)
    ds = spec['dep']

    def dep():
        macros = MacroGraph.read_xml(ds['xml'], PatternGraph.read_graphml(ds['gml']))
        h = DepRelHandler(ds['settings'], workers=w, mode=ds['mode'])
        h.read_templates(macros=macros)
        return mcanon(h.build_dependency())
    guard(out, 'dependency', dep)
    return out


def main():
    with open(sys.argv[1], encoding='utf-8') as f:
        spec = json.load(f)
    import logging
    if not spec.get('log'):
        logging.disable(logging.CRITICAL)
    if spec.get('start'):
        import multiprocessing
        multiprocessing.set_start_method(spec['start'])
        if spec['start'] == 'forkserver':
            multiprocessing.set_forkserver_preload(['nephosem'])
    res = compute(spec)
    with open(sys.argv[2], 'w', encoding='utf-8') as f:
        json.dump(res, f, ensure_ascii=True)


if __name__ == '__main__':
    main()
