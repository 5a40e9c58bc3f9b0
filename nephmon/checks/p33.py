"""P33: sessions of the TypeToken model: every step gives, returns and remembers what its inputs define."""
import math
import random

from nephmon import corpus, mx, pipeline
from nephmon.checks.p15 import define, degenerate
from nephmon.checks.p16 import cos, metric_of
from nephmon.core import isolate

N = {'quick': 320, 'thorough': 6000}
BUDGET = {'quick': 240, 'thorough': 780}
RULE = ('random corpora and random sessions of 12-24 steps of one TypeToken model: vocabularies, co-occurrence matrices, association, similarity, distance, ranks, '
        'tokens, token weights and vectors, type nodes, samples, with explicit arguments or the remembered results, steps that fail, and returned objects that the '
        'caller changes; after every step the result and everything the model remembers is compared with a definition-level model; non-trivial: at least 8 steps '
        'judged, one of them on a remembered result')
REQUIRED = {'steps': 3000, 'remembered_inputs': 400, 'given_inputs': 300, 'failing_steps': 200, 'changed_by_caller': 300, 'cells': 20000, 'states_compared': 3000, 'tokens': 800,
            'token_vectors': 30, 'whole_sessions': 150, 'op_vocab': 100, 'op_cooc': 100, 'op_association': 100, 'op_similarity': 60, 'op_distance': 60, 'op_simrank': 60,
            'op_tokens': 60, 'op_weights': 30, 'op_fetch': 60, 'op_select': 60}
ASSUMPTIONS = ['types are lemma/pos (what the token weights assume)', 'a corpus selection without any co-occurrence (or token context) is not asked for a matrix',
               'a context that occurs several times with one token has one of its positions', 'of tied similarities any order of ranks is right']
TECHNIQUE = 'runtime monitoring: definition-level model of the session state compared after every call'
MEAS = ['pmi', 'ppmi', 'lik', 'chisq', 'zscore', 'dice', 'deltap']


def gen(rng, idx, tier):
    return {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 2, 3]), 'how': rng.choice(['none', 'list', 'fnames']), 'vocab': rng.choice([3, 4, 6, 8]),
            'max_lines': rng.choice([20, 40, 60]), 'sseed': rng.randrange(1 << 40), 'keep': rng.choice([1.0, .8]), 'steps': rng.choice([12, 16, 24]), 'again': 1,
            'over': {'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid', 'left-span': rng.choice([1, 2, 3]), 'right-span': rng.choice([1, 2, 3])}}


def run(case, obs):
    base, root, settings, paths = pipeline.build(case)
    try:
        rng = random.Random(case['sseed'])
        rounds = pipeline.rounds(case, base, root, settings, paths, rng)
        st, res = isolate(lambda: session(case, settings, rounds, rng))
        if not pipeline.outcome(obs, st, res, 'session'):
            return
        for k, v in res['n'].items():
            obs.n(k, v)
        for k, msg in res['viol'][:3]:
            obs.bad(k, msg)
        obs.nontrivial = res['n'].get('steps', 0) >= 8 and res['n'].get('remembered_inputs', 0) > 0
        obs.see(*res['see'])
    finally:
        pipeline.clean(base)


def angle(a, b, same):
    """cosine, or None for vectors so short that they count as zero or not"""
    if any(0 < math.sqrt(sum(x * x for x in v)) < 1e-5 for v in (a, b)):
        return None
    return 1.0 if same else cos(a, b)


def distance(met, a, b, same):
    if met == 'cosine':
        c = angle(a, b, same)
        return None if c is None else 1.0 - c
    return 0.0 if same else metric_of(met, a, b)


class Stop(Exception):
    pass


def session(case, settings, rounds, rng):
    from nephosem import TypeTokenMatrix, Vocab
    from nephosem.models import TypeToken
    m = corpus.Model(settings)
    n, viol, see = {}, [], []
    given = dict(settings)
    frozen = repr(sorted(given.items(), key=str))
    T = TypeToken(settings=given)
    trail = []
    # what the model should remember: Tab of a matrix, dict of a vocabulary, (content, order-free) ...
    mem = dict.fromkeys(('vocab', 'freqmx', 'measmx', 'simmx', 'distmx', 'rankmx', 'tcmx', 'token_weights', 'token_vectors'))
    nodes = [None]                    # {type: tokens} that fetch_tokens left

    def cnt(k, v=1):
        n[k] = n.get(k, 0) + v

    def bad(key, msg):
        viol.append((key, '%s\n   after %s' % (msg, '; '.join(trail))))
        raise Stop

    def near(a, b, tol=1e-5):
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))

    def compare(name, got, rows, cols, f, tol=1e-5):
        """matrix against a function of the labels; None: not judged"""
        v = mx.view(got)
        if (list(v.rows), list(v.cols)) != (list(rows), list(cols)):
            if sorted(v.rows) != sorted(rows) or sorted(v.cols) != sorted(cols) or name not in ('cooc', 'tokens'):
                bad(name + '-labels', '%s has labels %r x %r instead of %r x %r' % (name, v.rows[:8], v.cols[:8], list(rows)[:8], list(cols)[:8]))
        for r in rows:
            for c in cols:
                e = f(r, c)
                if e is None:
                    continue
                cnt('cells')
                g = float(v.get(r, c))
                if not (g in e if isinstance(e, (set, frozenset)) else near(g, float(e), tol)):
                    bad(name + '-value', '%s: cell (%r, %r) is %r instead of %r' % (name, r, c, g, e))
        return v

    def remembered():
        """everything that the model holds"""
        for k, e in mem.items():
            g = getattr(T, k, None)
            if e is None:
                if g is not None:
                    bad('remembers-' + k, 'the model holds %s although no step gave it' % k)
                continue
            if g is None:
                bad('remembers-' + k, 'the model has lost %s' % k)
            if isinstance(e, dict):
                if dict(g.get_dict()) != e:
                    bad('remembers-' + k, '%s of the model is %r instead of %r' % (k, dict(g.get_dict()), e))
            else:
                d = mx.diff(e, mx.view(g), tol=1e-12)
                if d:
                    bad('remembers-' + k, '%s of the model differs: %s' % (k, d))
        if T.get_settings() != given or repr(sorted(given.items(), key=str)) != frozen:
            bad('settings', 'the settings of the model or of the caller changed')
        cnt('states_compared')

    def spoil(x):
        """the caller changes what a step returned as a copy of its own"""
        if rng.random() < .6:
            return
        cnt('changed_by_caller')
        if isinstance(x, Vocab):
            x['spoiled/X'] = 77
        elif isinstance(x, TypeTokenMatrix):
            mat = x.matrix
            if hasattr(mat, 'data') and getattr(mat, 'nnz', 0):
                mat.data[:] = 0
            x.row_items.append('spoiled/X')
        elif isinstance(x, dict):
            x.clear()

    def fails(what, fn, *excs):
        trail.append('failing ' + what)
        cnt('failing_steps')
        try:
            fn()
        except excs:
            return
        except Exception as e:
            bad('failing-step', '%s raised %r instead of %s' % (what, e, ' or '.join(x.__name__ for x in excs)))
        bad('failing-step', '%s did not fail' % what)

    def source(name, need=lambda t: True):
        """(argument, Tab) : a matrix of the caller, or None for the remembered one"""
        if mem[name] is not None and need(mem[name]) and rng.random() < .65:
            cnt('remembered_inputs')
            return None, mem[name]
        return own(name)

    def own(name):
        cnt('given_inputs')
        r = mx.make(rng, kind='sym' if name == 'simmx' else 'csr', dtype='pos' if name == 'simmx' else 'small', density=1.0 if name == 'simmx' else .7, explicit=False,
                    shape=(rng.choice([1, 2, 4]), rng.choice([2, 3, 5])), pool=mx.PLAIN)
        if name == 'freqmx':
            r['cells'][0, 0] = 3
        M = mx.build(r)
        return M, mx.view(M)

    def step():
        arg, sel = rng.choice(rounds)
        freq = {t: v for t, v in m.freq(sel).items()}
        types = sorted(t for t in freq if len(t.split('/')) == 2)
        ops = ['vocab', 'cooc', 'association', 'similarity', 'distance', 'simrank', 'select', 'tokens', 'fetch', 'get', 'bad']
        if mem['tcmx'] is not None and mem['measmx'] is not None:
            ops += ['weights'] * 6
        if mem['token_weights'] is not None:
            ops += ['vectors'] * 6
        if nodes[0]:
            ops += ['sample'] * 2
        op = rng.choice(ops)
        if op == 'vocab':
            f = rng.choice(['build_vocab', 'build_frequency_list'])
            trail.append('%s(%d files)' % (f, len(sel)))
            v = getattr(T, f)(fnames=arg)
            if dict(v.get_dict()) != freq:
                bad('vocab-value', '%s gives %r instead of %r' % (f, dict(v.get_dict()), freq))
            mem['vocab'] = freq
            spoil(v)
        elif op == 'cooc':
            rows = cols = rv = cv = None
            if mem['vocab'] is not None and mem['vocab'] and rng.random() < .7:
                rows = sorted(mem['vocab'])
                cnt('remembered_inputs')
            elif types:
                rows = rng.sample(types, rng.randint(1, len(types)))
                rv = Vocab({r: 1 for r in rows})
                cnt('given_inputs')
            if not rows:
                return
            if types and rng.random() < .6:
                cols = rng.sample(types, rng.randint(1, len(types)))
                cv = Vocab({c: 1 for c in cols})
            exp = m.cooc(sel, set(rows), set(cols) if cols else None)
            if not exp:
                return
            trail.append('build_col_freq(%d files, rows %s, columns %s)' % (len(sel), 'given' if rv else 'remembered', 'given' if cv else 'free'))
            M = T.build_col_freq(fnames=arg, row_vocab=rv, col_vocab=cv)
            v = compare('cooc', M, rows, cols or sorted({k[1] for k in exp}), lambda r, c: exp.get((r, c), 0), 0)
            mem['freqmx'] = v
            spoil(M)
        elif op == 'association':
            F, t = source('freqmx', lambda t: any(t.cells.values()))
            rs = {r: sum(t.get(r, c) for c in t.cols) for r in t.rows}
            cs = {c: sum(t.get(r, c) for r in t.rows) for c in t.cols}
            tot = sum(rs.values())
            meas = rng.choice(MEAS)
            if any(degenerate(meas, x, rs[a], cs[b], tot) for (a, b), x in t.cells.items() if x):
                meas = 'ppmi'
            trail.append('compute_association(%s, %s)' % ('given' if F else 'remembered', meas))
            kw = {} if meas == 'ppmi' and rng.random() < .5 else {'meas': meas}
            R = T.compute_association(F, **kw) if F is not None or rng.random() < .5 else T.compute_association(**kw)
            mem['measmx'] = compare('association', R, t.rows, t.cols, lambda r, c: define(meas, t.get(r, c), rs[r], cs[c], tot) if t.get(r, c) else 0,
                                    1e-5 if meas != 'lik' else 1e-5 + 1e-8 * tot)
        elif op == 'similarity':
            F, t = source('measmx', lambda t: all(math.isfinite(x) for x in t.cells.values()))
            axis, rank = rng.choice([0, 0, 1]), rng.random() < .4
            trail.append('compute_similarity(%s, axis=%d, rank=%r)' % ('given' if F else 'remembered', axis, rank))
            R = T.compute_similarity(F, metric=rng.choice(['cosine', 'cos']), rank=rank, axis=axis)
            items = t.rows if axis == 0 else t.cols
            vec = {r: [float(t.get(r, c)) for c in t.cols] for r in t.rows} if axis == 0 else {c: [float(t.get(r, c)) for r in t.rows] for c in t.cols}
            mem['simmx'] = compare('similarity', R, items, items, lambda a, b: angle(vec[a], vec[b], a == b))
            if rank:
                ranks(T.rankmx, mem['simmx'], False)
        elif op == 'distance':
            F, t = source('measmx', lambda t: all(math.isfinite(x) for x in t.cells.values()))
            met = rng.choice(['cosine', 'euclidean', 'cityblock'])
            trail.append('compute_distance(%s, %s)' % ('given' if F else 'remembered', met))
            R = T.compute_distance(F, **({} if met == 'cosine' and rng.random() < .5 else {'metric': met}))
            vec = {r: [float(t.get(r, c)) for c in t.cols] for r in t.rows}
            mem['distmx'] = compare('distance', R, t.rows, t.rows, lambda a, b: distance(met, vec[a], vec[b], a == b), 1e-4)
        elif op == 'simrank':
            F, t = source('simmx')
            rev = rng.random() < .4
            trail.append('compute_simrank(%s, reverse=%r)' % ('given' if F else 'remembered', rev))
            R = T.compute_simrank(F, reverse=rev) if F is not None or rng.random() < .5 else T.compute_simrank(reverse=rev)
            ranks(R, t, rev)
            spoil(R)
        elif op == 'select':
            if not mem['vocab']:
                fails('select_types without a vocabulary', lambda: T.select_types(['walk/V']), ValueError)
                return
            ask = rng.sample(sorted(mem['vocab']), rng.randint(1, len(mem['vocab']))) + rng.choice([[], ['absent/Z']])
            trail.append('select_types(%d)' % len(ask))
            v = T.select_types(ask)
            if dict(v.get_dict()) != {t: mem['vocab'].get(t, 0) for t in ask}:
                bad('select-value', 'select_types(%r) gives %r' % (ask, dict(v.get_dict())))
            spoil(v)
        elif op == 'get':
            trail.append('get_settings/get_vocab')
            s = T.get_settings()
            s['type'] = 'spoiled'
            cnt('changed_by_caller')
            if mem['vocab'] is not None:
                v = T.get_vocab()
                if dict(v.get_dict()) != mem['vocab']:
                    bad('vocab-value', 'get_vocab gives %r instead of %r' % (dict(v.get_dict()), mem['vocab']))
                spoil(v)
        elif op == 'tokens':
            if not types:
                return
            ask = rng.sample(types, rng.randint(1, min(4, len(types))))
            cols = rng.sample(types, rng.randint(1, len(types))) if rng.random() < .3 else None
            exp = m.tokens(sel, ask, set(cols) if cols else None)
            pos = {}
            for q in ask:
                for tok, _, _, left, right in exp[q]:
                    d = pos.setdefault(tok, {})
                    for i, (c, _) in enumerate(left):
                        d.setdefault(c, set()).add(i - len(left))
                    for i, (c, _) in enumerate(right):
                        d.setdefault(c, set()).add(i + 1)
            ctx = sorted({c for d in pos.values() for c in d})
            if not ctx:
                return
            kw = {'col_vocab': Vocab({c: 1 for c in cols})} if cols else {}
            if mem['vocab'] is not None and mem['vocab'] and rng.random() < .6:
                kw['queries'] = list(ask)
                cnt('remembered_inputs')
            else:
                kw['row_vocab'] = Vocab({q: 2 for q in ask})
            trail.append('retrieve_tokens(%d files, %s)' % (len(sel), sorted(kw)))
            M = T.retrieve_tokens(fnames=arg, **kw)
            mem['tcmx'] = compare('tokens', M, sorted(pos), ctx, lambda r, c: frozenset(pos[r].get(c, {0})))
            cnt('tokens', len(pos))
            spoil(M)
        elif op == 'weights':
            P, W = mem['tcmx'], mem['measmx']
            cols = [c for c in P.cols if c in W.cols]
            if not cols or any(x < -1e3 or not math.isfinite(x) for x in W.cells.values()):
                return
            tw = T.measmx.submatrix(col=cols)
            t = mx.view(tw)
            kw = {'twMTX': tw}
            if cols != P.cols or rng.random() < .4:
                kw['tcPositionMTX'] = T.tcmx.submatrix(col=cols)
                cnt('given_inputs')
            else:
                cnt('remembered_inputs')
            trail.append('build_token_weights(%s)' % sorted(kw))
            R = T.build_token_weights(**kw)
            mem['token_weights'] = compare('weights', R, P.rows, cols, lambda r, c: t.get('/'.join(r.split('/')[:2]), c) if P.get(r, c) else 0)
            spoil(R)
        elif op == 'vectors':
            w = mem['token_weights']
            so = mx.make(rng, kind='csr', dtype='small', rows=rng.sample(w.cols, len(w.cols)), cols=['p/X', 'q/X', 'r/X'][:rng.choice([1, 2, 3])], density=.8, explicit=False)
            S = mx.build(so)
            t = mx.view(S)
            oper = rng.choice(['addition', 'addition', 'multiplication'])
            kw = {'soccMTX': S, 'operation': oper}
            if oper == 'addition' and rng.random() < .5:
                kw.pop('operation')
            vec = {}
            for r in w.rows:
                row = []
                for f in t.cols:
                    ps = [(float(w.get(r, c)), float(t.get(c, f))) for c in w.cols]
                    row.append(math.fsum(a * b for a, b in ps) if oper == 'addition' else math.prod(a * b for a, b in ps if a and b))
                s, mag = math.fsum(map(abs, row)), max([abs(float(w.get(r, c)) * float(t.get(c, f))) for c in w.cols for f in t.cols] + [0])
                for f, x in zip(t.cols, row):
                    vec[r, f] = None if oper == 'addition' and 0 < s < 1e-6 * mag or oper == 'addition' and s < 1e-12 and mag > 0 else x / s if s else 0.0
            if rng.random() < .5:
                kw['tcWeightMTX'] = T.token_weights.copy() if hasattr(T.token_weights, 'copy') else T.token_weights
                cnt('given_inputs')
            else:
                cnt('remembered_inputs')
            trail.append('build_token_vectors(%s)' % sorted(kw))
            R = T.build_token_vectors(**kw)
            mem['token_vectors'] = compare('vectors', R, w.rows, t.cols, lambda r, f: vec[r, f], 1e-4)
            cnt('token_vectors')
            spoil(R)
        elif op == 'fetch':
            if not mem['vocab'] or not types:
                return
            ask = rng.sample(types, rng.randint(1, min(3, len(types))))
            exp = m.tokens(sel, ask)
            if not any(t[3] or t[4] for ts in exp.values() for t in ts):
                return
            trail.append('fetch_tokens(%d files, %r)' % (len(sel), ask))
            got = T.fetch_tokens(list(ask), fnames=arg)
            same_nodes(got, exp, 'fetch')
            nodes[0] = exp
        elif op == 'sample':
            k, method = rng.choice([1, 2, 3, 300]), rng.choice(['random', 'first'])
            trail.append('sample_tokens(%d, %s)' % (k, method))
            got = T.sample_tokens(n=k, method=method) if (k, method) != (300, 'random') else T.sample_tokens()
            if sorted(got) != sorted(nodes[0]):
                bad('sample-types', 'sample_tokens gives the types %r instead of %r' % (sorted(got), sorted(nodes[0])))
            for t, nd in got.items():
                g, e = [str(x) for x in nd.tokens], [x[0] for x in nodes[0][t]]
                if len(g) != min(k, len(e)) or len(set(g)) != len(g) or not set(g) <= set(e):
                    bad('sample-tokens', '%d of the tokens %r of %s: %r' % (k, e, t, g))
            same_nodes(T.type_nodes, nodes[0], 'sample')
            if rng.random() < .5:
                colloc()
        else:
            what = rng.randrange(5)
            if what == 0:
                fails('compute_similarity with an unknown metric', lambda: T.compute_similarity(own('measmx')[0], metric='nope'), NotImplementedError)
            elif what == 1:
                fails('select_types of a string', lambda: T.select_types('walk/V'), ValueError)
            elif what == 2:
                fails('retrieve_tokens without queries', lambda: T.retrieve_tokens(fnames=arg), ValueError)
            elif what == 3:
                fails('retrieve_tokens with queries and a vocabulary', lambda: T.retrieve_tokens(fnames=arg, queries=['a/b'], row_vocab=Vocab({'a/b': 1})), ValueError)
            else:
                fails('build_token_vectors without second-order matrix', lambda: T.build_token_vectors(own('freqmx')[0]), ValueError)
            return
        cnt('op_' + op)

    def colloc():
        """token-context matrices of the remembered type nodes"""
        nd = {t: ts for t, ts in nodes[0].items() if any(x[3] or x[4] for x in ts)}
        if set(nd) != set(nodes[0]):
            return
        cv, kw = None, {}
        if rng.random() < .4:             # only these contexts, in the order of the vocabulary
            cs = sorted({c for ts in nd.values() for x in ts for c, _ in list(x[3]) + list(x[4])})
            cv = rng.sample(cs, rng.randint(1, len(cs))) + rng.choice([[], ['absent/Z']])
            kw['colloc_vocab'] = Vocab({c: i for i, c in enumerate(cv)})
        if rng.random() < .4:             # only these types
            nd = {t: nd[t] for t in rng.sample(sorted(nd), rng.randint(1, len(nd)))}
            kw['type_nodes'] = {t: T.type_nodes[t] for t in nd}
            cnt('given_inputs')
        if cv and not all(set(cv) & {c for x in ts for c, _ in list(x[3]) + list(x[4])} for ts in nd.values()):
            return
        trail.append('make_token_colloc(%s)' % sorted(kw))
        got = T.make_token_colloc(**kw)
        if sorted(got) != sorted(nd):
            bad('colloc-types', 'make_token_colloc gives %r instead of %r' % (sorted(got), sorted(nd)))
        for t, ts in nd.items():
            pos = {}
            for tok, _, _, left, right in ts:
                for i, (c, _) in enumerate(left):
                    pos.setdefault((tok, c), set()).add(i - len(left))
                for i, (c, _) in enumerate(right):
                    pos.setdefault((tok, c), set()).add(i + 1)
            pos = {k: v for k, v in pos.items() if not cv or k[1] in cv}
            compare('colloc', got[t], sorted({k[0] for k in pos}), kw['colloc_vocab'].get_item_list() if cv else sorted({k[1] for k in pos}), lambda r, c: frozenset(pos.get((r, c), {0})))
        cnt('op_colloc')

    def ranks(R, t, rev):
        g = mem['rankmx'] = mx.view(R)
        if g.rows != t.rows or g.cols != t.cols:
            bad('rank-labels', 'ranks have the labels %r x %r instead of %r x %r' % (g.rows, g.cols, t.rows, t.cols))
        for r in t.rows:
            v, k = [float(t.get(r, c)) for c in t.cols], [g.get(r, c) for c in t.cols]
            if sorted(k) != list(range(1, len(v) + 1)) or any((v[i] < v[j] if rev else v[i] > v[j]) and k[i] > k[j] for i in range(len(v)) for j in range(len(v))):
                bad('rank-value', 'row %r with values %r has the ranks %r (reverse=%r)' % (r, v, k, rev))

    def same_nodes(got, exp, what):
        if sorted(got) != sorted(exp):
            bad(what + '-types', 'type nodes of %r instead of %r' % (sorted(got), sorted(exp)))
        for t, toks in exp.items():
            e = sorted((x[0], tuple(c for c, _ in x[3]), tuple(c for c, _ in x[4])) for x in toks)
            g = sorted((str(x), tuple(c.to_colloc() for c in x.lcollocs), tuple(c.to_colloc() for c in x.rcollocs)) for x in got[t].tokens)
            if e != g:
                bad(what + '-tokens', 'tokens of %s: missing %r, too many %r' % (t, [x for x in e if x not in g][:2], [x for x in g if x not in e][:2]))
            cnt('tokens', len(e))

    try:
        for _ in range(case['steps']):
            try:
                k = len(trail)
                step()
                remembered()
            except Stop:
                raise
            except Exception as e:
                import traceback
                viol.append(('step-raises', 'a step raised %r\n   after %s\n%s' % (e, '; '.join(trail), traceback.format_exc()[-900:])))
                raise Stop
            cnt('steps', len(trail) - k)
        cnt('whole_sessions')
    except Stop:
        pass
    see.append(' '.join(trail))
    return {'n': n, 'viol': viol, 'see': see}
