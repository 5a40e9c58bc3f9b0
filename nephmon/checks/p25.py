"""P25: type nodes, token nodes, windows and concordances."""
import os
import random

from nephmon.core import fresh_dir, rmtree

N = {'quick': 9000, 'thorough': 120000}
RULE = ('type and token strings of every component order parsed and rendered; corpus lines through a formatter; histories of append / merge / sample / '
        'save+load / deep mutation on type nodes; streams of items (and gaps) through windows; concordances of generated nodes; each against a list model')
REQUIRED = {'whole_samples': 100, 'parsed': 2000, 'refused': 600, 'lines': 700, 'merges': 1500, 'samples': 1500, 'loads': 500, 'tokens_compared': 20000, 'mutations': 800,
            'window_steps': 20000, 'concordance_lines': 2000, 'merge_refused': 300}
ASSUMPTIONS = ['components hold no slash, tab or newline; only the file id of a token may have directories', 'the components in a format are distinct']
TECHNIQUE = 'runtime monitoring: list model of a history of node operations, with deep-aliasing probes'
COMPS = ['walk', 'Walks', 'V', 'N', 'café', 'Übung', "o'clock", 'e-mail', 'x y', '日本', 'é', '1', '-1', 'fid', 'lemma', 'None', '"q"', '<s>', '']


def comp(rng):
    return rng.choice(COMPS[:-1])


def gen(rng, idx, tier):
    return {'kind': ['parse', 'history', 'history', 'window', 'concordance', 'line'][idx % 6], 'seed': rng.randrange(1 << 48)}


def run(case, obs):
    rng = random.Random(case['seed'])
    globals()['do_' + case['kind']](rng, obs)


def fmt_of(rng, token):
    comps = rng.sample(['word', 'lemma', 'pos'], rng.choice([1, 2, 2, 3]))
    return '/'.join(comps + (['fid', 'lid'] if token else []))


def fid_of(rng):
    return rng.choice(['', '', '', 'a/', 'b/c/', 'sub dir/', '../']) + rng.choice(['f1', 'doc.2', 'Ünï', 'x', '12', 'fid'])


def do_parse(rng, obs):
    from nephosem.core.terms import ItemNode, TokenNode, TypeNode
    for _ in range(6):
        token = rng.random() < .5
        fmt = fmt_of(rng, token)
        if token and rng.random() < .3:
            parts = fmt.split('/')
            rng.shuffle(parts)
            fmt = '/'.join(parts)
        val = {c: fid_of(rng) if c == 'fid' else str(rng.randrange(1, 500)) if c == 'lid' else comp(rng) for c in fmt.split('/')}
        s = '/'.join(val[c] for c in fmt.split('/'))
        what = '%s(%r, %r)' % ('TokenNode' if token else 'TypeNode', s, fmt)
        obs.nontrivial = True
        try:
            node = TokenNode(token_str=s, token_fmt=fmt) if token else TypeNode(type_str=s, type_fmt=fmt)
            again = (node.token if token else node.type), str(node)
        except Exception as e:
            obs.bad('parse-raised', '%s raised %r' % (what, e))
            continue
        obs.n('parsed')
        obs.check(again == (s, s), 'parse-render', '%s renders as %r' % (what, again))
        obs.check(all(getattr(node, c) == v for c, v in val.items()), 'parse-components', lambda: '%s has components %r'
                  % (what, {c: getattr(node, c, '?') for c in val}))
        obs.check(all(getattr(node, c) is None for c in ('word', 'lemma', 'pos') if c not in val), 'parse-extra', what)
        obs.see(what)
        # the same from components
        kw = {k: v for k, v in val.items()}
        node2 = TokenNode(token_fmt=fmt, **kw) if token else TypeNode(type_fmt=fmt, **kw)
        obs.check(str(node2) == s, 'components-render', '%s from components renders as %r' % (what, str(node2)))
        if not token:
            obs.check(node.to_type() == s and node2.to_type() == s, 'to-type', '%s.to_type() is %r / %r' % (what, node.to_type(), node2.to_type()))
            it = ItemNode(word=val.get('word'), lemma=val.get('lemma'), pos=val.get('pos'))
            obs.check(it.to_type(type_fmt=fmt) == s and it.to_colloc(colloc_fmt=fmt) == s, 'item-to-type', what)
        else:
            obs.check((node.lcollocs, node.rcollocs, node.lspan, node.rspan) == ([], [], 0, 0), 'token-collocs', what)
        # too few components, (for types) too many, unknown components
        bad = [(s.rsplit('/', 1)[0], fmt)] if not token and fmt.count('/') else []
        if token and '/' not in val['fid']:
            bad.append((s.rsplit('/', 1)[0], fmt))
        if not token:
            bad.append((s + '/x', fmt))
        bad.append((s, fmt.replace('pos', 'tag') if 'pos' in fmt else fmt.replace('word', 'form').replace('lemma', 'stem')))
        for bs, bf in bad:
            try:
                n = TokenNode(token_str=bs, token_fmt=bf) if token else TypeNode(type_str=bs, type_fmt=bf)
                obs.bad('parse-accepts', '%s accepted as %s in format %s, renders %r' % (bs, 'token' if token else 'type', bf, str(n)))
            except ValueError:
                obs.n('refused')
            except Exception as e:
                obs.bad('parse-accepts', '%s in format %s raised %r instead of ValueError' % (bs, bf, e))


SEPS = [('\t', r'([^\t]+)\t([^\t]+)\t([^\t]+)'), (' ', r'(\S+) (\S+) (\S+)'), ('|', r'^([^|]+)\|([^|]+)\|([^|]+)$')]


def do_line(rng, obs):
    from nephosem.core.terms import CorpusFormatter, ItemNode, TokenNode, TypeNode
    cols = rng.sample(['word', 'lemma', 'pos'], 3)
    sep, lm = rng.choice(SEPS)
    tf, cf, kf = fmt_of(rng, False), fmt_of(rng, False), fmt_of(rng, True)
    s = {'line-machine': lm, 'line-format': ','.join(cols), 'type': tf, 'token': kf, 'boundary-detection-mechanism': 'single',
         'separator-line-machine': '</s>'}
    if rng.random() < .7:
        s['colloc'] = cf
    else:
        cf = tf
    sset = dict(s)
    f = CorpusFormatter(s)
    obs.nontrivial = True
    for _ in range(5):
        val = {c: comp(rng).replace(' ', '_') for c in cols}
        line = sep.join(val[c] for c in cols)
        m = f.match_line(line)
        if m is None:
            obs.bad('line-unmatched', '%r does not match %r' % (line, lm))
            continue
        obs.n('lines')
        fid, lid = fid_of(rng), rng.randrange(1, 99)
        lid = rng.choice([lid, str(lid)])
        join = lambda fm: '/'.join(val.get(c) or {'fid': fid, 'lid': str(lid)}[c] for c in fm.split('/'))
        what = 'line %r as %s type=%s colloc=%s token=%s' % (line, cols, tf, cf, kf)
        try:
            got = (f.get_type(m), f.get_colloc(m), f.get_token(m, fid, lid), f.get(m, 'type'), f.get(m, 'colloc'), f.get(m, 'token', fid, lid))
            ty, to, it = TypeNode(match=m, formatter=f), TokenNode(match=m, formatter=f, fid=fid, lid=lid), ItemNode(match=m, formatter=f, fid=fid, lid=lid)
            got2 = (str(ty), it.to_colloc(), str(to), ty.to_type(), to.to_colloc(), to.token)
            got3 = it.to_type(), ty.type, to.to_type()
        except Exception as e:
            obs.bad('line-raised', '%s raised %r' % (what, e))
            continue
        want = (join(tf), join(cf), join(kf))
        obs.check(got == want * 2, 'formatter-strings', '%s: the formatter gives %r' % (what, got))
        obs.check(got2 == want * 2, 'node-strings', '%s: the nodes give %r' % (what, got2))
        obs.check(got3 == (want[0],) * 3, 'node-types', '%s: the nodes give types %r' % (what, got3))
        for n in (ty, to, it):
            obs.check({c: getattr(n, c) for c in cols} == val, 'node-components', what)
        obs.check(str(it) == '\t'.join(val[c] for c in ('word', 'pos', 'lemma')), 'item-string', '%s: item is %r' % (what, str(it)))
        obs.check([f.get(m, c) for c in cols] == [val[c] for c in cols], 'formatter-columns', what)
        obs.see(what)
    obs.check(s == sset, 'settings-changed', repr(s))


def tokview(tok):
    return (str(tok), tok.uid, tuple((c.word, c.pos, c.lemma) for c in tok.lcollocs), tuple((c.word, c.pos, c.lemma) for c in tok.rcollocs))


def mk_tok(rng, uid, kf, val):
    from nephosem.core.terms import ItemNode, TokenNode

    def collocs():
        return [ItemNode(word=comp(rng), lemma=comp(rng), pos=comp(rng)) for _ in range(rng.choice([0, 1, 2, 4]))]
    d = dict(val)
    for c in ('word', 'lemma', 'pos'):
        d.setdefault(c, comp(rng))
    if rng.random() < .1:
        return TokenNode(token_fmt=kf, fid='f%d' % rng.randrange(3), lid=rng.randrange(1, 9), uid=uid, **d)
    return TokenNode(token_fmt=kf, fid='f%d' % rng.randrange(3), lid=rng.randrange(1, 9), lcollocs=collocs(), rcollocs=collocs(), uid=uid, **d)


def do_history(rng, obs):
    from nephosem.core.terms import ItemNode, TypeNode
    tf, kf = fmt_of(rng, False), fmt_of(rng, True)
    val = {c: comp(rng) for c in tf.split('/')}
    name = '/'.join(val[c] for c in tf.split('/'))
    uid = [0]
    hist = []
    nodes = []  # (node, model)

    def make(n):
        toks = []
        for _ in range(n):
            uid[0] += 1
            toks.append(mk_tok(rng, uid[0], kf, val))
        how = rng.choice(['str', 'comps', 'append'])
        hist.append('new %s with %d tokens (%s)' % (name, n, how))
        if how == 'append':
            nd = TypeNode(type_str=name, type_fmt=tf)
            for t in toks:
                nd.append_token(t)
        elif how == 'str':
            nd = TypeNode(type_str=name, type_fmt=tf, tokens=toks)
        else:
            nd = TypeNode(type_fmt=tf, tokens=toks, **val)
        return nd, [tokview(t) for t in toks]

    def verify(why):
        for i, (nd, model) in enumerate(nodes):
            got = [tokview(t) for t in nd.tokens]
            obs.n('tokens_compared', len(model))
            if got != model or nd.freq != len(model) or str(nd) != name or nd.format != tf:
                obs.bad(why, '%s: node %d (%s) has %d tokens %r..., expected %d %r...' % ('; '.join(hist[-6:]), i, str(nd), nd.freq,
                        [g for g in got if g not in model][:2], len(model), [m for m in model if m not in got][:2]))
                return False
        return True

    d = fresh_dir('p25')
    try:
        nodes.append(make(rng.choice([0, 1, 3, 8])))
        for step in range(rng.randrange(3, 9)):
            op = rng.choice(['new', 'append', 'merge', 'merge', 'sample', 'sample', 'saveload', 'mutate', 'collocs', 'refuse'])
            i = rng.randrange(len(nodes))
            nd, model = nodes[i]
            if op == 'new':
                nodes.append(make(rng.choice([0, 1, 2, 5, 12])))
            elif op == 'append':
                uid[0] += 1
                t = mk_tok(rng, uid[0], kf, val)
                hist.append('append to %d' % i)
                nd.append_token(t)
                nodes[i] = nd, model + [tokview(t)]
            elif op == 'merge':
                ids = [rng.randrange(len(nodes)) for _ in range(rng.randrange(1, 5))]
                hist.append('merge of %r' % ids)
                r = TypeNode.merge([nodes[k][0] for k in ids])
                nodes.append((r, sum((nodes[k][1] for k in ids), [])))
                obs.n('merges')
                obs.nontrivial = True
            elif op == 'sample':
                method = rng.choice(['random', 'random', 'first'])
                n = rng.choice([0, 1, 2, 3, 5, nd.freq, nd.freq + 1, 300])
                hist.append('%s sample of %d from %d' % (method, n, i))
                random.seed(rng.random())
                try:
                    r = nd.sample(n=n, method=method) if (n, method) != (300, 'random') else nd.sample()
                except Exception as e:
                    obs.bad('sample-raised', '%s raised %r' % ('; '.join(hist[-3:]), e))
                    return
                got = [tokview(t) for t in r.tokens]
                obs.n('samples')
                if method == 'first':
                    ok = got == model[:n]
                else:
                    # n distinct tokens of the node (positions, as the same token may be there twice after a merge)
                    size = min(n, len(model))
                    obs.n('whole_samples', n > len(model))
                    ok, k = len(got) == size, 0
                    for g in got:
                        while k < len(model) and model[k] != g:
                            k += 1
                        ok, k = ok and k < len(model), k + 1
                    if not ok and len(got) == size:
                        pool = list(model)
                        ok = all(g in pool and (pool.remove(g) or True) for g in got)
                obs.check(ok, 'sample-tokens', lambda: '%s: got %r of %r' % (hist[-1], got[:5], model[:5]))
                obs.check(str(r) == name and r.format == tf and r is not nd, 'sample-type', hist[-1])
                nodes.append((r, got))
            elif op == 'saveload':
                fn = os.path.join(d, rng.choice(['t.json', 'tokens']))
                enc = rng.choice([None, 'utf-8', 'latin-1', 'utf-16'])
                kw = {'encoding': enc} if enc else {}
                hist.append('save and load %d (%s)' % (i, enc))
                try:
                    nd.save(fn, verbose=False, **kw)
                    r = TypeNode.load(fn, **kw)
                except Exception as e:
                    obs.bad('load-raised', '%s raised %r' % ('; '.join(hist[-3:]), e))
                    return
                obs.n('loads')
                for t, m in zip(r.tokens, model):
                    t.uid = m[1]
                    comps = [c for k in ('word', 'lemma', 'pos') for c in [getattr(t, k)]]
                    src = nd.tokens[r.tokens.index(t)] if t in r.tokens else None
                    obs.check(src is not None and comps == [src.word, src.lemma, src.pos] and (t.fid, t.lid) == (src.fid, src.lid), 'load-token', hist[-1])
                nodes.append((r, list(model)))
            elif op == 'mutate':
                # changing a node made by merge / sample / the constructor reaches no other node
                hist.append('mutate %d' % i)
                obs.n('mutations')
                if nd.tokens:
                    k = rng.randrange(len(nd.tokens))
                    what = rng.choice(['drop', 'lid', 'colloc', 'add'])
                    if what == 'drop':
                        del nd.tokens[k]
                    elif what == 'lid':
                        nd.tokens[k].lid = 'changed%d' % step
                    elif what == 'colloc' and nd.tokens[k].lcollocs:
                        nd.tokens[k].lcollocs[0].lemma = 'changed'
                    else:
                        nd.tokens[k].rcollocs.append(ItemNode(word='new', pos='new', lemma='new%d' % step))
                    nodes[i] = nd, [tokview(t) for t in nd.tokens]
            elif op == 'collocs':
                want = [id(c) for t in nd.tokens for c in list(t.lcollocs) + list(t.rcollocs)]
                for got in (nd.collocs, nd.get_collocs()):
                    obs.check(sorted(id(c) for c in got) == sorted(set(want)), 'collocs', lambda: '%s: %d collocates of %d tokens, expected %d'
                              % ('; '.join(hist[-3:]), len(got), nd.freq, len(want)))
            else:
                other = dict(val)
                c = rng.choice(sorted(other))
                other[c] += 'x'
                oname = '/'.join(other[c] for c in tf.split('/'))
                bad = TypeNode(type_str=oname, type_fmt=tf, tokens=[mk_tok(rng, 0, kf, other)])
                if rng.random() < .4:
                    comps = tf.split('/')
                    of = {'word': 'lemma', 'lemma': 'pos', 'pos': 'word'}
                    bf = '/'.join(of[c] for c in comps)
                    bad = TypeNode(type_str=name, type_fmt=bf)
                ids = [rng.randrange(len(nodes)) for _ in range(rng.randrange(1, 3))]
                lst = [nodes[k][0] for k in ids]
                lst.insert(rng.randrange(len(lst) + 1), bad)
                hist.append('merge with %s in format %s' % (bad, bad.format))
                try:
                    r = TypeNode.merge(lst)
                    obs.bad('merge-accepts', '%s gives %s with %d tokens' % (hist[-1], r, r.freq))
                except ValueError:
                    obs.n('merge_refused')
            if not verify({'merge': 'merge-tokens', 'mutate': 'shares-tokens', 'saveload': 'load-differs', 'sample': 'sample-source'}.get(op, 'tokens-differ')):
                return
        obs.check(TypeNode.merge([]) is None, 'merge-nothing', 'merge([]) is not None')
        obs.see(tuple(hist))
    finally:
        rmtree(d)


def do_window(rng, obs):
    from nephosem.core.terms import Window
    ls, rs = rng.choice([0, 1, 1, 2, 3, 5, 10]), rng.choice([0, 1, 1, 2, 3, 5, 10])
    w = Window(ls, rs)
    stream = [None] * (ls + rs + 1)
    obs.nontrivial = ls + rs > 1
    obs.check(list(w.left) == [None] * ls and list(w.right) == [None] * rs and w.node is None, 'window-start', repr(w))
    for t in range(rng.randrange(1, 30)):
        cur = None if rng.random() < .1 else (t, rng.choice('ab'))
        w.update(cur)
        stream.append(cur)
        c = len(stream) - 1 - rs
        want = (stream[c - ls:c], stream[c], stream[c + 1:])
        obs.n('window_steps')
        if (list(w.left), w.node, list(w.right)) != want:
            obs.bad('window-differs', 'Window(%d, %d) after %r holds %r instead of %r' % (ls, rs, stream[ls + rs + 1:][-8:], (list(w.left), w.node, list(w.right)), want))
            return
    obs.see((ls, rs, tuple(stream)))


def do_concordance(rng, obs):
    from nephosem.core.terms import TypeNode
    from nephosem.utils import save_concordance
    d = fresh_dir('p25')
    try:
        nodes, want = {}, []
        cf = fmt_of(rng, False)
        tf, kf = fmt_of(rng, False), fmt_of(rng, True)
        for i in range(rng.choice([0, 1, 2, 4])):
            val = {c: comp(rng).replace(' ', '_') + str(i) for c in tf.split('/')}
            name = '/'.join(val[c] for c in tf.split('/'))
            toks = [mk_tok(rng, k, kf, val) for k in range(rng.choice([0, 1, 3, 6]))]
            nodes[name] = TypeNode(type_str=name, type_fmt=tf, tokens=toks)
            for t in toks:
                col = lambda c: '/'.join(getattr(c, k) for k in cf.split('/'))
                want.append('\t'.join([str(t), ' '.join(map(col, t.lcollocs)), col(t), ' '.join(map(col, t.rcollocs))]))
        enc = rng.choice([None, 'utf-8', 'utf-16'])
        kw = {'encoding': enc} if enc else {}
        fn = os.path.join(d, 'conc.txt')
        save_concordance(fn, nodes, colloc_fmt=cf, **kw)
        with open(fn, 'rb') as f:
            lines = f.read().decode(enc or 'utf-8').split('\n')
        obs.nontrivial = len(want) > 1
        obs.n('concordance_lines', len(want))
        obs.check(lines == want + [''], 'concordance-lines', lambda: 'concordance of %d tokens has %d lines; first difference %r'
                  % (len(want), len(lines) - 1, [x for x in zip(lines, want) if x[0] != x[1]][:1]))
        obs.see(tuple(want))
    finally:
        rmtree(d)
