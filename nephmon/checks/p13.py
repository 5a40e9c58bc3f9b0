"""P13: Vocab as a frequency map under histories of selections, increments and queries."""
import copy
import re
from collections import defaultdict

N = {'quick': 30000, 'thorough': 400000}
RULE = ('random vocabularies (from dict, defaultdict, DataFrame, matrix sums; ties, zeros, floats, unicode, empty) put through histories of 1-8 '
        'selections, increments, lookups and queries next to a plain-dict model; every derived vocabulary stays alive and is compared with its '
        'model at the end of the history, so that changes leaking between them show; distinct by history')
REQUIRED = {'queries': 8000, 'derived': 10000, 'absent_lookups': 1000, 'ties': 4000, 'slices': 2000, 'empty': 300}
WORDS = ['walk/V', 'Walk/V', 'run/V', 'run/N', 'the/DT', 'and/or/C', 'cat/N', 'cat/V', 'dog/N', 'café/N', 'Übung/N', 'Zebra/N', 'x', 'a', "o'clock/N",
         'e-mail/N', '日本/N', '12/CD', '.../PUN', '/', 'a/b/c/D', 'ζ', '\u00e9', 'e\u0301']


def gen(rng, idx, tier):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 20])
    items = rng.sample(WORDS, min(n, len(WORDS)))
    fl = rng.random() < .15
    d = {i: (rng.choice([0.5, 1.5, 2.0, rng.random()]) if fl else rng.choice([0, 1, 1, 2, 2, 3, 5, 1000, 10 ** 9])) for i in items}
    return {'d': d, 'via': rng.choice(['dict', 'dict', 'defaultdict', 'df', 'dfshuf', 'default']), 'steps': rng.choice([1, 2, 3, 5, 8]), 'seed': rng.random()}


def show(case):
    return repr(case)


def by_freq(d, descending=True):
    t = sorted(d.items(), key=lambda kv: kv[0])
    return [k for k, _ in sorted(t, key=lambda kv: kv[1], reverse=descending)]


def run(case, obs):
    import random
    import pandas as pd
    from nephosem import Vocab
    rng = random.Random(case['seed'])
    d = dict(case['d'])
    src = dict(d)
    if case['via'] == 'dict':
        V = Vocab(src)
    elif case['via'] == 'defaultdict':
        src = defaultdict(int, d)
        V = Vocab(src)
    elif case['via'] == 'default':
        V = Vocab()
        for k, v in d.items():
            V[k] = v
        src = {}
    else:
        its = list(d.items())
        rng.shuffle(its)
        src = pd.DataFrame(its, columns=['item', 'freq'], index=range(5, 5 + len(its)) if case['via'] == 'dfshuf' else None)
        V = Vocab(src)
    src0 = copy.deepcopy(src)
    live = [(V, d, 'Vocab(%r via %s)' % (d, case['via']))]
    obs.n('empty', int(not d))
    obs.n('ties', int(len(set(d.values())) < len(d)))
    obs.nontrivial = len(d) > 1
    trail = []
    for _ in range(case['steps']):
        i = rng.randrange(len(live))
        V, d, how = live[i]
        op = rng.choice(['sub', 'list', 'freqs', 'slice', 'slice', 'tuple', 'match', 'inc', 'set', 'absent', 'order', 'query', 'query', 'cmp', 'select', 'copy', 'df', 'pycopy', 'emptylist', 'mutate_dict'])
        trail.append(op)
        what = '%s, then %s' % (how, op)
        R = exp = None
        try:
            if op == 'sub':
                items = rng.sample(WORDS, rng.randint(0, 6))
                what += ' subvocab(%r)' % (items,)
                R, exp = V.subvocab(items), {k: d.get(k, 0) for k in items}
            elif op == 'list':
                items = rng.sample(WORDS, rng.randint(1, 8))
                if rng.random() < .3:
                    items += items[:1]
                what += ' [%r]' % (items,)
                R, exp = V[items], {k: d[k] for k in items if k in d}
            elif op == 'emptylist':
                R, exp = V[[]], {}
            elif op == 'freqs':
                fs = [rng.choice([0, 1, 2, 3, 5, 7])] + rng.sample([1, 2, 3, 1000], rng.randint(0, 3))
                what += ' [%r]' % (fs,)
                R, exp = V[fs], {k: v for k, v in d.items() if v in set(fs)}
            elif op == 'slice':
                obs.n('slices')
                f = [None, 0, 1, 2, 3, 5, len(d), len(d) + 3, -1, -2]
                s = slice(rng.choice(f), rng.choice(f), rng.choice([None, None, None, 2, -1]))
                what += ' [%r]' % (s,)
                R, exp = V[s], {k: d[k] for k in by_freq(d)[s]}
            elif op == 'tuple':
                lo, hi = rng.choice([0, 1, 2]), rng.choice([2, 3, 5, 1000])
                if rng.random() < .4:       # conditions of different kinds, one after the other
                    fs, s = rng.sample([0, 1, 2, 3, 5, 1000], 4), slice(rng.choice([None, 1]), rng.choice([None, 3, 10]))
                    what += ' [>=%r, %r, %r]' % (lo, fs, s)
                    a, exp = V.freq >= lo, {k: v for k, v in d.items() if lo <= v and v in fs}
                    R, exp = V[(a, fs, s) if a else (fs, V.freq >= lo, s)], {k: d[k] for k in by_freq(exp)[s]}
                else:
                    what += ' [>=%r, <%r]' % (lo, hi)
                    R, exp = V[V.freq >= lo, V.freq < hi], {k: v for k, v in d.items() if lo <= v < hi}
            elif op == 'cmp':
                import operator
                v = rng.choice([0, 1, 2, 3, 0.5, 1.5, 1000])
                o = rng.choice(['lt', 'le', 'gt', 'ge', 'eq'])
                f = getattr(operator, o)
                what += ' %s %r' % (o, v)
                got, e = f(V if rng.random() < .5 else V.freq, v), [k for k, x in d.items() if f(x, v)]
                obs.n('queries')
                obs.check(sorted(got) == sorted(e), 'filter-differs', lambda: '%s: %r instead of %r' % (what, got, e))
                if e:
                    R, exp = V[got], {k: d[k] for k in e}
            elif op == 'match':
                p = rng.choice([r'.', r'.*/N', r'^..+/N.*', r'\w+/V$', r'w', r'[A-Z]', r'\w+/\w+$', r'(cat|dog)/', r'$'])
                what += ' match(%r)' % p
                got, e = V.match('item', p), [k for k in by_freq(d) if re.match(p, k)]
                obs.n('queries')
                obs.check(got == e, 'match-differs', lambda: '%s: %r instead of %r' % (what, got, e))
                R, exp = V[got], {k: d[k] for k in e}
            elif op == 'select':
                w = rng.choice(['walk', 'cat', 'run', 'and/or', 'x', 'a/b/c', 'nope'])
                what += ' select_items(%r)' % w
                R, exp = V.select_items(w), {k: v for k, v in d.items() if k.rsplit('/', 1)[0] == w}
            elif op == 'inc':
                k, by = rng.choice(WORDS), rng.choice([None, 1, 2, -1, 10])
                what += ' increment(%r, %r)' % (k, by)
                V.increment(k) if by is None else V.increment(k, inc=by)
                d[k] = d.get(k, 0) + (1 if by is None else by)
                live[i] = V, d, what
            elif op == 'set':
                k, v = rng.choice(WORDS), rng.choice([0, 3, 77])
                what += ' [%r] = %r' % (k, v)
                V[k] = v
                d[k] = v
                live[i] = V, d, what
            elif op == 'absent':
                k = rng.choice(WORDS)
                what += ' [%r]' % k
                try:
                    v = V[k]
                    obs.check(v == d.get(k, 0), 'lookup-differs', lambda: '%s gives %r' % (what, v))
                except KeyError:
                    obs.check(k not in d, 'lookup-differs', lambda: '%s raised KeyError' % what)
                obs.n('absent_lookups', int(k not in d))
                obs.check((k in V) == (k in d), 'contains-differs', lambda: '%s: %r in vocab is %r' % (what, k, k in V))
            elif op == 'order':
                s, desc = rng.choice(['freq', 'alpha']), rng.random() < .5
                what += ' get_item_list(%s, descending=%r)' % (s, desc)
                got = V.get_item_list(sorting=s, descending=desc)
                e = by_freq(d, desc) if s == 'freq' else sorted(d, reverse=desc)
                obs.n('queries')
                obs.check(got == e, 'order-differs', lambda: '%s: %r instead of %r' % (what, got, e))
                obs.check(V.get_item_list() == sorted(d), 'order-differs', lambda: '%s: default order %r' % (what, V.get_item_list()))
            elif op == 'query':
                obs.n('queries')
                obs.check(len(V) == len(d) and V.sum() == sum(d.values()) and sorted(V.keys()) == sorted(d) and sorted(V.items()) == sorted(d.items())
                          and sorted(V.values()) == sorted(d.values()) and V.isEmpty() == (not d), 'query-differs',
                          lambda: '%s: len %r sum %r items %r' % (what, len(V), V.sum(), V.items()))
                if len(d) > 1 and rng.random() < .3:
                    nums = [float(x) for x in re.findall(r'(?<![\w.])\d+(?:\.\d+)?(?:e[+-]?\d+)?', V.describe().replace('inf', ''))]
                    obs.check(len(d) in nums and any(abs(x - sum(d.values())) <= 1e-9 * abs(x) for x in nums), 'describe-differs',
                              lambda: '%s: %d items, sum %r: %r' % (what, len(d), sum(d.values()), V.describe()))
                obs.check(V.equal(Vocab(dict(d))) and not V.equal(Vocab(dict(d, zzz=1))) and not V.equal(Vocab(dict(d, zzz=0))) and not Vocab(dict(d, zzz=0)).equal(V), 'equal-differs', what)
            elif op == 'copy':
                R, exp = V.copy() if rng.random() < .5 else V.deepcopy(), dict(d)
            elif op == 'pycopy':
                import pickle
                R, exp = copy.deepcopy(V) if rng.random() < .5 else pickle.loads(pickle.dumps(V)), dict(d)
            elif op == 'df':
                df = V.dataframe
                e = by_freq(d)
                obs.n('queries')
                obs.check(df['item'].tolist() == e and df['freq'].tolist() == [d[k] for k in e], 'dataframe-differs', lambda: '%s: %r' % (what, df.values.tolist()))
                if len(e):
                    sel = df[df['freq'] >= 2]
                    R, exp = Vocab(sel), {k: d[k] for k in e if d[k] >= 2}
            elif op == 'mutate_dict':
                g = V.get_dict()
                obs.check(dict(g) == d, 'get_dict-differs', lambda: '%s: %r' % (what, g))
                g['new!'] = 99
                for k in list(g)[:2]:
                    g[k] = -5
                V.keys().append('zz')
                V.items().clear()
        except Exception as e:
            obs.bad(op + '-raised', '%s raised %r' % (what, e))
            return
        if R is not None:
            obs.n('derived')
            g = dict(R.get_dict())
            obs.check(type(R) is Vocab and g == exp, op + '-differs', lambda: '%s: %r instead of %r' % (what, g, exp))
            live.append((R, exp, what))
    for V, d, how in live:
        g = dict(V.get_dict())
        obs.check(g == d, 'state-differs', lambda: '%s is in the end %r instead of %r (history %s)' % (how, g, d, trail))
        obs.check(V.get_item_list(sorting='freq', descending=True) == by_freq(d), 'order-differs', lambda: '%s: frequency order %r' % (how, V.get_item_list('freq', True)))
    if isinstance(src0, dict):
        obs.check(src == src0, 'source-changed', lambda: 'source dict %r became %r' % (src0, src))
    else:
        obs.check(src.equals(src0), 'source-changed', lambda: 'source data frame changed')
    obs.see(trail, [x[1] for x in live])
