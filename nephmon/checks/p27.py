"""P27: results do not depend on the environment of the process."""
import json
import math
import os
import random
import subprocess
import sys

from nephmon import corpus, depcorpus as dc, envrun, pipeline
from nephmon.core import isolate, scratch

N = {'quick': 64, 'thorough': 2600}
BUDGET = {'quick': 260, 'thorough': 600}
GRACE = 250
RULE = ('a random corpus, dependency corpus, patterns and user settings are run through every part of the library (handlers, persistence, CSV, association, distances, '
        'clustering, dependencies) in this process and in two fresh interpreters with a random hash seed, locale (UTF-8 or plain ASCII), working directory, '
        'umask, optimisation level, process start method, thread count, log output and time zone; the second one reads the files that another environment wrote; '
        'all label-canonical results and the bytes of ordered text files are compared; non-trivial: both interpreters finished with co-occurrences and dependencies')
REQUIRED = {'environments': 24, 'ascii_locale': 6, 'no_fork': 6, 'results_compared': 500, 'cross_loaded': 8, 'hash_seeds': 24}
ASSUMPTIONS = ['file names are ASCII (how an ASCII locale spells others is not the library\'s business)',
               'the order of the rows and columns of a matrix of retrieved tokens is free; floats are compared with 1e-6']
TECHNIQUE = 'runtime monitoring: differential execution of one workload under perturbed process environments'


def gen(rng, idx, tier):
    return {'cseed': rng.randrange(1 << 40), 'n_files': rng.choice([1, 2, 3]), 'vocab': rng.choice([3, 5, 8]), 'max_lines': rng.choice([15, 40]), 'sseed': rng.randrange(1 << 40),
            'over': {'type': 'lemma/pos', 'colloc': 'lemma/pos', 'token': 'lemma/pos/fid/lid'}}


def ascii_names(root):
    for base, dirs, files in os.walk(root, topdown=False):
        for i, f in enumerate(sorted(files + dirs)):
            if not f.isascii():
                os.rename(os.path.join(base, f), os.path.join(base, 'asc%d.txt' % i))
    return sorted(os.path.join(b, f) for b, _, fs in os.walk(root) for f in fs)


def gen_env(rng, obs, base):
    env, how = {}, {}
    env['PYTHONHASHSEED'] = str(rng.randrange(1, 4000000000))
    obs.n('hash_seeds')
    how['locale'] = rng.choice(['ascii', 'ascii', 'utf-8', 'default'])
    if how['locale'] == 'ascii':
        env.update(LC_ALL='C', LANG='C', PYTHONUTF8='0', PYTHONCOERCECLOCALE='0')
        obs.n('ascii_locale')
    elif how['locale'] == 'utf-8':
        env.update(LC_ALL='C.UTF-8')
    how['cwd'] = rng.choice([base, '/', os.path.join(base, 'elsewhere')])
    os.makedirs(how['cwd'], exist_ok=True)
    how['start'] = rng.choice([None] * 4 + ['forkserver'] * 3 + ['spawn'])
    obs.n('no_fork', int(how['start'] is not None))
    how['opt'] = rng.choice([[], [], ['-O'], ['-OO']])
    how['umask'] = rng.choice([0o022, 0o077, 0])
    how['log'] = rng.random() < .4
    env['TZ'] = rng.choice(['UTC', 'Asia/Tokyo', 'America/New_York'])
    env['OMP_NUM_THREADS'] = rng.choice(['1', '2'])
    return env, how


def same(a, b):
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
            return False
        return a == b or math.isnan(a) and math.isnan(b) or abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def cellsame(a, b):
    """matrices may differ in tiny cells that are zero in the other"""
    if isinstance(a, dict) and isinstance(b, dict) and 'cells' in a and 'cells' in b:
        x, y = ({(r, c): v for r, c, v in m['cells']} for m in (a, b))
        return a['rows'] == b['rows'] and a['cols'] == b['cols'] and a.get('order') == b.get('order') and all(abs(x.get(k, 0) - y.get(k, 0)) <= 1e-6 * max(1, abs(x.get(k, 0))) for k in set(x) | set(y))
    return same(a, b)


def run(case, obs):
    rng = random.Random(case['sseed'])
    base, root, settings, paths = pipeline.build(case)
    try:
        for p in ascii_names(root):
            pass
        paths = ascii_names(root)
        # two files of one corpus must differ without their extension
        stems = {}
        for p in paths:
            stems.setdefault(os.path.splitext(p)[0], []).append(p)
        for k, ps in stems.items():
            for i, p in enumerate(ps[1:]):
                os.rename(p, '%s-%d.x' % (k, i))
        paths = ascii_names(root)
        droot = os.path.join(base, 'dep')
        os.makedirs(droot)
        dset, cols, k = dc.make_settings(rng, droot)
        dset.update({'tmp-path': os.path.join(base, 'dtmp'), 'output-path': base})
        dpaths = dc.write_corpus(rng, droot, dset, cols, k, rng.choice([1, 3]), vocab=10)
        sents = [s for p in dpaths for s in dc.read_sents(p, dset) if dc.is_tree(s)]
        pats = []
        for _ in range(2):
            if sents:
                s = rng.choice(sents)
                pats.append(dc.grown_pattern(rng, [(i, t['FORM'], t['POS'], t['LEMMA'], s.head[i][0], s.head[i][1]) for i, t in s.tok.items()], full_target=True, max_nodes=3))
            else:
                pats.append(dc.gen_pattern(rng, full_target=True, max_nodes=3))
        pats[1]['tattrs'], pats[1]['fattrs'] = pats[0]['tattrs'], pats[0]['fattrs']
        if rng.random() < .6:
            for p in pats:
                for a in p['nodes'].values():
                    if 'LEMMA' in a and rng.random() < .5:
                        a['LEMMA'] = '(' + a['LEMMA'].strip('()') + '|café|Übung)' if '(' not in a['LEMMA'].strip('()') else a['LEMMA']
        mode = rng.choice(['type', 'token'])
        gml, xml = os.path.join(base, 'p.graphml'), os.path.join(base, 'm.xml')
        dc.write_xml(pats, gml, xml, mode)
        conf = os.path.join(base, 'user.ini')
        with open(conf, 'w', encoding='utf-8') as f:
            f.write('[Data]\ncorpus-path = /tmp/korpüs/日本\n[Span]\nleft-span = %d\n[Corpus-Format]\nline-machine = (\\S+) é (\\S+)\n' % rng.randrange(1, 20))
        fn = os.path.join(base, 'sel.fnames')
        sel = [p for p in paths if rng.random() < .9]
        with open(fn, 'wb') as f:
            f.write('\n'.join(sel + ['# naïve']).encode(settings.get('file-encoding', 'utf-8')))
        spec = {'settings': settings, 'workers': rng.choice([1, 2, 3]), 'config': conf, 'fnames': fn, 'from': None, 'cbc_multi': rng.random() < .3,
                'dep': {'settings': dset, 'mode': mode, 'xml': xml, 'gml': gml}}
        st, ref = isolate(lambda: json.loads(json.dumps(envrun.compute(dict(spec, dir=os.path.join(base, 'run0'))))))
        if not pipeline.outcome(obs, st, ref, 'environment-base'):
            return
        done = 0
        prev = 'run0'
        for i in (1, 2):
            env, how = gen_env(rng, obs, base)
            sp = dict(spec, dir=os.path.join(base, 'run%d' % i), log=how['log'], start=how['start'])
            if i == 2 and rng.random() < .8:
                sp['from'] = os.path.join(base, prev)
                obs.n('cross_loaded')
            sf, of = os.path.join(base, 'spec%d.json' % i), os.path.join(base, 'out%d.json' % i)
            with open(sf, 'w', encoding='utf-8') as f:
                json.dump(sp, f)
            e = dict(os.environ)
            for key in ('LC_ALL', 'LANG', 'LC_CTYPE', 'PYTHONUTF8', 'PYTHONIOENCODING'):
                e.pop(key, None)
            e.update(env)
            if how['opt']:         # compile the libraries for this level once per run
                e.pop('PYTHONDONTWRITEBYTECODE', None)
                e['PYTHONPYCACHEPREFIX'] = os.path.join(os.path.dirname(scratch()), 'pycache')
            um = how['umask']

            def sub():
                os.umask(um)
                r = subprocess.run([sys.executable] + how['opt'] + ['-W', 'ignore', '-m', 'nephmon.envrun', sf, of], env=e, cwd=how['cwd'], stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                return r.returncode, r.stdout.decode('utf-8', 'replace')[-1500:]
            what = 'environment %r %r' % ({k2: env[k2] for k2 in sorted(env)}, how)
            st, val = isolate(sub, quiet_s=40.0)
            if not pipeline.outcome(obs, st, val, 'environment'):
                return
            obs.n('environments')
            rc, text = val
            if rc != 0 or not os.path.exists(of):
                obs.bad('environment-raises', '%s: ended with %r: %s' % (what, rc, text))
                return
            with open(of, encoding='utf-8') as f:
                got = json.load(f)
            for key in sorted(set(ref) | set(got)):
                obs.n('results_compared')
                if not cellsame(ref.get(key, 'absent'), got.get(key, 'absent')):
                    a, b = json.dumps(ref.get(key)), json.dumps(got.get(key))
                    j = next((x for x in range(min(len(a), len(b))) if a[x] != b[x]), 0)
                    obs.bad('differs-' + key, '%s: %s is ...%s instead of ...%s' % (what, key, b[max(0, j - 60):j + 200], a[max(0, j - 60):j + 200]))
            done += 1
            prev = 'run%d' % i
        obs.nontrivial = done == 2 and bool(ref.get('cooc')) and isinstance(ref.get('dependency'), dict)
        obs.see(json.dumps(ref, sort_keys=True))
    finally:
        pipeline.clean(base)
