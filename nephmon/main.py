"""Entry point: run the check of one property (parent) or one shard of its cases."""
import argparse
import importlib
import json
import os
import selectors
import signal
import subprocess
import sys
import time
import traceback
from collections import Counter

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_check(prop):
    return importlib.import_module('nephmon.checks.%s' % prop.lower())


def run_case(mod, prop, seed, tier, idx):
    from nephmon.core import Obs, case_rng
    rng = case_rng(seed, prop, idx)
    obs = Obs()
    case = mod.gen(rng, idx, tier)
    obs.sample = getattr(mod, 'show', repr)(case)[:1500]
    try:
        mod.run(case, obs)
    except Exception as e:
        repo = os.path.realpath(os.environ.get('NEPHMON_REPO', '/repo')) + os.sep
        frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(e.__traceback__)]
        if any(f.startswith(repo) for f in frames):
            # raised by the code under test in a call that the monitor expects to succeed
            obs.bad('raised-' + type(e).__name__, 'case %d: the code raised on a valid input: %s' % (idx, traceback.format_exc()[-1200:]))
            return obs
        if isinstance(e, (TypeError, AttributeError, LookupError, ValueError, AssertionError)):
            # a result that the oracle cannot even read (missing parts, other types) is not the promised one
            obs.bad('unreadable-result', 'case %d: the result could not be judged: %s' % (idx, traceback.format_exc()[-1500:]))
            return obs
        # the monitors themselves catch what the code under test raises: this is an error of the check
        obs.inconclusive.append('harness error in case %d: %s' % (idx, traceback.format_exc()[-1500:]))
    return obs


def shard_main(a):
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    dn = os.open(os.devnull, os.O_RDWR)
    os.dup2(dn, 1)
    if not os.environ.get('NEPHMON_DEBUG'):
        os.dup2(dn, 2)
    os.dup2(dn, 0)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import nephosem  # noqa: once per shard, before any fork
    mod = load_check(a.prop)
    from nephmon import core, cover
    cover.start(os.path.join(os.environ['NEPHMON_SCRATCH'], 'lines.log'), os.environ.get('NEPHMON_REPO', '/repo'))
    signal.signal(signal.SIGTERM, core.shard_terminate)
    t_end = time.monotonic() + a.budget
    total = mod.N[a.tier]
    for idx in range(a.shard, total, a.shards):
        if time.monotonic() > t_end:
            out.write(json.dumps({'stopped': idx}) + '\n')
            break
        out.write(json.dumps({'start': idx}) + '\n')
        obs = run_case(mod, a.prop, a.seed, a.tier, idx)
        out.write(json.dumps({
            'i': idx, 'counts': dict(obs.counts), 'viol': obs.viol, 'sig': obs.signature(),
            'nontrivial': bool(obs.nontrivial), 'inconclusive': obs.inconclusive, 'slow': obs.slow,
            'sample': obs.sample}) + '\n')
    out.write(json.dumps({'done': a.shard}) + '\n')
    out.flush()
    out.close()
    os._exit(0)


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.json')
    try:
        with open(path) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {e['key']: e for e in data.get('findings', []) if e['property'] == prop}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--shard', type=int)
    ap.add_argument('--shards', type=int)
    ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    if a.prop == 'setup':
        import nephosem  # noqa
        for p in sorted(os.listdir(os.path.join(HERE, 'nephmon', 'checks'))):
            if p.startswith('p') and p.endswith('.py'):
                load_check(p[:-3])
        print('setup ok')
        return 0
    if a.shard is not None:
        shard_main(a)
        return 0

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        import nephosem  # noqa
        mod = load_check(r['property'])
        obs = run_case(mod, r['property'], r['seed'], r['tier'], r['index'])
        print('case: %s' % obs.sample)
        for k, m in obs.viol:
            print('VIOLATION property=%s replay=%s\n  [%s] %s' % (r['property'], a.replay, k, m))
        for m in obs.inconclusive + obs.slow:
            print('INCONCLUSIVE %s' % m)
        print(dict(obs.counts))
        return 1 if obs.viol else 3 if obs.inconclusive or obs.slow else 0

    t0 = time.monotonic()
    mod = load_check(a.prop)
    total = mod.N[a.tier]
    shards = min(getattr(mod, 'SHARDS', 8), total)
    budget = a.budget or getattr(mod, 'BUDGET', {}).get(a.tier) or {'quick': 240, 'thorough': 780}[a.tier]
    scratch = os.environ['NEPHMON_SCRATCH']
    sel = selectors.DefaultSelector()
    procs = {}
    for s in range(shards):
        env = dict(os.environ)
        sd = os.path.join(scratch, 'shard%d' % s)
        os.makedirs(os.path.join(sd, 'home', 'tmp'))
        env['HOME'] = os.path.join(sd, 'home')
        env['NEPHMON_SCRATCH'] = sd
        env['TMPDIR'] = sd
        p = subprocess.Popen([sys.executable, '-m', 'nephmon.main', a.prop, '--tier', a.tier, '--seed', str(a.seed),
                              '--shard', str(s), '--shards', str(shards), '--budget', str(budget)],
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE if not os.environ.get('NEPHMON_DEBUG') else None,
                             env=env, start_new_session=True)
        os.set_blocking(p.stdout.fileno(), False)
        procs[s] = {'p': p, 'buf': b'', 'done': False, 'cur': None}
        sel.register(p.stdout, selectors.EVENT_READ, s)

    counts = Counter()
    sigs = set()
    samples = []
    evaluations = nontrivial = 0
    viols = {}
    inconclusive, slow = [], []
    stopped = False
    first_viol_at = None
    known = known_findings(a.prop)
    hard_end = t0 + budget + getattr(mod, 'GRACE', 60)
    alive = shards

    def handle(s, line):
        nonlocal evaluations, nontrivial, first_viol_at, stopped
        m = json.loads(line)
        st = procs[s]
        if 'done' in m:
            st['done'] = True
            return
        if 'stopped' in m:
            stopped = True
            return
        if 'start' in m:
            st['cur'] = m['start']
            return
        evaluations += 1
        counts.update(m['counts'])
        if m['nontrivial']:
            nontrivial += 1
            sigs.add(m['sig'])
        if m['nontrivial'] and len(samples) < 5:
            samples.append(m['sample'])
        for k, msg in m['viol']:
            viols.setdefault(k, []).append((m['i'], msg, m['sample']))
            if k not in known and first_viol_at is None:
                first_viol_at = time.monotonic()
        inconclusive.extend(m['inconclusive'])
        slow.extend(m['slow'])

    while alive:
        for key, _ in sel.select(timeout=0.5):
            s = key.data
            st = procs[s]
            try:
                chunk = os.read(key.fileobj.fileno(), 1 << 20)
            except BlockingIOError:
                continue
            if not chunk:
                sel.unregister(key.fileobj)
                alive -= 1
                st['p'].wait()
                if not st['done']:
                    err = st['p'].stderr.read().decode('utf8', 'replace')[-1500:] if st['p'].stderr else ''
                    inconclusive.append('shard %d ended (code %s) in case %s %s' % (s, st['p'].returncode, st['cur'], err))
                continue
            st['buf'] += chunk
            while b'\n' in st['buf']:
                line, st['buf'] = st['buf'].split(b'\n', 1)
                handle(s, line)
        now = time.monotonic()
        if first_viol_at is not None and now - first_viol_at > 5:
            break
        if now > hard_end:
            inconclusive.append('wall-clock cap: shards still in cases %s'
                                % [procs[s]['cur'] for s in procs if not procs[s]['done']])
            break
    for st in procs.values():
        if st['p'].poll() is None:
            st['p'].terminate()     # the shard kills the session of its current case, then exits
    for st in procs.values():
        try:
            st['p'].wait(5)
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(st['p'].pid, signal.SIGKILL)
        except OSError:
            pass
        st['p'].wait()
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    n_viol = 0
    lines = []
    for k in sorted(viols):
        idx, msg, sample = viols[k][0]
        if k in known:
            lines.append('KNOWN-FINDING: property=%s [%s] %s (seen in %d cases)'
                         % (a.prop, k, known[k]['what'], len(viols[k])))
            continue
        n_viol += len(viols[k])
        path = os.path.join('evidence', 'replays', '%s-%s-%d-%d.json' % (a.prop, a.tier, a.seed, idx))
        with open(os.path.join(HERE, path), 'w') as f:
            json.dump({'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'index': idx, 'key': k,
                       'message': msg, 'case': sample}, f, indent=1)
        lines.append('VIOLATION property=%s replay=%s [%s] %s' % (a.prop, path, k, msg.replace('\n', ' ')[:400]))

    from nephmon import cover
    lines_seen = cover.read(os.path.join(scratch, 'shard%d' % s, 'lines.log') for s in range(shards))
    if os.environ.get('NEPHMON_COVER'):
        with open(os.environ['NEPHMON_COVER'], 'a', encoding='utf8') as f:
            f.writelines('%s\t%s\t%d\n' % x for x in sorted(lines_seen))
    missing = {k: v for k, v in getattr(mod, 'REQUIRED', {}).items() if counts.get(k, 0) < v}
    for k, e in sorted(known.items()):
        if k not in viols:
            print('note: known finding [%s] not reproduced in this run' % k)
    ev = {
        'property': a.prop, 'tier': a.tier, 'seed': a.seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': evaluations, 'distinct_nontrivial': len(sigs), 'rule': mod.RULE,
            'samples': samples or ['none'],
            'observed': dict(sorted(counts.items())),
            'code_functions_entered': len({x[:2] for x in lines_seen if not x[1].startswith('<')}),
            'code_lines_executed': len(lines_seen),
            'inconclusive_cases': len(inconclusive), 'slow_cases': len(slow), 'stopped_on_budget': stopped,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': n_viol,
    }
    with open(os.path.join(HERE, 'evidence', '%s.json' % a.prop), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s; observed %s'
          % (a.prop, a.tier, a.seed, evaluations, len(sigs), ev['wall_s'],
             json.dumps(ev['coverage']['observed'])))
    for l in lines:
        print(l)
    sys.stdout.flush()
    if n_viol:
        return 1
    if len(slow) > max(3, evaluations // 50):
        inconclusive.append('%d calls reached the wall-clock cap while still working: %s' % (len(slow), slow[0]))
    for m in slow[:3]:
        print('note: case skipped, %s' % m)
    for m in inconclusive[:5]:
        print('INCONCLUSIVE: %s' % m)
    if inconclusive:
        return 3
    if missing:
        print('INCONCLUSIVE: monitors observed too little: need %s' % missing)
        return 3
    return 0


if __name__ == '__main__':
    sys.exit(main())
