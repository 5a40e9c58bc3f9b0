"""Builds and confirms a planted bug (maintenance tool; no check uses it).

plant.py SPEC.py [--checks P01,P02]   SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python)
Confirms in a scratch copy: patch applies, 52 stable tests pass, demo 0 without / nonzero with, runs the property's check.
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get('NEPHMON_REPO', '/repo')
DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds, non-zero otherwise
here="$(cd "$(dirname "$0")" && pwd)"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export HOME="$scratch/home" SCRATCH="$scratch/work" TMPDIR="$scratch/tmp" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg
mkdir -p "$HOME" "$SCRATCH" "$TMPDIR"
cp "$here/demo.py" "$scratch/demo.py"
timeout 200 /opt/venv/bin/python "$scratch/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def main(spec, checks=None):
    s = runpy.run_path(spec)
    d = os.path.join(HERE, 'seeded', s['ID'])
    work = tempfile.mkdtemp(prefix='plant-')
    repo = os.path.join(work, 'repo')
    subprocess.check_call(['cp', '-a', SRC, repo])
    subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
    out = []
    try:
        for f, a, b in s['EDITS']:
            p = os.path.join(repo, f)
            t = open(p, encoding='utf8', newline='').read()
            assert t.count(a) == 1, (s['ID'], t.count(a), a)
            open(p, 'w', encoding='utf8', newline='').write(t.replace(a, b))
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip('\n'))
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd=SRC)
        out.append('demo clean rc=%d%s' % (r.returncode, '' if r.returncode == 0 else ' !!! ' + r.stdout[-1500:]))
        r = sh('bash %s/demo.sh' % d, cwd=repo)
        out.append('demo patched rc=%d %s' % (r.returncode, 'OK ' + r.stdout.strip()[-200:] if r.returncode else '!!! NOT BROKEN'))
        env = dict(os.environ, HOME=work, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=repo, MPLBACKEND='Agg')
        r = sh('timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider nephosem/tests 2>&1 | tail -8', cwd=repo, env=env)
        out.append('tests: ' + r.stdout.strip().splitlines()[-1])
        if '52 passed' not in r.stdout:
            out.append(r.stdout)
        for c in (checks or [s['PROPERTY']]):
            env = dict(os.environ, NEPHMON_REPO=repo, VERIF_SEED=os.environ.get('VERIF_SEED', '1'))
            r = sh('timeout 900 ./check %s --tier quick 2>&1 | cut -c1-300 | head -3' % c, cwd=HERE, env=env)
            out.append('check %s: %s' % (c, r.stdout.strip()))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        print('== %s (%s)\n   ' % (s['ID'], s['PROPERTY']) + '\n   '.join(out), flush=True)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[3].split(',') if len(sys.argv) > 3 else None)
