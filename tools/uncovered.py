"""Which lines of /repo did the checks not execute? usage: uncovered.py COVERFILE (written by NEPHMON_COVER=FILE ./check PXX)"""
import ast
import dis
import os
import sys

REPO = os.environ.get('NEPHMON_REPO', '/repo')
seen = set()
for l in open(sys.argv[1]):
    f, q, n = l.rstrip('\n').split('\t')
    seen.add((f, int(n)))


def codes(c, q=''):
    for k in c.co_consts:
        if hasattr(k, 'co_code'):
            yield k
            yield from codes(k)


for base, dirs, files in os.walk(os.path.join(REPO, 'nephosem')):
    if 'tests' in base:
        continue
    for f in sorted(files):
        p = os.path.join(base, f)
        if not f.endswith('.py'):
            continue
        rel = os.path.relpath(p, os.path.join(REPO, 'nephosem'))
        try:
            top = compile(open(p).read(), p, 'exec')
        except SyntaxError:
            print(rel, 'does not compile')
            continue
        for c in codes(top):
            lines = {l for _, _, l in c.co_lines() if l} - {c.co_firstlineno}
            miss = sorted(l for l in lines if (rel, l) not in seen)
            if miss and not c.co_name.startswith('<'):
                print('%-28s %-45s %s' % (rel, c.co_qualname, 'NEVER (%d)' % len(lines) if len(miss) == len(lines) else miss))
