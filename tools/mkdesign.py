"""Writes DESIGN.md from tools/design_head.md, the check modules, tools/oracles.json, seeded/ and tools/design_tail.md (run by hand)."""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def env(f):
    e = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                e[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return e


out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read()]
orc = json.load(open(os.path.join(HERE, 'tools', 'oracles.json')))
plants = {}
for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
    plants.setdefault(m['property'], []).append((d, m))
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    f = os.path.join(HERE, 'nephmon', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    e = env(f)
    o = orc[p['id']]
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('* **Monitor and oracle.** ' + o['oracle'])
    out.append('* **Workload.** %s' % e.get('RULE', o.get('workload', '(computed in the module)')))
    out.append('* **Must be observed (quick).** ' + (', '.join('%s ≥ %s' % kv for kv in e['REQUIRED'].items()) if isinstance(e.get('REQUIRED'), dict) and len(e['REQUIRED']) < 30
                                               else 'every one of the listed operations at least 15 times (table in the module)') + '; otherwise the check ends inconclusive (exit 3).')
    out.append('* **Bounds and assumptions.** %s cases quick / %s thorough, about %s s quick on 8 cores. %s' % (
        e['N']['quick'], e['N']['thorough'], o['cost'], '; '.join(e.get('ASSUMPTIONS', [])) or 'No further assumption.'))
    out.append('* **Beyond the tests.** ' + p['why_tests_cant'])
    if plants.get(p['id']):
        out.append('* **Planted bugs.** ' + '; '.join('`%s` (%s)%s' % (d, m['what_it_breaks'].rstrip('.'), '' if d in orc['_caught'] else ' — NOT caught') for d, m in plants[p['id']]))
    out.append('')
out.append(open(os.path.join(HERE, 'tools', 'design_tail.md')).read())
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
