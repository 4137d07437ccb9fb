"""Regenerates DESIGN.md from tools/DESIGN.head.md, the check modules, tools/DESIGN.tail.md and seeded/."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/DESIGN.head.md').read()]
for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    f = V + '/mc/checks/%s.py' % p['id'].lower()
    src = ast.parse(open(f).read())
    d = {}
    for n in src.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('LEVEL', 'RULE', 'ASSUMPTIONS', 'HASHSEEDS', 'SCENARIOS'):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append('*Quantifier*: %s.\n' % p['quantifier']['text'].rstrip('.'))
    out.append('*Enumerated and compared*: %s\n' % d.get('RULE', ''))
    if d.get('SCENARIOS'):
        out.append('*Shared scenarios (mc/scen.py, as in C36 to C39, with a shorter list of names, representations, sizes and units)*: %s.\n' % ', '.join(d['SCENARIOS']))
    if d.get('HASHSEEDS'):
        out.append('*Hash seeds*: %s.\n' % d['HASHSEEDS'])
    out.append('*Bounds and assumptions*: %s\n' % (' '.join(d.get('ASSUMPTIONS', [])) or 'those of the rule.'))
    out.append('*Beyond the tests*: %s\n' % p['why_tests_cant'])
    ev = V + '/tools/costs.json'
    if os.path.exists(ev):
        c = json.load(open(ev)).get(p['id'])
        if c:
            out.append('*Cost*: ' + '; '.join('%s %.0f s, %s' % (t, c[t]['wall'], c[t]['cov']) for t in sorted(c)) + '.\n')
tail = open(V + '/tools/DESIGN.tail.md').read()
rows = []
base = V + '/seeded'
for s in sorted(os.listdir(base)) if os.path.isdir(base) else []:
    m = base + '/' + s + '/meta.json'
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'].replace('|', '/'), ', '.join(m.get('caught_by', [])) or 'MISSED'))
out.append(tail.replace('@SEEDED@', '\n'.join(rows)))
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
print(len(rows), 'seeded bugs')
