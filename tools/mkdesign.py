"""writes DESIGN.md: the fixed parts plus tables from the properties, the scenarios and the planted bugs"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.props import table
rd = lambda f: open(os.path.join(V, f)).read()
how = json.load(open(os.path.join(V, 'tools', 'how.json')))
o = [rd('tools/design_head.md'), '\n## 3. Properties, one by one\n\nCosts are wall-clock seconds of the quick tier on 8 cores, building aside.\n']
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l); i = p['id']
    o.append('\n### %s %s\n' % (i, p['title']))
    if i == 'C26': o.append('Not applicable, see section 4.\n'); continue
    S, a, b = table.get(i)('quick'); S2, _, b2 = table.get(i)('thorough')
    o.append(how[i]['how'] + '\n')
    o.append('*Bounds:* %s%s. *Assumed:* %s. *Scenarios:* %d quick, %d thorough. *Cost:* about %s s.\n*Why tests cannot:* %s\n' % (b, '' if b == b2 else ' (thorough: ' + b2 + ')', '; '.join(a) or 'nothing', len(S), len(S2), how[i]['s'], p['why_tests_cant']))
o.append(rd('tools/design_tail.md'))
res = json.load(open(os.path.join(V, 'tools', 'caught.json'))) if os.path.exists(os.path.join(V, 'tools', 'caught.json')) else {}
o.append('| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n')
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f)); n = f.split('/')[-2]
    o.append('| %s | %s | %s | %s | %s |\n' % (n, m['property'], m['what_it_breaks'], m['needs'], res.get(n, m['property'])))
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(o))
