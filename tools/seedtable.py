"""the table of planted bugs at the end of DESIGN.md; results of 'tools/seed.py check' (lines 'ID PROP rc N ...' in the given logs) give the last column"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
f = V + '/tools/seed_results.json'
if os.path.exists(f): res = json.load(open(f))
for a in sys.argv[1:]:
    for l in open(a, errors='replace'):
        m = re.match(r'(\S+) ([A-Z]\d\d) rc (\d+)', l)
        if m: res[m[1]] = 'caught' if m[3] == '1' else 'missed' if m[3] == '0' else 'no answer'
ids = sorted(x for x in os.listdir(V + '/seeded') if os.path.exists(f'{V}/seeded/{x}/meta.json'))
res = {i: res[i] for i in ids if i in res}
json.dump(res, open(f, 'w'), indent=1)
q = ['| bug | property, check | file changed | needs | result |', '|---|---|---|---|---|']
for i in sorted(ids, key=lambda i: (json.load(open(f'{V}/seeded/{i}/meta.json'))['property'], i)):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    fs = sorted({os.path.basename(x) for x in re.findall(r'^\+\+\+ b/(\S+)', open(f'{V}/seeded/{i}/patch.diff').read(), re.M)})
    q.append(f"| {i} | {m['property']} | {', '.join(fs)} | {m['needs'].replace('|', '/')} | {res.get(i, '')} |")
s = open(V + '/DESIGN.md').read()
k = '<!-- planted bugs -->\n'
s = (s[:s.index(k)] if k in s else s.rstrip('\n') + '\n\n') + k + '\n'.join(q) + '\n'
open(V + '/DESIGN.md', 'w').write(s)
print(len(ids), sum(v == 'caught' for v in res.values()), 'caught')
