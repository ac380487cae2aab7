"""Rewrites the tables of DESIGN.md (between the markers) from tools/checks.py, properties.jsonl,
evidence/ and seeded/. Run by hand after changes."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import checks
titles = {}
for l in open(V + '/properties.jsonl'):
    d = json.loads(l)
    titles[d['id']] = d['title']
t = []
for k, p in checks.PROPS.items():
    hs = []
    for j in p['jobs']:
        if j['entry'] not in hs:
            hs.append(j['entry'])
    cost = ''
    f = f'{V}/evidence/{k}.json'
    if os.path.exists(f):
        e = json.load(open(f))
        if e['tier'] == 'quick':
            c = e['coverage']
            cost = f" Last quick run: {c['paths']} paths, {c['assertions_evaluated']} assertions, {c['solver_queries']} z3 queries, {round(e['wall_s'])} s."
    t.append(f"* **{k} {titles[k]}** ({', '.join(hs)}). Decided: {p['bounds']}. Outside: {p['outside']}.{cost}")
s = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
caught = {}
for f in [V + '/tools/seed_results.txt']:
    if os.path.exists(f):
        for l in open(f):
            x = l.rstrip('\n').split('\t')
            caught[x[0]] = x[1]
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    s.append(f"| {i} | {m['property']} | {m['needs']} | {caught.get(i, '?')} |")
p = V + '/DESIGN.md'
d = open(p).read()
for name, body in (('TABLE', t), ('SEEDS', s)):
    a, b = f'<!-- {name} -->', f'<!-- /{name} -->'
    new = a + '\n' + '\n'.join(body) + '\n' + b
    if f'@@{name}@@' in d:
        d = d.replace(f'@@{name}@@', new)
    else:
        d = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda m: new, d, flags=re.S)
open(p, 'w').write(d)
