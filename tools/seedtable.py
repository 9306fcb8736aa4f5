"""Rewrite the planted-bugs table at the end of DESIGN.md from seeded/*/meta.json and tools/caught.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(os.path.join(root, 'tools', 'caught.json')))
rows = ['| bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', d, 'meta.json')))
    c = lambda s: re.sub(r'\s+', ' ', str(s)).replace('|', '/')
    rows.append(f"| {d} | {m['property']} | {c(m['what_it_breaks'])} | {c(m['needs'])} | {caught.get(d, '(not recorded)')} |")
p = os.path.join(root, 'DESIGN.md')
s = open(p).read().split('\n## Planted bugs')[0].rstrip('\n')
open(p, 'w').write(s + '\n\n## Planted bugs\n\n' + caught['_intro'] + '\n\n' + '\n'.join(rows) + '\n')
