"""Prints the table of seeded changes for DESIGN.md (from seeded/*/meta.json)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); D = os.path.join(R, 'seeded')
rows = []
for d in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, d, 'meta.json'))); rows.append((m['property'], d, m['needs']))
print('| property = check that catches it | change | needs |\n|---|---|---|')
for p, d, n in sorted(rows): print('| %s | %s | %s |' % (p, d, n.replace('|', '/')))
