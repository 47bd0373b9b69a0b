#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f)); rows.append((m['property'], f.split('/')[-2], m['needs'].replace('|', '/')))
rows.sort()
p = root + '/DESIGN.md'; lines = open(p).read().split('\n')
i = next(k for k, l in enumerate(lines) if l.startswith('| property | bug |')) + 2
j = i
while j < len(lines) and lines[j].startswith('|'): j += 1
lines[i:j] = ['| %s | %s | %s |' % r for r in rows]
open(p, 'w').write('\n'.join(lines))
print(len(rows), 'planted bugs')
