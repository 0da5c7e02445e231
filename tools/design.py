"""Writes DESIGN.md from DESIGN.in and the planted bugs."""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], m['property'], m['what_it_breaks'].replace('|', '/')))
open(V + '/DESIGN.md', 'w').write(open(V + '/tools/DESIGN.in').read().replace('@@TABLE@@', '\n'.join(rows)))
