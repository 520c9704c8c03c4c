#!/usr/bin/env python3
"""rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/seed_results.json"""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = json.load(open(root + '/tools/seed_results.json'))
rows = ['| planted bug | property | needs | result |', '|---|---|---|---|']
for m in sorted(glob.glob(root + '/seeded/*/meta.json')):
    d = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], ' '.join(d['needs'].split()).replace('|', '/'), res.get(n, 'not run')))
p = root + '/DESIGN.md'; s = open(p).read()
a = s.index('<!-- seeds -->') + len('<!-- seeds -->\n'); b = s.index('<!-- /seeds -->')
open(p, 'w').write(s[:a] + '\n'.join(rows) + '\n' + s[b:])
