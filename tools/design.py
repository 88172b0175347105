#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md, known_findings.json and seeded/*/meta.json (+ seeded/*/caught.txt)."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.in.md').read()
fx = json.load(open(V + '/known_findings.json'))['fixed']
rows = []
for f in fx:
    p, c, w = f.split(' ', 3)[1:]
    rows.append('* %s (%s) %s' % (p.split('=')[1], c, w))
t = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    c = open(d + '/caught.txt').read().strip() if os.path.exists(d + '/caught.txt') else ''
    t.append('| %s | %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs'], c))
s = s.replace('@FIXES@', '\n'.join(rows)).replace('@SEEDS@', '\n'.join(t))
open(V + '/DESIGN.md', 'w').write(s)
