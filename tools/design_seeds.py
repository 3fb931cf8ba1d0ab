#!/usr/bin/env python3
"""fills the table of planted bugs into DESIGN.md; results: tools/seed_results.txt (id, check, remark)"""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(os.path.join(V, 'tools/seed_results.txt')):
    if l.strip(): a = l.rstrip('\n').split('|'); res[a[0].strip()] = [x.strip() for x in a[1:]]
rows = ['| planted change | property | caught by | remark |', '|-|-|-|-|']
for s in sorted(os.listdir(os.path.join(V, 'seeded'))):
    m = json.load(open(os.path.join(V, 'seeded', s, 'meta.json'))); r = res.get(s, ['?', ''])
    rows.append('| %s: %s | %s | %s | %s |' % (s, m['what_it_breaks'], m['property'], r[0], r[1] if len(r) > 1 else ''))
p = os.path.join(V, 'DESIGN.md'); t = open(p).read()
t = t.replace('@SEEDS@', '<!--seeds-->\n<!--/seeds-->')
t = re.sub(r'<!--seeds-->.*<!--/seeds-->', lambda _: '<!--seeds-->\n' + '\n'.join(rows) + '\n<!--/seeds-->', t, flags=re.S)
open(p, 'w').write(t)
