#!/usr/bin/env python3
"""DESIGN.md from tools/design.md, the harness list and the recorded results on planted bugs."""
import json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/tools/design.md').read()
hs = json.loads(subprocess.run([V + '/.target/symh/release/symh', 'list'], stdout=subprocess.PIPE).stdout)
hs.sort(key=lambda h: (h['property'], not h['quick']))
t = ['### 2.1 Harnesses', '', '(q: also in the quick tier)', '']
for h in hs:
    t.append(f"* {h['property']} `{h['harness']}`{' (q)' if h['quick'] else ''}: {h['bounds']}")
s = s.replace('@HARNESSES@', '\n'.join(t))
res = json.load(open(V + '/tools/seed_results.json'))
t = ['| planted bug | property | what it breaks | quick check |', '|---|---|---|---|']
for i in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    t.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {res.get(i, '?')} |")
s = s.replace('@SEEDS@', '\n'.join(t))
open(V + '/DESIGN.md', 'w').write(s)
