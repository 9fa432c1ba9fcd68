#!/usr/bin/env python3
# Rewrites the generated part of DESIGN.md: every harness with its bounds, and the planted bugs.
import re, glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
hs = {}
for f in sorted(glob.glob(root + '/harness/*/*.go')):
    b = ''
    for l in open(f):
        m = re.match(r'// sym:bounds (.*)', l)
        if m:
            b = m.group(1).strip()
        m = re.match(r'func H_(\w\d\d)_(\w+)\(\)', l)
        if m:
            hs.setdefault(m.group(1), []).append((m.group(2), os.path.relpath(f, root + '/harness'), b))
            b = ''
seeds = {}
for d in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(d))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs']))
out = ['\n## Appendix A: the harnesses and their bounds\n\n']
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    out.append(f"### {p['id']} {p['title']}\n\n")
    for n, f, b in hs.get(p['id'], []):
        out.append(f"- `H_{p['id']}_{n}` ({f}): {b}\n")
    out.append('\n')
out.append('## Appendix B: planted bugs\n\nEvery one of them is caught by the check of its property (quick tier).\n\n| bug | property | what it breaks | needs |\n|---|---|---|---|\n')
for i in sorted(seeds):
    for n, w, x in seeds[i]:
        out.append(f"| {n} | {i} | {w} | {x} |\n".replace('\n', ' ').rstrip() + '\n')
s = open(root + '/DESIGN.md').read()
s = s.split('\n## Appendix A')[0].rstrip('\n') + '\n' + ''.join(out)
open(root + '/DESIGN.md', 'w').write(s)
