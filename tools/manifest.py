#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from properties.jsonl and the harnesses present.
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
have = set()
for f in glob.glob(root + '/harness/*/*.go'):
    have |= set(re.findall(r'^func H_([A-Z]\d\d)_', open(f).read(), re.M))
notes = json.load(open(root + '/tools/level_notes.json'))
NA = notes.pop('_na', {})
common = ("Within the bounds printed in the evidence file every path of the real code (the repository's Go source compiled to SSA on each run, "
  "executed symbolically together with its bit reader and Huffman dependencies) was decided by the SMT solver; outside them nothing is claimed. "
  "Trusted: the SSA construction of x/tools, the interpreter's semantics of Go (cross-checked by replaying solver models against the compiled "
  "program on every run), z3, and the harness's statement of the property. ")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="One engine decides every property: see DESIGN.md. Known findings: KNOWN_FINDINGS.")
for p in props:
    i = p['id']
    if i in have and i not in NA:
        m['checks'].append(dict(property=i, quick_cmd=f"bash check.sh {i} quick", thorough_cmd=f"bash check.sh {i} thorough",
          technique="bounded symbolic execution of the Go SSA of the real code with an SMT solver (z3), counterexamples replayed natively",
          level="model_checking", level_note=common + notes.get(i, "")))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
