"""Rewrites MANIFEST.json from checks/ and properties.jsonl: `python3 tools/manifest.py`."""
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NA = {}
props = [json.loads(line) for line in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, missing = [], []
for p in props:
    i = p['id']
    path = os.path.join(ROOT, 'checks', i.lower() + '.py')
    if not os.path.exists(path):
        missing.append(dict(property=i, reason=NA.get(i, 'no check written (yet)')))
        continue
    src = open(path).read()
    m = re.search(r"^#: technique: (.*)$", src, re.M)
    checks.append(dict(
        property=i, quick_cmd=f'bin/check {i} --tier quick', thorough_cmd=f'bin/check {i} --tier thorough',
        technique=m.group(1) if m else 'property-based testing: Hypothesis generators with shrinking against an '
                                       'independent reference model and metamorphic relations',
        level='exploration',
        level_note='generated-input search within the domain stated in DESIGN.md; no claim beyond the inputs explored'))
out = dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=missing)
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
