"""Rewrites the table of planted bugs in DESIGN.md (section 6) from seeded/*/meta.json and tools/missed.txt."""
import collections
import glob
import json
import os
import re
import textwrap

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = set(open(os.path.join(ROOT, 'tools/missed.txt')).read().split())
rows = collections.defaultdict(list)
for f in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    name = f.split('/')[-2]
    rows[json.load(open(f))['property']].append(name + ('*' if name in missed else ''))
text = ['| check | bugs it catches |', '|---|---|']
text += ['| %s | %s |' % (k, ', '.join(rows[k])) for k in sorted(rows)]
text.append('')
text.append('%d bugs; * = missed by the check as it stood when the bug was planted.' % sum(map(len, rows.values())))
path = os.path.join(ROOT, 'DESIGN.md')
doc = open(path).read()
new = re.sub(r'<!-- table -->.*<!-- /table -->', lambda m: '<!-- table -->\n' + '\n'.join(text) + '\n<!-- /table -->',
             doc, flags=re.S)
open(path, 'w').write(new)
