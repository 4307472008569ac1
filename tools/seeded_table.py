#!/usr/bin/env python3
"""Rewrites the table of the planted bugs in DESIGN.md."""
import glob
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | caught by | needs |', '|---|---|---|']
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    rows.append('| {} | {} | {} |'.format(os.path.basename(d), m['property'], m['needs']))
text = open(os.path.join(V, 'DESIGN.md')).read()
text = re.sub(r'<!-- seeded -->.*<!-- /seeded -->', lambda _: '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->', text, flags=re.S)
open(os.path.join(V, 'DESIGN.md'), 'w').write(text)
