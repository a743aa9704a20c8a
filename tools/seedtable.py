#!/usr/bin/env python3
"""Rewrites the table of planted changes in DESIGN.md from seeded/*."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| change | property | what it breaks | needs |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json')),
                key=lambda m: (json.load(open(m))['property'], m)):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (
        os.path.basename(os.path.dirname(m)), d['property'],
        d['what_it_breaks'], d['needs']))
path = os.path.join(HERE, 'DESIGN.md')
with open(path) as f:
    s = f.read()
A, B = '<!-- seeded -->\n', '<!-- /seeded -->\n'
s = re.sub(re.escape(A) + '.*' + re.escape(B),
           lambda _: A + '\n'.join(rows) + '\n' + B, s, flags=re.S)
with open(path, 'w') as f:
    f.write(s)
