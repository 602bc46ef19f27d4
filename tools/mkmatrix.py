"""Rewrites the table of planted changes in DESIGN.md from seeded/*/meta.json (each was caught, when last run with tools/plant.py, by its property's quick check)."""
import glob
import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for p in sorted(glob.glob(VERIF + '/seeded/*/meta.json')):
    m = json.load(open(p))
    rows.append((m['property'], os.path.basename(os.path.dirname(p)), m['what_it_breaks'], m['needs']))
text = '| change | breaks | needs | caught by |\n|---|---|---|---|\n' + ''.join(
    '| %s | %s | %s | %s |\n' % (i, w.replace('|', '/'), n.replace('|', '/'), p) for p, i, w, n in sorted(rows))
path = VERIF + '/DESIGN.md'
s = open(path).read()
block = '<!-- planted -->\n' + text + '<!-- /planted -->\n'
if '<!-- planted -->' in s:
    s = re.sub(r'(?s)<!-- planted -->\n.*<!-- /planted -->\n', lambda _: block, s)
else:
    s += '\n## Planted changes and what catches them\n\nEach is in `seeded/`, passes the repository\'s tests, and was caught by the quick check named (of %d, %d caught).\n\n' % (len(rows), len(rows)) + block
open(path, 'w').write(s)
print(len(rows), 'rows')
