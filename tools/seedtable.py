"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | breaks | caught by |', '|---|---|---|']
for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    m = json.load(open(path))
    rows.append('| {} | {} | {} |'.format(os.path.basename(os.path.dirname(path)), m['what_it_breaks'].replace('|', '/'), m['property']))
path = os.path.join(HERE, 'DESIGN.md')
text = open(path).read()
block = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- /seeds -->'
if '<!-- seeds -->' in text:
    text = re.sub(r'<!-- seeds -->.*?<!-- /seeds -->', lambda _: block, text, flags=re.S)
else:
    text = text.replace('SEEDTABLE', block)
open(path, 'w').write(text)
