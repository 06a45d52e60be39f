"""Rewrites the table of planted changes in DESIGN.md from seeded/."""
import json
import os
import re

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted change | what it breaks | needs |', '|---|---|---|']
for n in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', n, 'meta.json')))
    rows.append('| {} | {} | {} |'.format(n, *(
        m[k].replace('\n', ' ').replace('|', '/')
        for k in ('what_it_breaks', 'needs'))))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'(<!-- seeded -->\n).*(<!-- end -->)',
           lambda m: m[1] + '\n'.join(rows) + '\n' + m[2], s, flags=re.S)
open(p, 'w').write(s)
