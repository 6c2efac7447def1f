"""python3 tools/tables.py: rewrites the tables of DESIGN.md from MANIFEST, evidence and seeded/."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
text = open('DESIGN.md').read()

# quick counts and times as of the last run, where there is one
for name in sorted(os.listdir('evidence')) if os.path.isdir('evidence') else []:
    evidence = json.load(open('evidence/' + name))
    if evidence['tier'] != 'quick':
        continue
    coverage = evidence['coverage']
    cases = coverage['evaluations']
    match = re.search(r'(?m)^\| %s .*$' % evidence['property'], text)
    if match and cases > 1000:
        cells = match.group(0).split('|')
        unit = re.sub(r'^ *(see RULE|[\d ]+)', '', cells[2]).strip()
        cells[2] = ' %s %s ' % ('{:,}'.format(cases).replace(',', ' '), unit)
        cells[4] = ' %d ' % max(5, round(evidence['wall_s'] / 5) * 5)
        text = text.replace(match.group(0), '|'.join(cells))

rows = ['| planted bug | property | what it breaks | needs |', '|-------------|----------|----------------|-------|']
for name in sorted(os.listdir('seeded')):
    meta = json.load(open('seeded/%s/meta.json' % name))
    rows.append('| %s | %s | %s | %s |' % (name, meta['property'], meta['what_it_breaks'], meta['needs']))
head, _, _ = text.partition('<!-- planted -->')
text = head + '<!-- planted -->\n' + '\n'.join(rows) + '\n'
open('DESIGN.md', 'w').write(text)
