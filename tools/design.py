#!/usr/bin/env python3
"""Writes DESIGN.md: the text of tools/design_head.md, a section per property from the table in tools/meta.py and the check's docstring, and the table of planted bugs."""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import meta  # noqa: E402
import ast  # noqa: E402

out = [open(os.path.join(HERE, 'tools', 'design_head.md')).read(), '\n## The properties, one by one\n']
notes = {}
cur = None
for line in open(os.path.join(HERE, 'tools', 'design_notes.md')):
    m = re.match(r'### (C\d\d)', line)
    if m:
        cur = m.group(1)
        notes[cur] = ''
    elif cur:
        notes[cur] += line
for p in meta.P:
    f = os.path.join(HERE, 'props', p['id'].lower() + '.py')
    if not os.path.exists(f):
        continue
    tree = ast.parse(open(f).read())
    assumptions = next((ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign) and n.targets[0].id == 'ASSUMPTIONS'), [])
    out.append('\n### %s %s\n\n' % (p['id'], p['title']))
    out.append(notes.get(p['id'], '').strip() + '\n\n')
    out.append('*Explored:* %s *Why not tests:* %s\n' % (p['text'], p['why']))
    if assumptions:
        out.append('*Assumed:* ' + '; '.join(assumptions) + '.\n')
out.append('\n## Planted bugs and what catches them\n\nEach lies in `seeded/<id>` with a demonstration. "caught" was determined by running the quick check of the property against the changed tree.\n\n| id | property | needs | caught by |\n|---|---|---|---|\n')
seeded = os.path.join(HERE, 'seeded')
caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'caught.json')) else {}
for b in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, b, 'meta.json')))
    out.append('| %s | %s | %s: %s | %s |\n' % (b, m['property'], m['what_it_breaks'], m['needs'], ', '.join(caught.get(b, [])) or 'not caught'))
known = json.load(open(os.path.join(HERE, 'known_findings.json')))
out.append('\n## Defects found\n\nRecorded, not repaired:\n\n')
for k in known['known']:
    out.append('- %s (%s): %s\n' % (k['id'], k['property'], k['what'] if 'what' in k else k))
out.append('\nRepaired with "fix:" commits in /repo:\n\n')
for f in known['fixed']:
    out.append('- %s\n' % f)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(out))
