#!/usr/bin/env python3
"""writes section 2 (laws of every property) and 4 (planted bugs) of DESIGN.md from the sources (development tool)"""
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE  # noqa: E402
from designnotes import NOTES  # noqa: E402

out = []
for p in PROPS:
    path = os.path.join(HERE, 'vpbt', 'laws', p['id'].lower() + '.py')
    if not os.path.exists(path):
        continue
    out.append(f"### {p['id']} {p['title']}\n")
    out.append(NOTES.get(p['id'], '').strip() + '\n')
    out.append(f"Technique: {p['tech']}. {p['note']} Why tests cannot: {p['why']}\n")
    s = open(path, encoding='utf-8').read()
    out.append('| law | cases quick/thorough | non-trivial when |\n|---|---|---|')
    for m in re.finditer(r"^@law\('C\d+',(.*?)^def (\w+)", s, flags=re.S | re.M):
        body, name = m.groups()
        rule = re.findall(r"'non-trivial: ([^']*)'", body)
        nums = re.findall(r"(?<![\w.])(\d+),\s*(\d+),\s*'non-trivial", body.replace('\n', ' '))
        n = '/'.join(nums[-1]) if nums else ''
        out.append(f"| {name} | {n} | {rule[0] if rule else ''} |")
    out.append('')
path = os.path.join(HERE, 'DESIGN.md')
d = open(path, encoding='utf-8').read()
head = d[:d.index('## 2. Properties')]
tail = d[d.index('## 3. '):] if '## 3. ' in d else ''
if '## 4. ' in tail:
    tail = tail[:tail.index('## 4. ')]
sec4 = ['## 4. Planted bugs and which check catches them\n',
        'Written from the property texts and the code, each confirmed in a scratch copy (demo 0 on the clean tree, nonzero with the patch, stable '
        'tests pass). The last column is the verdict of the registered quick check (`tools/bugs.py all`).\n',
        '| bug | property | needs | caught by |', '|---|---|---|---|']
res = {}
rp = os.path.join(HERE, 'tools', 'bug_results.json')
if os.path.exists(rp):
    res = json.load(open(rp))
for b in sorted(os.listdir(HERE + '/seeded')):
    mp = f'{HERE}/seeded/{b}/meta.json'
    if os.path.exists(mp):
        m = json.load(open(mp))
        sec4.append(f"| {b} | {m['property']} | {m['needs']} | {res.get(b, '?')} |")
with open(path, 'w', encoding='utf-8') as f:
    f.write(head + '## 2. Properties\n\n' + '\n'.join(out) + '\n' + tail.rstrip() + '\n\n' + '\n'.join(sec4) + '\n')
