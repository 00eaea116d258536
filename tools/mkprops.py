#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/props.py (development tool, run by hand)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE  # noqa: E402

out, checks = [], []
for p in PROPS:
    if not os.path.exists(os.path.join(HERE, 'vpbt', 'laws', p['id'].lower() + '.py')) and p['id'] not in NOT_APPLICABLE:
        print('no laws yet for', p['id'])
        continue
    assert len(p['title']) <= 80, p['title']
    out.append(dict(id=p['id'], title=p['title'], statement=p['statement'],
                    quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                    anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])))
    if p['id'] in NOT_APPLICABLE:
        continue
    checks.append(dict(property=p['id'], quick_cmd=f"./run.sh {p['id']} quick", thorough_cmd=f"./run.sh {p['id']} thorough",
                       evidence_file=f"evidence/{p['id']}.json", technique=p['tech'], level='exploration', level_note=p['note']))
with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
    for o in out:
        f.write(json.dumps(o) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
           checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NOT_APPLICABLE.items()],
           notes='All checks are generated-input searches (Hypothesis driver vpbt/core.py) against explicit oracles; see DESIGN.md. '
                 'No hooks are needed in /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    sch = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for o in out:
        jsonschema.validate(o, sch)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok', len(out))
except ImportError:
    print('jsonschema missing')
