#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'meta'))
from props import PROPS
def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))
            f.write(json.dumps(d) + '\n')
    checks = []; na = []
    for p in PROPS:
        if 'na' in p: na.append(dict(property=p['id'], reason=p['na'])); continue
        if not os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            na.append(dict(property=p['id'], reason='No check has been built for this property yet.')); continue
        checks.append(dict(property=p['id'], quick_cmd='python3 run.py ' + p['id'], thorough_cmd='python3 run.py %s --thorough' % p['id'],
                           technique=p['technique'], level='other', level_note=p['note']))
    m = dict(version=1, setup_cmd='python3 -c "import sys; sys.path.insert(0, \'engine\'); import prog; prog.build_gx()"', checks=checks, not_applicable=na,
             notes='Static analysis only. extract/gx.cpp (libTooling) lowers the current tree to CFGs, engine/ explores them path- and context-sensitively, checks/ hold one rule set per property; see DESIGN.md.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(PROPS), 'properties,', len(checks), 'checks,', len(na), 'not applicable')
main()
