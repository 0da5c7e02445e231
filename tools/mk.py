#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and the registry of checks."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from props import PROPS, TECH       # noqa: E402
from va import known                # noqa: E402


def main():
    checks, na = [], []
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in PROPS:
            d = dict(id=p['id'], title=p['title'], statement=p['statement'],
                     quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']]))
            assert len(p['title']) <= 80, p['id']
            fh.write(json.dumps(d) + '\n')
            if p['id'] in known.RULES:
                t, note = TECH[p['id']]
                checks.append(dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                                   thorough_cmd='python3 check.py %s thorough' % p['id'],
                                   technique=t, level='other', level_note=note, evidence_file='evidence/%s.json' % p['id']))
            else:
                na.append(dict(property=p['id'], reason=p['na']))
    m = dict(version=1, setup_cmd='python3 -m va.build', checks=checks, not_applicable=na,
             notes='Static analysis only: facts (MIR, types, layouts) are extracted from /repo\'s current tree by driver/, '
                   'interpreted abstractly by va/ and compared with per-property rules; see DESIGN.md. No hooks in /repo.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(PROPS), 'properties,', len(checks), 'claimed,', len(na), 'not applicable')


main()
