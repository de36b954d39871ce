#!/usr/bin/env python3
"""Source of truth of properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from propdata import PROPS, NOT_APPLICABLE  # noqa: E402
from propdata_b import MORE, MORE_NA  # noqa: E402
PROPS = PROPS + MORE
NOT_APPLICABLE = NOT_APPLICABLE + MORE_NA

INDEX = json.load(open(os.path.join(HERE, 'sa', 'checks', 'index.json')))


def main():
    rows, checks, na = [], [], []
    for p in PROPS:
        rows.append({k: p[k] for k in ('id', 'title', 'statement',
                                       'quantifier', 'why_tests_cant',
                                       'anchors')})
        assert len(p['title']) <= 80, p['title']
        if p['id'] not in INDEX:
            na.append(dict(property=p['id'], reason='no check yet'))
            continue
        cmd = f"python3 check.py --property {p['id']} --tier "
        checks.append(dict(
            property=p['id'], quick_cmd=cmd + 'quick',
            thorough_cmd=cmd + 'thorough', technique=p['technique'],
            level='other', level_note=p['level_note']))
    for p in NOT_APPLICABLE:
        rows.append({k: p[k] for k in ('id', 'title', 'statement',
                                       'quantifier', 'why_tests_cant',
                                       'anchors')})
        assert len(p['title']) <= 80, p['title']
        na.append(dict(property=p['id'], reason=p['reason']))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for r in rows:
            f.write(json.dumps(r) + '\n')
    m = dict(version=1, setup_cmd='python3 tools/setup_check.py',
             checks=checks, not_applicable=na)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for r in rows:
            jsonschema.validate(r, s)
        jsonschema.validate(m, json.load(
            open('/root/.vp/MANIFEST.schema.json')))
        print('valid')
    except ImportError:
        print('(not validated: no jsonschema)')
    print(len(rows), 'properties,', len(checks), 'claimed')


main()
