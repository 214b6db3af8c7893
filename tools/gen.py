"""Writes properties.jsonl and MANIFEST.json from tools/props.py (run from /verif: python3 tools/gen.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3 -B -m cg3v.setup', 'checks': [], 'not_applicable': []}
for p in PROPS:
    if 'na' in p:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        man['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                              'technique': p['technique'], 'level': 'other', 'level_note': p['note']})
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(man['checks']), 'checks', len(man['not_applicable']), 'n/a')
