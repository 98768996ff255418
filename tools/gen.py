"""python3 tools/gen.py: write properties.jsonl, MANIFEST.json and DESIGN.md."""
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': p['mechanism'], 'hook_needed': None}}, ensure_ascii=False) + '\n')
claimed = [p for p in PROPS if os.path.exists(os.path.join(root, 'checks', p['id'].lower() + '.py'))]
man = {'version': 1, 'setup_cmd': 'bash setup.sh',
       'checks': [{'property': p['id'], 'quick_cmd': 'bash check.sh %s' % p['id'],
                   'thorough_cmd': 'VERIF_TIER=thorough bash check.sh %s' % p['id'],
                   'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'],
                   'level': 'model_checking', 'level_note': p['note']} for p in claimed],
       'not_applicable': [{'property': p['id'], 'reason': 'no check is registered yet'} for p in PROPS if p not in claimed],
       'notes': 'No hooks in /repo: all checks drive the public API of the working tree.'}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
head = open(os.path.join(here, 'design_head.md')).read()
tail = open(os.path.join(here, 'design_tail.md')).read()
with open(os.path.join(root, 'DESIGN.md'), 'w') as f:
    f.write(head)
    for p in PROPS:
        f.write('### %s — %s\n\n%s\n\n*Bounds:* %s. *Technique:* %s. *Assurance:* %s.\n\n' % (
            p['id'], p['title'], p['design'], p['qtext'], p['technique'], p['note']))
    f.write(tail)
