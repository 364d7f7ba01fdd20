#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'bash /verif/facts.sh /verif/.work/setup-facts.json',
    'checks': [{
        'property': p['id'], 'quick_cmd': './check.sh %s quick' % p['id'], 'thorough_cmd': './check.sh %s thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
import glob, re
tpl = open(os.path.join(HERE, 'tools', 'design.tpl.md')).read()
fixes = ['* `%s` (%s): %s' % (m[1], m[0], m[2]) for m in re.findall(r'(?m)^fixed: property=(\w+) (\w+) (.*)$', open(os.path.join(HERE, 'known-findings.txt')).read())]
rows = ['| change | caught by | what it needs | what it breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks']))
na = ['* **%s %s** - %s' % (p['id'], p['title'], p['reason']) for p in NA]
tpl = tpl.replace('@DEFECTS@', '\n'.join(fixes)).replace('@SEEDS@', '\n'.join(rows)).replace('@NA@', '\n'.join(na))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(tpl)
print(len(PROPS), 'claimed', len(NA), 'not applicable')
