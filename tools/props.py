"""Writes properties.jsonl and MANIFEST.json from the table in props_data.py.  (A convenience for editing; the
checks do not read it.)"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import PROPS, NOT_APPLICABLE, NOTES
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
	for p in PROPS:
		rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
			'quantifier': {'over': p['over'], 'text': p['quant']},
			'why_tests_cant': p['why'],
			'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p['observe']}}
		assert len(p['title']) <= 80, p['title']
		f.write(json.dumps(rec) + '\n')
man = {'version': 1,
	'setup_cmd': 'bash setup.sh',
	'checks': [{'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
		'technique': p['technique'], 'level': 'model_checking', 'level_note': p['note']} for p in PROPS if not p.get('na')],
	'not_applicable': NOT_APPLICABLE,
	'notes': NOTES}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
	json.dump(man, f, indent=1)
	f.write('\n')
import jsonschema
ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for line in open(os.path.join(root, 'properties.jsonl')):
	jsonschema.validate(json.loads(line), ps)
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
