"""python3 tools/design.py: DESIGN.md from DESIGN.md.in and seeded/*/meta.json (and tools/caught.json: what the checks said about each)"""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
top = os.path.dirname(here)
caught = json.load(open(os.path.join(here, 'caught.json')))
rows = ['| planted bug | breaks | needs | caught by |', '| --- | --- | --- | --- |']
for f in sorted(glob.glob(os.path.join(top, 'seeded', '*', 'meta.json'))):
	d = json.load(open(f))
	id = f.split('/')[-2]
	rows.append('| %s | %s: %s | %s | %s |' % (id, d['property'], d['what_it_breaks'], d['needs'], caught.get(id, '?')))
s = open(os.path.join(here, 'DESIGN.md.in')).read().replace('@@SEEDS@@', '\n'.join(rows)).replace('@@MORE@@\n', '').replace('@@LEARNED@@\n', '')
open(os.path.join(top, 'DESIGN.md'), 'w').write(s)
