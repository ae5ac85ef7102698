#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from tools/meta.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from meta import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
	for p in PROPS:
		assert len(p['title']) <= 80, p['title']
		q = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
			'quantifier': {'over': p.get('over', ['inputs']), 'text': ' '.join(p['quant'].split())},
			'why_tests_cant': ' '.join(p['tests'].split()),
			'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']], 'observe_at': p['at'], 'hook_needed': None}}
		f.write(json.dumps(q) + '\n')
checks = []
for p in PROPS:
	if not os.path.exists(os.path.join(root, 'vmon', 'props', p['id'].lower() + '.py')):
		continue
	checks.append({'property': p['id'], 'quick_cmd': './check %s' % p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
		'evidence_file': 'evidence/%s.json' % p['id'],
		'technique': p.get('tech', 'runtime monitoring: the real API under generated workloads, an online reference-model oracle judges every observed result'),
		'level': 'exploration',
		'level_note': ' '.join(p['note'].split())})
claimed = {c['property'] for c in checks}
na = [{'property': p['id'], 'reason': p.get('na', 'not built yet')} for p in PROPS if p['id'] not in claimed]
json.dump({'version': 1, 'setup_cmd': './check --selftest', 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the monitors observe API calls and sys.monitoring events from outside', 'source_commits': []},
	'checks': checks, 'not_applicable': na,
	'notes': 'See DESIGN.md. Every check imports psdr from /repo\'s working tree (byte code is never reused).'}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent = 1)
print(len(PROPS), 'properties,', len(checks), 'checks')


# ---- the generated parts of DESIGN.md
import ast, re
def part(name, text):
	p = os.path.join(root, 'DESIGN.md')
	s = open(p).read()
	s = re.sub(r'(<!-- generated: %s -->\n).*?(<!-- end -->)' % name, lambda m: m.group(1) + text + m.group(2), s, flags = re.S)
	open(p, 'w').write(s)
out = ''
for p in PROPS:
	f = os.path.join(root, 'vmon', 'props', p['id'].lower() + '.py')
	out += '### %s %s\n\n' % (p['id'], p['title'])
	out += '%s\n\n' % ' '.join(p['statement'].split())
	if not os.path.exists(f):
		out += 'Not applicable: %s\n\n' % p.get('na', 'not built yet'); continue
	tree = ast.parse(open(f).read())
	val = {}
	for n in tree.body:
		if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUME'): val[n.targets[0].id] = ast.literal_eval(n.value)
		if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'SCENARIOS':
			sc = [({k.value: v for k, v in zip(d.keys, d.values)}) for d in n.value.elts]
			val['sc'] = ', '.join('%s %s/%s' % ((d['name'].value,) + tuple(e.value for e in d['n'].elts)) for d in sc)
	out += '* Monitor: %s\n* Scenarios (cases quick/thorough): %s\n' % (val['RULE'], val['sc'])
	out += '* Why not the tests: %s.\n' % ' '.join(p['tests'].split()).rstrip('.')
	if val.get('ASSUME'): out += '* Assumed: %s.\n' % '; '.join(val['ASSUME'])
	out += '\n'
part('properties', out)
bugs = json.load(open(os.path.join(here, 'bugs.json')))
out = '| bug | check | first run | now | flagged by |\n|---|---|---|---|---|\n'
for k in sorted(bugs):
	if os.path.isdir(os.path.join(root, 'seeded', k)) or not os.path.isdir(os.path.join(root, 'seeded')):
		b = bugs[k]; out += '| %s | %s | %s | %s | %s |\n' % (k, b['property'], 'caught' if b['first'] else 'missed, strengthened', 'caught' if b['caught'] else 'missed', ', '.join(b['clauses']))
part('bugs', out)
