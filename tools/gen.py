#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and the table of DESIGN.md."""
import json, os, re, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog

def built(p):
  return os.path.exists(os.path.join(ROOT, 'props', p['id'].lower() + '.py'))

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
  for p in catalog.PROPS:
    assert len(p['title']) <= 80, p['title']
    n = len(re.findall(r'[.!?](\s|$)', p['statement']))
    assert n <= 3, (p['id'], n)
    fp.write(json.dumps({
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['qtext']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                    'hook_needed': False}}) + '\n')
checks, na = [], []
for p in catalog.PROPS:
  if built(p):
    checks.append({
        'property': p['id'],
        'quick_cmd': f'python3 check.py {p["id"]} quick',
        'thorough_cmd': f'python3 check.py {p["id"]} thorough',
        'technique': p['technique'] or 'TLA+ specification checked by TLC, bound to the code by replay of TLC-enumerated cases and TLC trace judging',
        'level': p['level'], 'level_note': p['note'],
        'evidence_file': f'evidence/{p["id"]}.json'})
  else:
    na.append({'property': p['id'], 'reason': 'Check under construction.'})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': na,
     'notes': 'TLA+ with TLC. See DESIGN.md. No hooks in /repo are needed: the harnesses observe the public behaviour.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
  json.dump(m, fp, indent=1)
  fp.write('\n')
d = os.path.join(ROOT, 'DESIGN.md')
if os.path.exists(d):
  t = open(d).read()
  body = '\n'.join(f'### {p["id"]} {p["title"]}\n\n{p["design"]}\n\nBounds/trust: {p["note"]}\n' for p in catalog.PROPS)
  t = re.sub(r'(<!-- BEGIN PROPS -->\n).*(<!-- END PROPS -->)', lambda m: m.group(1) + body + m.group(2), t, flags=re.S)
  open(d, 'w').write(t)
print(len(checks), 'built;', len(na), 'not')
t = open(d).read()
f = ''.join(f'* {x["what"]}\n' for x in json.load(open(os.path.join(ROOT, 'known_findings.json')))['findings'])
t = re.sub(r'(<!-- BEGIN FINDINGS -->\n).*(<!-- END FINDINGS -->)', lambda m: m.group(1) + f + m.group(2), t, flags=re.S)
sd = os.path.join(ROOT, 'seeded')
if os.path.isdir(sd):
  b = '| bug | property | needs |\n|---|---|---|\n'
  for n in sorted(os.listdir(sd)):
    x = json.load(open(os.path.join(sd, n, 'meta.json')))
    b += f'| {n} | {x["property"]} | {x["needs"]} |\n'
  t = re.sub(r'(<!-- BEGIN BUGS -->\n).*(<!-- END BUGS -->)', lambda m: m.group(1) + b + m.group(2), t, flags=re.S)
open(d, 'w').write(t)
