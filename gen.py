#!/usr/bin/env python3
"""gen.py : writes properties.jsonl and MANIFEST.json from the PROP records of rules/*.py and from not_applicable.json"""
import ast, json, os
HERE = os.path.dirname(os.path.abspath(__file__))
props = []; checks = []
for f in sorted(os.listdir(os.path.join(HERE, 'rules'))):
    if not f.endswith('.py'):
        continue
    for st in ast.parse(open(os.path.join(HERE, 'rules', f)).read()).body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], 'id', '') == 'PROP':
            p = ast.literal_eval(st.value)
            pid = f[:-3].upper()
            props.append((pid, p))
            checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s quick' % pid, 'thorough_cmd': 'python3 check.py %s thorough' % pid,
                           'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
na = json.load(open(os.path.join(HERE, 'not_applicable.json')))
for p in na:
    props.append((p['id'], p))


def rec(pid, p):
    assert len(p['title']) <= 80, p['title']
    return {'id': pid, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}


with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for pid, p in sorted(props, key=lambda x: x[0]):
        f.write(json.dumps(rec(pid, p), ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'sh setup.sh', 'checks': checks, 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in na]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not applicable')

# DESIGN.md = design/head.md + one section per property + not applicable + design/tail.md with the tables of planted bugs
def rd(n):
    return open(os.path.join(HERE, 'design', n)).read()


out = [rd('head.md').rstrip() + '\n']
for pid, p in props:
    if 'technique' in p:
        out.append('### %s %s\n\n%s\n\n*Technique:* %s.\n\n%s\n\n*Bounds:* %s\n' % (pid, p['title'], p['statement'], p['technique'], p.get('design', ''), p['level_note']))
out.append('## Not applicable\n\nThe technique cannot decide these; they are listed because a user relies on them.\n')
for p in na:
    out.append('### %s %s\n\n%s\n\n*Why not:* %s\n' % (p['id'], p['title'], p['statement'], p['reason']))
out.append('## Planted bugs\n\n| seed | property | needs | effect | caught by |\n|---|---|---|---|---|\n')
sd = os.path.join(HERE, 'seeded')
caught = json.load(open(os.path.join(HERE, 'design', 'caught.json')))
rows = []
for s in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, s, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['needs'], m['what_it_breaks'], caught.get(s, '?')))
out[-1] += '\n'.join(rows) + '\n'
out.append(rd('tail.md'))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out))
