#!/usr/bin/env python3
"""Write DESIGN.md: the text below, the rules of lib/specs.py, the findings and the table of seeded bugs."""
import sys, os, json, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import specs
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
HEAD = open(V + '/tools/design_head.md').read()
NOTES = json.load(open(V + '/tools/design_notes.json'))
o = [HEAD, '\n## 3. Properties, one by one\n']
for p in P:
    s = specs.SPECS.get(p['id']); n = NOTES.get(p['id'], {})
    o.append('### %s %s\n' % (p['id'], p['title']))
    if not s: o.append('Not claimed.\n'); continue
    o.append('*Explored:* ' + s['rule'] + '\n')
    if n.get('oracle'): o.append('*Oracle:* ' + n['oracle'] + '\n')
    if s.get('assumptions'): o.append('*Limits:* ' + ' '.join(s['assumptions']) + '\n')
    if n.get('why'): o.append('*Why tests cannot settle it:* ' + n['why'] + '\n')
    if n.get('cost'): o.append('*Cost (quick, 8 cores):* ' + n['cost'] + '\n')
o.append(open(V + '/tools/design_alarms.md').read())
o.append('\n## 5. Genuine defects found and repaired\n\nAll were repaired by `fix:` commits in /repo (`known_findings.json`; fixed entries suppress nothing). No open finding is left.\n\n| id | property | what failed | commit |\n|---|---|---|---|\n')
for f in json.load(open(V + '/known_findings.json'))['findings']:
    o.append('| %s | %s | %s | %s |\n' % (f['id'], f['property'], f['what'].replace('|', '/'), f['status'].split()[2] if f['status'].startswith('fixed') else f['status']))
o.append(open(V + '/tools/design_seeds.md').read())
o.append('\n| id | property | what it breaks | needs |\n|---|---|---|---|\n')
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    o.append('| %s | %s | %s | %s |\n' % (os.path.basename(d), m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' ')[:200], m['needs'].replace('|', '/').replace('\n', ' ')[:200]))
open(V + '/DESIGN.md', 'w').write(''.join(x if x.endswith('\n') and x.startswith('|') else x + ('' if x.endswith('\n') else '\n') for x in o))
