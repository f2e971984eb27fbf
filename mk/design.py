"""Writes DESIGN.md (python3 mk/design.py): mk/design_head.md, then a section for each property made from
mk/list.py, the obligations of the last run (evidence/), the planted bugs and the findings file."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
out = [open('mk/design_head.md', encoding='utf-8').read().rstrip() + '\n\n## Properties\n']
man = json.load(open('MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
tech = {x['property']: x['technique'] for x in man['checks']}
seeds = {}
for s in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % s))
    seeds.setdefault(m['property'], []).append((s, m))
for line in open('properties.jsonl', encoding='utf-8'):
    p = json.loads(line)
    out.append('### %s %s\n\n%s\n' % (p['id'], p['title'], p['statement']))
    if p['id'] in na:
        out.append('Not applicable: %s\n' % na[p['id']])
        continue
    out.append('Decided by: %s. Quantifies over %s.\n' % (tech[p['id']], p['quantifier']['text']))
    f = 'evidence/%s.json' % p['id']
    if os.path.exists(f):
        ev = json.load(open(f))
        for r in ev['coverage']['rules_applied']:
            k, _, t = r.partition(': ')
            out.append('* `%s` %s' % (k, t))
        out.append('')
    for s, m in seeds.get(p['id'], []):
        out.append('* planted bug `%s`, caught: %s Needs: %s' % (s, m['what_it_breaks'].rstrip('.') + '.', m['needs']))
    out.append('')
out.append('## Findings\n')
for line in open('known_findings.txt', encoding='utf-8'):
    if line.strip() and not line.startswith('#'):
        out.append('* ' + line.strip())
open('DESIGN.md', 'w', encoding='utf-8').write('\n'.join(out) + '\n')
