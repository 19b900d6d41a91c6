#!/usr/bin/env python3
"""Writes DESIGN.md: the shared text below, then one section per property from properties.jsonl,
the rule texts of the last evidence files, the limits below, seeded/ and known_findings.txt."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, 'tools/design_head.md')).read()
TAIL = open(os.path.join(V, 'tools/design_tail.md')).read()
WHY = json.load(open(os.path.join(V, 'tools/design_why.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
man = json.load(open(os.path.join(V, 'MANIFEST.json')))
na = {n.get('property') or n.get('property_id'): n['reason'] for n in man['not_applicable']}
seeds = {}
for f in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[-2], m['needs']))
fixed = {}
for l in open(os.path.join(V, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m[1], []).append((m[2], m[3]))
out = [HEAD, '\n## The properties, one by one\n']
for p in props:
    i = p['id']
    out.append('\n### %s — %s\n' % (i, p['title']))
    if i in na:
        out.append('**Not applicable.** %s\n' % na[i])
        continue
    e = json.load(open(os.path.join(V, 'evidence', i + '.json')))
    m = re.search(r'Rule: (.*?)\.+ \d+ obligations', e['coverage']['explanation'], re.S)
    out.append('*Decided:* %s.\n' % m[1])
    w = WHY.get(i, {})
    out.append('\n*Why tests cannot:* %s\n' % w['why'])
    out.append('\n*Bounds and limits:* %s\n' % w['limits'])
    for c, t in fixed.get(i, []):
        out.append('\n*Defect found and repaired* (%s): %s.\n' % (c, t.rstrip('.')))
    if i in seeds:
        out.append('\n*Planted bugs it catches:* ' + '; '.join('`%s` (needs %s)' % s for s in seeds[i]) + '.\n')
out.append('\n' + TAIL)
open(os.path.join(V, 'DESIGN.md'), 'w').write(''.join(out))
