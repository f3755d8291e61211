#!/usr/bin/env python3
"""Puts DESIGN.md together: tools/design_head.md, tools/design_props.py, checks/config.py, known_findings.json, tools/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/tools', V + '/checks']
from design_props import D
import config
out = open(V + '/tools/design_head.md').read()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
kf = json.load(open(V + '/known_findings.json'))
seeds = {}
for s in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{s}/meta.json'))
    seeds.setdefault(m['property'], []).append((s, m))
out += '\n## Properties\n'
for p in props:
    i = p['id']
    out += f"\n### {i} {p['title']}\n"
    if i in config.NOT_APPLICABLE or i not in config.CHECKS:
        out += 'Not claimed: ' + config.NOT_APPLICABLE.get(i, 'no check has been built') + '\n'
        continue
    c = config.CHECKS[i]
    out += f"Level: {c['level']}. Units: " + ', '.join(f"`{u['name']}` ({u['engine'].upper()}, {u['src']}" + (', delay-bounded' if u.get('delay') else '') + (', bound %s/%s' % (u['quick'].get('bound'), u['thorough'].get('bound')) if u['engine'] == 'sched' else '') + f", {u['quick']['time']} s/{u['thorough']['time']} s)" for u in c['units']) + '.\n'
    out += D.get(i, '') + '\n'
    fx = [f for f in kf if f['property'] == i]
    if fx:
        out += '\nFindings:\n'
        for f in fx:
            out += ('* fixed in %s: %s\n' % (f['commit'], f['what'])) if f['status'] == 'fixed' else ('* known, not repaired (`%s`): %s\n' % (f['sig'], f['what']))
    for s, m in seeds.get(i, []):
        out += f"\nPlanted `{s}` ({m['needs']}): {m['what_it_breaks']}. {m.get('caught', 'Caught.')}\n"
out += '\n' + open(V + '/tools/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
