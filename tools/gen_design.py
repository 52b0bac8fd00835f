"""DESIGN.md = tools/design.md with its tables filled in."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
plan = json.load(open(H + '/tools/design_plan.json'))
rows = []
for p in props:
    t = plan['plan'].get(p['id'])
    if t:
        built = os.path.exists('%s/checks/%s.py' % (H, p['id'].lower()))
        rows.append('### %s %s%s\n\n%s\n' % (
            p['id'], p['title'], '' if built else ' (planned, not built)', t))
seeds = ['| bug | property | caught by | needs |', '|---|---|---|---|']
caught = plan.get('caught', {})
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    m = json.load(open(d))
    sid = os.path.basename(os.path.dirname(d))
    seeds.append('| %s | %s | %s | %s |' % (
        sid, m['property'], caught.get(sid, 'not yet run'), m['needs']))
s = open(H + '/tools/design.md').read()
s = s.replace('DESIGN_TABLE', '\n'.join(rows))
s = s.replace('SEEDED_TABLE', '\n'.join(seeds))
s = s.replace('FALSE_ALARMS', '\n'.join('* ' + x for x in plan['alarms']))
open(H + '/DESIGN.md', 'w').write(s)
