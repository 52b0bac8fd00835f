"""Write known_findings.json: the findings listed in tools/findings.json and
one "fixed:" entry per repair commit in /repo (matched by commit subject)."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
# (start of the commit subject after "fix: ", property)
with open(os.path.join(HERE, 'fixed.json')) as f:
    FIXED = json.load(f)
log = subprocess.check_output(
    ['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'],
    text=True).splitlines()
out = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    m = [(p, w) for k, p, w in FIXED if s.startswith(k)]
    if not m:
        print('no property for', l)
        continue
    for p, w in m:
        out.append('fixed: property=%s %s %s' % (p, h, w or 'broken before: ' + s))
p = os.path.join(HERE, 'findings.json')
findings = json.load(open(p)) if os.path.exists(p) else []
with open(os.path.join(VERIF, 'known_findings.json'), 'w') as f:
    json.dump({'findings': findings, 'fixed': out}, f, indent=1)
    f.write('\n')
print(len(out), 'fixed', len(findings), 'findings')
