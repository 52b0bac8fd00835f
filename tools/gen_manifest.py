#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]

TECH = 'deterministic simulation: seeded search over thread schedules and faults'
NOTE = {
    'C01': 'random schedules (including preemption between source lines) of real Pipe code against an exact byte '
           'model; sampled, not exhaustive. Trusts the simulated locks and conditions.',
    'C02': 'virtual time makes every time-out and wake-up exact; sampled schedules. Trusts the simulated locks, '
           'conditions, events and clock.',
}
TECHS = {}
PURE = {
    'C90': 'pure function of its input: no thread, clock, I/O, fault or multi-party behaviour for a schedule or a '
           'fault to act on, so deterministic simulation has nothing to decide',
    'C91': 'pure function of its input (URI parsing and resolution): nothing for a schedule or a fault to act on',
    'C92': 'single-threaded in-memory evaluation of a parsed item: nothing for a schedule or a fault to act on',
    'C93': 'pure function of its input (parse and evaluate an expression): nothing for a schedule or fault to act on',
}
notes_path = os.path.join(HERE, 'tools', 'level_notes.json')
if os.path.exists(notes_path):
    d = json.load(open(notes_path))
    NOTE.update(d.get('note', {}))
    TECHS.update(d.get('technique', {}))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
        checks.append(dict(
            property=i, quick_cmd='./run_check.py %s --tier quick' % i,
            thorough_cmd='./run_check.py %s --tier thorough' % i,
            evidence_file='evidence/%s.json' % i,
            technique=TECHS.get(i, TECH), level='exploration',
            level_note=NOTE.get(i, 'seeded sampling of schedules and faults; trusts the simulator')))
    else:
        na.append(dict(property=i, reason=PURE.get(
            i, 'no check has been built for it yet')))
m = dict(version=1,
         setup_cmd='./run_check.py --selftest',
         checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
