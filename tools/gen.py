#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below.

Run by hand after editing the table; both outputs are committed."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BV = 'symbolic execution of the compiled IR, bit-precise (z3/kissat)'
REAL = 'symbolic execution of the compiled IR over rationals with proven rounding bounds (z3)'
BOTH = BV + '; float parts over rationals with proven rounding bounds'

P = []


def prop(id, title, statement, over, text, why, files, mech, tech=BV, note=None, observe=None):
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        anchors['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text},
                   why_tests_cant=why, anchors=anchors), tech,
              note or 'Bounded: every value within the bounds listed in the evidence file is decided by the solver; '
              'longer histories, other template sizes and values outside the bounds are not.'))


from proptable import fill  # noqa: E402
fill(prop, BV, REAL, BOTH)

ids = [p[0]['id'] for p in P]
assert len(set(ids)) == len(ids)
for p, _, _ in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
    for f in p['anchors']['files']:
        assert os.path.exists(os.path.join('/repo', f)), f
P.sort(key=lambda p: p[0]['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p, sort_keys=False) + '\n')
man = {
    'version': 1,
    'setup_cmd': 'bash /verif/setup.sh',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % p['id'],
        'technique': tech,
        'level': 'model_checking',
        'level_note': note,
        'evidence_file': 'evidence/%s.json' % p['id'],
    } for p, tech, note in P],
    'not_applicable': [],
    'notes': 'No hooks in /repo: harnesses include the headers as they are and everything is observed through their public interface. '
             'fix: commits in /repo repair defects the checks found; see known_findings.txt and DESIGN.md.',
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print('%d properties' % len(P))
