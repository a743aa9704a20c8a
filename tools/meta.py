#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
MODELS, SETS = 'bicycleparameters/models.py', \
    'bicycleparameters/parameter_sets.py'
TECH = 'symbolic execution of the real Python source + SMT (z3)'


def prop(id, title, statement, over, text, why, files, mech, note,
         observe=(), state=()):
    PROPS.append((dict(
        id=id, title=title, statement=statement,
        quantifier={'over': over, 'text': text}, why_tests_cant=why,
        anchors={'files': files,
                 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                 'state': [{'name': n, 'meaning': m, 'where': w}
                           for n, m, w in state],
                 'observe_at': list(observe), 'hook_needed': None}), note))


def na(id, reason, **k):
    NA.append((id, reason))


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

ids = [p['id'] for p, _ in PROPS]
assert len(ids) == len(set(ids))
for p, _ in PROPS:
    assert len(p['title']) <= 80, p['id']
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _ in PROPS:
        f.write(json.dumps(p) + '\n')
napids = {i for i, _ in NA}
man = {
    'version': 1,
    'setup_cmd': 'python3 run.py --list',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 run.py ' + p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p['id'],
        'technique': TECH, 'level': 'model_checking', 'level_note': note,
    } for p, note in PROPS if p['id'] not in napids],
    'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
    'notes': 'Every check loads the package source from /repo at run time, '
             'executes it on symbolic values (engine/) and lets the solver '
             'decide the assertions in checks/cNN.py; counterexamples are '
             'replayed on the real code with the real libraries before they '
             'are reported. No hooks in /repo.',
}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
try:
    import sys
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
    import jsonschema
    s = json.load(open('/root/.vp/MANIFEST.schema.json'))
    jsonschema.validate(man, s)
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, _ in PROPS:
        jsonschema.validate(p, s)
    print('valid', len(PROPS))
except ImportError:
    pass
