#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from units/props.py"""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import registry
U, PR = registry.UNITS, registry.PROPS
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for i, p in sorted(PR.items()):
        f.write(json.dumps({'id': i, 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                'observe_at': sorted({x for u in p['units'] for x in U[u]['functions']}), 'hook_needed': None}}) + '\n')
checks, na = [], []
for i, p in sorted(PR.items()):
    if p['na'] or not p['units']:
        na.append({'property': i, 'reason': p['na'] or 'no check yet'})
        continue
    unb = [u for u in p['units'] if 'proof' in U[u] or 'lean' in U[u]]
    bnd = [u for u in p['units'] if u not in unb]
    fns = sorted({x for u in unb for x in U[u]['functions']})
    note = 'Contracts of %s discharged by CBMC (loops cut by invariants, no bound)' % ', '.join(fns)
    if bnd: note += '; bounded stand-ins, not proved: ' + '; '.join('%s (%s)' % (', '.join(U[u]['functions']), U[u]['bounded'].get('bound', '')) for u in bnd)
    note += '. Assumes the contracts of libc, zlib, libmd and system calls named in the evidence; CBMC and the loop-cut tool are trusted.'
    if p['note']: note += ' ' + p['note']
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification of the C sources (function contracts and loop invariants, CBMC)',
        'level': 'proof' if unb else 'model_checking', 'level_note': note})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks in /repo: the sources are annotated in copies made on every run (lib/annot.py).'},
    open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)

# control structure of the annotated loops (lib/annot.py reshaped)
sys.path.insert(0, os.path.join(HERE, 'lib'))
import annot
shapes = {}
for u in U.values():
    for f, sp in u.get('loops', {}).items():
        fn = sp.get('file', u['src'][0])
        shapes.setdefault(fn, {})[f] = annot.shape(open(os.path.join(os.environ.get('VF_REPO', '/repo'), fn)).read())[f]
json.dump(shapes, open(os.path.join(HERE, 'units', 'shapes.json'), 'w'), indent=0, sort_keys=True)
