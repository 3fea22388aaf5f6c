"""writes MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'driver'))
from props import PROPS, NOTES
checks = []
for k, c in sorted(PROPS.items()):
    n = {'property': k, 'quick_cmd': './check %s' % k, 'thorough_cmd': './check %s --tier thorough' % k,
         'technique': 'contract-based deductive verification (Verus contracts on the functions extracted from /repo/src on every run), with replay of cases on the real code',
         'level': c.get('level', 'proof'), 'level_note': NOTES.get(k, '')}
    if c['lemmas']:
        n['theorems'] = c['lemmas']
    checks.append(n)
m = {'version': 1, 'setup_cmd': './setup.sh',
     'hooks': {'guard': '--cfg artefacta_verif', 'enable': "RUSTFLAGS='--cfg artefacta_verif'; ARTEFACTA_VERIF_S3=URL sends the S3 requests to a server there", 'source_commits': ['d877ade9ba7215a467c40f53d5c2a5f2ff3d93ba']},
     'checks': checks, 'not_applicable': [],
     'notes': 'Evidence: obligations are the postconditions and loop invariants of the functions a property depends on, plus one per function body. See DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
