"""Writes MANIFEST.json from the check modules."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
VERIF = sys.path[0]
checks, missing = [], []
for line in open(VERIF + '/properties.jsonl'):
    p = json.loads(line)['id']
    if os.path.exists(VERIF + '/mc/checks/%s.py' % p.lower()):
        mod = importlib.import_module('mc.checks.' + p.lower())
    else:
        missing.append({'property': p, 'reason': 'its check is not built yet'})
        continue
    checks.append({
        'property': p,
        'quick_cmd': './check %s quick' % p,
        'thorough_cmd': './check %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': mod.TECHNIQUE,
        'level': 'model_checking',
        'level_note': mod.LEVEL_NOTE,
    })
json.dump({
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import hiku"',
    'checks': checks,
    'not_applicable': missing,
    'notes': 'No hooks in /repo: the checks drive the unmodified code through its public interfaces and '
             'through the executor, loop, driver and pool objects it is given.',
}, open(VERIF + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(missing), 'missing')
