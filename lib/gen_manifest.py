#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import importlib.util, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{V}/lib')
props = [json.loads(l) for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for p in props:
    pid = p['id']
    f = f'{V}/checks/{pid}.py'
    if not os.path.exists(f):
        na.append({'property': pid, 'reason': 'check not built yet'})
        continue
    spec = importlib.util.spec_from_file_location(pid, f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    checks.append({'property': pid, 'quick_cmd': f'VERIF_TIER=quick bin/check {pid}', 'thorough_cmd': f'VERIF_TIER=thorough bin/check {pid}',
                   'evidence_file': f'evidence/{pid}.json',
                   'technique': getattr(m, 'TECHNIQUE', 'exhaustive bounded exploration of the real code against a reference model'),
                   'level': 'model_checking', 'level_note': 'Explored exhaustively on the real code: ' + m.RULE + '. Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'bin/check <ID> builds the library and the harness of <ID> from /repo in build/<ID>, explores in 8 processes, replays a failure before reporting it, and writes evidence/<ID>.json. No hooks in /repo are needed.'},
          open(f'{V}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
