#!/usr/bin/env python3
"""regenerates MANIFEST.json from properties.jsonl and the contract files"""
import json, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = json.load(open(f'{V}/tools/not_applicable.json'))
NOTES = json.load(open(f'{V}/tools/level_notes.json'))
checks, na = [], []
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)['id']
    if glob.glob(f'{V}/contracts/{p}_*.cpp'):
        checks.append({'property': p, 'quick_cmd': f'python3 check.py {p} --tier quick', 'thorough_cmd': f'python3 check.py {p} --tier thorough', 'evidence_file': f'evidence/{p}.json',
                       'technique': 'contract-based deductive verification: contracts on the real C++ (compiled to LLVM IR on every run), VCs from engine/vfy discharged by z3', 'level': 'proof',
                       'level_note': NOTES.get(p, NOTES['*'])})
    else:
        na.append({'property': p, 'reason': NA.get(p, 'no contract harness yet')})
json.dump({'version': 1, 'setup_cmd': 'bash engine/build.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks: /repo carries only fix: commits. See DESIGN.md.'}, open(f'{V}/MANIFEST.json', 'w'), indent=1)
