#!/usr/bin/env python3
"""rewrites properties.jsonl and MANIFEST.json from properties_src.py"""
import json, os
from properties_src import P
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification of the real C code (clang IR, own VC generator, ring normal form + z3/cvc5)'
checks, na, lines = [], [], []
for p in P:
    assert len(p['title']) <= 80, p['title']
    lines.append(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['q']},
                             'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}))
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    i = p['id']
    checks.append({'property': i, 'quick_cmd': './check.sh %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % i,
                   'technique': TECH, 'level': 'proof', 'level_note': p['note']})
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks read the unmodified sources', 'source_commits': []},
     'notes': 'Contracts live in props/, the verifier in tdyver/; see DESIGN.md.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
