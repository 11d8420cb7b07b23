#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from registry import CHECKS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': c.get('technique', 'explicit-state model checking of the real code against a reference model'),
                       'level': 'model_checking',
                       'level_note': c.get('note', 'Every execution inside the stated bounds is run on the real headers and compared step by step with a '
                                     'reference model; nothing is sampled.') +
                                     ' Trusted: the reference model, the compiler, and that bugs show inside the bounds listed in the evidence.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks,
     'hooks': {'guard': 'none', 'enable': 'no hooks: the checks use only the public headers of /repo', 'source_commits': []},
     'not_applicable': na,
     'notes': 'Programs are compiled from /repo include/, config/ and single_header/ into the git-ignored /verif/build. Violations leave a replayable file in '
              'the git-ignored /verif/replays; run it with: python3 check.py --replay FILE.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
