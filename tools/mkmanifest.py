#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import checks
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = 'Design: TLC explores the bounded model exhaustively. Code: every recorded execution (controlled scheduler, virtual time, simulated network, files and radio) must be a behaviour of the specification; executions are sampled (seeded), so it is exhaustive for the model and sampling for the code. Trusts the simulated environment in sim/, TLC and clang.'
m = dict(version=1, setup_cmd='./setup.sh', checks=[], not_applicable=[],
         notes='No hooks in /repo: the harness replaces libc and libiio calls at link time (sim/build.sh).')
for p in props:
    i = p['id']
    if i in checks.REGISTRY:
        m['checks'].append(dict(property=i, quick_cmd='./check ' + i, thorough_cmd='./check %s --thorough' % i,
                                technique=checks.TECHNIQUE.get(i, 'TLA+ specification checked with TLC; traces of the real server under a controlled scheduler validated against it'),
                                level='model_checking', level_note=checks.NOTES.get(i, NOTE)))
    else:
        m['not_applicable'].append(dict(property=i, reason='check is not built yet'))
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
