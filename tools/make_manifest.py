#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks

SAMPLER = ('Every recorded step of real runs (random draws, evaluations, chain rows, factors, variances, results) is checked '
           'by TLC against the TLA+ state machine Dram; the scenarios vary settings, parameters, error models, scripted and real '
           'random draws. Holds for all explored runs; the arithmetic of the specification is IEEE double with stated tolerances; '
           'decisions within 1e-9 of the threshold are not judged.')
NOTES = json.load(open(os.path.join(V, 'tools', 'notes.json'))) if os.path.exists(os.path.join(V, 'tools', 'notes.json')) else {}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        out['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i,
                                  thorough_cmd='python3 check.py %s thorough' % i,
                                  technique='TLA+ specification, TLC model checking and trace validation of the real code',
                                  level=c.level, level_note=NOTES.get(i, SAMPLER)))
    else:
        out['not_applicable'].append(dict(property=i, reason='specification and conformance check not built yet'))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
