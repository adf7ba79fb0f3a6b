"""Writes MANIFEST.json from the list of checks present in sa/checks (run from /verif)."""
import json
import os

NA = {
    'C28': 'a bound on running time over all inputs is a runtime quantity; no syntactic or abstract-interpretation argument '
           'in reach bounds the cost of the library calls involved (string slicing, dict and set operations)',
}
PENDING = 'no check built yet'
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists('sa/checks/%s.py' % i.lower()):
        checks.append({
            'property': i,
            'quick_cmd': 'python3 -m sa.run %s --tier quick' % i,
            'thorough_cmd': 'python3 -m sa.run %s --tier thorough' % i,
            'technique': 'static analysis: path-partitioned abstract interpretation of the source '
                         '(constants, finite sets, value numbering, linear sizes; no solver, code never run)',
            'level': 'other',
            'level_note': 'Abstract interpretation of /repo\'s syntax trees over abstract inputs; all paths of the anchored '
                          'code are covered within the bounds on collection and nesting sizes that the evidence file and '
                          'DESIGN.md state; partitions the domains cannot decide are counted in the evidence, not assumed '
                          'to hold.',
        })
    else:
        na.append({'property': i, 'reason': PENDING})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q sa', 'checks': checks, 'not_applicable': na}
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
