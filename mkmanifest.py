#!/usr/bin/env python3
"""Write MANIFEST.json from the registered checks."""
import json
import checks

props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
out = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': [], 'not_applicable': [],
       'notes': 'All checks build the library from the working tree in /repo (object cache in build/, keyed by file content), run the monitor '
                'programs of harness/ and judge them. known_findings.txt lists findings. No hooks in /repo are used.'}
for p in props:
    s = checks.SPEC.get(p['id'])
    if not s:
        out['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    fl = sorted({r['flavor'] for r in s['runs']})
    names = {'opt': 'optimised build', 'asan': 'ASan+UBSan build', 'tsan': 'TSan build', 'vg': 'valgrind memcheck'}
    out['checks'].append({
        'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': 'runtime monitoring: generated workload judged by own oracles, run on ' + (' and '.join(names[f] for f in fl) or 'several builds of the same programs'),
        'level': s['level'], 'level_note': s['rule']})
if not out['not_applicable']:
    del out['not_applicable']
json.dump(out, open('MANIFEST.json', 'w'), indent=1)
