#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl, tools/rules and the table of reasons below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
NA = {
    'C32': 'durability after a power failure is decided by the operating system, the device and sqlite\'s run-time synchronous setting; the code sets synchronous=off on purpose and makes no claim that its source could be checked against',
    'C33': 'equivalence of run-time histories to a serial order quantifies over unbounded interleavings of processes; its statically decidable parts are claimed as C01, C04, C08 and C30',
    'C35': 'the binding is a Go module whose dependencies (anacrolix/generics, chansync, missinggo) are in no module cache here, so it can be neither type-checked nor built; without types and the cgo declarations no sound flow analysis of it is in reach. The C functions it calls are claimed as C16 and C17',
}
TECH = 'static analysis: path-sensitive abstract interpretation of the compiler\'s MIR'
NOTE = {}
TECHS = {}
exec(open(V + '/tools/claims.py').read())
checks, na = [], []
for i in ids:
    if os.path.exists(V + '/tools/rules/%s.py' % i.lower()) and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 tools/run.py %s quick' % i, thorough_cmd='python3 tools/run.py %s thorough' % i,
                           technique=TECH + (' (%s)' % TECHS[i] if i in TECHS else ''), level='other', level_note=NOTE.get(i, DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check under construction')))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'n/a')
