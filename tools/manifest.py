#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine'); sys.path.insert(0, V + '/tools')
import jobs, props
NA = {
 'C29': 'correctness of the shortest-digits algorithm (grisu2 with its cached-power table) needs error analysis over 128-bit products that no contract the solvers can discharge here expresses; only length and termination-free safety of the same code are claimed (C25)',
}
DEFAULT_NA = 'no contract for this property has been discharged yet (work in progress)'
checks = []; na = []
for p in props.P:
    j = jobs.JOBS.get(p['id'])
    if j:
        checks.append(dict(property=p['id'], quick_cmd='./check ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
            technique=j.get('technique', 'contract-based deductive verification of the LLVM IR of the real code (symbolic execution to verification conditions, loop invariants, z3/cvc5)'),
            level=j['level'], level_note=j.get('level_note') or j.get('note') or ''))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'], DEFAULT_NA)))
m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='none', enable='no hooks are needed: the checks compile the unmodified sources with -fno-access-control', source_commits=[]),
         checks=checks, not_applicable=na, notes='every check compiles the current sources of /repo to LLVM IR and discharges all obligations anew; see DESIGN.md')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
