#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json from the plans and properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from irv import plans
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = {
 'C25': 'Progress under a fair scheduler is a liveness property; the contracts discharged here are partial-correctness contracts (what holds if a step is taken), and no variant can be given for a lock-free CAS loop whose iterations are bounded only by scheduling fairness.',
}
def main():
    checks = []; na = []
    for p in props:
        i = p['id']
        if i in NA: na.append(dict(property=i, reason=NA[i])); continue
        if i not in plans.PLANS: na.append(dict(property=i, reason='contracts for this property are not built yet')); continue
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i,
                           technique=plans.TECH.get(i, plans.TECH['*']), level='proof', level_note=plans.NOTE.get(i, plans.NOTE['*'])))
    m = dict(version=1, setup_cmd='python3-vt -m compileall -q irv check.py && python3-vt tools/selfcheck.py', checks=checks, not_applicable=na,
             notes='One engine (irv/) generates verification conditions from the LLVM IR of the functions in /repo as compiled on each run, and z3 discharges them function by function against contracts. No hooks in /repo are needed.')
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
