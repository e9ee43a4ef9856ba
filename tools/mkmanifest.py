"""writes MANIFEST.json from the property table below"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
import obligations
AI = 'abstract interpretation of MIR (gated value graphs) against contracts'
NOTE = ('Decides the contract for all values of positions, velocities, limits, axes, origins, names, cached values and link data, '
        'on the robot shapes and vector lengths listed in the evidence (obligations.py). Trusts the library models of engine/models.py '
        '(std, nalgebra, simba, urdf-rs), reads floating point as real arithmetic, and assumes no interference of other threads (C34: one complete request of another thread at any moment at which no lock is held). '
        'A construct that is not modelled is printed as not decided and raises no alarm.')
OTHER = {}
try:
    import static_checks
    OTHER = static_checks.MANIFEST
except ImportError:
    pass
NA = {
    'C30': 'Convergence of the iteration for reachable targets is a numerical statement about runtime values (conditioning of the Jacobian along the path, step size); no structural clause whose breaking is visible in the source decides it. What is structural about the solver (success criterion, restoration, step formula, number of tries) is C11-C14.',
    'C31': 'Bounds of accumulated rounding errors depend on runtime magnitudes and on the floating point library; a static analysis that reads arithmetic as exact cannot decide them.',
}
checks = []
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = []
for p in props:
    i = p['id']
    if i in obligations.OBLIGATIONS:
        tech, note = AI, NOTE
        if i in OTHER:
            tech, note = OTHER[i]
    elif i in OTHER:
        tech, note = OTHER[i]
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
        continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       technique=tech, level='other', level_note=note))
m = dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
         notes='No hooks: the checks read the type-checked MIR of the unmodified crate. The contract files of spec/ are compiled into the crate by the compiler driver, in memory.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
