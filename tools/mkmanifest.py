"""Writes /verif/MANIFEST.json from jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs as J
NA = {}
NOTE = {}
if os.path.exists(os.path.join(V, 'tools', 'na.json')): NA = json.load(open(os.path.join(V, 'tools', 'na.json')))
m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [], 'not_applicable': []}
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in J.PROPS and i not in NA:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
            'technique': 'symbolic execution of the compiled library (LLVM IR, own engine) with z3 deciding every branch and assertion; counterexamples replayed on the real code under sanitizers',
            'level': 'model_checking', 'level_note': J.NOTES.get(i, 'bounded: ') if hasattr(J, 'NOTES') and i in J.NOTES else 'bounded by small capacities, sizes and range lengths (exact bounds in the evidence); element values, and counts and indices where possible, are full-width symbolic; nothing is claimed beyond the bounds'})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check yet')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not applicable')
