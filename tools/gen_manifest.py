"""Writes MANIFEST.json from checks.py and the reasons below."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks

NOT = {
    'C29': 'amazon/ion/json_encoder.py refuses to be imported on the interpreter of this build (PyPy: "IonToJSONEncoder '
           'is not supported on PyPy"-style ImportError), so there is no behaviour to encode or to replay against.',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
out = {'version': 1, 'setup_cmd': 'python3 check.py --selftest', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in checks.CHECKS:
        out['checks'].append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'bounded symbolic execution of the real source, claims decided by Z3, counterexamples replayed',
            'level': 'model_checking',
            'level_note': 'Within the bounds in checks.py (restated in the evidence file) every path of the package code '
                          'is executed with symbolic inputs and z3 decides each claim for all inputs of the path; '
                          'nothing is claimed outside the bounds. Trusted: the symbolic interpreter in symion/ and its '
                          'models of library calls (checked by replaying path witnesses on the real package), z3.'})
    else:
        out['not_applicable'].append({'property': i, 'reason': NOT.get(i, 'no check is registered yet')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
print(len(out['checks']), 'claimed', [x['property'] for x in out['not_applicable']])
