"""Writes MANIFEST.json from properties.jsonl and the harness modules present."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = 'symbolic execution of the current CommDspy source (Python AST re-execution over value-summary/polynomial terms, numpy/scipy calls modelled) with z3 deciding path condition and negated property; counterexamples replayed on the real code'
checks, na = [], []
for line in open(os.path.join(R, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    f = os.path.join(R, 'props', i.lower() + '.py')
    if os.path.exists(f):
        ns = {}
        src = open(f).read()
        for l in src.splitlines():
            if l.startswith(('BOUNDS', 'OUTSIDE', 'METHOD')):
                exec(l, ns)
        checks.append(dict(property=i, quick_cmd='python3-vt -B run.py %s --tier quick' % i, thorough_cmd='python3-vt -B run.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=ns.get('METHOD', TECH), level='model_checking',
                           level_note='Bounded: ' + ns['BOUNDS'] + '. Outside: ' + ns['OUTSIDE'] + '.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -B tools/setup.py', checks=checks, not_applicable=na), open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [n['property'] for n in na])
