"""writes MANIFEST.json from the registered checks (python: /opt/venv/bin/python)"""
import json, os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from harness import registry
registry.load_all()
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.SPECS:
        s = registry.SPECS[i]
        note = s.note or ''
        checks.append(dict(
            property=i, quick_cmd='./run.py %s quick' % i, thorough_cmd='./run.py %s thorough' % i,
            technique=s.technique or 'path-wise symbolic execution of the real Python source; every assertion decided by Z3 over all '
                                     'values within the bounds; counterexamples replayed on the real code',
            level='model_checking',
            level_note=('Bounded: ' + s.bounds['quick'] + '. ' + ('Assumes: ' + '; '.join(s.assumptions) + '. ' if s.assumptions else '') + note +
                        ' Library calls (numpy/scipy/pandas/torch ...) are modelled by the symbolic stand-ins in symx/, whose behaviour is '
                        'cross-checked against the real libraries on sampled models of every path; arithmetic is exact, floating-point '
                        'error is outside.').strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='/opt/venv/bin/python -B tools/selftest.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the checks compile the modules of /repo from source at every run. Known findings and repaired defects: KNOWN_FINDINGS.md')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
