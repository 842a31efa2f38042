"""writes MANIFEST.json from props/"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
import importlib
NA = json.load(open(V + '/tools/na.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(V + '/props/%s.py' % i) and i not in NA:
        m = importlib.import_module('props.' + i)
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i,
                           thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique='contract-based deductive verification of the LLVM IR clang emits for the current source '
                                     '(pre/postconditions, inferred inductive loop invariants, SMT)',
                           level=getattr(m, 'level', 'proof'),
                           level_note=getattr(m, 'level_note', 'All obligations of the functions under contract are discharged for all inputs; '
                                      'library functions have assumed contracts (listed in the evidence); see DESIGN.md.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'machinery not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5"', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
