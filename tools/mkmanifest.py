#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the docstrings of dcv/props/*.py"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'C31': 'The fields traj_ (pointer), time_constant_, next_trajectory_waypoint_ and future-swap paths are accessed from several threads without a common lock in the current design, so the property is false here by construction and repairing it means redesigning the object; a permission-based proof (which is what contracts could give) has no valid specification to check. The lock discipline that does exist is decided by C26.',
 'C32': 'Accuracy and completeness of the Jenkins-Traub iteration are floating-point convergence statements; no contract within reach of an SMT-backed deductive verifier expresses or decides them. C03 and C09 use the root finder through an assumed contract.',
 'C33': 'The outcome depends on the external NLopt optimiser and its soft penalty weights; NLopt gives no contract strong enough, and the code itself only penalises violations. C14 decides that the problem handed to NLopt is the stated one.',
}
def main():
    checks, na = [], []
    for l in open(os.path.join(V, 'properties.jsonl')):
        p = json.loads(l)
        i = p['id']
        f = os.path.join(V, 'dcv/props/%s.py' % i.lower())
        if not os.path.exists(f):
            na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
            continue
        m = ast.parse(open(f).read())
        consts = {t.id: ast.literal_eval(s.value) for s in m.body if isinstance(s, ast.Assign) for t in s.targets if isinstance(t, ast.Name) and t.id in ('LEVEL', 'LEVEL_NOTE', 'TECHNIQUE')}
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': consts.get('TECHNIQUE', 'contract-based deductive verification of the compiled source (VC generation from the clang AST, discharged by z3/cvc5/polynomial normal form)'),
                       'level': consts.get('LEVEL', 'proof'),
                       'level_note': consts.get('LEVEL_NOTE', ast.get_docstring(m).split('\n')[0])})
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -m compileall -q dcv', 'checks': checks, 'not_applicable': na,
               'notes': 'check.py re-extracts the AST of /repo and recompiles the native contract harness on every run; no hooks in /repo are needed.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
main()
